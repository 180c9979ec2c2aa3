package props

import "github.com/libsv/libsv/script"

// opcode is one name of Bitcoin's opcode table (bsvd's txscript.OpcodeByName
// plus the aliases OP_ZERO, OP_ONE and OP_BASE) and the library's constant.
type opcode struct {
	Name  string
	Value byte
	Const byte
}

var opcodes = []opcode{
	{"OP_0", 0x00, script.Op0},
	{"OP_FALSE", 0x00, script.OpFALSE},
	{"OP_ZERO", 0x00, script.OpZERO},
	{"OP_DATA_1", 0x01, script.OpDATA1},
	{"OP_DATA_2", 0x02, script.OpDATA2},
	{"OP_DATA_3", 0x03, script.OpDATA3},
	{"OP_DATA_4", 0x04, script.OpDATA4},
	{"OP_DATA_5", 0x05, script.OpDATA5},
	{"OP_DATA_6", 0x06, script.OpDATA6},
	{"OP_DATA_7", 0x07, script.OpDATA7},
	{"OP_DATA_8", 0x08, script.OpDATA8},
	{"OP_DATA_9", 0x09, script.OpDATA9},
	{"OP_DATA_10", 0x0a, script.OpDATA10},
	{"OP_DATA_11", 0x0b, script.OpDATA11},
	{"OP_DATA_12", 0x0c, script.OpDATA12},
	{"OP_DATA_13", 0x0d, script.OpDATA13},
	{"OP_DATA_14", 0x0e, script.OpDATA14},
	{"OP_DATA_15", 0x0f, script.OpDATA15},
	{"OP_DATA_16", 0x10, script.OpDATA16},
	{"OP_DATA_17", 0x11, script.OpDATA17},
	{"OP_DATA_18", 0x12, script.OpDATA18},
	{"OP_DATA_19", 0x13, script.OpDATA19},
	{"OP_DATA_20", 0x14, script.OpDATA20},
	{"OP_DATA_21", 0x15, script.OpDATA21},
	{"OP_DATA_22", 0x16, script.OpDATA22},
	{"OP_DATA_23", 0x17, script.OpDATA23},
	{"OP_DATA_24", 0x18, script.OpDATA24},
	{"OP_DATA_25", 0x19, script.OpDATA25},
	{"OP_DATA_26", 0x1a, script.OpDATA26},
	{"OP_DATA_27", 0x1b, script.OpDATA27},
	{"OP_DATA_28", 0x1c, script.OpDATA28},
	{"OP_DATA_29", 0x1d, script.OpDATA29},
	{"OP_DATA_30", 0x1e, script.OpDATA30},
	{"OP_DATA_31", 0x1f, script.OpDATA31},
	{"OP_DATA_32", 0x20, script.OpDATA32},
	{"OP_DATA_33", 0x21, script.OpDATA33},
	{"OP_DATA_34", 0x22, script.OpDATA34},
	{"OP_DATA_35", 0x23, script.OpDATA35},
	{"OP_DATA_36", 0x24, script.OpDATA36},
	{"OP_DATA_37", 0x25, script.OpDATA37},
	{"OP_DATA_38", 0x26, script.OpDATA38},
	{"OP_DATA_39", 0x27, script.OpDATA39},
	{"OP_DATA_40", 0x28, script.OpDATA40},
	{"OP_DATA_41", 0x29, script.OpDATA41},
	{"OP_DATA_42", 0x2a, script.OpDATA42},
	{"OP_DATA_43", 0x2b, script.OpDATA43},
	{"OP_DATA_44", 0x2c, script.OpDATA44},
	{"OP_DATA_45", 0x2d, script.OpDATA45},
	{"OP_DATA_46", 0x2e, script.OpDATA46},
	{"OP_DATA_47", 0x2f, script.OpDATA47},
	{"OP_DATA_48", 0x30, script.OpDATA48},
	{"OP_DATA_49", 0x31, script.OpDATA49},
	{"OP_DATA_50", 0x32, script.OpDATA50},
	{"OP_DATA_51", 0x33, script.OpDATA51},
	{"OP_DATA_52", 0x34, script.OpDATA52},
	{"OP_DATA_53", 0x35, script.OpDATA53},
	{"OP_DATA_54", 0x36, script.OpDATA54},
	{"OP_DATA_55", 0x37, script.OpDATA55},
	{"OP_DATA_56", 0x38, script.OpDATA56},
	{"OP_DATA_57", 0x39, script.OpDATA57},
	{"OP_DATA_58", 0x3a, script.OpDATA58},
	{"OP_DATA_59", 0x3b, script.OpDATA59},
	{"OP_DATA_60", 0x3c, script.OpDATA60},
	{"OP_DATA_61", 0x3d, script.OpDATA61},
	{"OP_DATA_62", 0x3e, script.OpDATA62},
	{"OP_DATA_63", 0x3f, script.OpDATA63},
	{"OP_DATA_64", 0x40, script.OpDATA64},
	{"OP_DATA_65", 0x41, script.OpDATA65},
	{"OP_DATA_66", 0x42, script.OpDATA66},
	{"OP_DATA_67", 0x43, script.OpDATA67},
	{"OP_DATA_68", 0x44, script.OpDATA68},
	{"OP_DATA_69", 0x45, script.OpDATA69},
	{"OP_DATA_70", 0x46, script.OpDATA70},
	{"OP_DATA_71", 0x47, script.OpDATA71},
	{"OP_DATA_72", 0x48, script.OpDATA72},
	{"OP_DATA_73", 0x49, script.OpDATA73},
	{"OP_DATA_74", 0x4a, script.OpDATA74},
	{"OP_DATA_75", 0x4b, script.OpDATA75},
	{"OP_PUSHDATA1", 0x4c, script.OpPUSHDATA1},
	{"OP_PUSHDATA2", 0x4d, script.OpPUSHDATA2},
	{"OP_PUSHDATA4", 0x4e, script.OpPUSHDATA4},
	{"OP_1NEGATE", 0x4f, script.Op1NEGATE},
	{"OP_BASE", 0x50, script.OpBASE},
	{"OP_RESERVED", 0x50, script.OpRESERVED},
	{"OP_1", 0x51, script.Op1},
	{"OP_ONE", 0x51, script.OpONE},
	{"OP_TRUE", 0x51, script.OpTRUE},
	{"OP_2", 0x52, script.Op2},
	{"OP_3", 0x53, script.Op3},
	{"OP_4", 0x54, script.Op4},
	{"OP_5", 0x55, script.Op5},
	{"OP_6", 0x56, script.Op6},
	{"OP_7", 0x57, script.Op7},
	{"OP_8", 0x58, script.Op8},
	{"OP_9", 0x59, script.Op9},
	{"OP_10", 0x5a, script.Op10},
	{"OP_11", 0x5b, script.Op11},
	{"OP_12", 0x5c, script.Op12},
	{"OP_13", 0x5d, script.Op13},
	{"OP_14", 0x5e, script.Op14},
	{"OP_15", 0x5f, script.Op15},
	{"OP_16", 0x60, script.Op16},
	{"OP_NOP", 0x61, script.OpNOP},
	{"OP_VER", 0x62, script.OpVER},
	{"OP_IF", 0x63, script.OpIF},
	{"OP_NOTIF", 0x64, script.OpNOTIF},
	{"OP_VERIF", 0x65, script.OpVERIF},
	{"OP_VERNOTIF", 0x66, script.OpVERNOTIF},
	{"OP_ELSE", 0x67, script.OpELSE},
	{"OP_ENDIF", 0x68, script.OpENDIF},
	{"OP_VERIFY", 0x69, script.OpVERIFY},
	{"OP_RETURN", 0x6a, script.OpRETURN},
	{"OP_TOALTSTACK", 0x6b, script.OpTOALTSTACK},
	{"OP_FROMALTSTACK", 0x6c, script.OpFROMALTSTACK},
	{"OP_2DROP", 0x6d, script.Op2DROP},
	{"OP_2DUP", 0x6e, script.Op2DUP},
	{"OP_3DUP", 0x6f, script.Op3DUP},
	{"OP_2OVER", 0x70, script.Op2OVER},
	{"OP_2ROT", 0x71, script.Op2ROT},
	{"OP_2SWAP", 0x72, script.Op2SWAP},
	{"OP_IFDUP", 0x73, script.OpIFDUP},
	{"OP_DEPTH", 0x74, script.OpDEPTH},
	{"OP_DROP", 0x75, script.OpDROP},
	{"OP_DUP", 0x76, script.OpDUP},
	{"OP_NIP", 0x77, script.OpNIP},
	{"OP_OVER", 0x78, script.OpOVER},
	{"OP_PICK", 0x79, script.OpPICK},
	{"OP_ROLL", 0x7a, script.OpROLL},
	{"OP_ROT", 0x7b, script.OpROT},
	{"OP_SWAP", 0x7c, script.OpSWAP},
	{"OP_TUCK", 0x7d, script.OpTUCK},
	{"OP_CAT", 0x7e, script.OpCAT},
	{"OP_SPLIT", 0x7f, script.OpSPLIT},
	{"OP_NUM2BIN", 0x80, script.OpNUM2BIN},
	{"OP_BIN2NUM", 0x81, script.OpBIN2NUM},
	{"OP_SIZE", 0x82, script.OpSIZE},
	{"OP_INVERT", 0x83, script.OpINVERT},
	{"OP_AND", 0x84, script.OpAND},
	{"OP_OR", 0x85, script.OpOR},
	{"OP_XOR", 0x86, script.OpXOR},
	{"OP_EQUAL", 0x87, script.OpEQUAL},
	{"OP_EQUALVERIFY", 0x88, script.OpEQUALVERIFY},
	{"OP_RESERVED1", 0x89, script.OpRESERVED1},
	{"OP_RESERVED2", 0x8a, script.OpRESERVED2},
	{"OP_1ADD", 0x8b, script.Op1ADD},
	{"OP_1SUB", 0x8c, script.Op1SUB},
	{"OP_2MUL", 0x8d, script.Op2MUL},
	{"OP_2DIV", 0x8e, script.Op2DIV},
	{"OP_NEGATE", 0x8f, script.OpNEGATE},
	{"OP_ABS", 0x90, script.OpABS},
	{"OP_NOT", 0x91, script.OpNOT},
	{"OP_0NOTEQUAL", 0x92, script.Op0NOTEQUAL},
	{"OP_ADD", 0x93, script.OpADD},
	{"OP_SUB", 0x94, script.OpSUB},
	{"OP_MUL", 0x95, script.OpMUL},
	{"OP_DIV", 0x96, script.OpDIV},
	{"OP_MOD", 0x97, script.OpMOD},
	{"OP_LSHIFT", 0x98, script.OpLSHIFT},
	{"OP_RSHIFT", 0x99, script.OpRSHIFT},
	{"OP_BOOLAND", 0x9a, script.OpBOOLAND},
	{"OP_BOOLOR", 0x9b, script.OpBOOLOR},
	{"OP_NUMEQUAL", 0x9c, script.OpNUMEQUAL},
	{"OP_NUMEQUALVERIFY", 0x9d, script.OpNUMEQUALVERIFY},
	{"OP_NUMNOTEQUAL", 0x9e, script.OpNUMNOTEQUAL},
	{"OP_LESSTHAN", 0x9f, script.OpLESSTHAN},
	{"OP_GREATERTHAN", 0xa0, script.OpGREATERTHAN},
	{"OP_LESSTHANOREQUAL", 0xa1, script.OpLESSTHANOREQUAL},
	{"OP_GREATERTHANOREQUAL", 0xa2, script.OpGREATERTHANOREQUAL},
	{"OP_MIN", 0xa3, script.OpMIN},
	{"OP_MAX", 0xa4, script.OpMAX},
	{"OP_WITHIN", 0xa5, script.OpWITHIN},
	{"OP_RIPEMD160", 0xa6, script.OpRIPEMD160},
	{"OP_SHA1", 0xa7, script.OpSHA1},
	{"OP_SHA256", 0xa8, script.OpSHA256},
	{"OP_HASH160", 0xa9, script.OpHASH160},
	{"OP_HASH256", 0xaa, script.OpHASH256},
	{"OP_CODESEPARATOR", 0xab, script.OpCODESEPARATOR},
	{"OP_CHECKSIG", 0xac, script.OpCHECKSIG},
	{"OP_CHECKSIGVERIFY", 0xad, script.OpCHECKSIGVERIFY},
	{"OP_CHECKMULTISIG", 0xae, script.OpCHECKMULTISIG},
	{"OP_CHECKMULTISIGVERIFY", 0xaf, script.OpCHECKMULTISIGVERIFY},
	{"OP_NOP1", 0xb0, script.OpNOP1},
	{"OP_NOP2", 0xb1, script.OpNOP2},
	{"OP_NOP3", 0xb2, script.OpNOP3},
	{"OP_NOP4", 0xb3, script.OpNOP4},
	{"OP_NOP5", 0xb4, script.OpNOP5},
	{"OP_NOP6", 0xb5, script.OpNOP6},
	{"OP_NOP7", 0xb6, script.OpNOP7},
	{"OP_NOP8", 0xb7, script.OpNOP8},
	{"OP_NOP9", 0xb8, script.OpNOP9},
	{"OP_NOP10", 0xb9, script.OpNOP10},
	{"OP_UNKNOWN186", 0xba, script.OpUNKNOWN186},
	{"OP_UNKNOWN187", 0xbb, script.OpUNKNOWN187},
	{"OP_UNKNOWN188", 0xbc, script.OpUNKNOWN188},
	{"OP_UNKNOWN189", 0xbd, script.OpUNKNOWN189},
	{"OP_UNKNOWN190", 0xbe, script.OpUNKNOWN190},
	{"OP_UNKNOWN191", 0xbf, script.OpUNKNOWN191},
	{"OP_UNKNOWN192", 0xc0, script.OpUNKNOWN192},
	{"OP_UNKNOWN193", 0xc1, script.OpUNKNOWN193},
	{"OP_UNKNOWN194", 0xc2, script.OpUNKNOWN194},
	{"OP_UNKNOWN195", 0xc3, script.OpUNKNOWN195},
	{"OP_UNKNOWN196", 0xc4, script.OpUNKNOWN196},
	{"OP_UNKNOWN197", 0xc5, script.OpUNKNOWN197},
	{"OP_UNKNOWN198", 0xc6, script.OpUNKNOWN198},
	{"OP_UNKNOWN199", 0xc7, script.OpUNKNOWN199},
	{"OP_UNKNOWN200", 0xc8, script.OpUNKNOWN200},
	{"OP_UNKNOWN201", 0xc9, script.OpUNKNOWN201},
	{"OP_UNKNOWN202", 0xca, script.OpUNKNOWN202},
	{"OP_UNKNOWN203", 0xcb, script.OpUNKNOWN203},
	{"OP_UNKNOWN204", 0xcc, script.OpUNKNOWN204},
	{"OP_UNKNOWN205", 0xcd, script.OpUNKNOWN205},
	{"OP_UNKNOWN206", 0xce, script.OpUNKNOWN206},
	{"OP_UNKNOWN207", 0xcf, script.OpUNKNOWN207},
	{"OP_UNKNOWN208", 0xd0, script.OpUNKNOWN208},
	{"OP_UNKNOWN209", 0xd1, script.OpUNKNOWN209},
	{"OP_UNKNOWN210", 0xd2, script.OpUNKNOWN210},
	{"OP_UNKNOWN211", 0xd3, script.OpUNKNOWN211},
	{"OP_UNKNOWN212", 0xd4, script.OpUNKNOWN212},
	{"OP_UNKNOWN213", 0xd5, script.OpUNKNOWN213},
	{"OP_UNKNOWN214", 0xd6, script.OpUNKNOWN214},
	{"OP_UNKNOWN215", 0xd7, script.OpUNKNOWN215},
	{"OP_UNKNOWN216", 0xd8, script.OpUNKNOWN216},
	{"OP_UNKNOWN217", 0xd9, script.OpUNKNOWN217},
	{"OP_UNKNOWN218", 0xda, script.OpUNKNOWN218},
	{"OP_UNKNOWN219", 0xdb, script.OpUNKNOWN219},
	{"OP_UNKNOWN220", 0xdc, script.OpUNKNOWN220},
	{"OP_UNKNOWN221", 0xdd, script.OpUNKNOWN221},
	{"OP_UNKNOWN222", 0xde, script.OpUNKNOWN222},
	{"OP_UNKNOWN223", 0xdf, script.OpUNKNOWN223},
	{"OP_UNKNOWN224", 0xe0, script.OpUNKNOWN224},
	{"OP_UNKNOWN225", 0xe1, script.OpUNKNOWN225},
	{"OP_UNKNOWN226", 0xe2, script.OpUNKNOWN226},
	{"OP_UNKNOWN227", 0xe3, script.OpUNKNOWN227},
	{"OP_UNKNOWN228", 0xe4, script.OpUNKNOWN228},
	{"OP_UNKNOWN229", 0xe5, script.OpUNKNOWN229},
	{"OP_UNKNOWN230", 0xe6, script.OpUNKNOWN230},
	{"OP_UNKNOWN231", 0xe7, script.OpUNKNOWN231},
	{"OP_UNKNOWN232", 0xe8, script.OpUNKNOWN232},
	{"OP_UNKNOWN233", 0xe9, script.OpUNKNOWN233},
	{"OP_UNKNOWN234", 0xea, script.OpUNKNOWN234},
	{"OP_UNKNOWN235", 0xeb, script.OpUNKNOWN235},
	{"OP_UNKNOWN236", 0xec, script.OpUNKNOWN236},
	{"OP_UNKNOWN237", 0xed, script.OpUNKNOWN237},
	{"OP_UNKNOWN238", 0xee, script.OpUNKNOWN238},
	{"OP_UNKNOWN239", 0xef, script.OpUNKNOWN239},
	{"OP_UNKNOWN240", 0xf0, script.OpUNKNOWN240},
	{"OP_UNKNOWN241", 0xf1, script.OpUNKNOWN241},
	{"OP_UNKNOWN242", 0xf2, script.OpUNKNOWN242},
	{"OP_UNKNOWN243", 0xf3, script.OpUNKNOWN243},
	{"OP_UNKNOWN244", 0xf4, script.OpUNKNOWN244},
	{"OP_UNKNOWN245", 0xf5, script.OpUNKNOWN245},
	{"OP_UNKNOWN246", 0xf6, script.OpUNKNOWN246},
	{"OP_UNKNOWN247", 0xf7, script.OpUNKNOWN247},
	{"OP_UNKNOWN248", 0xf8, script.OpUNKNOWN248},
	{"OP_UNKNOWN249", 0xf9, script.OpUNKNOWN249},
	{"OP_SMALLINTEGER", 0xfa, script.OpSMALLINTEGER},
	{"OP_PUBKEYS", 0xfb, script.OpPUBKEYS},
	{"OP_UNKNOWN252", 0xfc, script.OpUNKNOWN252},
	{"OP_PUBKEYHASH", 0xfd, script.OpPUBKEYHASH},
	{"OP_PUBKEY", 0xfe, script.OpPUBKEY},
	{"OP_INVALIDOPCODE", 0xff, script.OpINVALIDOPCODE},
}
