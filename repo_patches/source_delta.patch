From 8ebf9931318769a11a1bef7505c4cd3e0829ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 01/28] fix: reject truncated and oversized length prefixes
 instead of panicking

DecodeVarInt indexed past short input, and the transaction, input and
output parsers trusted 64-bit lengths, so malformed bytes crashed them.
---
 transaction/Transaction.go   |  6 ++++++
 transaction/input/Input.go   |  3 +++
 transaction/output/Output.go |  3 +++
 utils/VarInt.go              | 14 ++++++++++++++
 4 files changed, 26 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index b7aa9f8..0453c67 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -76,6 +76,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 	offset += 4
 
 	inputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("too short to hold the number of inputs")
+	}
 	offset += size
 
 	// create inputs
@@ -92,6 +95,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 
 	// create outputs
 	outputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("too short to hold the number of outputs")
+	}
 	offset += size
 	for i = 0; i < outputCount; i++ {
 		o, size, err := output.NewFromBytes(b[offset:])
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 170ac29..0a31674 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -56,6 +56,9 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 
 	offset := 36
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 || l > uint64(len(bytes)) {
+		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
+	}
 	offset += size
 
 	totalLength := offset + int(l) + 4 // 4 bytes for nSeq
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index c41522b..a6f024b 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -39,6 +39,9 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 
 	offset := 8
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 || l > uint64(len(bytes)) {
+		return nil, 0, fmt.Errorf("output length too short < 8 + script")
+	}
 	offset += size
 
 	totalLength := offset + int(l)
diff --git a/utils/VarInt.go b/utils/VarInt.go
index 796aefd..29ba3db 100644
--- a/utils/VarInt.go
+++ b/utils/VarInt.go
@@ -27,18 +27,32 @@ func VarInt(i uint64) []byte {
 
 // DecodeVarInt takes a byte array in VarInt format and returns the
 // decoded unsigned integer value of the length and it's size in bytes.
+// The size is 0 if the array is too short to hold the whole VarInt.
 // See http://learnmeabitcoin.com/glossary/varint
 func DecodeVarInt(b []byte) (result uint64, size int) {
+	if len(b) == 0 {
+		return 0, 0
+	}
+
 	switch b[0] {
 	case 0xff:
+		if len(b) < 9 {
+			return 0, 0
+		}
 		result = binary.LittleEndian.Uint64(b[1:9])
 		size = 9
 
 	case 0xfe:
+		if len(b) < 5 {
+			return 0, 0
+		}
 		result = uint64(binary.LittleEndian.Uint32(b[1:5]))
 		size = 5
 
 	case 0xfd:
+		if len(b) < 3 {
+			return 0, 0
+		}
 		result = uint64(binary.LittleEndian.Uint16(b[1:3]))
 		size = 3
 
-- 
2.43.0


From 086a7037a481cc97c26e422cb2d1247ba6231598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 02/28] fix: do not overflow on long PUSHDATA2 and PUSHDATA4
 lengths when decoding scripts

---
 script/OpPushdata.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index f742f92..c74ffc6 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -102,7 +102,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 3 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint16(b[1:])
+			l := uint64(binary.LittleEndian.Uint16(b[1:]))
 			if len(b) < int(3+l) {
 				return r, errors.New("Not enough data")
 			}
@@ -114,8 +114,8 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 5 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint32(b[1:])
-			if len(b) < int(5+l) {
+			l := uint64(binary.LittleEndian.Uint32(b[1:]))
+			if uint64(len(b)) < 5+l {
 				return r, errors.New("Not enough data")
 			}
 			part := b[5 : 5+l]
-- 
2.43.0


From b28604b012e056c311c7dec1c1707ad37577bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 03/28] fix: script predicates no longer crash on short scripts
 or take pushed data for opcodes

---
 script/Script.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index 9504ad5..dd5a3e0 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -220,8 +220,10 @@ func (s *Script) IsP2PK() bool {
 		return false
 	}
 
+	ops := opCodeParts(*s, parts)
 	if len(parts) == 2 &&
 		len(parts[0]) > 0 &&
+		ops[1] &&
 		parts[1][0] == OpCHECKSIG {
 
 		pubkey := parts[0]
@@ -251,8 +253,8 @@ func (s *Script) IsP2SH() bool {
 func (s *Script) IsData() bool {
 	b := []byte(*s)
 
-	return b[0] == 0x6a ||
-		b[0] == 0x00 && b[1] == 0x6a
+	return len(b) > 0 && b[0] == 0x6a ||
+		len(b) > 1 && b[0] == 0x00 && b[1] == 0x6a
 }
 
 // IsMultisigOut returns true if this is a multisig output script.
@@ -266,20 +268,46 @@ func (s *Script) IsMultisigOut() bool {
 		return false
 	}
 
-	if isSmallIntOp(parts[0][0]) == false {
+	ops := opCodeParts(*s, parts)
+	if !ops[0] || isSmallIntOp(parts[0][0]) == false {
 		return false
 	}
 
 	for i := 1; i < len(parts)-2; i++ {
-		if len(parts[i]) < 1 {
+		if len(parts[i]) < 1 || ops[i] {
 			return false
 		}
 	}
 
-	return isSmallIntOp(parts[len(parts)-2][0]) &&
+	return ops[len(parts)-2] &&
+		isSmallIntOp(parts[len(parts)-2][0]) &&
+		ops[len(parts)-1] &&
 		parts[len(parts)-1][0] == OpCHECKMULTISIG
 }
 
+// opCodeParts tells which of the parts decoded from the script b
+// are opcodes. The others are pushed data.
+func opCodeParts(b []byte, parts [][]byte) []bool {
+	ops := make([]bool, len(parts))
+	for i, part := range parts {
+		n := len(part)
+		switch op := b[0]; {
+		case op == OpPUSHDATA1:
+			n += 2
+		case op == OpPUSHDATA2:
+			n += 3
+		case op == OpPUSHDATA4:
+			n += 5
+		case op >= OpDATA1 && op < OpPUSHDATA1:
+			n++
+		default:
+			ops[i] = true
+		}
+		b = b[n:]
+	}
+	return ops
+}
+
 func isSmallIntOp(opcode byte) bool {
 	return opcode == OpZERO || (opcode >= OpONE && opcode <= Op16)
 }
-- 
2.43.0


From 9cb683de62571e3e91b330969d8ce2cc47d40205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 04/28] fix: extract a public key hash from P2PKH scripts only

---
 script/Script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index dd5a3e0..a8760aa 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -318,7 +318,7 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, fmt.Errorf("Script is empty")
 	}
 
-	if (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
+	if !s.IsP2PKH() {
 		return nil, fmt.Errorf("Not a P2PKH")
 	}
 
-- 
2.43.0


From 4476ee28d97a2db42bbac10e9667cff23eea42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 05/28] fix: ASM shows pushed data as hex whatever its length
 and survives empty pushes and spare spaces

---
 script/Script.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index a8760aa..5be3602 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -30,7 +30,7 @@ func NewFromBytes(b []byte) *Script {
 
 // NewFromASM creates a new script from a BitCoin ASM formatted string.
 func NewFromASM(str string) (*Script, error) {
-	sections := strings.Split(str, " ")
+	sections := strings.Fields(str)
 
 	s := &Script{}
 
@@ -190,10 +190,14 @@ func (s *Script) ToASM() (string, error) {
 		return "", err
 	}
 
+	ops := opCodeParts(*s, parts)
+
 	var asmScript string
-	for _, p := range parts {
-		if len(p) == 1 {
+	for i, p := range parts {
+		if ops[i] {
 			asmScript = asmScript + " " + opCodeValues[p[0]]
+		} else if len(p) == 0 {
+			asmScript = asmScript + " " + opCodeValues[OpFALSE]
 		} else {
 			asmScript = asmScript + " " + hex.EncodeToString(p)
 		}
-- 
2.43.0


From cef3eea23b9375fb1fd42c867f1f086615a9e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 06/28] fix: refuse public key hashes that are not 20 bytes
 long

---
 script/Script.go          | 3 +++
 script/address/Address.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index 5be3602..2fb3f78 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -84,6 +84,9 @@ func NewP2PKHFromPubKeyHashStr(pubKeyHash string) (*Script, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("invalid public key hash length %d", len(hash))
+	}
 
 	b := []byte{
 		OpDUP,
diff --git a/script/address/Address.go b/script/address/Address.go
index 382544e..54c7cbc 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -70,6 +70,9 @@ func NewFromPublicKeyString(pubKey string, mainnet bool) (*Address, error) {
 // If mainnet parameter is true it will return a mainnet address (starting with a 1).
 // Otherwise (mainnet is false) it will return a testnet address (starting with an m or n).
 func NewFromPublicKeyHash(hash []byte, mainnet bool) (*Address, error) {
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("invalid public key hash length %d", len(hash))
+	}
 
 	// regtest := 111
 	// mainnet: 0
-- 
2.43.0


From 98d0b05a38f6b969662ab7e41f6365cbfaf53b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 07/28] fix: verify the checksum when parsing an address

---
 script/address/Address.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/address/Address.go b/script/address/Address.go
index 54c7cbc..02cf719 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -24,6 +24,9 @@ func NewFromString(addr string) (*Address, error) {
 	if err != nil {
 		return nil, err
 	}
+	if _, err := validA58([]byte(addr)); err != nil {
+		return nil, err
+	}
 	a := Address{
 		AddressString: addr,
 		PublicKeyHash: pkh,
-- 
2.43.0


From 37cb85117698e34f7eeb139531484d77f830a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 08/28] fix: do not accept addresses with missing or extra
 leading ones

---
 script/address/AddressValidation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/address/AddressValidation.go b/script/address/AddressValidation.go
index 6eafa36..806caad 100644
--- a/script/address/AddressValidation.go
+++ b/script/address/AddressValidation.go
@@ -79,5 +79,9 @@ func validA58(a58 []byte) (bool, error) {
 		return false, errors.New("checksum failed")
 	}
 
+	if Base58EncodeMissingChecksum(a[:21]) != string(a58) {
+		return false, errors.New("not in canonical form")
+	}
+
 	return true, nil
 }
-- 
2.43.0


From 8c52156cf0e91b1ea60a666c729b67dab92defd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 09/28] fix: decode BIP276 text without crashing, with hex
 fields in the order they are encoded

---
 script/address/BIP276.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index 0f1a24b..db1a137 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -53,19 +53,27 @@ func createBIP276(prefix string, network int, version int, data []byte) (string,
 // DecodeBIP276 is used to decode BIP276 formatted data into specific (non-standard) scripts.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func DecodeBIP276(text string) (prefix string, version int, network int, data []byte, err error) {
-	validBIP276 := regexp.MustCompile(`^(.+?):(\d{2})(\d{2})([0-9A-Fa-f]+)([0-9A-Fa-f]{8})$`)
+	validBIP276 := regexp.MustCompile(`(?s)^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)
 
 	res := validBIP276.FindStringSubmatch(text)
+	if res == nil {
+		err = errors.New("not in BIP276 format")
+		return
+	}
 
 	prefix = res[1]
 
-	if version, err = strconv.Atoi(res[2]); err != nil {
+	n, err := strconv.ParseUint(res[2], 16, 8)
+	if err != nil {
 		return
 	}
+	network = int(n)
 
-	if network, err = strconv.Atoi(res[3]); err != nil {
+	v, err := strconv.ParseUint(res[3], 16, 8)
+	if err != nil {
 		return
 	}
+	version = int(v)
 
 	if data, err = hex.DecodeString(res[4]); err != nil {
 		return
-- 
2.43.0


From 31ce3fa561fb1b3079a538c10b6c8694d530b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 10/28] fix: refuse to encode BIP276 text with a negative
 network or version

---
 script/address/BIP276.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index db1a137..8901232 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -34,7 +34,7 @@ const NetworkTestnet = 2
 // EncodeBIP276 is used to encode specific (non-standard) scripts in BIP276 format.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func EncodeBIP276(prefix string, network int, version int, data []byte) string {
-	if version == 0 || version > 255 || network == 0 || network > 255 {
+	if version <= 0 || version > 255 || network <= 0 || network > 255 {
 		return "ERROR"
 	}
 
-- 
2.43.0


From 4df1022a06df55c6a07d3406e9a6a4247eaecf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 11/28] fix: validate BIP276 addresses with the bitcoin-script
 prefix only

---
 script/address/AddressValidation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/script/address/AddressValidation.go b/script/address/AddressValidation.go
index 806caad..ecb2c81 100644
--- a/script/address/AddressValidation.go
+++ b/script/address/AddressValidation.go
@@ -53,11 +53,14 @@ func (a *a25) set58(s []byte) error {
 // Checks both mainnet and testnet.
 func ValidateAddress(address string) (bool, error) {
 	if strings.HasPrefix(address, "bitcoin-script:") {
-		_, _, _, _, err := DecodeBIP276(address)
+		prefix, _, _, _, err := DecodeBIP276(address)
 
 		if err != nil {
 			return false, fmt.Errorf("bitcoin-script invalid [%+v]", err)
 		}
+		if prefix != PrefixScript {
+			return false, fmt.Errorf("bitcoin-script invalid [prefix %q]", prefix)
+		}
 		return true, nil
 	}
 
-- 
2.43.0


From 940a92a9cc644a46475a06dd79bbf9531bc1caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 12/28] fix: refuse malformed Electrum redeem scripts instead
 of panicking

---
 script/RedeemScript.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 3af2278..c3f6def 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -2,6 +2,7 @@ package script
 
 import (
 	"encoding/binary"
+	"encoding/hex"
 	"errors"
 
 	"github.com/libsv/libsv/crypto"
@@ -38,15 +39,25 @@ func NewRedeemScript(signaturesRequired int) (*RedeemScript, error) {
 
 // NewRedeemScriptFromElectrum  TODO:
 func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
-	parts, err := DecodeStringParts(script)
+	b, err := hex.DecodeString(script)
 	if err != nil {
 		return nil, err
 	}
 
-	if len(parts) == 0 {
+	parts, err := DecodeParts(b)
+	if err != nil {
+		return nil, err
+	}
+
+	if len(parts) < 3 {
 		return nil, errors.New("There should be 5 parts in this redeemScript")
 	}
 
+	ops := opCodeParts(b, parts)
+	if !ops[0] || !ops[len(parts)-2] || !ops[len(parts)-1] {
+		return nil, errors.New("Script must start with the number of signatures and end with the number of keys and OP_CHECKMULTISIG")
+	}
+
 	signaturesRequired := int(parts[0][0] - OpBASE)
 	if signaturesRequired < 2 {
 		return nil, errors.New("Must have 2 or more required signatures for multisig")
@@ -66,7 +77,11 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 		SignaturesRequired: signaturesRequired,
 	}
 
-	for _, pubkey := range parts[1 : len(parts)-2] {
+	for i, pubkey := range parts[1 : len(parts)-2] {
+		if ops[i+1] || len(pubkey) != 83 { // 0xff, extended key and derivation path
+			return nil, errors.New("All Electrum pubkeys should be extended keys with a derivation path of exactly 2 items")
+		}
+
 		if pubkey[0] != 0xff {
 			return nil, errors.New("All Electrum pubkeys should start with 0xff")
 		}
-- 
2.43.0


From a7af34ade9cd4cac3d20b19c1c09c2152455f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 13/28] fix: refuse negative positions in merkle proofs

---
 block/GetMerkleBranches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/GetMerkleBranches.go b/block/GetMerkleBranches.go
index a92da53..8892d2a 100644
--- a/block/GetMerkleBranches.go
+++ b/block/GetMerkleBranches.go
@@ -85,7 +85,7 @@ func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (stri
 		txIndex >>= 1
 	}
 
-	if txIndex > 0 {
+	if txIndex != 0 {
 		return "", fmt.Errorf("index %d out of range for proof of length %d", txIndex, len(branches))
 	}
 
-- 
2.43.0


From 20715f61014fc76475f1acecde494dcf29c4f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 14/28] fix: expanding a target reports bits and targets of the
 wrong size instead of panicking

---
 block/Difficulty.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 41f5137..7c6628b 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -3,6 +3,7 @@ package block
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"errors"
 	"log"
 	"math"
 	"math/big"
@@ -44,6 +45,9 @@ func ExpandTargetFrom(bits string) (string, error) {
 
 	dst := make([]byte, 32)
 	b := bn.Bytes()
+	if len(b) > len(dst) {
+		return "", errors.New("target does not fit in 256 bits")
+	}
 
 	copy(dst[32-len(b):], b)
 	return hex.EncodeToString(dst), nil
@@ -55,6 +59,9 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(binaryBits) != 4 {
+		return nil, errors.New("bits must be 4 bytes long")
+	}
 	compact := binary.BigEndian.Uint32(binaryBits)
 
 	// Extract the mantissa, sign bit, and exponent.
-- 
2.43.0


From 57d743a8976198792da4efd4c7c69f9bc39e76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 15/28] fix: difficulty of bits with exponents below 3, and an
 error for malformed bits

---
 block/Difficulty.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 7c6628b..7c83655 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -104,16 +104,11 @@ func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float
 
 // DifficultyFromBits returns the mining difficulty from the nBits field in the block header.
 func DifficultyFromBits(bits string) (float64, error) {
-	b, _ := hex.DecodeString(bits)
-	ib := binary.BigEndian.Uint32(b)
-	return targetToDifficulty(toCompactSize(ib))
-}
-
-func toCompactSize(bits uint32) *big.Int {
-	t := big.NewInt(int64(bits % 0x01000000))
-	t.Mul(t, big.NewInt(2).Exp(big.NewInt(2), big.NewInt(8*(int64(bits/0x01000000)-3)), nil))
-
-	return t
+	target, err := ExpandTargetFromAsInt(bits)
+	if err != nil {
+		return 0.0, err
+	}
+	return targetToDifficulty(target)
 }
 
 func targetToDifficulty(target *big.Int) (float64, error) {
-- 
2.43.0


From 2111871604b862479a24cf90672cda442814058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 16/28] fix: Decrypt no longer overwrites the ciphertext it is
 given

---
 crypto/Encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/Encryption.go b/crypto/Encryption.go
index 11b1049..7c04c13 100644
--- a/crypto/Encryption.go
+++ b/crypto/Encryption.go
@@ -29,8 +29,8 @@ func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
 	}
 	iv := ciphertext[:aes.BlockSize]
 	cfb := cipher.NewCFBDecrypter(ciph, iv)
-	text := ciphertext[aes.BlockSize:]
-	cfb.XORKeyStream(text, text)
+	text := make([]byte, len(ciphertext)-aes.BlockSize)
+	cfb.XORKeyStream(text, ciphertext[aes.BlockSize:])
 	data, err := base64.StdEncoding.DecodeString(string(text))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9a2490632797509a1e0be3c84f0d5bb10cdbf5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 17/28] fix: Decode32Byte refuses anything but 32 bytes

---
 utils/ByteManipulation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/ByteManipulation.go b/utils/ByteManipulation.go
index a27fba2..d2a96ba 100644
--- a/utils/ByteManipulation.go
+++ b/utils/ByteManipulation.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"sort"
 )
@@ -97,6 +98,10 @@ func Decode32Byte(hexStr string) ([32]byte, error) {
 		return b32, err
 	}
 
+	if len(b) != 32 {
+		return b32, fmt.Errorf("expected 32 bytes, got %d", len(b))
+	}
+
 	copy(b32[:], b[0:32])
 
 	return b32, nil
-- 
2.43.0


From 936a8f8c7564709e24d60f6b624577c25254f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 18/28] fix: parsed scripts no longer share memory with the
 bytes they come from

---
 transaction/input/Input.go   | 4 +++-
 transaction/output/Output.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 0a31674..b951e95 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -67,7 +67,9 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
 	}
 
-	i.UnlockingScript = script.NewFromBytes(bytes[offset : offset+int(l)])
+	// a copy: the script must not share memory with the bytes it is parsed from
+	b := append([]byte{}, bytes[offset:offset+int(l)]...)
+	i.UnlockingScript = script.NewFromBytes(b)
 
 	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])
 
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index a6f024b..bc8f18a 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -50,7 +50,8 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 		return nil, 0, fmt.Errorf("output length too short < 8 + script")
 	}
 
-	s := script.Script(bytes[offset:totalLength])
+	// a copy: the script must not share memory with the bytes it is parsed from
+	s := append(script.Script{}, bytes[offset:totalLength]...)
 	o.LockingScript = &s
 
 	return &o, totalLength, nil
-- 
2.43.0


From 5eb90ce4b52b257e3d9f1630ece47863403434c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 19/28] fix: keep the outpoint and sequence of the chosen input
 when clearing inputs

---
 transaction/Transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 0453c67..72a4a65 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -245,8 +245,11 @@ func (bt *Transaction) toBytesHelper(index int, scriptPubKey []byte) []byte {
 	for i, in := range bt.GetInputs() {
 		s := in.ToBytes(scriptPubKey != nil)
 		if i == index && scriptPubKey != nil {
+			// s ends with the empty script (1 byte) and the sequence (4 bytes)
+			h = append(h, s[:len(s)-5]...)
 			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
 			h = append(h, scriptPubKey...)
+			h = append(h, s[len(s)-4:]...)
 		} else {
 			h = append(h, s...)
 		}
-- 
2.43.0


From 102bc03bcc775ffb241043429c8f610de007ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 20/28] fix: report an input index out of range instead of
 panicking

---
 transaction/SignatureHash.go | 4 ++++
 transaction/Transaction.go   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/transaction/SignatureHash.go b/transaction/SignatureHash.go
index 1be5d06..8245528 100644
--- a/transaction/SignatureHash.go
+++ b/transaction/SignatureHash.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/libsv/libsv/crypto"
 	"github.com/libsv/libsv/transaction/signature/sighash"
@@ -15,6 +16,9 @@ import (
 // GetInputSignatureHash serializes the transaction based on the input index and the SIGHASH flag
 // see https://github.com/bitcoin-sv/bitcoin-sv/blob/master/doc/abc/replay-protected-sighash.md#digest-algorithm
 func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sighash.Flag) ([]byte, error) {
+	if uint64(inputNumber) >= uint64(len(bt.Inputs)) {
+		return nil, fmt.Errorf("no input at index %d", inputNumber)
+	}
 	in := bt.Inputs[inputNumber]
 
 	if in.PreviousTxID == "" {
diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 72a4a65..f6f54b5 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -297,7 +297,7 @@ func (bt *Transaction) SignAuto(s Signer) error {
 // ApplyUnlockingScript applies a script to the transaction at a specific index in
 // unlocking script field.
 func (bt *Transaction) ApplyUnlockingScript(index uint32, s *script.Script) error {
-	if bt.Inputs[index] != nil {
+	if uint64(index) < uint64(len(bt.Inputs)) && bt.Inputs[index] != nil {
 		bt.Inputs[index].UnlockingScript = s
 		return nil
 	}
-- 
2.43.0


From 7e57f8aa1dceef3053375ca88694ee566c1fa396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 21/28] fix: print inputs that have no unlocking script yet

---
 transaction/input/Input.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index b951e95..8a421d6 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -95,12 +95,17 @@ func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxS
 }
 
 func (i *Input) String() string {
+	var s script.Script // inputs made from a UTXO have no unlocking script yet
+	if i.UnlockingScript != nil {
+		s = *i.UnlockingScript
+	}
+
 	return fmt.Sprintf(`prevTxHash:   %x
 prevOutIndex: %d
 scriptLen:    %d
 script:       %x
 sequence:     %x
-`, i.PreviousTxID, i.PreviousTxOutIndex, len(*i.UnlockingScript), i.UnlockingScript, i.SequenceNumber)
+`, i.PreviousTxID, i.PreviousTxOutIndex, len(s), &s, i.SequenceNumber)
 }
 
 // ToBytes encodes the Input into a hex byte array.
-- 
2.43.0


From 8315b69d6db48d9d52586fdd80861cd83c2551e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 22/28] fix: do not overwrite memory behind the coinbase hash
 when building a merkle root

---
 block/BuildMerkleRootFromCoinbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index 6194581..eb21942 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -9,7 +9,8 @@ import (
 // BuildMerkleRootFromCoinbase builds the merkle root of the block from the coinbase transaction hash (txid)
 // and the merkle branches needed to work up the merkle tree and returns the merkle root byte array.
 func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) []byte {
-	acc := coinbaseHash
+	// a copy: appending must not write into the caller's memory behind coinbaseHash
+	acc := append([]byte{}, coinbaseHash...)
 
 	for i := 0; i < len(merkleBranches); i++ {
 		branch, _ := hex.DecodeString(merkleBranches[i])
-- 
2.43.0


From 1dc18559d0097b730c6566459b4edb9196af6a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 23/28] fix: DifficultyToHashrate crashed on an empty ticker

---
 block/Difficulty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 7c83655..92b671c 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"math/big"
 	"strconv"
+	"strings"
 )
 
 var (
@@ -95,7 +96,7 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 // and computes the estimated hashrate on that specific coin (or chain).
 func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float64 {
 	genesis := genesisDiff
-	if coin[0] == 'R' {
+	if strings.HasPrefix(coin, "R") {
 		genesis = regDiff
 	}
 
-- 
2.43.0


From 5e77b2197a63268e06fd42666c47126e173e91a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 24/28] fix: printing an output that has no locking script
 crashed

---
 transaction/output/Output.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index bc8f18a..947f743 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -158,10 +158,15 @@ func (o *Output) GetLockingScriptHexString() string {
 }
 
 func (o *Output) String() string {
+	var s script.Script // an output may have no locking script yet
+	if o.LockingScript != nil {
+		s = *o.LockingScript
+	}
+
 	return fmt.Sprintf(`value:     %d
 scriptLen: %d
 script:    %x
-`, o.Satoshis, len(*o.LockingScript), o.LockingScript)
+`, o.Satoshis, len(s), &s)
 }
 
 // ToBytes encodes the Output into a byte array.
-- 
2.43.0


From 29268f06ed5dce72b58698b5a60aee57c974a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:53 +0000
Subject: [PATCH 25/28] fix: rendering a large script as ASM took quadratic
 time

---
 script/Script.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index 2fb3f78..00fd6de 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -195,18 +195,19 @@ func (s *Script) ToASM() (string, error) {
 
 	ops := opCodeParts(*s, parts)
 
-	var asmScript string
+	// collected first: adding to a string again and again takes quadratic time
+	words := make([]string, len(parts))
 	for i, p := range parts {
 		if ops[i] {
-			asmScript = asmScript + " " + opCodeValues[p[0]]
+			words[i] = opCodeValues[p[0]]
 		} else if len(p) == 0 {
-			asmScript = asmScript + " " + opCodeValues[OpFALSE]
+			words[i] = opCodeValues[OpFALSE]
 		} else {
-			asmScript = asmScript + " " + hex.EncodeToString(p)
+			words[i] = hex.EncodeToString(p)
 		}
 	}
 
-	return strings.TrimSpace(asmScript), nil
+	return strings.TrimSpace(strings.Join(words, " ")), nil
 }
 
 // IsP2PKH returns true if this is a pay to pubkey hash output script.
-- 
2.43.0


From 1cb68f93ff316062805dbf5c3fd639e8bec3c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:55 +0000
Subject: [PATCH 26/28] fix: parsing an overlong address took quadratic time

---
 script/address/Address.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/script/address/Address.go b/script/address/Address.go
index 02cf719..250ddc8 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -35,6 +35,11 @@ func NewFromString(addr string) (*Address, error) {
 }
 
 func addressToPubKeyHashStr(address string) (string, error) {
+	// 25 bytes have at most 35 digits; decoding takes quadratic time
+	if len(address) > 35 {
+		return "", fmt.Errorf("invalid address length for '%s'", address)
+	}
+
 	decoded := base58.Decode(address)
 
 	if len(decoded) != 25 {
-- 
2.43.0


From a416881996172b8603a5181f8b8a4f22f4c34aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 27/28] fix: parsing an overlong extended key took quadratic
 time

---
 script/RedeemScript.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index c3f6def..a7780e2 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -138,6 +138,11 @@ func (rs *RedeemScript) AddPublicKey(pkey string, derivationPath []uint32) error
 		return errors.New("We only support derivation paths with exactly 2 levels") // TODO: why only 2?
 	}
 
+	// an extended key has at most 112 digits; decoding takes quadratic time
+	if len(pkey) > 112 {
+		return errors.New("The public key is too long for an extended key")
+	}
+
 	pk, err := hdkeychain.NewKeyFromString(pkey)
 	if err != nil {
 		return err
-- 
2.43.0


From 6498da7108e2c254f4cee39fe5ecf8f470ccaddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:17 +0000
Subject: [PATCH 28/28] fix: appending to an element decoded from a script
 overwrote what follows it

---
 script/OpPushdata.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index c74ffc6..12a5fb4 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -83,6 +83,7 @@ func DecodeStringParts(s string) ([][]byte, error) {
 // pushed to the stack).
 func DecodeParts(b []byte) ([][]byte, error) {
 	var r [][]byte
+	// parts have no spare capacity: appending to one must not write into the next
 	for len(b) > 0 {
 		// Handle OP codes
 		switch b[0] {
@@ -94,7 +95,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < int(2+l) {
 				return r, errors.New("Not enough data")
 			}
-			part := b[2 : 2+l]
+			part := b[2 : 2+l : 2+l]
 			r = append(r, part)
 			b = b[2+l:]
 
@@ -106,7 +107,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < int(3+l) {
 				return r, errors.New("Not enough data")
 			}
-			part := b[3 : 3+l]
+			part := b[3 : 3+l : 3+l]
 			r = append(r, part)
 			b = b[3+l:]
 
@@ -118,7 +119,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if uint64(len(b)) < 5+l {
 				return r, errors.New("Not enough data")
 			}
-			part := b[5 : 5+l]
+			part := b[5 : 5+l : 5+l]
 			r = append(r, part)
 			b = b[5+l:]
 
@@ -128,7 +129,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 				if len(b) < int(1+l) {
 					return r, errors.New("Not enough data")
 				}
-				part := b[1 : l+1]
+				part := b[1 : l+1 : l+1]
 				r = append(r, part)
 				b = b[1+l:]
 			} else {
-- 
2.43.0

