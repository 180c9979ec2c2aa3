package g

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// The dictionary: integer and string literals of the code under test. They
// feed the generators (as lengths, values and texts, with their neighbours),
// so that a constant the code compares with is reached. They never decide a
// verdict.

var dict struct {
	once  sync.Once
	small []int    // 0..255
	large []uint64 // above 255
	lens  []int    // 1..4096 and neighbours, as lengths
	strs  []string
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadDict() {
	ints := map[uint64]bool{}
	strs := map[string]bool{}
	var files []*ast.File
	_ = filepath.Walk(repoDir(), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "vendor" || n == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || fi.Name() == "Opcodes.go" {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err == nil {
			files = append(files, f)
		}
		return nil
	})
	names := map[string]constant.Value{}
	for k, v := range knownConsts {
		names[k] = constant.MakeFromLiteral(v, token.INT, 0)
	}
	for round := 0; round < 3; round++ { // constants may use one another
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				if s, ok := n.(*ast.ValueSpec); ok {
					for i, id := range s.Names {
						if i < len(s.Values) {
							if v := evalConst(s.Values[i], names); v != nil {
								names[id.Name] = v
							}
						}
					}
				}
				return true
			})
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			x, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			v := evalConst(x, names)
			if v == nil {
				return true
			}
			switch v.Kind() {
			case constant.Int, constant.Float:
				if i := constant.ToInt(v); i.Kind() == constant.Int {
					if u, exact := constant.Uint64Val(i); exact {
						ints[u] = true
					} else if s, exact := constant.Int64Val(i); exact {
						ints[uint64(s)] = true
						ints[uint64(-s)] = true
					}
				}
			case constant.String:
				if s := constant.StringVal(v); len(s) > 0 && len(s) <= 120 {
					strs[s] = true
				}
			}
			return true
		})
	}
	var vals []uint64
	for v := range ints {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	lens := map[int]bool{}
	for _, v := range vals {
		if v <= 255 {
			dict.small = append(dict.small, int(v))
		} else {
			dict.large = append(dict.large, v)
		}
		if v <= 1<<26 {
			for d := -1; d <= 1; d++ {
				if n := int(v) + d; n >= 0 {
					lens[n] = true
				}
			}
		}
	}
	for n := range lens {
		dict.lens = append(dict.lens, n)
	}
	sort.Ints(dict.lens)
	for s := range strs {
		dict.strs = append(dict.strs, s)
	}
	sort.Strings(dict.strs)
}

// knownConsts are constants of other packages that lengths are compared with.
var knownConsts = map[string]string{
	"math.MaxInt8": "127", "math.MaxUint8": "255", "math.MaxInt16": "32767", "math.MaxUint16": "65535", "math.MaxInt32": "2147483647", "math.MaxUint32": "4294967295",
	"math.MaxInt64": "9223372036854775807", "math.MaxInt": "9223372036854775807", "math.MaxUint64": "18446744073709551615",
	"sha256.Size": "32", "sha256.BlockSize": "64", "ripemd160.Size": "20", "ripemd160.BlockSize": "64", "aes.BlockSize": "16", "sha512.Size": "64", "sha512.BlockSize": "128",
}

// evalConst evaluates a constant expression; nil if it is not one.
func evalConst(x ast.Expr, names map[string]constant.Value) (v constant.Value) {
	defer func() {
		if recover() != nil { // an operation the constants do not have
			v = nil
		}
		if v != nil && v.Kind() == constant.Unknown {
			v = nil
		}
	}()
	switch x := x.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		return v
	case *ast.Ident:
		return names[x.Name]
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok {
			return names[p.Name+"."+x.Sel.Name]
		}
	case *ast.ParenExpr:
		return evalConst(x.X, names)
	case *ast.CallExpr: // a conversion, such as uint64(5)
		if len(x.Args) == 1 {
			if f, ok := x.Fun.(*ast.Ident); ok && (strings.Contains(f.Name, "int") || f.Name == "byte") {
				return evalConst(x.Args[0], names)
			}
		}
	case *ast.UnaryExpr:
		if a := evalConst(x.X, names); a != nil && (x.Op == token.SUB || x.Op == token.ADD) {
			return constant.UnaryOp(x.Op, a, 0)
		}
	case *ast.BinaryExpr:
		a, b := evalConst(x.X, names), evalConst(x.Y, names)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(constant.ToInt(b)); ok && s < 512 {
				return constant.Shift(constant.ToInt(a), x.Op, uint(s))
			}
		case token.QUO:
			if a.Kind() == constant.Int && b.Kind() == constant.Int {
				return constant.BinaryOp(a, token.QUO_ASSIGN, b)
			}
			return constant.BinaryOp(a, x.Op, b)
		case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}

func smallDict() []int    { dict.once.Do(loadDict); return dict.small }
func largeDict() []uint64 { dict.once.Do(loadDict); return dict.large }
func lenDict() []int      { dict.once.Do(loadDict); return dict.lens }

// DictStrings lists the string literals of the code under test.
func DictStrings() []string { dict.once.Do(loadDict); return dict.strs }

// DictLens lists literal-derived lengths up to max.
func DictLens(max int) []int {
	var out []int
	for _, n := range lenDict() {
		if n <= max {
			out = append(out, n)
		}
	}
	return out
}

// DictInts lists the integer literals.
func DictInts() []uint64 {
	dict.once.Do(loadDict)
	var out []uint64
	for _, v := range dict.small {
		out = append(out, uint64(v))
	}
	return append(out, dict.large...)
}

// SweepLens are the lengths a sweep should take up to max: the interesting
// ones, the powers of two and of ten, and the literals of the code with their
// small multiples and fractions, each with its neighbours.
func SweepLens(max int) []int {
	dict.once.Do(loadDict)
	set := map[int]bool{}
	add := func(n int) {
		for d := -1; d <= 1; d++ {
			if n+d >= 0 && n+d <= max {
				set[n+d] = true
			}
		}
	}
	for _, n := range EdgeLens(max) {
		set[n] = true
	}
	for p := 1; p <= max; p *= 2 {
		add(p)
	}
	for p := 1; p <= max; p *= 10 {
		add(p)
	}
	for _, v := range DictInts() {
		if v > 1<<26 {
			continue
		}
		n := int(v)
		add(n)
		if n >= 16 {
			for k := 2; k <= 4; k++ {
				add(k * n)
			}
			add(n / 2)
			add(n / 4 * 3) // base64
			add(n / 3 * 4)
		}
	}
	out := make([]int, 0, len(set))
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}
