package h

import (
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"
)

// The constants that occur in the library's source are a dictionary for the generators, as in a fuzzer: code that
// treats a value, a length or a character specially has to name it somewhere. Constants that were not there when
// this file's baseline was made are preferred. They only choose what is tried, never how it is judged.

//go:embed dict_base.json
var dictBase []byte

type dictionary struct {
	Ints []uint64
	Strs []string
}

var (
	dictAll dictionary // everything in the source, and constants from the real world
	dictNew dictionary // what was added to it
)

// literals counts the constants of each file, literals and constant expressions of literals.
func literals(root string) map[string]map[string]int {
	rv := map[string]map[string]int{}
	filepath.Walk(filepath.Join(root, "pkg"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if f == nil {
			return nil
		}
		m := map[string]int{}
		add := func(v constant.Value) {
			switch v.Kind() {
			case constant.Int:
				m["i"+v.ExactString()]++
			case constant.String:
				m["s"+constant.StringVal(v)]++
			case constant.Float:
				if x, ok := constant.Float64Val(v); ok && x == math.Trunc(x) && math.Abs(x) < 1<<53 {
					m["i"+constant.ToInt(v).ExactString()]++
				}
			}
		}
		var eval func(e ast.Expr) constant.Value
		eval = func(e ast.Expr) (v constant.Value) {
			defer func() {
				if recover() != nil {
					v = constant.MakeUnknown()
				}
			}()
			v = constant.MakeUnknown()
			switch e := e.(type) {
			case *ast.BasicLit:
				v = constant.MakeFromLiteral(e.Value, e.Kind, 0)
			case *ast.ParenExpr:
				return eval(e.X)
			case *ast.UnaryExpr:
				if x := eval(e.X); x.Kind() != constant.Unknown {
					v = constant.UnaryOp(e.Op, x, 0)
				}
			case *ast.BinaryExpr:
				x, y := eval(e.X), eval(e.Y)
				if x.Kind() == constant.Unknown || y.Kind() == constant.Unknown {
					return v
				}
				if e.Op == token.SHL || e.Op == token.SHR {
					if n, ok := constant.Uint64Val(y); ok && n < 200 {
						v = constant.Shift(x, e.Op, uint(n))
					}
					return v
				}
				v = constant.BinaryOp(x, e.Op, y)
			}
			return v
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if fd, ok := n.(*ast.Field); ok && fd.Tag != nil {
				m["t"+fd.Tag.Value]++
			}
			if e, ok := n.(ast.Expr); ok {
				if v := eval(e); v.Kind() != constant.Unknown {
					add(v)
				}
			}
			return true
		})
		rel, _ := filepath.Rel(root, p)
		rv[rel] = m
		return nil
	})
	return rv
}

// WriteDictBase prints the constants of the tree, the baseline.
func WriteDictBase() {
	b, _ := json.Marshal(literals(repoDir()))
	os.Stdout.Write(b)
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func dictOf(m map[string]bool) dictionary {
	var d dictionary
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		switch k[0] {
		case 'i':
			v := constant.MakeFromLiteral(strings.TrimPrefix(k[1:], "-"), token.INT, 0)
			if x, ok := constant.Uint64Val(v); ok {
				if k[1] == '-' {
					x = -x
				}
				d.Ints = append(d.Ints, x)
			}
		case 's':
			if len(k) > 1 && len(k) < 300 {
				d.Strs = append(d.Strs, k[1:])
			}
		}
	}
	return d
}

func init() {
	base := map[string]map[string]int{}
	json.Unmarshal(dictBase, &base)
	all, added := map[string]bool{}, map[string]bool{}
	for f, m := range literals(repoDir()) {
		for k, n := range m {
			all[k] = true
			if n > base[f][k] {
				added[k] = true
			}
		}
	}
	for _, s := range []string{"eosio", "eosio.token", "active", "owner", "transfer", "eosio.code", "setcode", "setabi", "newaccount", "EOS", "WAX", "TLOS", "SYS",
		"eosio::abi/1.0", "eosio::abi/1.1", "eosio::abi/1.2", "memo", "from", "to", "quantity", "null", "true", "false", "0", "{}", "[]", "EOS1111111111111111111111111111111114T1Anm"} {
		all["s"+s] = true
	}
	dictAll, dictNew = dictOf(all), dictOf(added)
}

// word is a constant of the source as a number, now and then; preferably a new one.
func (r *R) word() (uint64, bool) {
	d := dictAll.Ints
	switch {
	case len(dictNew.Ints) > 0 && r.Chance(1, 8):
		d = dictNew.Ints
	case !r.Chance(1, 60):
		return 0, false
	}
	if len(d) == 0 {
		return 0, false
	}
	v := Pick(r, d)
	if r.Chance(1, 3) {
		v += r.Uint64N(3) - 1
	}
	return v, true
}

// size is a constant of the source as a size up to max, now and then.
func (r *R) size(max int) (int, bool) {
	if v, ok := r.word(); ok && v <= uint64(max) {
		return int(v), true
	}
	return 0, false
}

// phrase is a constant of the source as a text, now and then.
func (r *R) phrase() (string, bool) {
	switch {
	case len(dictNew.Strs) > 0 && r.Chance(1, 6):
		return Pick(r, dictNew.Strs), true
	case len(dictNew.Ints) > 0 && r.Chance(1, 20): // characters
		if v := Pick(r, dictNew.Ints); v < 0x110000 {
			return string(rune(v)), true
		}
	case len(dictAll.Strs) > 0 && r.Chance(1, 40):
		return Pick(r, dictAll.Strs), true
	}
	return "", false
}

// nameWord is a constant text as a name.
func (r *R) nameWord() (chain.Name, bool) {
	s, ok := r.phrase()
	if !ok || len(s) > 13 || strings.Trim(s, ".12345abcdefghijklmnopqrstuvwxyz") != "" || len(s) == 13 && s[12] > 'j' {
		return 0, false
	}
	return chain.Name(refNameValue(s)), true
}
