package h

import (
	"bytes"
	"encoding/json"
	"io"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"
)

// Malformed ABI definitions.

var badNames = []string{"a", "b", "c", "d", "e", "ff", "g"}
var badTypes = []string{"a", "b", "c", "d", "e", "ff", "g", "a", "b", "c", "d", "uint8", "string", "bool", "name", "bytes", "varuint32", "missing", "missing[]", "missing?", "",
	"a[]", "b[]", "c?", "d?", "a$", "b$", "a[]?", "c[]$", "d?$", "[]", "?", "$", "[]?", "?[]", "a[][]", "a??", "a$$", "a[", "b]", "a?[]", "$a", "[]a", "?$", "$?", "uint8[]", "uint8?", "uint8$", "string?$", "missing$", " a", "A", "a[]?$", "\x00", "é"}

func badAbi(r *R) chain.Abi {
	a := chain.Abi{}
	nm := func() string {
		if r.Chance(1, 15) {
			return Pick(r, badTypes)
		}
		return Pick(r, badNames)
	}
	for i := r.N(4); i > 0; i-- {
		a.Types = append(a.Types, chain.AbiType{NewTypeName: nm(), Type: Pick(r, badTypes)})
	}
	for i := r.N(5); i > 0; i-- {
		s := chain.AbiStruct{Name: nm()}
		if r.Chance(2, 5) {
			s.Base = Pick(r, badTypes)
			if r.Chance(1, 2) {
				s.Base = Pick(r, badNames)
			}
		}
		for j := r.N(4); j > 0; j-- {
			s.Fields = append(s.Fields, chain.AbiField{Name: Pick(r, []string{"x", "y", "z", "x", ""}), Type: Pick(r, badTypes)})
		}
		a.Structs = append(a.Structs, s)
	}
	for i := r.N(3); i > 0; i-- {
		v := chain.AbiVariant{Name: nm()}
		for j := r.N(4); j > 0; j-- {
			v.Types = append(v.Types, Pick(r, badTypes))
		}
		a.Variants = append(a.Variants, v)
	}
	for i := r.N(3); i > 0; i-- {
		a.Actions = append(a.Actions, chain.AbiAction{Name: chain.Name(r.N(3)), Type: Pick(r, badTypes)})
	}
	return a
}

// dynValue is any dynamic value, now and then one that contains itself.
func dynValue(r *R, depth int) interface{} {
	switch r.N(12) {
	case 0:
		return nil
	case 1:
		return uint8(r.N(256))
	case 2:
		return "text"
	case 3:
		return Pick(r, []interface{}{true, 1, uint(3), int64(4), 1.5, chain.Name(3), chain.Bytes{1}, []byte{2}, chain.Asset{}, chain.PublicKey{}, []string{"a"}, map[string]string{"x": "y"}, struct{}{}, new(int), (*int)(nil), func() {}})
	}
	if depth <= 0 {
		return uint8(1)
	}
	switch r.N(4) {
	case 0:
		l := []interface{}{}
		for i := r.N(3); i > 0; i-- {
			l = append(l, dynValue(r, depth-1))
		}
		return l
	case 1:
		l := []interface{}{Pick(r, badTypes), dynValue(r, depth-1)}
		if r.Chance(1, 10) {
			l[1] = l
		}
		return l
	}
	m := map[string]interface{}{}
	for _, k := range []string{"x", "y", "z", ""} {
		if r.Chance(4, 5) {
			m[k] = dynValue(r, depth-1)
			if r.Chance(1, 12) {
				m[k] = m
			}
		}
	}
	return m
}

// deadType says whether nothing can be encoded or decoded as this type: following it without any data
// dependent step (option, list, variant choice, extension) leads to a name that is not defined, or back to itself.
func deadType(a *chain.Abi, name string, stack map[string]bool) bool {
	if strings.ContainsAny(name, "[]?$") {
		return false // data dependent or odd, nothing is claimed
	}
	if stack[name] {
		return true
	}
	stack[name] = true
	defer delete(stack, name)
	defs := 0
	var st *chain.AbiStruct
	var vr *chain.AbiVariant
	var al *chain.AbiType
	for i := range a.Structs {
		if a.Structs[i].Name == name {
			defs++
			st = &a.Structs[i]
		}
	}
	for i := range a.Variants {
		if a.Variants[i].Name == name {
			defs++
			vr = &a.Variants[i]
		}
	}
	for i := range a.Types {
		if a.Types[i].NewTypeName == name {
			defs++
			al = &a.Types[i]
		}
	}
	if defs == 0 {
		return LeafByAbi[name] == nil
	}
	if defs > 1 || LeafByAbi[name] != nil || name == "" {
		return false // ambiguous
	}
	switch {
	case al != nil:
		return deadType(a, al.Type, stack)
	case vr != nil:
		return len(vr.Types) == 0
	}
	if st.Base != "" && deadType(a, st.Base, stack) {
		return true
	}
	for _, f := range st.Fields {
		if deadType(a, f.Type, stack) {
			return true
		}
	}
	return false
}

func badCase(c *C, a chain.Abi, name string) {
	dead := deadType(&a, name, map[string]bool{})
	data := hostile(c.R, c.R.Bytes(c.R.N(60)))
	if c.R.Chance(1, 2) {
		for i := range data {
			data[i] &= byte(Pick(c.R, []int{1, 3}))
		}
	}
	c.Distinct(name, abiDoc(a), string(data))
	c.Desc("decoding %q from %s with %s", name, Hex(data), tail(abiDoc(a), 2000))
	_, err := a.Decode(bytes.NewReader(data), name)
	c.Event("decodes with malformed ABIs", 1)
	if dead {
		c.Event("unresolvable types", 1)
		if err == nil {
			c.Fail("type cannot be resolved but was decoded")
		}
	}
	v := dynValue(c.R, 4)
	c.Desc("encoding a %T as %q with %s", v, name, tail(abiDoc(a), 2000))
	err = a.Encode(io.Discard, name, v)
	c.Event("encodes with malformed ABIs", 1)
	if dead && err == nil {
		c.Fail("type cannot be resolved but was encoded")
	}
}

func init() {
	Register(&Prop{ID: "C06", MinEvents: 10000,
		Rule:        "a case is one malformed ABI with type names, byte strings and dynamic values (also self-containing ones); every call has to return, and types the checker itself finds unresolvable have to be refused; non-trivial if ABI, name and data are new",
		Assumptions: []string{"names defined twice, or with modifiers in an order EOSIO does not define, are exercised but no particular outcome is required", "calls that use 60 s of CPU time count as not returning"},
		Cats: []Category{
			{"random", 20000, 600000, func(c *C) {
				a := badAbi(c.R)
				if c.R.Chance(1, 4) {
					b, err := json.Marshal(a)
					if err == nil {
						var a2 chain.Abi
						if json.Unmarshal(b, &a2) == nil {
							a = a2
						}
					}
				}
				for i := 0; i < 3; i++ {
					badCase(c, a, Pick(c.R, badTypes))
				}
				for i := 0; i < 2; i++ {
					n := chain.Name(c.R.N(4))
					known := false
					for _, x := range a.Actions {
						known = known || x.Name == n
					}
					data := c.R.Bytes(c.R.N(20))
					c.Desc("action %d from %s with %s", n, Hex(data), tail(abiDoc(a), 2000))
					_, err1 := a.DecodeAction(bytes.NewReader(data), n)
					err2 := a.EncodeAction(io.Discard, n, dynValue(c.R, 3))
					_, err3 := chain.Action{Name: n, Data: data}.Decode(&a)
					c.Event("actions", 3)
					if !known && (err1 == nil || err2 == nil || err3 == nil) {
						c.Fail("unknown action was accepted: %v %v %v", err1, err2, err3)
					}
				}
			}},
			{"clean names", 12000, 300000, func(c *C) {
				// one kind of definition per name, so the oracle decides most of them
				a := badAbi(c.R)
				seen := map[string]bool{"": true}
				ok := func(n string) bool {
					if seen[n] || LeafByAbi[n] != nil || strings.ContainsAny(n, "[]?$") {
						return false
					}
					seen[n] = true
					return true
				}
				var b chain.Abi
				for _, x := range a.Types {
					if ok(x.NewTypeName) {
						b.Types = append(b.Types, x)
					}
				}
				for _, x := range a.Structs {
					if ok(x.Name) {
						b.Structs = append(b.Structs, x)
					}
				}
				for _, x := range a.Variants {
					if ok(x.Name) {
						b.Variants = append(b.Variants, x)
					}
				}
				for n := range seen {
					_ = n
				}
				for _, n := range append([]string{"", "missing"}, badNames...) {
					badCase(c, b, n)
				}
			}},
			{"odd names", 3000, 40000, func(c *C) {
				// a known name with something around it that is no modifier is not a known name
				gen := NewAGen(c.R)
				gen.g.NoBig, gen.g.Budget = true, 300
				k := gen.Case()
				for k.Type.Array || k.Type.Opt {
					k = gen.Case()
				}
				base := k.Type.String()
				name := Pick(c.R, []string{base + "]", base + "[", base + "x]", base + "[3]", base + "[x]", base + "{}", base + "()", base + "*", base + " ", " " + base, "[]" + base, "?" + base, "$" + base, "*" + base, base + "\x00",
					base + "!", base + "[ ]", base + base + "_", "const " + base, strings.ToUpper(base) + "_", base[:len(base)-1] + "\xff", "eosio::" + base, "::" + base, base + "][", base + "?]", base + "$]", base + "?x", base + "$x", base + "[]x"})
				ab := gen.Abi
				if LeafByAbi[name] != nil || ab.GetStruct(name) != nil || ab.GetVariant(name) != nil || ab.GetType(name) != nil {
					return
				}
				holder, outer := name, interface{}(nil)
				val := Pick(c.R, []interface{}{k.In, []interface{}{k.In}, []interface{}{}, []interface{}{name, k.In}})
				outer = val
				switch c.R.N(5) { // the odd name itself, or as part of something
				case 0:
					holder = "odd holder"
					ab.Structs = append(ab.Structs[:len(ab.Structs):len(ab.Structs)], chain.AbiStruct{Name: holder, Fields: []chain.AbiField{{Name: "x", Type: name}}})
					outer = map[string]interface{}{"x": val}
				case 1:
					holder = "odd holder"
					ab.Types = append(ab.Types[:len(ab.Types):len(ab.Types)], chain.AbiType{NewTypeName: holder, Type: name})
				case 2:
					holder = "odd holder"
					ab.Structs = append(ab.Structs[:len(ab.Structs):len(ab.Structs)], chain.AbiStruct{Name: holder, Base: name})
				case 3:
					holder = "odd holder"
					ab.Variants = append(ab.Variants[:len(ab.Variants):len(ab.Variants)], chain.AbiVariant{Name: holder, Types: []string{name}})
					outer = []interface{}{name, val}
				}
				c.Distinct(name, holder, string(k.Enc))
				for _, data := range [][]byte{k.Enc, append([]byte{1}, k.Enc...), append([]byte{0}, k.Enc...), make([]byte, 300)} {
					c.Desc("decoding %q (%q) from %s with %s", holder, name, Hex(data), tail(abiDoc(ab), 2000))
					v, err := ab.Decode(bytes.NewReader(data), holder)
					c.Event("unresolvable types", 1)
					if err == nil {
						c.Fail("type %q cannot be resolved but was decoded as %s", name, short(v))
					}
				}
				c.Desc("encoding %s as %q (%q) with %s", short(outer), holder, name, tail(abiDoc(ab), 2000))
				if err := ab.Encode(io.Discard, holder, outer); err == nil {
					c.Fail("type %q cannot be resolved but was encoded", name)
				}
			}},
			{"cycles", 3000, 60000, func(c *C) {
				// a cycle of a given length through aliases, bases, fields, lists, options and variants
				n := 1 + c.R.N(6)
				var a chain.Abi
				name := func(i int) string { return "t" + string(rune('a'+i%n)) }
				for i := 0; i < n; i++ {
					nx := name(i + 1)
					if n == 1 {
						nx = name(0)
					}
					mod := Pick(c.R, []string{"", "", "", "[]", "?", "$", "[]?"})
					switch c.R.N(5) {
					case 0:
						a.Types = append(a.Types, chain.AbiType{NewTypeName: name(i), Type: nx + mod})
					case 1:
						a.Structs = append(a.Structs, chain.AbiStruct{Name: name(i), Base: nx, Fields: []chain.AbiField{{Name: "x", Type: "uint8"}}})
					case 2:
						a.Structs = append(a.Structs, chain.AbiStruct{Name: name(i), Base: nx})
					case 3:
						a.Structs = append(a.Structs, chain.AbiStruct{Name: name(i), Fields: []chain.AbiField{{Name: "x", Type: nx + mod}, {Name: "y", Type: Pick(c.R, []string{"uint8", nx, nx + "?", nx + "[]"})}}})
					case 4:
						a.Variants = append(a.Variants, chain.AbiVariant{Name: name(i), Types: []string{nx + mod, "uint8", nx}})
					}
				}
				for i := 0; i < n; i++ {
					badCase(c, a, name(i)+Pick(c.R, []string{"", "", "[]", "?", "$"}))
				}
			}},
			{"chains", 60, 300, func(c *C) {
				// very long but finite chains
				n := Pick(c.R, []int{100, 1000, 3000})
				var a chain.Abi
				for i := 0; i < n; i++ {
					cur, nx := sprintf("t%d", i), sprintf("t%d", i+1)
					if i == n-1 {
						nx = "uint8"
					}
					switch c.Idx % 3 {
					case 0:
						a.Types = append(a.Types, chain.AbiType{NewTypeName: cur, Type: nx})
					case 1:
						a.Structs = append(a.Structs, chain.AbiStruct{Name: cur, Fields: []chain.AbiField{{Name: "x", Type: nx}}})
					case 2:
						if i == n-1 {
							nx = ""
						}
						a.Structs = append(a.Structs, chain.AbiStruct{Name: cur, Base: nx, Fields: []chain.AbiField{{Name: sprintf("f%d", i), Type: "uint8"}}})
					}
				}
				c.Distinct("chain", c.Idx%3, n)
				_, err := a.Decode(bytes.NewReader(make([]byte, n)), "t0")
				c.Event("long chains", 1)
				if err != nil {
					c.Fail("a chain of %d definitions (kind %d) does not decode: %v", n, c.Idx%3, err)
				}
			}},
		}})
}
