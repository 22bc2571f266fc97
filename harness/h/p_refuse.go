package h

import (
	"bytes"
	"io"
	"math"
	"reflect"

	"github.com/greymass/go-eosio/pkg/chain"
)

// Values that do not conform to the ABI.

// a place in a dynamic value
type aSite struct {
	t    AT
	v    interface{}
	path string
	set  func(v interface{})
	del  func() // remove the field, nil if it isn't one
}

// shape follows aliases: 'l'ist, 's'truct, 'v'ariant or 'b'uiltin, with the definition that says so.
func (t AT) shape() (byte, AT) {
	if t.Array {
		return 'l', t
	}
	if t.Def == nil {
		return 'b', t
	}
	if t.Def.Kind == 'a' {
		return t.Def.Target.shape()
	}
	return t.Def.Kind, t
}

func aSites(t AT, v interface{}, path string, set func(interface{}), del func(), out *[]aSite) {
	*out = append(*out, aSite{t, v, path, set, del})
	if v == nil {
		return
	}
	k, e := t.shape()
	switch k {
	case 'l':
		el := e
		el.Array, el.Opt, el.Ext = false, false, false
		l := v.([]interface{})
		for i := range l {
			i := i
			aSites(el, l[i], sprintf("%s[%d]", path, i), func(x interface{}) { l[i] = x }, nil, out)
		}
	case 's':
		m := v.(map[string]interface{})
		for _, f := range e.Def.allFields() {
			f := f
			aSites(f.T, m[f.Name], path+"."+f.Name, func(x interface{}) { m[f.Name] = x }, func() { delete(m, f.Name) }, out)
		}
	case 'v':
		l := v.([]interface{})
		for _, alt := range e.Def.Alts {
			if alt.String() == l[0] {
				aSites(alt, l[1], path+"<"+alt.String()+">", func(x interface{}) { l[1] = x }, nil, out)
				break
			}
		}
	}
}

type namedStr string

// values of many Go types, zero and not
func wrongPool(r *R) []interface{} {
	u := Pick(r, []uint64{0, 1, 7, 200})
	p := []interface{}{
		u == 1, "", "text", uint8(u), uint16(u), uint32(u), uint64(u), int8(u & 63), int16(u), int32(u), int64(u), int(u), uint(u), float32(u), float64(u), uintptr(u), complex(1, 2),
		[]byte{}, []byte{1, 2}, chain.Bytes{}, chain.Bytes{1}, chain.Blob{1}, chain.Name(u), chain.Uint64(u), chain.BlockNum(u), chain.BlockTimestamp(u), chain.TimePointSec(u), chain.TimePoint(u),
		chain.Symbol(u), chain.SymbolCode(u), chain.Asset{}, chain.ExtendedAsset{}, chain.Checksum160{}, chain.Checksum256{}, chain.Checksum512{}, chain.Uint128{}, chain.Int128{}, chain.Float128{},
		chain.PublicKey{Type: chain.K1, Data: make([]byte, 33)}, chain.Signature{Type: chain.K1, Data: make([]byte, 65)}, chain.PermissionLevel{}, chain.Action{}, chain.Transaction{}, chain.Abi{},
		[]interface{}{}, []interface{}{uint8(1)}, map[string]interface{}{}, map[string]interface{}{"a": uint8(1)}, []string{}, []string{"a", "b"}, []uint8(nil), []int{1}, map[string]string{}, map[int]interface{}{}, map[interface{}]interface{}{},
		struct{}{}, struct{ A uint8 }{1}, [2]interface{}{"uint8", uint8(1)}, [0]byte{}, error(io.EOF), func() {}, make(chan int),
		(*int)(nil), (*string)(nil), (*uint8)(nil), (*chain.Name)(nil), (*chain.Asset)(nil), (*chain.PublicKey)(nil), (*chain.Abi)(nil), (*map[string]interface{})(nil), (*[]interface{})(nil),
		(func())(nil), (chan int)(nil), []map[string]interface{}{{}},
	}
	return p
}

func wrongFor(r *R, t AT) (interface{}, bool) {
	k, e := t.shape()
	p := wrongPool(r)
	for try := 0; try < 20; try++ {
		w := Pick(r, p)
		switch w.(type) {
		case []interface{}:
			if k == 'l' || k == 'v' {
				continue
			}
		case map[string]interface{}:
			if k == 's' {
				continue
			}
		}
		if k == 'b' {
			if reflect.TypeOf(w) == LeafByAbi[e.Builtin].RT {
				continue
			}
			switch w.(type) {
			case uint64:
				if e.Builtin == "uint64" {
					continue
				}
			case []byte, chain.Blob:
				if e.Builtin == "bytes" {
					continue
				}
			}
		}
		return w, true
	}
	return nil, false
}

// deviate changes one thing about the value so that it does not conform any more. It returns what it did and an undo.
func deviate(c *C, s aSite) (string, func()) {
	r := c.R
	k, e := s.t.shape()
	undo := func() { s.set(s.v) }
	switch r.N(5) {
	case 0: // nothing where something is required
		if s.t.resolvesOptional() || s.t.Ext {
			return "", nil
		}
		if s.del != nil && r.Chance(1, 2) {
			s.del()
			return "required field left out", undo
		}
		s.set(nil)
		return "nil for a required value", undo
	case 1, 2:
		w, ok := wrongFor(r, s.t)
		if !ok {
			return "", nil
		}
		s.set(w)
		return sprintf("%T instead of a %c", w, k), undo
	}
	// by shape
	switch k {
	case 'v':
		if s.v == nil {
			return "", nil
		}
		l := s.v.([]interface{})
		switch r.N(6) {
		case 0:
			s.set([]interface{}{})
			return "empty variant pair", undo
		case 1:
			s.set([]interface{}{l[0]})
			return "variant of one element", undo
		case 2:
			s.set([]interface{}{l[0], l[1], l[1]})
			return "variant of three elements", undo
		case 3:
			bad := Pick(r, []interface{}{nil, 0, uint(0), 1.0, []byte(l[0].(string)), namedStr(l[0].(string)), []interface{}{l[0]}, true, chain.Name(1)})
			s.set([]interface{}{bad, l[1]})
			return sprintf("variant name is a %T", bad), undo
		case 4:
			n := Pick(r, []string{"", "nope", l[0].(string) + "x", l[0].(string) + "[]", l[0].(string) + "?", " " + l[0].(string), "0", "uint8", "string", "name", "Uint8", l[0].(string) + "$"})
			if r.Chance(1, 2) { // close to an alternative: without its modifiers, or what it stands for
				a := Pick(r, e.Def.Alts)
				for _, b := range e.Def.Alts {
					if b.String() == l[0] && r.Chance(2, 3) {
						a = b
					}
				}
				if a.Def != nil && a.Def.Kind == 'a' && r.Chance(1, 2) {
					a = a.Def.Target
				}
				a.Opt, a.Array, a.Ext = a.Opt && r.Chance(1, 3), a.Array && r.Chance(1, 3), false
				n = a.String()
			}
			for _, a := range e.Def.Alts {
				if a.String() == n {
					return "", nil
				}
			}
			s.set([]interface{}{n, l[1]})
			return sprintf("unknown variant name %q", n), undo
		case 5:
			s.set([]interface{}{l[1], l[0]})
			if x, ok := l[1].(string); ok {
				for _, a := range e.Def.Alts {
					if a.String() == x {
						undo()
						return "", nil
					}
				}
			}
			return "variant pair the wrong way round", undo
		}
	case 'b':
		switch e.Builtin {
		case "varuint32":
			x := Pick(r, []uint64{math.MaxUint32 + 1, math.MaxUint32 + 2, 1 << 33, 1 << 40, 1 << 63, math.MaxUint64})
			if uint64(uint(x)) != x {
				return "", nil // a 32-bit platform has no such values
			}
			s.set(uint(x))
			return sprintf("varuint32 %d", x), undo
		case "varint32":
			x := Pick(r, []int64{math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, 1 << 32, -1 << 32, math.MaxInt64, math.MinInt64})
			if int64(int(x)) != x {
				return "", nil
			}
			s.set(int(x))
			return sprintf("varint32 %d", x), undo
		}
	case 's':
		if s.v == nil {
			return "", nil
		}
		m := s.v.(map[string]interface{})
		absent := -1
		fs := e.Def.allFields()
		for i, f := range fs {
			if !f.T.Ext {
				continue
			}
			if absent < 0 && !f.T.Opt && m[f.Name] != nil {
				for _, l := range fs[i+1:] {
					if m[l.Name] != nil {
						absent = i
					}
				}
				if absent == i {
					n, old := f.Name, m[f.Name]
					if r.Chance(1, 2) {
						delete(m, n)
					} else {
						m[n] = nil
					}
					return "extension present after an absent one", func() { m[n] = old }
				}
			}
		}
		// a required field under another name
		if len(fs) > 0 {
			f := Pick(r, fs)
			if m[f.Name] != nil && !f.T.Ext && !f.T.resolvesOptional() {
				n, old := f.Name, m[f.Name]
				alt := n + "_"
				for _, g := range fs {
					if g.Name == alt {
						return "", nil
					}
				}
				delete(m, n)
				m[alt] = old
				return "required field misspelled", func() { m[n] = old; delete(m, alt) }
			}
		}
	case 'l':
		if s.v == nil {
			return "", nil
		}
		l := s.v.([]interface{})
		el := e
		el.Array, el.Opt, el.Ext = false, false, false
		switch r.N(3) {
		case 0: // one bad element at either end or anywhere
			w, ok := wrongFor(r, el)
			if !ok {
				return "", nil
			}
			i := r.N(len(l) + 1)
			if r.Chance(1, 2) {
				i = len(l)
			}
			n := append(append(append([]interface{}{}, l[:i]...), w), l[i:]...)
			s.set(n)
			return sprintf("element %d of %d is a %T", i, len(n), w), undo
		case 1:
			if el.resolvesOptional() {
				return "", nil
			}
			s.set(append(append([]interface{}{}, l...), nil))
			return "nil element", undo
		case 2:
			if len(l) == 0 {
				return "", nil
			}
			if x, y := el.shape(); x == 'v' || x == 'b' && y.Builtin == "bytes" {
				return "", nil
			}
			w := Pick(r, []interface{}{l[0], [1]interface{}{l[0]}, map[string]interface{}{"0": l[0]}, reflect.ValueOf(l[0]).IsValid()})
			if _, ok := w.([]interface{}); ok || w == nil {
				return "", nil
			}
			s.set(w)
			return sprintf("%T instead of a list", w), undo
		}
	}
	return "", nil
}

func init() {
	Register(&Prop{ID: "C26", MinEvents: 5000,
		Rule: "a case is one generated well-formed ABI with a conforming value that encodes, to which single deviations from the schema are applied one at a time at random depths (and undone, after which it must encode again); or one out-of-range variant index or unknown name; every one must be refused with an error and without a panic; non-trivial if type, place and kind of deviation are new",
		Cats: []Category{
			{"deviations", 4000, 120000, func(c *C) {
				a := NewAGen(c.R)
				a.g.NoBig = true
				ab := transport(c, a.Abi)
				k := a.Case()
				name := k.Type.String()
				var b bytes.Buffer
				if err := ab.Encode(&b, name, k.In); err != nil || !bytes.Equal(b.Bytes(), k.Enc) {
					c.Fail("the conforming value of %q: %v, got %s want %s [abi %s]", name, err, Hex(b.Bytes()), Hex(k.Enc), tail(abiDoc(ab), 1500))
				}
				root := k.In
				var sites []aSite
				aSites(k.Type, root, "", func(x interface{}) { root = x }, nil, &sites)
				n := 14
				for i := 0; i < n; i++ {
					s := Pick(c.R, sites)
					what, undo := deviate(c, s)
					if undo == nil {
						continue
					}
					c.Desc("%s at %q of %q, abi %s", what, s.path, name, tail(abiDoc(ab), 1200))
					c.Distinct(what, s.path, s.t.String(), c.Idx)
					c.Sample("%s at %q of %q", what, s.path, name)
					b.Reset()
					err := ab.Encode(&b, name, root)
					c.Event("deviating values", 1)
					if err == nil {
						c.Fail("the value does not conform but was encoded as %s", Hex(b.Bytes()))
					}
					if k.Type.Def != nil && !k.Type.Array && !k.Type.Opt {
						for _, act := range ab.Actions {
							if act.Type == name {
								if err := ab.EncodeAction(io.Discard, act.Name, root); err == nil {
									c.Fail("the value does not conform but EncodeAction accepts it")
								}
							}
						}
					}
					undo()
				}
				b.Reset()
				if err := ab.Encode(&b, name, root); err != nil || !bytes.Equal(b.Bytes(), k.Enc) {
					c.Fail("the restored value of %q: %v, got %s want %s", name, err, Hex(b.Bytes()), Hex(k.Enc))
				}
				c.Event("conforming values", 2)
			}},
			// every builtin against every other type
			{"builtins", len(abiBuiltins) * 12, len(abiBuiltins) * 60, func(c *C) {
				bt := abiBuiltins[c.Idx%len(abiBuiltins)]
				t := AT{Builtin: bt, Array: c.R.Chance(1, 3), Opt: c.R.Chance(1, 3)}
				l := LeafByAbi[bt]
				for _, w := range wrongPool(c.R) {
					if reflect.TypeOf(w) == l.RT {
						continue
					}
					switch w.(type) {
					case uint64:
						if bt == "uint64" {
							continue
						}
					case []byte, chain.Blob:
						if bt == "bytes" {
							continue
						}
					}
					v := w
					if t.Array {
						v = []interface{}{NewG(c.R).Value(l.RT).Interface(), w}
						if c.R.Chance(1, 2) {
							v = []interface{}{w}
						}
					}
					c.Desc("%T for %s", w, t)
					c.Distinct(t.String(), sprintf("%T", w))
					var b bytes.Buffer
					c.Event("deviating values", 1)
					if err := (chain.Abi{}).Encode(&b, t.String(), v); err == nil {
						c.Fail("a %T was encoded as %s: %s", w, t, Hex(b.Bytes()))
					}
				}
				if !t.Opt && !t.Array {
					if err := (chain.Abi{}).Encode(io.Discard, t.String(), nil); err == nil {
						c.Fail("nil was encoded as %s", t)
					}
				}
			}},
			{"variant index", 3000, 60000, func(c *C) {
				a := NewAGen(c.R)
				a.g.NoBig = true
				var vs []*ADef
				for _, d := range a.Defs {
					if d.Kind == 'v' {
						vs = append(vs, d)
					}
				}
				if len(vs) == 0 {
					d := &ADef{Kind: 'v', Name: a.name(), order: len(a.Defs)}
					for i := 1 + c.R.N(6); i > 0; i-- {
						d.Alts = append(d.Alts, AT{Builtin: abiBuiltins[(c.R.N(3)+i*3)%len(abiBuiltins)]})
					}
					a.Defs = append(a.Defs, d)
					a.render()
					vs = append(vs, d)
				}
				d := Pick(c.R, vs)
				ab := a.Abi
				wrap := a.name()
				ab.Structs = append(ab.Structs, chain.AbiStruct{Name: wrap, Fields: []chain.AbiField{{Name: "p", Type: "uint8"}, {Name: "v", Type: d.Name}, {Name: "x", Type: d.Name + "$"}}})
				ab = transport(c, ab)
				n := uint64(len(d.Alts))
				idx := Pick(c.R, []uint64{n, n + 1, n + 2, 127, 128, 129, 255, 256, 256 + uint64(c.R.N(int(n))), 1<<16 + uint64(c.R.N(int(n))), 1 << 31, 1<<31 + uint64(c.R.N(int(n))), 1<<32 - 1, 1 << 32, 1<<32 + uint64(c.R.N(int(n))), 1 << 63, math.MaxUint64})
				if idx < n {
					return
				}
				bad := append(RefVaruint(idx), c.R.Bytes(300)...)
				ok := a.CaseOf(AT{Def: d})
				type in struct {
					t string
					b []byte
				}
				for _, x := range []in{
					{d.Name, bad},
					{d.Name + "?", append([]byte{1}, bad...)},
					{d.Name + "[]", append([]byte{1}, bad...)},
					{d.Name + "[]", cat([]byte{3}, ok.Enc, ok.Enc, bad)},
					{d.Name + "[]?", cat([]byte{1, 2}, ok.Enc, bad)},
					{d.Name + "$", bad},
					{wrap, append([]byte{9}, bad...)},
					{wrap, cat([]byte{9}, ok.Enc, bad)},
				} {
					c.Desc("%q, index %d of %d alternatives, abi %s", x.t, idx, n, tail(abiDoc(ab), 1200))
					c.Distinct(x.t, idx, n)
					c.Event("bad variant indexes", 1)
					if v, err := ab.Decode(bytes.NewReader(x.b), x.t); err == nil {
						c.Fail("decoded to %s", short(v))
					}
				}
				// the same data with a good index is accepted
				if _, err := ab.Decode(bytes.NewReader(ok.Enc), d.Name); err != nil {
					c.Fail("conforming data refused: %v", err)
				}
			}},
			// Go variants: the number of alternatives is that of the struct
			{"go variant index", 300, 3000, func(c *C) {
				g := NewG(c.R)
				g.NoBig = true
				t := RandStruct(c.R, 2)
				for i := 0; i < 100; i++ {
					has := false
					for j := 0; j < t.NumField(); j++ {
						has = has || t.Field(j).Tag.Get("eosio") == "variant"
					}
					if has {
						break
					}
					t = RandStruct(c.R, 2)
				}
				v := g.Value(t)
				var pre []byte
				for j := 0; j < t.NumField(); j++ {
					if t.Field(j).Tag.Get("eosio") == "variant" {
						w := t.Field(j).Type
						if w.Kind() == reflect.Ptr {
							w = w.Elem()
						}
						for _, idx := range []int{w.NumField(), w.NumField() + 1, 127, 128, 255} {
							b := cat(pre, []byte{byte(idx)}, c.R.Bytes(300))
							c.Desc("%s, field %d, index %d of %d alternatives", t, j, idx, w.NumField())
							c.Distinct(t.String(), j, idx)
							c.Event("bad variant indexes", 1)
							if x, _, err := Decode(t, b); err == nil {
								c.Fail("decoded to %s", short(x.Interface()))
							}
						}
					}
					pre = append(pre, refField(v, j, nil)...)
				}
			}},
			{"unknown names", 1500, 30000, func(c *C) {
				a := NewAGen(c.R)
				a.g.NoBig = true
				ab := transport(c, a.Abi)
				known := map[string]bool{}
				for _, d := range a.Defs {
					known[d.Name] = true
				}
				base := Pick(c.R, append([]string{"nope", "", "uint", "int", "uint24", "Uint8", " uint8", "uint8 ", "u", "bytes32", "varuint", "varint64", "Name", "NAME", "checksum", "checksum128", "symbolcode", "timepoint", "uint8\x00", "eosio::nam", "float", "key", "null", "struct", "\u00e9t\u00e9", "void"},
					a.Defs[0].Name+"_", Pick(c.R, abiBuiltins)+"1_", Pick(c.R, abiBuiltins)+"."))
				if known[base] || LeafByAbi[base] != nil {
					return
				}
				c.Desc("type %q, abi %s", base, tail(abiDoc(ab), 1000))
				c.Distinct(base, abiDoc(ab))
				for _, w := range append(wrongPool(c.R), nil) {
					c.Event("unknown names", 1)
					if err := ab.Encode(io.Discard, base, w); err == nil {
						c.Fail("a %T was encoded as an unknown type", w)
					}
				}
				if err := ab.Encode(io.Discard, base+"[]", []interface{}{uint8(1)}); err == nil {
					c.Fail("a list of an unknown type was encoded")
				}
				if err := ab.Encode(io.Discard, base+"?", uint8(1)); err == nil {
					c.Fail("a present optional of an unknown type was encoded")
				}
				for _, d := range [][]byte{{}, {0}, {1}, c.R.Bytes(100)} {
					c.Event("unknown names", 1)
					if v, err := ab.Decode(bytes.NewReader(d), base); err == nil {
						c.Fail("%x decoded as an unknown type to %s", d, short(v))
					}
				}
				if v, err := ab.Decode(bytes.NewReader(append([]byte{1}, c.R.Bytes(50)...)), base+Pick(c.R, []string{"?", "[]"})); err == nil {
					c.Fail("decoded as an unknown type to %s", short(v))
				}
				// actions
				for i := 0; i < 4; i++ {
					n := a.g.Name()
					if i == 0 && len(ab.Actions) > 0 {
						n = Pick(c.R, ab.Actions).Name ^ chain.Name(uint64(1)<<uint(c.R.N(64)))
					}
					if _, ok := a.Actions[n]; ok {
						continue
					}
					c.Desc("action %d, abi %s", uint64(n), tail(abiDoc(ab), 1000))
					c.Event("unknown names", 2)
					for _, w := range []interface{}{nil, map[string]interface{}{}, uint8(1), []interface{}{}, "x"} {
						if err := ab.EncodeAction(io.Discard, n, w); err == nil {
							c.Fail("unknown action was encoded")
						}
					}
					if v, err := ab.DecodeAction(bytes.NewReader(c.R.Bytes(c.R.N(80))), n); err == nil {
						c.Fail("unknown action was decoded to %s", short(v))
					}
					if v, err := (chain.Action{Name: n, Data: c.R.Bytes(c.R.N(80))}).Decode(&ab); err == nil {
						c.Fail("unknown action was decoded to %s", short(v))
					}
				}
			}},
		}})
}
