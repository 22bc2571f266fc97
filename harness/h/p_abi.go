package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/greymass/go-eosio/pkg/chain"
)

// transport returns the ABI as it is, or as it arrives through its binary or JSON form.
func transport(c *C, a chain.Abi) chain.Abi {
	switch c.R.N(4) {
	case 0:
		b, err := Encode(a)
		if err != nil {
			c.Fail("encoding ABI: %v", err)
		}
		v, _, err := Decode(reflect.TypeOf(a), b)
		if err != nil {
			c.Fail("decoding ABI: %v", err)
		}
		return v.Interface().(chain.Abi)
	case 1:
		b, err := json.Marshal(a)
		if err != nil {
			c.Fail("marshalling ABI: %v", err)
		}
		var v chain.Abi
		if err := json.Unmarshal(b, &v); err != nil {
			c.Fail("unmarshalling ABI: %v", err)
		}
		return v
	}
	return a
}

func abiDoc(a chain.Abi) string { b, _ := json.Marshal(a); return string(b) }

// abiRound checks one conforming value.
func abiRound(c *C, ab chain.Abi, k ACase) {
	name := k.Type.String()
	var b bytes.Buffer
	if err := ab.Encode(&b, name, k.In); err != nil {
		c.Fail("encoding %q: %v (value %s)", name, err, short(k.In))
	}
	c.Event("abi encodes", 1)
	if !bytes.Equal(b.Bytes(), k.Enc) {
		c.Fail("encoding %q: got %s want %s (value %s)", name, Hex(b.Bytes()), Hex(k.Enc), short(k.In))
	}
	trail := c.R.Bytes(c.R.N(12))
	if k.Ext {
		trail = nil // extensions are only last in the data
	}
	data := append(append([]byte{}, k.Enc...), trail...)
	r := bytes.NewReader(data)
	v, err := ab.Decode(r, name)
	c.Event("abi decodes", 1)
	if err != nil {
		c.Fail("decoding %q from %s: %v", name, Hex(k.Enc), err)
	}
	if used := len(data) - r.Len(); used != len(k.Enc) {
		c.Fail("decoding %q consumed %d of %d bytes", name, used, len(k.Enc))
	}
	if d := DynDiff(v, k.Out, ""); d != "" {
		c.Fail("decoding %q from %s differs: %s", name, Hex(k.Enc), d)
	}
	b.Reset()
	if err := ab.Encode(&b, name, v); err != nil || !bytes.Equal(b.Bytes(), k.Enc) {
		c.Fail("encoding the decoded %q again: %v, got %s want %s", name, err, Hex(b.Bytes()), Hex(k.Enc))
	}
}

func init() {
	Register(&Prop{ID: "C04", MinEvents: 3000,
		Rule: "a case is one generated well-formed ABI (structs with bases, variants, aliases, modifiers, recursion, odd names) with several conforming values; bytes, decoded value with Go types, consumption and re-encoding are compared with the generator's own model; non-trivial if ABI and bytes are new",
		Cats: []Category{
			{"random ABIs", 3500, 100000, func(c *C) {
				a := NewAGen(c.R)
				ab := transport(c, a.Abi)
				c.Desc("abi %s", tail(abiDoc(ab), 1500))
				for i := 0; i < 6; i++ {
					k := a.Case()
					c.DistinctBytes(k.Type.String()+abiDoc(ab), k.Enc)
					c.Sample("%s of %s -> %s", k.Type, tail(abiDoc(ab), 200), Hex(k.Enc))
					abiRound(c, ab, k)
				}
			}},
			{"every definition", 1200, 40000, func(c *C) {
				a := NewAGen(c.R)
				ab := a.Abi
				c.Desc("abi %s", tail(abiDoc(ab), 1500))
				for _, i := range c.R.Perm(len(a.Defs)) {
					if i >= 30 && c.R.Chance(9, 10) {
						continue
					}
					d := a.Defs[i]
					k := a.CaseOf(AT{Def: d})
					c.DistinctBytes(d.Name+abiDoc(ab), k.Enc)
					abiRound(c, ab, k)
				}
			}},
			{"actions", 1500, 40000, func(c *C) {
				a := NewAGen(c.R)
				ab := transport(c, a.Abi)
				c.Desc("abi %s", tail(abiDoc(ab), 1500))
				for i, act := range ab.Actions {
					if i >= 30 && c.R.Chance(9, 10) {
						continue
					}
					t := a.Actions[act.Name]
					k := a.CaseOf(t)
					c.DistinctBytes(t.String()+abiDoc(ab), k.Enc)
					var b bytes.Buffer
					if err := ab.EncodeAction(&b, act.Name, k.In); err != nil || !bytes.Equal(b.Bytes(), k.Enc) {
						c.Fail("EncodeAction %d (%s): %v, got %s want %s", uint64(act.Name), t, err, Hex(b.Bytes()), Hex(k.Enc))
					}
					v, err := ab.DecodeAction(bytes.NewReader(k.Enc), act.Name)
					if err != nil {
						c.Fail("DecodeAction %d (%s): %v", uint64(act.Name), t, err)
					}
					if d := DynDiff(v, k.Out, ""); d != "" {
						c.Fail("DecodeAction %d (%s) differs: %s", uint64(act.Name), t, d)
					}
					c.Event("actions", 2)
					m, isMap := k.Out.(map[string]interface{})
					got, err := chain.NewAction(1, act.Name, nil, chain.Bytes(k.Enc)).Decode(&ab)
					if isMap {
						if err != nil {
							c.Fail("Action.Decode (%s): %v", t, err)
						}
						if d := DynDiff(got, m, ""); d != "" {
							c.Fail("Action.Decode (%s) differs: %s", t, d)
						}
					}
					ga := ab.GetAction(act.Name)
					if ga == nil || ga.Type != act.Type || ga.Name != act.Name {
						c.Fail("GetAction %d: %v", uint64(act.Name), ga)
					}
				}
				// lookups return the first definition of that name, or nil
				tb := ab
				for n := c.R.N(6); n > 0; n-- {
					tb.Tables = append(tb.Tables[:len(tb.Tables):len(tb.Tables)], chain.AbiTable{Name: a.g.Name(), IndexType: a.g.Str(), Type: a.g.Str()})
				}
				names := map[chain.Name]bool{}
				for _, t := range tb.Tables {
					if names[t.Name] {
						continue
					}
					names[t.Name] = true
					if g := tb.GetTable(t.Name); g == nil || Diff(*g, t) != "" {
						c.Fail("GetTable %d: %v", uint64(t.Name), g)
					}
				}
				c.Event("lookups", len(names)+len(ab.Structs)+len(ab.Variants)+len(ab.Types))
				if n := chain.Name(c.R.Uint64()); !names[n] {
					if g := tb.GetTable(n); g != nil {
						c.Fail("GetTable of an unknown name: %v", g)
					}
				}
				if n := chain.Name(c.R.Uint64()); a.Actions[n].Builtin == "" && a.Actions[n].Def == nil {
					if g := ab.GetAction(n); g != nil {
						c.Fail("GetAction of an unknown name: %v", g)
					}
				}
				if s := "no such name \x00"; ab.GetStruct(s) != nil || ab.GetVariant(s) != nil || ab.GetType(s) != nil {
					c.Fail("lookup of an unknown name found something")
				}
				for _, s := range ab.Structs {
					if g := ab.GetStruct(s.Name); g == nil || Diff(*g, s) != "" {
						c.Fail("GetStruct %q: %v", s.Name, g)
					}
				}
				for _, s := range ab.Variants {
					if g := ab.GetVariant(s.Name); g == nil || Diff(*g, s) != "" {
						c.Fail("GetVariant %q: %v", s.Name, g)
					}
				}
				for _, s := range ab.Types {
					if g := ab.GetType(s.NewTypeName); g == nil || Diff(*g, s) != "" {
						c.Fail("GetType %q: %v", s.NewTypeName, g)
					}
				}
			}},
			{"builtins", 1500, 40000, func(c *C) {
				n := abiBuiltins[c.Idx%len(abiBuiltins)]
				a := &AGen{g: NewG(c.R)}
				for _, t := range []AT{{Builtin: n}, {Builtin: n, Array: true}, {Builtin: n, Opt: true}, {Builtin: n, Array: true, Opt: true}} {
					k := a.CaseOf(t)
					c.DistinctBytes(t.String(), k.Enc)
					abiRound(c, chain.Abi{}, k)
				}
			}},
			{"inheritance", 600, 10000, func(c *C) {
				// long base chains, wide structs
				n := 1 + c.R.N(12)
				a := &AGen{g: NewG(c.R), Actions: map[chain.Name]AT{}}
				a.g.NoBig = true
				var prev *ADef
				for i := 0; i < n; i++ {
					d := &ADef{Kind: 's', Name: fmt.Sprintf("s%d", i), order: i, Base: prev}
					if prev != nil {
						d.BaseAs = prev.Name
					}
					for j := c.R.N(4); j > 0; j-- {
						d.Fields = append(d.Fields, AField{fmt.Sprintf("f%d_%d", i, j), AT{Builtin: Pick(c.R, abiBuiltins), Opt: c.R.Chance(1, 5), Array: c.R.Chance(1, 5)}})
					}
					a.Defs = append(a.Defs, d)
					prev = d
				}
				a.render()
				c.Desc("abi %s", tail(abiDoc(a.Abi), 1500))
				for i := 0; i < 3; i++ {
					k := a.CaseOf(AT{Def: Pick(c.R, a.Defs)})
					c.DistinctBytes(k.Type.String()+abiDoc(a.Abi), k.Enc)
					abiRound(c, a.Abi, k)
				}
			}},
			{"edited", 800, 20000, func(c *C) {
				// what counts is what the definition says now: use it, change it in place, use it again
				a := NewSmallAGen(c.R)
				if c.R.Chance(1, 3) {
					a = NewAGen(c.R)
				}
				ab := transport(c, a.Abi)
				use := func(when string) {
					c.Desc("%s, abi %s", when, tail(abiDoc(ab), 1500))
					for i := 0; i < 5; i++ {
						k := a.Case()
						c.DistinctBytes(k.Type.String()+abiDoc(ab), k.Enc)
						abiRound(c, ab, k)
					}
					for i := 0; i < 2 && len(ab.Actions) > 0; i++ {
						act := Pick(c.R, ab.Actions)
						k := a.CaseOf(a.Actions[act.Name])
						var b bytes.Buffer
						if err := ab.EncodeAction(&b, act.Name, k.In); err != nil || !bytes.Equal(b.Bytes(), k.Enc) {
							c.Fail("EncodeAction %d (%s): %v, got %s want %s", uint64(act.Name), act.Type, err, Hex(b.Bytes()), Hex(k.Enc))
						}
						v, err := ab.DecodeAction(bytes.NewReader(k.Enc), act.Name)
						if err != nil {
							c.Fail("DecodeAction %d (%s): %v", uint64(act.Name), act.Type, err)
						}
						if d := DynDiff(v, k.Out, ""); d != "" {
							c.Fail("DecodeAction %d (%s) differs: %s", uint64(act.Name), act.Type, d)
						}
					}
				}
				use("before")
				for n := 1; n <= 3; n++ {
					what := ""
					for try := 0; what == "" && try < 40; try++ {
						what = a.edit(&ab, c.R)
					}
					c.Event("edits", 1)
					if c.R.Chance(1, 4) { // a copy of the value
						cp := ab
						ab = cp
					}
					use(what)
				}
			}},
			{"large", 240, 6000, func(c *C) { // long lists and texts, wide structs, very many definitions
				r := c.R
				a := &AGen{g: NewG(r), used: map[string]bool{}, Actions: map[chain.Name]AT{}}
				builtin := func() AT {
					t := AT{Builtin: Pick(r, abiBuiltins), Opt: r.Chance(1, 8)}
					t.Array = r.Chance(1, 10)
					return t
				}
				def := func(d *ADef) *ADef {
					d.order, d.weight = len(a.Defs), 1
					a.Defs = append(a.Defs, d)
					return d
				}
				top := func() ACase { return a.CaseOf(AT{Def: a.Defs[len(a.Defs)-1]}) }
				switch c.Idx % 6 {
				case 0: // a list of anything
					a = NewSmallAGen(r)
					t := AT{Def: Pick(r, a.Defs)}
					if s := t.structOf(); r.Chance(1, 3) || s != nil && len(s.Fields) > 0 && s.Fields[len(s.Fields)-1].T.Ext {
						t = AT{Builtin: Pick(r, abiBuiltins)}
					}
					var pool []ACase
					size := 0
					for i := 1 + r.N(8); i > 0; i-- {
						k := ACase{}
						a.g.NoBig, a.g.Budget = true, 50
						k.In, k.Out, k.Enc = a.gen(t, 4)
						size += len(k.Enc) + 2
						pool = append(pool, k)
					}
					n := Scale(r, 150000*len(pool)/size)
					if a.minWidth(t) == 0 {
						n = min(n, 1000)
					}
					k := ACase{Type: t, Enc: refCount(n)}
					k.Type.Array = true
					in, out := make([]interface{}, n), make([]interface{}, n)
					for i := range in {
						p := Pick(r, pool)
						in[i], out[i] = p.In, p.Out
						k.Enc = append(k.Enc, p.Enc...)
					}
					k.In, k.Out = in, out
					c.Desc("list of %d %s", n, t)
					c.Distinct("list", n, Hex(k.Enc))
					abiRound(c, transport(c, a.Abi), k)
					return
				case 1: // many fields
					d := def(&ADef{Kind: 's', Name: "wide"})
					for i := 1 + Scale(r, 1500); i > 0; i-- {
						d.Fields = append(d.Fields, AField{sprintf("f%d", i), builtin()})
					}
				case 2: // many structs, each with the next one, or below one another
					n := 1 + Scale(r, 700)
					in := 1 + r.N(4) // in so many of four cases a struct extends the one before
					for i := 0; i < n; i++ {
						d := def(&ADef{Kind: 's', Name: sprintf("s%d", i), Fields: []AField{{sprintf("v%d", i), AT{Builtin: Pick(r, abiBuiltins)}}}})
						if i > 0 && r.Chance(in, 4) && i < 300 {
							d.Base = a.Defs[i-1]
							d.BaseAs = d.Base.Name
						} else if i > 0 {
							d.Fields = append(d.Fields, AField{sprintf("n%d", i), AT{Def: a.Defs[i-1], Array: r.Chance(1, 3), Opt: r.Chance(1, 3)}})
						}
					}
				case 3: // many aliases and variants
					n := Scale(r, 1000)
					linked := r.Chance(1, 4) // aliases of one another
					d := &ADef{Kind: 's', Name: "all"}
					for i := 0; i < n; i++ {
						var x *ADef
						if r.Chance(1, 2) || linked {
							x = &ADef{Kind: 'a', Name: sprintf("t%d", i), Target: AT{Builtin: Pick(r, abiBuiltins)}}
							if linked && i > 0 && i < 500 {
								x.Target = AT{Def: a.Defs[i-1]}
							}
							def(x)
						} else {
							x = def(&ADef{Kind: 'v', Name: sprintf("v%d", i), Alts: []AT{{Builtin: "uint8"}, {Builtin: "string"}, {Builtin: "name", Opt: true}}})
							if i > 0 && r.Chance(1, 2) {
								x.Alts = append(x.Alts, AT{Def: Pick(r, a.Defs[:i])})
							}
						}
						if r.Chance(1, 4) {
							d.Fields = append(d.Fields, AField{sprintf("f%d", i), AT{Def: x}})
						}
					}
					def(d)
				case 4: // long texts
					n := Scale(r, 3<<20)
					d := def(&ADef{Kind: 's', Name: "long", Fields: []AField{{"a", AT{Builtin: "string"}}, {"b", AT{Builtin: "bytes"}}, {"c", AT{Builtin: "uint64"}}}})
					s, b := string(bytes.Repeat(r.Bytes(1+r.N(97)), n/90+1)), r.Bytes(n)
					k := ACase{Type: AT{Def: d}, Enc: cat(refStr(s), RefVaruint(uint64(n)), b, le(77, 8))}
					k.In = map[string]interface{}{"a": s, "b": b, "c": uint64(77)}
					k.Out = map[string]interface{}{"a": s, "b": chain.Bytes(b), "c": chain.Uint64(77)}
					a.render()
					c.Desc("texts of %d and %d", len(s), n)
					c.Distinct("texts", len(s), n, Hex(k.Enc))
					abiRound(c, transport(c, a.Abi), k)
					return
				case 5: // many actions
					for i := 1 + Scale(r, 1500); i > 0; i-- {
						def(&ADef{Kind: 's', Name: sprintf("s%d", i), Fields: []AField{{"a", builtin()}, {sprintf("b%d", i), builtin()}}})
					}
				}
				a.g.NoBig = true
				a.render()
				ab := transport(c, a.Abi)
				c.Desc("%d definitions", len(a.Defs))
				k := top()
				c.Distinct("definitions", len(a.Defs), Hex(k.Enc))
				abiRound(c, ab, k)
				for i := 0; i < 3; i++ {
					abiRound(c, ab, a.CaseOf(AT{Def: Pick(r, a.Defs)}))
					act := Pick(r, ab.Actions)
					k := a.CaseOf(a.Actions[act.Name])
					var b bytes.Buffer
					if err := ab.EncodeAction(&b, act.Name, k.In); err != nil || !bytes.Equal(b.Bytes(), k.Enc) {
						c.Fail("EncodeAction %d: %v, got %s want %s", uint64(act.Name), err, Hex(b.Bytes()), Hex(k.Enc))
					}
					v, err := ab.DecodeAction(bytes.NewReader(k.Enc), act.Name)
					if err != nil {
						c.Fail("DecodeAction %d: %v", uint64(act.Name), err)
					}
					if d := DynDiff(v, k.Out, ""); d != "" {
						c.Fail("DecodeAction %d differs: %s", uint64(act.Name), d)
					}
				}
			}},
			{"deep", 60, 1000, func(c *C) {
				// recursion through optionals, arrays and variants some hundred levels deep
				ab := chain.Abi{Structs: []chain.AbiStruct{{Name: "node", Fields: []chain.AbiField{{Name: "v", Type: "uint16"}, {Name: "next", Type: "node?"}, {Name: "kids", Type: "node[]"}, {Name: "alt", Type: "alt[]"}}}},
					Variants: []chain.AbiVariant{{Name: "alt", Types: []string{"string", "node"}}}}
				var in interface{}
				var enc []byte
				depth := Pick(c.R, []int{1, 10, 50, 100, 300, 800})
				for i := 0; i < depth; i++ {
					m := map[string]interface{}{"v": uint16(i), "next": nil, "kids": []interface{}{}, "alt": []interface{}{}}
					e := le(uint64(uint16(i)), 2)
					if in == nil {
						e = append(e, 0, 0, 0)
					} else {
						switch c.R.N(3) {
						case 0:
							m["next"] = in
							e = cat(e, []byte{1}, enc, []byte{0, 0})
						case 1:
							m["kids"] = []interface{}{in}
							e = cat(e, []byte{0, 1}, enc, []byte{0})
						case 2:
							m["alt"] = []interface{}{[]interface{}{"node", in}}
							e = cat(e, []byte{0, 0, 1, 1}, enc)
						}
					}
					in, enc = m, e
				}
				c.Distinct("deep", depth, len(enc))
				abiRound(c, ab, ACase{Type: AT{Def: &ADef{Name: "node"}}, In: in, Out: in, Enc: enc})
			}},
		}})
}

// edit changes the model and the ABI alike; "" if it had no luck.
func (a *AGen) edit(ab *chain.Abi, r *R) string {
	str := func(d *ADef) *chain.AbiStruct {
		for i := range ab.Structs {
			if ab.Structs[i].Name == d.Name {
				return &ab.Structs[i]
			}
		}
		panic("edit: no struct")
	}
	other := func(b string) string {
		for {
			if n := Pick(r, abiBuiltins); n != b {
				return n
			}
		}
	}
	d := Pick(r, a.Defs)
	switch d.Kind {
	case 's':
		s := str(d)
		switch r.N(5) {
		case 0, 1: // another type
			if len(d.Fields) == 0 {
				return ""
			}
			i := r.N(len(d.Fields))
			if d.Fields[i].T.Def != nil {
				return ""
			}
			d.Fields[i].T.Builtin = other(d.Fields[i].T.Builtin)
			s.Fields[i].Type = d.Fields[i].T.String()
			return "field type of " + d.Name
		case 2:
			if len(d.Fields) == 0 {
				return ""
			}
			i := r.N(len(d.Fields))
			d.Fields[i].Name = fmt.Sprintf("renamed_%d", r.N(1e9)) // derived structs have other names
			s.Fields[i].Name = d.Fields[i].Name
			return "field name of " + d.Name
		case 3:
			for _, f := range d.allFields() {
				if f.T.Ext {
					return ""
				}
			}
			f := AField{fmt.Sprintf("added_%d_%d", len(d.Fields), r.N(1e9)), AT{Builtin: Pick(r, abiBuiltins), Opt: r.Chance(1, 4), Array: r.Chance(1, 4)}}
			d.Fields = append(d.Fields, f)
			s.Fields = append(s.Fields, chain.AbiField{Name: f.Name, Type: f.T.String()})
			return "field added to " + d.Name
		case 4:
			if d.Base == nil || len(d.Fields) == 0 || d.Fields[0].T.Def != nil { // something is left
				return ""
			}
			d.Base, d.BaseAs = nil, ""
			s.Base = ""
			return "base of " + d.Name
		}
	case 'v':
		i, j := r.N(len(d.Alts)), r.N(len(d.Alts))
		if i == j || d.Alts[i].Def != nil || d.Alts[j].Def != nil {
			return ""
		}
		for k := range ab.Variants {
			if v := &ab.Variants[k]; v.Name == d.Name {
				d.Alts[i], d.Alts[j] = d.Alts[j], d.Alts[i]
				v.Types[i], v.Types[j] = v.Types[j], v.Types[i]
				return "alternatives of " + d.Name
			}
		}
	case 'a':
		if d.Target.Def != nil {
			return ""
		}
		for k := range ab.Types {
			if ab.Types[k].NewTypeName == d.Name {
				d.Target.Builtin = other(d.Target.Builtin)
				ab.Types[k].Type = d.Target.String()
				return "alias " + d.Name
			}
		}
	}
	if len(ab.Actions) > 0 {
		act := Pick(r, ab.Actions)
		for k := range ab.Actions {
			if ab.Actions[k].Name == act.Name {
				a.Actions[act.Name] = AT{Def: d}
				ab.Actions[k].Type = d.Name
				return "type of an action"
			}
		}
	}
	return ""
}
