package h

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"runtime/metrics"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"
)

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// memory a decode of n bytes may allocate in total
func allocBound(n int) uint64 { return 8<<20 + 128<<10*uint64(n) }

// plainReader hides everything but Read.
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

var hugeLens = [][]byte{
	RefVaruint(1<<32 - 1), RefVaruint(1 << 31), RefVaruint(1<<31 - 1), RefVaruint(1 << 30), RefVaruint(1 << 28), RefVaruint(1 << 24), RefVaruint(1 << 20), RefVaruint(100000),
	RefVaruint(1 << 32), RefVaruint(1 << 35), RefVaruint(1 << 63), RefVaruint(1<<63 - 1), RefVaruint(1<<64 - 1),
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00}, bytes.Repeat([]byte{0xff}, 20),
}

// mutate damages an encoding.
func mutate(r *R, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.N(4); n > 0; n-- {
		pos := 0
		if len(b) > 0 {
			pos = r.N(len(b))
			if r.Chance(1, 3) { // structure is near the start
				pos = r.N(min(len(b), 24))
			}
		}
		if v, ok := r.word(); ok {
			w := RefVaruint(v & 0xffffffff)
			if r.Chance(1, 2) {
				w = le(v, 1<<r.N(4))
			}
			b = append(b[:pos:pos], append(w, b[min(len(b), pos+r.N(2)*len(w)):]...)...)
			continue
		}
		switch r.N(9) {
		case 0:
			if len(b) > 0 {
				b[pos] ^= 1 << uint(r.N(8))
			}
		case 1:
			if len(b) > 0 {
				b[pos] = Pick(r, []byte{0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff})
			}
		case 2:
			if len(b) > 0 {
				b[pos] = byte(r.N(256))
			}
		case 3:
			b = b[:pos]
		case 4:
			b = append(b[:pos:pos], append(r.Bytes(1+r.N(6)), b[pos:]...)...)
		case 5:
			if len(b) > 0 {
				e := pos + 1 + r.N(min(8, len(b)-pos))
				b = append(b[:pos:pos], b[min(e, len(b)):]...)
			}
		case 6, 7: // a length becomes huge
			h := Pick(r, hugeLens)
			rest := b[pos:]
			if len(rest) > 0 {
				rest = rest[1:]
			}
			b = append(b[:pos:pos], append(append([]byte{}, h...), rest...)...)
		case 8: // part of it twice
			if len(b) > 0 {
				e := min(len(b), pos+1+r.N(16))
				b = append(b[:e:e], append(append([]byte{}, b[pos:e]...), b[e:]...)...)
			}
		}
	}
	return b
}

// hostile makes an input from a valid encoding or out of nothing.
func hostile(r *R, valid []byte) []byte {
	switch r.N(10) {
	case 0:
		return r.Bytes(r.N(200))
	case 1:
		return bytes.Repeat([]byte{Pick(r, []byte{0, 1, 2, 0x7f, 0x80, 0xff})}, r.N(400))
	case 2:
		b := r.Bytes(r.N(100))
		for i := range b { // small numbers keep parsers going
			b[i] &= 3
		}
		return b
	case 3:
		return append(append([]byte{}, Pick(r, hugeLens)...), r.Bytes(r.N(60))...)
	}
	return mutate(r, valid)
}

// render walks a value and calls everything that turns part of it into text, none may panic.
func render(c *C, v reflect.Value, n *int, what string) {
	if !v.IsValid() || *n > 3000 {
		return
	}
	*n++
	if v.CanInterface() && !((v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface || v.Kind() == reflect.Map) && v.IsNil()) {
		i := v.Interface()
		if v.Kind() != reflect.Ptr && v.CanAddr() {
			i = v.Addr().Interface()
		}
		c.Desc("rendering a %T in %s", i, what)
		if s, ok := i.(fmt.Stringer); ok {
			_ = s.String()
			c.Event("texts rendered", 1)
		}
		if s, ok := i.(encoding.TextMarshaler); ok {
			s.MarshalText()
			c.Event("texts rendered", 1)
		}
		if s, ok := i.(json.Marshaler); ok {
			s.MarshalJSON()
		}
		switch x := i.(type) {
		case *chain.Symbol:
			x.Name()
			x.Decimals()
			x.Code()
		case *chain.PublicKey:
			if x.Type == chain.K1 {
				x.LegacyString("EOS")
			}
		case *chain.Asset:
			x.FloatValue()
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		render(c, v.Elem(), n, what)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			render(c, v.Field(i), n, what)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			render(c, v.Index(i), n, what)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			for _, x := range []reflect.Value{k, v.MapIndex(k)} {
				if x.IsValid() {
					p := reflect.New(x.Type()).Elem()
					p.Set(x)
					render(c, p, n, what)
				}
			}
		}
	}
}

func renderTop(c *C, p interface{}) {
	n := 0
	render(c, reflect.ValueOf(p), &n, c.desc)
	c.Desc("json of %T", p)
	json.Marshal(p)
	c.Desc("printing %T", p)
	if s := fmt.Sprintf("%v %+v", p, p); strings.Contains(s, "(PANIC=") {
		c.Fail("formatting panics: %s", tail(s, 500))
	}
	c.Event("values rendered", 1)
}

// hostileDecode decodes any bytes into a fresh value of t, watching allocation.
func hostileDecode(c *C, t reflect.Type, data []byte) {
	c.Desc("decoding %s from %s", t, Hex(data))
	var r io.Reader = bytes.NewReader(data)
	if c.R.Chance(1, 2) {
		r = plainReader{r}
	}
	p := reflect.New(t)
	d := decoders[0]
	if c.R.Chance(1, 4) {
		d = Pick(c.R, decoders)
	}
	before := allocated()
	err := d.mk(r).Decode(p.Interface())
	used := allocated() - before
	if b := allocBound(len(data)); used > b {
		c.Fail("%d bytes allocated for %d bytes of data (limit %d)", used, len(data), b)
	}
	c.DistinctBytes(t.String(), data)
	if err != nil {
		c.Event("hostile decodes refused", 1)
		return
	}
	c.Event("hostile decodes accepted", 1)
	renderTop(c, p.Interface())
}

func hostileAbi(c *C, ab chain.Abi, name string, data []byte) {
	c.Desc("decoding %q from %s of %s", name, Hex(data), tail(abiDoc(ab), 1500))
	before := allocated()
	v, err := ab.Decode(plainReader{bytes.NewReader(data)}, name)
	used := allocated() - before
	if b := allocBound(len(data)); used > b {
		c.Fail("%d bytes allocated for %d bytes of data (limit %d)", used, len(data), b)
	}
	c.DistinctBytes(name+abiDoc(ab), data)
	if err != nil {
		c.Event("hostile ABI decodes refused", 1)
		return
	}
	c.Event("hostile ABI decodes accepted", 1)
	renderTop(c, &v)
}

// lists of things that can be absent at the end of the data
type ExtOnly struct {
	A uint8  `eosio:"extension"`
	B string `eosio:"extension"`
}
type ExtList struct {
	L []ExtOnly
	M map[string][]ExtOnly
	N []*ExtOnly
}

var hostileTypes = append([]reflect.Type{reflect.TypeOf(ExtList{}), reflect.TypeOf([]ExtOnly{})}, UserTypes...)

type RecPtr struct {
	N *[]RecPtr `eosio:"optional"`
}
type RecVar struct {
	V struct {
		A *uint8
		B *RecVar
		C *[]RecVar
	} `eosio:"variant"`
}
type RecMapS struct {
	M map[string]RecMapS
}
type RecArr struct {
	A [2]*RecOpt
}
type RecOpt struct {
	O *RecArr `eosio:"optional"`
}

var deepTypes = []reflect.Type{reflect.TypeOf(RecSlice{}), reflect.TypeOf(RecMap{}), reflect.TypeOf(Tree{}), reflect.TypeOf(RecStruct{}), reflect.TypeOf(RecPtr{}), reflect.TypeOf(RecVar{}), reflect.TypeOf(RecMapS{}), reflect.TypeOf(RecArr{}), reflect.TypeOf(VarHolder{})}

var deepPatterns = [][]byte{{1}, {1, 0}, {0, 0, 1}, {0, 0, 0, 1}, {1, 1}, {1, 2}, {2, 1}, {2}, {1, 0, 1}, {1, 1, 'a'}, {0, 1}, {0, 3, 1}, {1, 3, 1}, {5, 3, 2}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x04}, {2, 1, 1}}

var deepAbi = chain.Abi{
	Types: []chain.AbiType{{NewTypeName: "nodes", Type: "node[]"}, {NewTypeName: "mn", Type: "node?"}},
	Structs: []chain.AbiStruct{
		{Name: "node", Fields: []chain.AbiField{{Name: "kids", Type: "node[]"}}},
		{Name: "opt", Fields: []chain.AbiField{{Name: "o", Type: "opt?"}}},
		{Name: "viaalias", Fields: []chain.AbiField{{Name: "o", Type: "nodes"}, {Name: "m", Type: "mn"}}},
		{Name: "vs", Fields: []chain.AbiField{{Name: "v", Type: "var"}}},
		{Name: "e", Fields: []chain.AbiField{}},
		{Name: "es", Fields: []chain.AbiField{{Name: "l", Type: "e[]"}, {Name: "m", Type: "es[]"}}},
	},
	Variants: []chain.AbiVariant{{Name: "var", Types: []string{"uint8", "vs", "vs[]", "vs?"}}, {Name: "selfvar", Types: []string{"selfvar[]", "selfvar?"}}},
}

func init() {
	Register(&Prop{ID: "C05", MinEvents: 10000,
		Rule:        "a case is one byte string (random, damaged valid encoding, huge claimed lengths, deep nesting) decoded into one target with allocation measured before and after; accepted values are rendered as text and JSON; non-trivial if target and bytes are new",
		Assumptions: []string{"allocation is measured with the runtime's heap counters; the bound is 32 MiB plus 128 KiB per input byte, far above what decoding needs and far below what claimed lengths allow; for large valid data 32 MiB plus 64 (byte strings) to 4096 (dynamic lists) bytes per byte", "a decode that uses 60 s of CPU time counts as not terminating"},
		Cats: []Category{
			{"leaves", 25000, 800000, func(c *C) {
				l := Leaves[c.Idx%len(Leaves)]
				g := NewG(c.R)
				g.NoBig = true
				hostileDecode(c, l.RT, hostile(c.R, l.Ref(g.Value(l.RT).Interface())))
			}},
			{"claims", 4000, 60000, func(c *C) {
				// huge claims right where a length is expected
				l := Leaves[c.Idx%len(Leaves)]
				t := l.RT
				h := Pick(c.R, hugeLens)
				var data []byte
				switch l.Name {
				case "Action":
					data = cat(make([]byte, 16), h, c.R.Bytes(c.R.N(40)))
					if c.R.Chance(1, 2) {
						data = cat(make([]byte, 16), []byte{0}, h, c.R.Bytes(c.R.N(40)))
					}
				case "Transaction":
					data = cat(make([]byte, 13), make([]byte, c.R.N(4)), h, c.R.Bytes(c.R.N(60)))
				case "PublicKey":
					data = cat([]byte{2}, c.R.Bytes(34), h, c.R.Bytes(c.R.N(60)))
				case "Signature":
					data = cat([]byte{2}, c.R.Bytes(65), h, c.R.Bytes(c.R.N(60)))
					if c.R.Chance(1, 2) {
						data = cat([]byte{2}, c.R.Bytes(65), []byte{3, 1, 2, 3}, h, c.R.Bytes(c.R.N(60)))
					}
				case "Abi":
					data = cat([]byte{1, 'v'}, make([]byte, c.R.N(9)), h, c.R.Bytes(c.R.N(60)))
				case "TransactionExtension":
					data = cat(make([]byte, 2), h, c.R.Bytes(c.R.N(20)))
				default:
					if l.Min > 1 || c.R.Chance(1, 2) { // list or map of them
						t = reflect.SliceOf(t)
						if c.R.Chance(1, 3) {
							t = reflect.MapOf(LeafByName["uint8"].RT, l.RT)
						} else if c.R.Chance(1, 3) {
							t = reflect.SliceOf(reflect.ArrayOf(64, l.RT))
						} else if c.R.Chance(1, 3) {
							t = reflect.SliceOf(reflect.PointerTo(l.RT))
						}
					}
					data = cat(h, c.R.Bytes(c.R.N(60)))
				}
				hostileDecode(c, t, data)
			}},
			{"user types", 6000, 150000, func(c *C) {
				t := hostileTypes[c.Idx%len(hostileTypes)]
				g := NewG(c.R)
				g.NoBig, g.Budget = true, 800
				hostileDecode(c, t, hostile(c.R, Ref(g.Value(t), nil)))
			}},
			{"random types", 8000, 200000, func(c *C) {
				t := RandTop(c.R, 1+c.Idx%3)
				g := NewG(c.R)
				g.NoBig, g.Budget = true, 800
				v := Ref(g.Value(t), nil)
				for i := 0; i < 3; i++ {
					hostileDecode(c, t, hostile(c.R, v))
				}
			}},
			{"abi types", 6000, 150000, func(c *C) {
				a := NewAGen(c.R)
				a.g.NoBig = true
				for i := 0; i < 4; i++ {
					k := a.Case()
					hostileAbi(c, a.Abi, k.Type.String(), hostile(c.R, k.Enc))
				}
			}},
			{"abi builtins", 3000, 60000, func(c *C) {
				n := abiBuiltins[c.Idx%len(abiBuiltins)]
				a := &AGen{g: NewG(c.R)}
				a.g.NoBig = true
				k := a.CaseOf(AT{Builtin: n, Array: c.R.Chance(1, 3), Opt: c.R.Chance(1, 3)})
				hostileAbi(c, chain.Abi{}, k.Type.String(), hostile(c.R, k.Enc))
			}},
			{"deep", 360, 4000, func(c *C) {
				t := deepTypes[c.Idx%len(deepTypes)]
				pat := deepPatterns[(c.Idx/len(deepTypes))%len(deepPatterns)]
				n := Pick(c.R, []int{100, 5000, 9000, 12000, 40000, 200000, 1000000})
				if pat[0] > 2 && n > 12000 {
					n = 12000
				}
				data := bytes.Repeat(pat, n)
				switch c.R.N(3) {
				case 0:
					data = append(data, make([]byte, n*2)...) // may end well
				case 1:
					data = append(data, c.R.Bytes(10)...)
				}
				hostileDecode(c, t, data)
			}},
			{"deep abi", 360, 4000, func(c *C) {
				names := []string{"node", "opt", "viaalias", "vs", "es", "var", "selfvar", "nodes", "mn", "node[]", "opt?", "var[]"}
				name := names[c.Idx%len(names)]
				pat := deepPatterns[(c.Idx/len(names))%len(deepPatterns)]
				n := Pick(c.R, []int{100, 3000, 9000, 12000, 40000, 200000, 1000000})
				if pat[0] > 2 && n > 12000 {
					n = 12000
				}
				data := bytes.Repeat(pat, n)
				if c.R.Chance(1, 2) {
					data = append(data, make([]byte, n*2)...)
				}
				hostileAbi(c, deepAbi, name, data)
			}},
			{"large honest data", 24, 120, func(c *C) {
				// linear in the data, no matter how much there is
				var enc []byte
				var t reflect.Type
				name := ""
				factor := uint64(64)
				n := (8 + c.R.N(16)) << 20
				k := 200000 + c.R.N(200000)
				switch c.Idx % 12 {
				case 0:
					t, enc = reflect.TypeOf(""), cat(RefVaruint(uint64(n)), make([]byte, n))
				case 1:
					t, enc = reflect.TypeOf([]byte{}), cat(RefVaruint(uint64(n)), make([]byte, n))
				case 2:
					t, enc = reflect.TypeOf(chain.Bytes{}), cat(RefVaruint(uint64(n)), make([]byte, n))
				case 3:
					t, enc = reflect.TypeOf(chain.PublicKey{}), cat([]byte{2}, make([]byte, 34), RefVaruint(uint64(n)), make([]byte, n))
				case 4:
					t, enc = reflect.TypeOf(chain.Action{}), cat(make([]byte, 17), RefVaruint(uint64(n)), make([]byte, n))
				case 5:
					name, enc = "bytes", cat(RefVaruint(uint64(n)), make([]byte, n))
				case 6:
					name, enc = "string", cat(RefVaruint(uint64(n)), make([]byte, n))
				case 7:
					t, enc, factor = reflect.TypeOf([]uint16{}), cat(RefVaruint(uint64(k)), make([]byte, k*2)), 1024
				case 8:
					t, enc, factor = reflect.TypeOf([]string{}), cat(RefVaruint(uint64(k)), make([]byte, k)), 1024
				case 9:
					t, enc, factor = reflect.TypeOf(chain.Action{}), cat(make([]byte, 16), RefVaruint(uint64(k)), make([]byte, k*16), []byte{0}), 1024
				case 10:
					name, enc, factor = "uint8[]", cat(RefVaruint(uint64(k)), make([]byte, k)), 4096
				case 11:
					t, enc, factor = reflect.TypeOf(chain.Transaction{}), cat(make([]byte, 13), []byte{0}, RefVaruint(uint64(k)), make([]byte, k*18), []byte{0}), 1024
				}
				c.Desc("%v%s from %d bytes", t, name, len(enc))
				c.Distinct(c.Idx%12, len(enc))
				r := bytes.NewReader(enc)
				before := allocated()
				var err error
				if name != "" {
					_, err = chain.Abi{}.Decode(r, name)
				} else {
					err = chain.NewDecoder(r).Decode(reflect.New(t).Interface())
				}
				used := allocated() - before
				c.Event("large decodes", 1)
				if err != nil || r.Len() != 0 {
					c.Fail("decoding %v%s from %d bytes: %v, %d left", t, name, len(enc), err, r.Len())
				}
				if b := 32<<20 + factor*uint64(len(enc)); used > b {
					c.Fail("%d bytes allocated for %d bytes of data (limit %d)", used, len(enc), b)
				}
			}},
			{"into", 1500, 40000, func(c *C) {
				// through the helpers of an action
				l := Leaves[c.Idx%len(Leaves)]
				g := NewG(c.R)
				g.NoBig = true
				a := chain.Action{Data: hostile(c.R, l.Ref(g.Value(l.RT).Interface()))}
				c.Desc("DecodeInto %s from %s", l.Name, Hex(a.Data))
				c.DistinctBytes("into"+l.Name, a.Data)
				p := reflect.New(l.RT)
				if a.DecodeInto(p.Interface()) == nil {
					renderTop(c, p.Interface())
				}
				ab := chain.Abi{Actions: []chain.AbiAction{{Name: 1, Type: "s"}}, Structs: []chain.AbiStruct{{Name: "s", Fields: []chain.AbiField{{Name: "a", Type: Pick(c.R, abiBuiltins)}, {Name: "b", Type: Pick(c.R, abiBuiltins) + "[]"}}}}}
				a.Name = 1
				c.Desc("Action.Decode %s with %s", Hex(a.Data), abiDoc(ab))
				if m, err := a.Decode(&ab); err == nil {
					renderTop(c, &m)
				}
				a.Digest()
				c.Event("action decodes", 2)
			}},
		}})
}
