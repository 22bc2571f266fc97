package h

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

var sprintf = fmt.Sprintf

// encodeAll encodes v by value and by pointer with every encoder and compares with want.
func encodeAll(c *C, v reflect.Value, want []byte) {
	for _, e := range encoders {
		for _, byPtr := range []bool{false, true} {
			var b bytes.Buffer
			arg := v.Interface()
			if byPtr {
				arg = ptrTo(v)
			}
			err := e.mk(&b).Encode(arg)
			c.Event("encodes", 1)
			if err != nil {
				c.Fail("%s encoder (pointer %v) failed on %s %s: %v", e.name, byPtr, v.Type(), short(v.Interface()), err)
			}
			if !bytes.Equal(b.Bytes(), want) {
				c.Fail("%s encoder (pointer %v) on %s %s: got %s want %s", e.name, byPtr, v.Type(), short(v.Interface()), Hex(b.Bytes()), Hex(want))
			}
		}
	}
}

var varBases = []int64{}

func init() {
	for k := uint(0); k <= 33; k++ {
		for d := int64(-3); d <= 3; d++ {
			varBases = append(varBases, int64(1)<<k+d)
		}
	}
	varBases = append(varBases, math.MaxInt64, math.MaxInt64-1, 1<<40, 1<<62)

	// the writer methods that custom marshalers use
	type wm struct {
		name string
		call func(e *abi.Encoder, g *G) (err error, want []byte)
	}
	writers := []wm{
		{"WriteBool", func(e *abi.Encoder, g *G) (error, []byte) {
			v := g.R.Chance(1, 2)
			return e.WriteBool(v), LeafByName["bool"].Ref(v)
		}},
		{"WriteByte", func(e *abi.Encoder, g *G) (error, []byte) { v := uint8(g.U(8)); return e.WriteByte(v), []byte{v} }},
		{"WriteBytes", func(e *abi.Encoder, g *G) (error, []byte) { v := g.R.Bytes(g.Len()); return e.WriteBytes(v), v }},
		{"WriteUint8", func(e *abi.Encoder, g *G) (error, []byte) { v := uint8(g.U(8)); return e.WriteUint8(v), []byte{v} }},
		{"WriteUint16", func(e *abi.Encoder, g *G) (error, []byte) {
			v := uint16(g.U(16))
			return e.WriteUint16(v), le(uint64(v), 2)
		}},
		{"WriteUint32", func(e *abi.Encoder, g *G) (error, []byte) {
			v := uint32(g.U(32))
			return e.WriteUint32(v), le(uint64(v), 4)
		}},
		{"WriteUint64", func(e *abi.Encoder, g *G) (error, []byte) { v := g.U(64); return e.WriteUint64(v), le(v, 8) }},
		{"WriteInt8", func(e *abi.Encoder, g *G) (error, []byte) { v := int8(g.U(8)); return e.WriteInt8(v), []byte{byte(v)} }},
		{"WriteInt16", func(e *abi.Encoder, g *G) (error, []byte) {
			v := int16(g.U(16))
			return e.WriteInt16(v), le(uint64(v), 2)
		}},
		{"WriteInt32", func(e *abi.Encoder, g *G) (error, []byte) {
			v := int32(g.U(32))
			return e.WriteInt32(v), le(uint64(v), 4)
		}},
		{"WriteInt64", func(e *abi.Encoder, g *G) (error, []byte) {
			v := int64(g.U(64))
			return e.WriteInt64(v), le(uint64(v), 8)
		}},
		{"WriteFloat32", func(e *abi.Encoder, g *G) (error, []byte) {
			v := g.F32()
			return e.WriteFloat32(v), le(uint64(math.Float32bits(v)), 4)
		}},
		{"WriteFloat64", func(e *abi.Encoder, g *G) (error, []byte) {
			v := g.F64()
			return e.WriteFloat64(v), le(math.Float64bits(v), 8)
		}},
		{"WriteVaruint", func(e *abi.Encoder, g *G) (error, []byte) {
			v := uint(g.Var32())
			return e.WriteVaruint(v), RefVaruint(uint64(v))
		}},
		{"WriteVarint", func(e *abi.Encoder, g *G) (error, []byte) {
			v := int(int32(g.Var32()))
			return e.WriteVarint(v), RefVarint(int64(v))
		}},
		{"WriteString", func(e *abi.Encoder, g *G) (error, []byte) { v := g.Str(); return e.WriteString(v), refStr(v) }},
	}

	sizes := []int{1<<14 - 1, 1 << 14, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1 << 21, 1<<21 + 1, 3<<20 + 7, 1<<24 + 1, 36<<20 + 5}

	Register(&Prop{ID: "C01", MinEvents: 10000,
		Rule: "a case is one generated value of one type (all leaf types in turn, boundary-biased), encoded by value and by pointer with three encoders and compared byte for byte with the reference encoder; non-trivial if its encoding is new",
		Cats: []Category{
			{"values", 12000, 400000, func(c *C) {
				g := NewG(c.R)
				l := Leaves[c.Idx%len(Leaves)]
				v := g.Value(l.RT)
				want := l.Ref(v.Interface())
				c.DistinctBytes(l.Name, want)
				c.Sample("%s %s -> %s", l.Name, short(v.Interface()), Hex(want))
				encodeAll(c, v, want)
			}},
			{"varints", len(varBases), len(varBases), func(c *C) {
				b := varBases[c.Idx]
				for _, x := range []int64{b, -b, -b - 1} {
					ok := x >= math.MinInt32 && x <= math.MaxInt32
					if int64(int(x)) == x { // it may not fit, on a 32-bit platform
						got, err := Encode(int(x))
						c.Event("varint writes", 1)
						if ok && (err != nil || !bytes.Equal(got, RefVarint(x))) {
							c.Fail("varint %d: got %x, %v want %x", x, got, err, RefVarint(x))
						}
						if !ok && err == nil {
							c.Fail("varint %d is out of range but was encoded as %x", x, got)
						}
					}
					if x < 0 || uint64(uint(x)) != uint64(x) {
						continue
					}
					ok = x <= math.MaxUint32
					got, err := Encode(uint(x))
					c.Event("varuint writes", 1)
					if ok && (err != nil || !bytes.Equal(got, RefVaruint(uint64(x)))) {
						c.Fail("varuint %d: got %x, %v want %x", x, got, err, RefVaruint(uint64(x)))
					}
					if !ok && err == nil {
						c.Fail("varuint %d is out of range but was encoded as %x", x, got)
					}
					c.Distinct("varint", x)
				}
				if got, err := Encode(^uint(0)); err == nil && ^uint(0)>>32 != 0 {
					c.Fail("varuint 2^64-1 is out of range but was encoded as %x", got)
				}
				// the same in a field of a transaction
				if b >= 0 && uint64(uint(b)) == uint64(b) {
					h := chain.TransactionHeader{MaxNetUsageWords: uint(b), DelaySec: uint(b)}
					got, err := Encode(h)
					if b <= math.MaxUint32 {
						if err != nil || !bytes.Equal(got, refHeader(h)) {
							c.Fail("transaction header with net words and delay %d: got %x, %v want %x", b, got, err, refHeader(h))
						}
					} else if err == nil {
						c.Fail("transaction header with net words %d was encoded as %x", b, got)
					}
				}
			}},
			{"writers", 3000, 100000, func(c *C) {
				g := NewG(c.R)
				w := writers[c.Idx%len(writers)]
				var b bytes.Buffer
				err, want := w.call(encoders[c.R.N(3)].mk(&b), g)
				c.Event("writer calls", 1)
				c.DistinctBytes(w.name, want)
				if err != nil || !bytes.Equal(b.Bytes(), want) {
					c.Fail("%s: got %s, %v want %s", w.name, Hex(b.Bytes()), err, Hex(want))
				}
			}},
			{"long", len(sizes) * 4, len(sizes) * 4, func(c *C) {
				n := sizes[c.Idx/4]
				d := c.R.Bytes(n)
				var v interface{}
				switch c.Idx % 4 {
				case 0:
					v = string(d)
				case 1:
					v = chain.Bytes(d)
				case 2:
					v = d
				case 3:
					v = chain.Action{Account: 1, Name: 2, Data: d, Authorization: []chain.PermissionLevel{{Actor: 3, Permission: 4}}}
				}
				want := Ref(reflect.ValueOf(v), nil)
				c.DistinctBytes("long", want)
				encodeAll(c, reflect.ValueOf(v), want)
			}},
			{"longlists", 20, 60, func(c *C) {
				n := Pick(c.R, []int{127, 128, 129, 255, 256, 257, 16383, 16384, 16385, 65535, 65536, 65537})
				if c.Idx == 0 {
					n = 1<<20 + 1
				}
				auth := make([]chain.PermissionLevel, n)
				for i := range auth {
					auth[i] = chain.PermissionLevel{Actor: chain.Name(c.R.Uint64()), Permission: chain.Name(c.R.Uint64())}
				}
				a := chain.Action{Account: 1, Name: 2, Authorization: auth, Data: chain.Bytes{1}}
				tx := chain.Transaction{Actions: []chain.Action{a}, Extensions: make([]chain.TransactionExtension, n/2), ContextFreeActions: make([]chain.Action, n/3)}
				want := refTx(tx)
				c.DistinctBytes("lists", want)
				encodeAll(c, reflect.ValueOf(tx), want)
			}},
		}})

	roundTrip := func(c *C, t reflect.Type, v reflect.Value, enc []byte, dec int, reenc bool) {
		trail := c.R.Bytes(c.R.N(20))
		data := append(append([]byte{}, enc...), trail...)
		r := bytes.NewReader(data)
		p := reflect.New(t)
		err := decoders[dec].mk(r).Decode(p.Interface())
		c.Event("decodes", 1)
		if err != nil {
			c.Fail("decoding %s from %s failed: %v (value %s)", t, Hex(enc), err, short(v.Interface()))
		}
		if used := len(data) - r.Len(); used != len(enc) {
			c.Fail("decoding %s consumed %d bytes of an encoding of %d: %s", t, used, len(enc), Hex(enc))
		}
		if d := diff(p.Elem(), v, ""); d != "" {
			c.Fail("%s decoder: decoded %s differs: %s (data %s)", decoders[dec].name, t, d, Hex(enc))
		}
		if reenc {
			var b bytes.Buffer
			if err := encoders[dec].mk(&b).Encode(p.Interface()); err != nil || !bytes.Equal(b.Bytes(), enc) {
				c.Fail("re-encoding decoded %s gives %s, %v instead of %s", t, Hex(b.Bytes()), err, Hex(enc))
			}
		}
	}

	Register(&Prop{ID: "C02", MinEvents: 10000,
		Rule: "a case is one generated value, encoded by the library and by the reference, followed by random trailing bytes and decoded with each decoder; value, bytes consumed and the re-encoding are compared; non-trivial if its encoding is new",
		Cats: []Category{
			{"values", 12000, 400000, func(c *C) {
				g := NewG(c.R)
				l := Leaves[c.Idx%len(Leaves)]
				v := g.Value(l.RT)
				enc, err := Encode(v.Interface())
				if err != nil {
					c.Fail("encoding %s failed: %v", l.Name, err)
				}
				ref := l.Ref(v.Interface())
				c.DistinctBytes(l.Name, ref)
				c.Sample("%s %s <-> %s", l.Name, short(v.Interface()), Hex(ref))
				for d := range decoders {
					roundTrip(c, l.RT, v, enc, d, true)
				}
				if !bytes.Equal(enc, ref) { // canonical bytes must decode too
					roundTrip(c, l.RT, v, ref, 0, true)
				}
			}},
			{"varints", len(varBases), len(varBases), func(c *C) {
				for _, x := range []int64{varBases[c.Idx], -varBases[c.Idx]} {
					if x >= math.MinInt32 && x <= math.MaxInt32 {
						roundTrip(c, reflect.TypeOf(int(0)), reflect.ValueOf(int(x)), RefVarint(x), 0, true)
					}
					if x >= 0 && x <= math.MaxUint32 {
						roundTrip(c, reflect.TypeOf(uint(0)), reflect.ValueOf(uint(x)), RefVaruint(uint64(x)), 0, true)
					}
					c.Distinct("varint", x)
				}
			}},
			{"fixedints", 600, 20000, func(c *C) { // every byte position of every width
				for _, n := range []string{"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "Name", "Asset", "Uint128", "Int128", "Checksum256", "Checksum160", "Checksum512", "Float128"} {
					l := LeafByName[n]
					b := make([]byte, l.Min)
					for i := range b {
						b[i] = byte(c.Idx + i*37)
					}
					b[c.Idx%len(b)] = byte(c.Idx / 2)
					v, used, err := Decode(l.RT, b)
					c.Event("decodes", 1)
					if err != nil || used != len(b) {
						c.Fail("decoding %s from %x: %v, %d bytes used", n, b, err, used)
					}
					if !bytes.Equal(l.Ref(v.Interface()), b) {
						c.Fail("decoding %s from %x gives %s", n, b, short(v.Interface()))
					}
					c.DistinctBytes(n, b)
				}
			}},
			{"similar", 600, 20000, func(c *C) {
				// one decoder for values that differ in a byte or two, as adjacent table rows do
				g := NewG(c.R)
				g.NoBig = true
				l := Pick(c.R, Leaves)
				if c.R.Chance(1, 2) {
					l = LeafByName[Pick(c.R, []string{"string", "Bytes", "Blob", "Name", "PublicKey", "Signature", "Asset", "Action"})]
				}
				base := l.Ref(g.Value(l.RT).Interface())
				if c.R.Chance(1, 2) && l.Name == "string" {
					base = refStr(strings.Repeat("a", Pick(c.R, []int{1, 2, 3, 8, 12, 16, 31, 32, 33, 64, 100, 127})))
				}
				var encs [][]byte
				var vs []reflect.Value
				for try := 0; try < 60 && len(vs) < 12; try++ {
					e := append([]byte{}, base...)
					for n := c.R.N(3); n > 0 && len(e) > 0; n-- {
						e[c.R.N(len(e))] ^= byte(1 << c.R.N(8))
					}
					v, used, err := Decode(l.RT, e)
					if err != nil || used != len(e) {
						continue // not a value
					}
					// alone it has to be what the bytes say
					if !bytes.Equal(l.Ref(v.Interface()), e) {
						continue // not canonical
					}
					encs, vs = append(encs, e), append(vs, v)
				}
				if len(vs) == 0 {
					return
				}
				list := reflect.MakeSlice(reflect.SliceOf(l.RT), 0, 30)
				enc := []byte{}
				for n := 2 + c.R.N(28); n > 0; n-- {
					i := c.R.N(len(vs))
					list, enc = reflect.Append(list, vs[i]), append(enc, encs[i]...)
				}
				c.DistinctBytes("similar"+l.Name, enc)
				c.Event("similar values", list.Len())
				for d := range decoders {
					roundTrip(c, list.Type(), list, append(RefVaruint(uint64(list.Len())), enc...), d, true)
					dec := decoders[d].mk(bytes.NewReader(enc))
					for i := 0; i < list.Len(); i++ {
						p := reflect.New(l.RT)
						if err := dec.Decode(p.Interface()); err != nil {
							c.Fail("value %d of %d %ss in %s: %v", i, list.Len(), l.Name, Hex(enc), err)
						}
						if df := diff(p.Elem(), list.Index(i), ""); df != "" {
							c.Fail("value %d of %d %ss in %s differs: %s", i, list.Len(), l.Name, Hex(enc), df)
						}
					}
				}
			}},
			{"long", len(sizes) * 4, len(sizes) * 4, func(c *C) {
				d := c.R.Bytes(sizes[c.Idx/4])
				var v interface{}
				switch c.Idx % 4 {
				case 0:
					v = string(d)
				case 1:
					v = chain.Blob(d)
				case 2:
					v = d
				case 3:
					v = chain.Action{Account: 1, Name: 2, Data: d, Authorization: []chain.PermissionLevel{{Actor: 3, Permission: 4}}}
				}
				rv := reflect.ValueOf(v)
				enc := Ref(rv, nil)
				c.DistinctBytes("long", enc)
				roundTrip(c, rv.Type(), rv, enc, c.R.N(3), true)
			}},
			{"longlists", 20, 60, func(c *C) {
				n := Pick(c.R, []int{127, 128, 129, 255, 256, 257, 16383, 16384, 16385, 65535, 65536, 65537})
				if c.Idx == 0 {
					n = 1<<20 + 1
				}
				auth := make([]chain.PermissionLevel, n)
				for i := range auth {
					auth[i] = chain.PermissionLevel{Actor: chain.Name(c.R.Uint64()), Permission: chain.Name(c.R.Uint64())}
				}
				tx := chain.Transaction{Actions: []chain.Action{{Account: 1, Name: 2, Authorization: auth, Data: chain.Bytes{1}}},
					Extensions: make([]chain.TransactionExtension, n/2), ContextFreeActions: make([]chain.Action, n/3)}
				enc := refTx(tx)
				c.DistinctBytes("lists", enc)
				roundTrip(c, reflect.TypeOf(tx), reflect.ValueOf(tx), enc, c.R.N(3), true)
				ns := make([]chain.Name, n)
				ss := make([]string, n)
				for i := range ns {
					ns[i] = chain.Name(c.R.Uint64())
					ss[i] = strings.Repeat("x", c.R.N(3))
				}
				roundTrip(c, reflect.TypeOf(ns), reflect.ValueOf(ns), Ref(reflect.ValueOf(ns), nil), c.R.N(3), true)
				roundTrip(c, reflect.TypeOf(ss), reflect.ValueOf(ss), Ref(reflect.ValueOf(ss), nil), c.R.N(3), true)
			}},
		}})

	typeCase := func(c *C, t reflect.Type) {
		c.Desc("type %s", t)
		g := NewG(c.R)
		v := g.Value(t)
		want := Ref(v, nil)
		c.DistinctBytes(t.String(), want)
		c.Sample("%s -> %s", t, Hex(want))
		encodeAll(c, v, want)
		for d := range decoders {
			roundTrip(c, t, v, want, d, true)
		}
		p := reflect.New(t)
		if err := (chain.Action{Data: want}).DecodeInto(p.Interface()); err != nil {
			c.Fail("decoding action data %s into %s: %v", Hex(want), t, err)
		}
		if d := diff(p.Elem(), v, ""); d != "" {
			c.Fail("action data %s decoded into %s differs: %s", Hex(want), t, d)
		}
	}
	Register(&Prop{ID: "C03", MinEvents: 5000,
		Rule:        "a case is one Go type (random composition of structs, slices, arrays, maps, pointers and tags built by reflection, or a handwritten recursive, embedded, variant or extension type) with one generated value; non-trivial if type and encoding are new",
		Assumptions: []string{"types use the supported kinds; unexported fields and named types of other kinds are outside the property"},
		Cats: []Category{
			{"random types", 5000, 150000, func(c *C) { typeCase(c, RandTop(c.R, 1+c.Idx%4)) }},
			{"containers", 2500, 60000, func(c *C) { typeCase(c, RandType(c.R, 1+c.Idx%3)) }},
			{"user types", 1500, 40000, func(c *C) { typeCase(c, UserTypes[c.Idx%len(UserTypes)]) }},
			{"namesakes", 600, 15000, func(c *C) { // different types of one name
				for n := 0; n < 4; n++ {
					t := Pick(c.R, Namesakes)
					switch c.R.N(4) {
					case 0:
						t = reflect.SliceOf(t)
					case 1:
						t = reflect.MapOf(LeafByName["uint16"].RT, t)
					case 2:
						t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: t}, {Name: "G", Type: Pick(c.R, Namesakes)}, {Name: "H", Type: reflect.PointerTo(Pick(c.R, Namesakes))}})
					}
					typeCase(c, t)
				}
			}},
			{"long lists", 160, 4000, func(c *C) { // of any type
				v := LongList(c.R, RandType(c.R, c.R.N(3)), 200000)
				t := v.Type()
				c.Desc("list of %d %s", v.Len(), t.Elem())
				want := Ref(v, nil)
				c.DistinctBytes(t.String(), want)
				if out, err := Encode(v.Interface()); err != nil || !bytes.Equal(out, want) {
					c.Fail("%v, %d bytes instead of %d", err, len(out), len(want))
				}
				roundTrip(c, t, v, want, c.R.N(3), false)
			}},
			{"large", 280, 6000, func(c *C) { // long arrays, slices and maps, wide structs and variants, deep nesting
				n := Pick(c.R, []int{5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1025})
				small := func() reflect.Type {
					return LeafByName[Pick(c.R, []string{"uint8", "uint16", "int8", "Name", "uint32", "int64", "bool", "string"})].RT
				}
				g := NewG(c.R)
				g.NoBig = true
				num := func(v reflect.Value, i int) { // elements that differ from each other
					switch v.Kind() {
					case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
						v.SetUint(uint64(i*257+i/256) & (1<<(8*v.Type().Size()) - 1))
					case reflect.Int8, reflect.Int64:
						v.SetInt(int64(int8(i)))
					case reflect.Bool:
						v.SetBool(i%3 == 1)
					case reflect.String:
						v.SetString(sprintf("%d", i))
					}
				}
				var v reflect.Value
				switch c.Idx % 7 {
				case 6: // lists of elements that are large themselves
					et := reflect.ArrayOf(Pick(c.R, []int{1023, 4096, 8191, 8192, 8193, 9000}), LeafByName["uint64"].RT)
					if c.R.Chance(1, 2) {
						et = reflect.StructOf([]reflect.StructField{{Name: "F", Type: et}, {Name: "G", Type: small()}})
					}
					n = c.R.N(6)
					fill := func(e reflect.Value, i int) {
						if e.Kind() == reflect.Struct {
							num(e.Field(1), i)
							e = e.Field(0)
						}
						for j := 0; j < e.Len(); j++ {
							e.Index(j).SetUint(uint64(i)<<32 | uint64(j*j))
						}
					}
					if c.R.Chance(1, 3) {
						v = reflect.MakeMap(reflect.MapOf(LeafByName["uint16"].RT, et))
						for i := 0; i < n; i++ {
							e := reflect.New(et).Elem()
							fill(e, i)
							v.SetMapIndex(reflect.ValueOf(uint16(i*300)), e)
						}
						break
					}
					v = reflect.MakeSlice(reflect.SliceOf(et), n, n)
					for i := 0; i < n; i++ {
						fill(v.Index(i), i)
					}
				case 0:
					v = reflect.New(reflect.ArrayOf(n, small())).Elem()
					for i := 0; i < n; i++ {
						num(v.Index(i), i)
					}
				case 1:
					v = reflect.MakeSlice(reflect.SliceOf(small()), n, n)
					for i := 0; i < n; i++ {
						num(v.Index(i), i)
					}
				case 2:
					kt := LeafByName[Pick(c.R, []string{"uint16", "Name", "string", "uint32"})].RT
					v = reflect.MakeMap(reflect.MapOf(kt, small()))
					for i := 0; i < n; i++ {
						k, e := reflect.New(kt).Elem(), reflect.New(v.Type().Elem()).Elem()
						num(k, i)
						num(e, i+1)
						v.SetMapIndex(k, e)
					}
				case 3: // struct of up to 300 fields
					if n > 300 {
						n = 300
					}
					var fs []reflect.StructField
					for i := 0; i < n; i++ {
						f := reflect.StructField{Name: sprintf("F%d", i), Type: small()}
						if c.R.Chance(1, 9) {
							f.Type, f.Tag = reflect.PointerTo(f.Type), `eosio:"optional"`
						}
						fs = append(fs, f)
					}
					v = reflect.New(reflect.StructOf(fs)).Elem()
					for i := 0; i < n; i++ {
						f := v.Field(i)
						if f.Kind() == reflect.Ptr {
							if c.R.Chance(1, 2) {
								continue
							}
							f.Set(reflect.New(f.Type().Elem()))
							f = f.Elem()
						}
						num(f, i)
					}
				case 4: // variant of up to 127 alternatives
					if n > 127 {
						n = 127
					}
					var fs []reflect.StructField
					for i := 0; i < n; i++ {
						fs = append(fs, reflect.StructField{Name: sprintf("V%d", i), Type: reflect.PointerTo(small())})
					}
					v = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "V", Type: reflect.StructOf(fs), Tag: `eosio:"variant"`}})).Elem()
					i := Pick(c.R, []int{0, n - 1, c.R.N(n)})
					f := v.Field(0).Field(i)
					f.Set(reflect.New(f.Type().Elem()))
					num(f.Elem(), i)
				case 5: // nested 5 to 40 deep
					t := small()
					for d := 5 + n%36; d > 0; d-- {
						switch c.R.N(5) {
						case 0:
							t = reflect.SliceOf(t)
						case 1:
							t = reflect.ArrayOf(1, t)
						case 2:
							t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: t}})
						case 3:
							t = reflect.StructOf([]reflect.StructField{{Name: "O", Type: reflect.PointerTo(t), Tag: `eosio:"optional"`}, {Name: "X", Type: LeafByName["uint8"].RT}})
						case 4:
							t = reflect.StructOf([]reflect.StructField{{Name: "V", Type: reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.PointerTo(t)}}), Tag: `eosio:"variant"`}})
						}
					}
					v = deepValue(g, t)
				}
				c.Desc("%s with %d", v.Type().Kind(), n)
				want := Ref(v, nil)
				c.DistinctBytes(v.Kind().String(), want)
				encodeAll(c, v, want)
				for d := range decoders {
					roundTrip(c, v.Type(), v, want, d, true)
				}
			}},
			{"chains", 60, 600, func(c *C) { // recursive types, a few thousand levels
				n := Pick(c.R, []int{50, 100, 101, 200, 256, 257, 500, 512, 1000, 1001, 1024, 1025, 2000, 2500})
				var v reflect.Value
				switch c.Idx % 5 {
				case 0:
					t := &Tree{V: 1}
					for i := 1; i < n; i++ {
						if c.R.Chance(1, 2) {
							t = &Tree{V: uint16(i), L: t}
						} else {
							t = &Tree{V: uint16(i), R: t}
						}
					}
					v = reflect.ValueOf(*t)
				case 1:
					t := RecSlice{}
					for i := 1; i < n; i++ {
						t = RecSlice{t}
						if c.R.Chance(1, 3) {
							t = append(t, RecSlice{})
						}
					}
					v = reflect.ValueOf(t)
				case 2:
					t := RecMap{}
					for i := 1; i < n; i++ {
						t = RecMap{sprintf("%d", i): t}
					}
					v = reflect.ValueOf(t)
				case 3:
					t := RecStruct{Tag: chain.Bytes{1}}
					for i := 1; i < n; i++ {
						if c.R.Chance(1, 2) {
							t = RecStruct{Kids: []RecStruct{t}, Tag: chain.Bytes{byte(i)}}
						} else {
							t = RecStruct{P: &[]RecStruct{t, {}}, Kids: []RecStruct{}}
						}
					}
					v = reflect.ValueOf(t)
				case 4:
					x, nm := uint32(7), chain.Name(c.R.Uint64())
					w := &struct {
						N *chain.Name
						S *chain.Signature
					}{N: &nm}
					t := VarHolder{X: 9, V: VarT{A: &x}, W: w}
					for i := 1; i < n; i++ {
						t = VarHolder{X: byte(i), V: VarT{D: &[]VarHolder{t}}, W: w}
					}
					v = reflect.ValueOf(t)
				}
				c.Desc("%s of %d levels", v.Type(), n)
				want := Ref(v, nil)
				c.DistinctBytes(v.Type().String(), want)
				encodeAll(c, v, want)
				for d := range decoders {
					roundTrip(c, v.Type(), v, want, d, true)
				}
			}},
			{"nil pointers", 2500, 60000, func(c *C) {
				var t reflect.Type
				if c.Idx%4 == 0 {
					t = UserTypes[(c.Idx/4)%len(UserTypes)]
				} else {
					t = RandStruct(c.R, 1+c.Idx%4)
				}
				g := NewG(c.R)
				g.NoBig = true
				v := reflect.New(t).Elem()
				v.Set(g.Value(t))
				spots := nilSpots(v, nil)
				if len(spots) == 0 {
					// nothing to break: encode a nil pointer to the type, and nil itself
					spots = append(spots, nilSpot{"top", func() {}})
					for _, e := range encoders {
						if err := e.mk(&bytes.Buffer{}).Encode(reflect.Zero(reflect.PointerTo(t)).Interface()); err == nil {
							c.Fail("nil *%s was encoded without an error", t)
						}
						if err := e.mk(&bytes.Buffer{}).Encode(nil); err == nil {
							c.Fail("nil was encoded without an error")
						}
						c.Event("nil encodes", 2)
					}
					return
				}
				sp := spots[c.R.N(len(spots))]
				c.Desc("type %s nil at %s", t, sp.path)
				sp.set()
				c.Distinct(t.String(), sp.path)
				for _, e := range encoders {
					for _, arg := range []interface{}{v.Interface(), ptrTo(v)} {
						c.Event("nil encodes", 1)
						if err := e.mk(&bytes.Buffer{}).Encode(arg); err == nil {
							c.Fail("%s encoder accepted a nil pointer", e.name)
						}
					}
				}
			}},
			{"bad targets", 400, 4000, func(c *C) { // decoding needs a pointer to something
				t := RandStruct(c.R, 1+c.Idx%3)
				switch c.Idx % 4 {
				case 1:
					t = UserTypes[(c.Idx/4)%len(UserTypes)]
				case 2:
					t = reflect.SliceOf(t)
				case 3:
					t = reflect.MapOf(reflect.TypeOf(""), t)
				}
				c.Desc("decoding into a %s or nil pointer to it", t)
				c.Distinct("target", t.String())
				data := make([]byte, 200)
				for _, d := range decoders {
					for _, a := range []interface{}{reflect.Zero(t).Interface(), reflect.Zero(reflect.PointerTo(t)).Interface()} {
						c.Event("bad targets", 2)
						if err := d.mk(bytes.NewReader(data)).Decode(a); err == nil {
							c.Fail("%s decoder decoded into a %T that has no room for it", d.name, a)
						}
						if err := d.mk(bytes.NewReader(data)).DecodeVariant(a); err == nil {
							c.Fail("%s decoder decoded a variant into a %T that has no room for it", d.name, a)
						}
					}
				}
			}},
			{"nil leaves", len(Leaves), len(Leaves), func(c *C) {
				l := Leaves[c.Idx]
				np := reflect.Zero(reflect.PointerTo(l.RT))
				st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: LeafByName["uint8"].RT}, {Name: "P", Type: np.Type()}})
				sl := reflect.MakeSlice(reflect.SliceOf(np.Type()), 2, 2)
				sl.Index(0).Set(reflect.New(l.RT))
				m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), np.Type()))
				m.SetMapIndex(reflect.ValueOf("k"), np)
				c.Distinct(l.Name)
				for _, e := range encoders {
					for _, a := range []interface{}{np.Interface(), reflect.Zero(st).Interface(), reflect.New(st).Interface(), sl.Interface(), m.Interface()} {
						c.Event("nil encodes", 1)
						c.Desc("%T with %s encoder", a, e.name)
						if err := e.mk(&bytes.Buffer{}).Encode(a); err == nil {
							c.Fail("nil pointer was encoded without an error")
						}
					}
				}
			}},
			{"variants", 1500, 30000, func(c *C) {
				// DecodeVariant and variant fields, exactly one alternative is set afterwards
				n := 1 + c.R.N(6)
				var fs []reflect.StructField
				for i := 0; i < n; i++ {
					fs = append(fs, reflect.StructField{Name: "V" + string(rune('A'+i)), Type: reflect.PointerTo(RandType(c.R, 1))})
				}
				vt := reflect.StructOf(fs)
				c.Desc("variant %s", vt)
				g := NewG(c.R)
				g.NoBig = true
				idx := c.R.N(n)
				v := reflect.New(vt).Elem()
				v.Field(idx).Set(g.Value(fs[idx].Type))
				enc := append([]byte{byte(idx)}, Ref(v.Field(idx).Elem(), nil)...)
				c.DistinctBytes(vt.String(), enc)
				p := reflect.New(vt)
				r := bytes.NewReader(append(append([]byte{}, enc...), 0xaa))
				if err := chain.NewDecoder(r).DecodeVariant(p.Interface()); err != nil {
					c.Fail("decoding alternative %d: %v", idx, err)
				}
				if r.Len() != 1 {
					c.Fail("variant of %d bytes left %d instead of 1", len(enc), r.Len())
				}
				if d := diff(p.Elem(), v, ""); d != "" {
					c.Fail("variant differs: %s", d)
				}
				for _, e := range encoders {
					for _, arg := range []interface{}{v.Interface(), ptrTo(v)} {
						var b bytes.Buffer
						if err := e.mk(&b).EncodeVariant(arg); err != nil || !bytes.Equal(b.Bytes(), enc) {
							c.Fail("%s encoder: alternative %d encodes to %s, %v instead of %s", e.name, idx, Hex(b.Bytes()), err, Hex(enc))
						}
					}
				}
				if n > 1 { // two alternatives
					two := reflect.New(vt).Elem()
					two.Set(v)
					k := (idx + 1 + c.R.N(n-1)) % n
					two.Field(k).Set(reflect.New(fs[k].Type.Elem()))
					if err := chain.NewEncoder(&bytes.Buffer{}).EncodeVariant(two.Interface()); err == nil {
						c.Fail("a variant with alternatives %d and %d set was encoded", idx, k)
					}
				}
				if err := chain.NewEncoder(&bytes.Buffer{}).EncodeVariant(reflect.New(vt).Interface()); err == nil {
					c.Fail("variant without alternative was encoded")
				}
				// an index without an alternative
				bad := append([]byte{byte(n + c.R.N(256-n))}, c.R.Bytes(64)...)
				if err := chain.NewDecoder(bytes.NewReader(bad)).DecodeVariant(reflect.New(vt).Interface()); err == nil {
					c.Fail("index %d of a variant with %d alternatives was accepted", bad[0], n)
				}
				c.Event("variants", 2)
				// as a field: none or two alternatives set is not a value of the type
				ht := reflect.StructOf([]reflect.StructField{{Name: "V", Type: vt, Tag: `eosio:"variant"`}})
				hv := reflect.New(ht).Elem()
				if _, err := Encode(hv.Interface()); err == nil {
					c.Fail("variant without alternative was encoded")
				}
			}},
		}})
}

// deepValue fills every level, so that the nesting is really there.
func deepValue(g *G, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	if leafByType[t] != nil {
		v.Set(g.Value(t))
		return v
	}
	switch t.Kind() {
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 1, 1))
		v.Index(0).Set(deepValue(g, t.Elem()))
	case reflect.Array:
		v.Index(0).Set(deepValue(g, t.Elem()))
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(deepValue(g, t.Elem()))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(deepValue(g, t.Field(i).Type))
		}
	}
	return v
}

type nilSpot struct {
	path string
	set  func()
}

// nilSpots finds pointers in non-optional positions.
func nilSpots(v reflect.Value, path []string) []nilSpot {
	var rv []nilSpot
	p := strings.Join(path, ".")
	if leafByType[v.Type()] != nil {
		return nil
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if v.CanSet() {
			rv = append(rv, nilSpot{p, func() { v.Set(reflect.Zero(v.Type())) }})
		}
		rv = append(rv, nilSpots(v.Elem(), append(path, "*"))...)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 4; i++ {
			rv = append(rv, nilSpots(v.Index(i), append(path, sprintf("[%d]", i)))...)
		}
	case reflect.Map:
		if v.Type().Elem().Kind() == reflect.Ptr {
			for _, k := range v.MapKeys() {
				rv = append(rv, nilSpot{p + sprintf("[%v]", k), func() { v.SetMapIndex(k, reflect.Zero(v.Type().Elem())) }})
				break
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			sub := append(path, v.Type().Field(i).Name)
			switch v.Type().Field(i).Tag.Get("eosio") {
			case "optional":
				if f.Kind() == reflect.Ptr {
					if f.IsNil() {
						continue
					}
					f = f.Elem()
					// a pointer below an optional pointer is not optional
					rv = append(rv, nilSpots(f, append(sub, "*"))...)
				}
				// optional non-pointers: making something zero could make it absent, skip
			case "extension":
			case "variant":
				if f.Kind() == reflect.Ptr {
					rv = append(rv, nilSpot{strings.Join(sub, "."), func() { f.Set(reflect.Zero(f.Type())) }})
					if f.IsNil() {
						continue
					}
				}
			default:
				rv = append(rv, nilSpots(f, sub)...)
			}
		}
	}
	return rv
}
