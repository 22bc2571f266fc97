package h

import (
	"bytes"
	"crypto/sha256"
	"encoding"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"reflect"

	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

// guarded is a copy of b inside a larger buffer filled with a pattern; the slice has spare capacity.
type guarded struct {
	buf  []byte
	copy []byte
	off  int
	n    int
}

func guard(r *R, b []byte) *guarded {
	pre, post := r.N(5), 8+r.N(80)
	g := &guarded{buf: r.Bytes(pre + len(b) + post), off: pre, n: len(b)}
	copy(g.buf[pre:], b)
	g.copy = append([]byte{}, g.buf...)
	return g
}

// Slice has everything after the content as spare capacity.
func (g *guarded) Slice() []byte { return g.buf[g.off : g.off+g.n] }
func (g *guarded) Check(c *C, what string) {
	for i := range g.buf {
		if g.buf[i] != g.copy[i] {
			where := "inside"
			if i < g.off {
				where = "before"
			} else if i >= g.off+g.n {
				where = "beyond"
			}
			c.Fail("%s changed its input: byte %d, %s the %d bytes it was given", what, i-g.off, where, g.n)
		}
	}
	c.Event("inputs checked", 1)
}
func (g *guarded) Scribble() {
	for i := range g.buf {
		g.buf[i] ^= 0xa5
	}
}

// spare gives every slice in the value spare capacity filled with a pattern and returns a check for it.
func spare(r *R, v reflect.Value, checks *[]func() string) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			spare(r, v.Elem(), checks)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spare(r, v.Field(i), checks)
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			spare(r, v.Index(i), checks)
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() {
			return
		}
		n := v.Len()
		if v.Type().Elem().Kind() == reflect.Uint8 {
			g := guard(r, v.Bytes())
			v.SetBytes(g.Slice())
			*checks = append(*checks, func() string {
				if !bytes.Equal(g.buf, g.copy) {
					return "a byte slice or what follows it in memory"
				}
				return ""
			})
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n+3)
		reflect.Copy(s, v)
		v.Set(s)
		for i := 0; i < n; i++ {
			spare(r, v.Index(i), checks)
		}
	}
}

// scribble overwrites everything mutable in a value, content as well as spare capacity.
func scribble(v reflect.Value, spareOnly bool) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), spareOnly)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), spareOnly)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && v.Type().Elem().Kind() != reflect.Uint8; i++ {
			scribble(v.Index(i), spareOnly)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), spareOnly)
		}
	case reflect.Slice:
		n := v.Len()
		if v.IsNil() {
			return
		}
		for i := 0; i < n && v.Type().Elem().Kind() != reflect.Uint8; i++ {
			scribble(v.Index(i), spareOnly)
		}
		full := v.Slice(0, v.Cap())
		from := 0
		if spareOnly {
			from = n
		}
		for i := from; i < full.Len(); i++ {
			e := full.Index(i)
			switch e.Kind() {
			case reflect.Uint8:
				e.SetUint(e.Uint() ^ 0x5a)
			case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				e.SetUint(e.Uint() ^ 0x11)
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				e.SetInt(e.Int() ^ 0x11)
			case reflect.Bool:
				e.SetBool(!e.Bool())
			default:
				if e.CanSet() && spareOnly {
					e.Set(reflect.Zero(e.Type()))
				} else if e.CanSet() {
					e.Set(reflect.Zero(e.Type()))
				}
			}
		}
	}
}

// twin generates the same value twice, sharing nothing.
func twin(c *C, t reflect.Type, budget int) (a, b reflect.Value) {
	seed := c.R.Uint64()
	mk := func() reflect.Value {
		g := NewG(NewR("twin", seed))
		if budget > 0 {
			g.NoBig, g.Budget = true, budget
		}
		p := reflect.New(t).Elem()
		p.Set(g.Value(t))
		return p
	}
	return mk(), mk()
}

func aliasDecode(c *C, t reflect.Type, chainType bool) {
	a, want := twin(c, t, 700)
	enc := Ref(want, nil)
	c.DistinctBytes(t.String(), enc)
	c.Desc("%s %s", t, Hex(enc))
	// encoding leaves the value alone
	var checks []func() string
	spare(c.R, a, &checks)
	for _, arg := range []interface{}{a.Interface(), a.Addr().Interface()} {
		out, err := Encode(arg)
		if err != nil || !bytes.Equal(out, enc) {
			c.Fail("encoding: %v %s", err, Hex(out))
		}
		scr := out[:cap(out)]
		for i := range scr {
			scr[i] ^= 0xff
		}
		if d := diff(a, want, ""); d != "" {
			c.Fail("encoding changed the value or shares memory with it: %s", d)
		}
		for _, f := range checks {
			if s := f(); s != "" {
				c.Fail("encoding changed %s", s)
			}
		}
		c.Event("encodes watched", 1)
	}
	// decoding leaves the input alone and keeps nothing of it
	g := guard(c.R, enc)
	decode := func(data []byte) reflect.Value {
		p := reflect.New(t)
		var err error
		switch c.R.N(3) {
		case 0:
			err = chain.NewDecoder(bytes.NewReader(data)).Decode(p.Interface())
		case 1:
			err = chain.NewDecoder(bytes.NewBuffer(data)).Decode(p.Interface())
		case 2:
			err = chain.Action{Data: data}.DecodeInto(p.Interface())
		}
		if err != nil {
			c.Fail("decoding: %v", err)
		}
		return p.Elem()
	}
	v := decode(g.Slice())
	g.Check(c, "decoding")
	g.Scribble()
	if d := diff(v, want, ""); d != "" {
		c.Fail("the decoded value shares memory with the input: %s", d)
	}
	// another decode, then each is overwritten in turn
	_, other := twin(c, t, 700)
	oenc := Ref(other, nil)
	one := chain.NewDecoder(Pick(c.R, stdReaders).mk(c, cat(oenc, enc, oenc)))
	{
		p1, p2, p3 := reflect.New(t), reflect.New(t), reflect.New(t)
		for _, p := range []reflect.Value{p1, p2, p3} {
			if err := one.Decode(p.Interface()); err != nil {
				c.Fail("decoding in sequence: %v", err)
			}
		}
		if d := diff(v, want, ""); d != "" {
			c.Fail("a later decode changed an earlier value: %s", d)
		}
		if d := diff(p1.Elem(), other, ""); d != "" {
			c.Fail("a later decode on the same decoder changed an earlier value: %s", d)
		}
		scribble(p1, true)
		if d := diff(p1.Elem(), other, ""); d != "" {
			c.Fail("parts of a decoded value share memory: %s", d)
		}
		scribble(p1, false)
		if d := diff(p2.Elem(), want, ""); d != "" {
			c.Fail("two decoded values share memory: %s", d)
		}
		if d := diff(p3.Elem(), other, ""); d != "" {
			c.Fail("two decoded values share memory: %s", d)
		}
		if d := diff(v, want, ""); d != "" {
			c.Fail("two decoded values share memory: %s", d)
		}
		c.Event("decodes watched", 4)
		if chainType {
			// copied out, then the variable is used again
			kept := reflect.New(t).Elem()
			kept.Set(p2.Elem())
			for _, d := range [][]byte{oenc, enc, oenc} {
				if err := chain.NewDecoder(bytes.NewReader(d)).Decode(p2.Interface()); err != nil {
					c.Fail("decoding: %v", err)
				}
			}
			if d := diff(kept, want, ""); d != "" {
				c.Fail("decoding into the same variable changed a value copied out of it: %s", d)
			}
			c.Event("reuses watched", 1)
		}
	}
}

// textLeaves have a text form.
var textLeaves = []string{"Bytes", "Blob", "Name", "BlockTimestamp", "TimePointSec", "TimePoint", "Symbol", "SymbolCode", "Asset", "Checksum160", "Checksum256", "Checksum512", "Uint128", "Int128", "Float128", "PublicKey", "Signature"}
var jsonLeaves = append([]string{"Uint64", "BlockNum", "ExtendedAsset", "PermissionLevel", "Action", "TransactionHeader", "TransactionExtension", "Transaction", "Abi"}, textLeaves...)

func textTwin(c *C, name string) (a, b reflect.Value) {
	seed := c.R.Uint64()
	t := LeafByName[name].RT
	mk := func() reflect.Value {
		g := NewG(NewR("text", seed))
		g.Text, g.NoBig, g.Budget = true, true, 600
		p := reflect.New(t).Elem()
		p.Set(g.Value(t))
		return p
	}
	return mk(), mk()
}

func init() {
	Register(&Prop{ID: "C11", MinEvents: 10000,
		Rule:        "a case is one value; inputs sit inside guarded buffers, results are overwritten (content and spare capacity) and compared with an independently generated twin; non-trivial if type and encoding are new",
		Assumptions: []string{"hash.Sum(b) may append into the capacity of b, as its contract says", "lists and pointers inside user-defined types are decoded in place when the same variable is decoded into again"},
		Cats: []Category{
			{"leaves", 6000, 150000, func(c *C) {
				l := Leaves[c.Idx%len(Leaves)]
				aliasDecode(c, l.RT, l.Name != "Abi")
			}},
			{"user types", 2000, 50000, func(c *C) { aliasDecode(c, UserTypes[c.Idx%len(UserTypes)], false) }},
			{"random types", 4000, 100000, func(c *C) { aliasDecode(c, RandStruct(c.R, 1+c.Idx%3), false) }},
			{"abi", 3000, 80000, func(c *C) {
				seed := c.R.Uint64()
				mk := func() (*AGen, ACase) {
					a := NewAGen(NewR("abialias", seed))
					a.g.NoBig = true
					return a, a.Case()
				}
				a1, k1 := mk()
				_, k2 := mk()
				doc := abiDoc(a1.Abi)
				c.Desc("%q %s of %s", k1.Type, Hex(k1.Enc), tail(doc, 1000))
				c.DistinctBytes(doc, k1.Enc)
				var b bytes.Buffer
				if err := a1.Abi.Encode(&b, k1.Type.String(), k1.In); err != nil || !bytes.Equal(b.Bytes(), k1.Enc) {
					c.Fail("encoding: %v", err)
				}
				if d := DynDiff(k1.In, k2.In, ""); d != "" {
					c.Fail("encoding changed the value: %s", d)
				}
				g := guard(c.R, k1.Enc)
				v1, err := a1.Abi.Decode(bytes.NewBuffer(g.Slice()), k1.Type.String())
				if err != nil {
					c.Fail("decoding: %v", err)
				}
				g.Check(c, "ABI decoding")
				v2, _ := a1.Abi.Decode(bytes.NewReader(g.Slice()), k1.Type.String())
				g.Scribble()
				if d := DynDiff(v1, k2.Out, ""); d != "" {
					c.Fail("decoded value shares memory with the input: %s", d)
				}
				dynScribble(v2)
				if d := DynDiff(v1, k2.Out, ""); d != "" {
					c.Fail("two decoded values share memory: %s", d)
				}
				if abiDoc(a1.Abi) != doc {
					c.Fail("the ABI changed: %s", abiDoc(a1.Abi))
				}
				c.Event("abi values watched", 3)
			}},
			{"text", 8000, 200000, func(c *C) {
				n := textLeaves[c.Idx%len(textLeaves)]
				v, want := textTwin(c, n)
				var checks []func() string
				spare(c.R, v, &checks)
				t1, err := v.Addr().Interface().(encoding.TextMarshaler).MarshalText()
				if err != nil {
					c.Fail("%s MarshalText: %v", n, err)
				}
				txt := string(t1)
				c.Desc("%s text %q", n, tail(txt, 200))
				c.Distinct(n, txt)
				t2, _ := v.Addr().Interface().(encoding.TextMarshaler).MarshalText()
				scr := t1[:cap(t1)]
				for i := range scr {
					scr[i] ^= 0xff
				}
				if string(t2) != txt {
					c.Fail("two texts share memory")
				}
				if d := diff(v, want, ""); d != "" {
					c.Fail("text shares memory with the value, or changed it: %s", d)
				}
				for _, f := range checks {
					if s := f(); s != "" {
						c.Fail("MarshalText changed %s", s)
					}
				}
				g := guard(c.R, []byte(txt))
				p, q := reflect.New(v.Type()), reflect.New(v.Type())
				for _, x := range []reflect.Value{p, q} {
					if err := x.Interface().(encoding.TextUnmarshaler).UnmarshalText(g.Slice()); err != nil {
						c.Fail("UnmarshalText: %v", err)
					}
					g.Check(c, "UnmarshalText")
				}
				g.Scribble()
				if d := diff(p.Elem(), want, ""); d != "" {
					c.Fail("parsed value shares memory with the text: %s", d)
				}
				scribble(q, true)
				scribble(q, false)
				if d := diff(p.Elem(), want, ""); d != "" {
					c.Fail("two parsed values share memory: %s", d)
				}
				c.Event("texts watched", 4)
				// malformed text is left alone too
				bad := []byte(txt)
				for i := c.R.N(3) + 1; i > 0 && len(bad) > 0; i-- {
					bad[c.R.N(len(bad))] = Pick(c.R, []byte("0Oz=-+_ .AZ\xff"))
				}
				if n == "Blob" {
					for len(bad) > 0 && bad[len(bad)-1] == '=' {
						bad = bad[:len(bad)-1]
					}
				}
				gb := guard(c.R, bad)
				reflect.New(v.Type()).Interface().(encoding.TextUnmarshaler).UnmarshalText(gb.Slice())
				gb.Check(c, "UnmarshalText of malformed text")
			}},
			{"json", 3000, 80000, func(c *C) {
				n := jsonLeaves[c.Idx%len(jsonLeaves)]
				v, want := textTwin(c, n)
				var checks []func() string
				spare(c.R, v, &checks)
				j, err := json.Marshal(v.Addr().Interface())
				if err != nil {
					c.Fail("%s: %v", n, err)
				}
				c.Desc("%s json %s", n, tail(string(j), 300))
				c.DistinctBytes(n, j)
				if d := diff(v, want, ""); d != "" {
					c.Fail("marshalling changed the value: %s", d)
				}
				for _, f := range checks {
					if s := f(); s != "" {
						c.Fail("marshalling changed %s", s)
					}
				}
				g := guard(c.R, j)
				p := reflect.New(v.Type())
				if err := json.Unmarshal(g.Slice(), p.Interface()); err != nil {
					c.Fail("unmarshalling: %v", err)
				}
				g.Check(c, "unmarshalling")
				if u, ok := p.Interface().(json.Unmarshaler); ok {
					if err := u.UnmarshalJSON(g.Slice()); err != nil {
						c.Fail("UnmarshalJSON: %v", err)
					}
					g.Check(c, "UnmarshalJSON")
				}
				g.Scribble()
				if d := diff(p.Elem(), want, ""); d != "" {
					c.Fail("value shares memory with the document: %s", d)
				}
				c.Event("documents watched", 1)
			}},
			{"hash", 3000, 60000, func(c *C) {
				m := c.R.Bytes(Pick(c.R, []int{0, 1, 20, 55, 56, 57, 63, 64, 65, 100, 119, 120, 121, 127, 128, 129, 300}) + c.R.N(4))
				c.DistinctBytes("hash", m)
				g := guard(c.R, m)
				c160, c256, c512 := chain.Checksum160Digest(g.Slice()), chain.Checksum256Digest(g.Slice()), chain.Checksum512Digest(g.Slice())
				g.Check(c, "hashing")
				h := ripemd160.New()
				h.Write(g.Slice())
				g.Check(c, "Write")
				g.Scribble()
				s1 := h.Sum(nil)
				if !bytes.Equal(s1, c160[:]) {
					c.Fail("the hash refers to a message after Write returned")
				}
				s2 := h.Sum(nil)
				for i := range s1[:cap(s1)] {
					s1[:cap(s1)][i] ^= 0xff
				}
				s3 := h.Sum(nil)
				if !bytes.Equal(s2, c160[:]) || !bytes.Equal(s3, c160[:]) {
					c.Fail("sums share memory with each other or the hash")
				}
				pre := c.R.Bytes(c.R.N(30))
				pg := append([]byte{}, pre...)
				s4 := h.Sum(pg)
				if !bytes.Equal(pg, pre) || !bytes.Equal(s4, append(append([]byte{}, pre...), c160[:]...)) {
					c.Fail("Sum does not append to its argument")
				}
				_, _ = c256, c512
				c.Event("hashes watched", 6)
			}},
			{"base58", 3000, 60000, func(c *C) {
				m := c.R.Bytes(c.R.N(80))
				c.DistinctBytes("b58", m)
				g := guard(c.R, m)
				e1 := base58.Encode(g.Slice())
				g.Check(c, "base58.Encode")
				e2 := base58.CheckEncode(g.Slice())
				g.Check(c, "base58.CheckEncode")
				e3 := base58.CheckEncodeEosio(g.Slice(), "K1")
				g.Check(c, "base58.CheckEncodeEosio")
				g.Scribble()
				dec := func() [][]byte {
					d2, err2 := base58.CheckDecode(e2)
					d3, err3 := base58.CheckDecodeEosio(e3, "K1")
					if err2 != nil || err3 != nil {
						c.Fail("checked decoding of %x failed: %v %v", m, err2, err3)
					}
					return [][]byte{base58.Decode(e1), d2, d3}
				}
				x, y := dec(), dec()
				for _, d := range y {
					for i := range d[:cap(d)] {
						d[:cap(d)][i] ^= 0xff
					}
				}
				for i, d := range x {
					if !bytes.Equal(d, m) {
						c.Fail("base58 result %d is %x instead of %x, or shares memory", i, d, m)
					}
				}
				c.Event("base58 watched", 6)
			}},
			{"numbers", 2000, 30000, func(c *C) {
				g := NewG(c.R)
				u := chain.Uint128{Lo: g.U(64), Hi: g.U(64)}
				switch c.Idx % 6 {
				case 0:
					u.Hi = 0
				case 1:
					u = chain.Uint128{Lo: uint64(c.R.N(300))}
				case 2:
					u = chain.Uint128{}
				}
				i := chain.Int128(u)
				c.Distinct(u.Lo, u.Hi)
				keep := u
				b := u.BigInt()
				b.Add(b, big.NewInt(1))
				b2 := i.BigInt()
				b2.Neg(b2).Add(b2, big.NewInt(5))
				by := u.Bytes(binary.LittleEndian)
				for k := range by {
					by[k] ^= 0xff
				}
				by = i.Bytes(binary.BigEndian)
				for k := range by {
					by[k] ^= 0xff
				}
				if u != keep || chain.Uint128(i) != keep || !bytes.Equal(u.Bytes(binary.LittleEndian), cat(le(keep.Lo, 8), le(keep.Hi, 8))) {
					c.Fail("number shares memory with its results")
				}
				bu := new(big.Int).Or(new(big.Int).Lsh(new(big.Int).SetUint64(keep.Hi), 64), new(big.Int).SetUint64(keep.Lo))
				bi := new(big.Int).Set(bu)
				if keep.Hi>>63 == 1 {
					bi.Sub(bi, new(big.Int).Lsh(big.NewInt(1), 128))
				}
				if u.BigInt().Cmp(bu) != 0 || i.BigInt().Cmp(bi) != 0 {
					c.Fail("after changing the big integers of %v and %v they are %v and %v: they share memory", bu, bi, u.BigInt(), i.BigInt())
				}
				src := new(big.Int).Rsh(new(big.Int).SetBytes(c.R.Bytes(16)), 1)
				cp := new(big.Int).Set(src)
				chain.NewUint128(src)
				chain.NewInt128(src)
				if src.Cmp(cp) != 0 {
					c.Fail("NewUint128 or NewInt128 changed %s to %s", cp, src)
				}
				src.Neg(src)
				cp.Set(src)
				chain.NewInt128(src)
				if src.Cmp(cp) != 0 {
					c.Fail("NewInt128 changed %s to %s", cp, src)
				}
				c.Event("numbers watched", 6)
			}},
		}})

	// maps rebuilt in another insertion order
	var rebuild func(r *R, v reflect.Value) reflect.Value
	rebuild = func(r *R, v reflect.Value) reflect.Value {
		rv := reflect.New(v.Type()).Elem()
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				p := reflect.New(v.Type().Elem())
				p.Elem().Set(rebuild(r, v.Elem()))
				rv.Set(p)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rv.Field(i).Set(rebuild(r, v.Field(i)))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rv.Index(i).Set(rebuild(r, v.Index(i)))
			}
		case reflect.Slice:
			if !v.IsNil() {
				rv.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()+r.N(3)))
				for i := 0; i < v.Len(); i++ {
					rv.Index(i).Set(rebuild(r, v.Index(i)))
				}
			}
		case reflect.Map:
			if !v.IsNil() {
				rv.Set(reflect.MakeMap(v.Type()))
				keys := v.MapKeys()
				for _, k := range r.Perm(len(keys)) {
					rv.SetMapIndex(keys[k], rebuild(r, v.MapIndex(keys[k])))
				}
			}
		default:
			rv.Set(v)
		}
		return rv
	}
	repeat := func(c *C, t reflect.Type) {
		v, _ := twin(c, t, 700)
		want := Ref(v, nil)
		c.DistinctBytes(t.String(), want)
		for i := 0; i < 4; i++ {
			x := v
			if i > 0 {
				x = rebuild(c.R, v)
			}
			out, err := Encode(x.Interface())
			c.Event("repeated encodes", 1)
			if err != nil || !bytes.Equal(out, want) {
				c.Fail("encode %d of equal %s: %v, %s instead of %s", i, t, err, Hex(out), Hex(want))
			}
		}
	}
	mapTypes := func(r *R) reflect.Type {
		k := LeafByName[Pick(r, leafKeyTypes)].RT
		t := reflect.MapOf(k, RandType(r, r.N(2)))
		for r.Chance(1, 3) {
			t = reflect.MapOf(LeafByName[Pick(r, leafKeyTypes)].RT, t)
		}
		return t
	}
	Register(&Prop{ID: "C12", MinEvents: 5000,
		Rule:        "a case is one value encoded several times, rebuilt with other map insertion orders, or an action and its neighbours with one difference; bytes and digests are compared with the reference; non-trivial if the encoding is new",
		Assumptions: []string{"map keys of ordered kinds and byte arrays; the order of float keys is not specified"},
		Cats: []Category{
			{"maps", 5000, 120000, func(c *C) { repeat(c, mapTypes(c.R)) }},
			{"big maps", 300, 5000, func(c *C) {
				kt := LeafByName[leafKeyTypes[c.Idx%len(leafKeyTypes)]].RT
				m := reflect.MakeMap(reflect.MapOf(kt, LeafByName["uint16"].RT))
				g := NewG(c.R)
				g.NoBig = true
				n := 50 + c.R.N(300)
				if c.R.Chance(1, 15) {
					n = c.R.N(3000)
				}
				if x, ok := c.R.size(5000); ok {
					n = x
				}
				for i := 0; i < 3*n && m.Len() < n; i++ {
					g.Budget = 500
					m.SetMapIndex(g.Value(kt), reflect.ValueOf(uint16(i)))
				}
				want := Ref(m, nil)
				c.DistinctBytes("bigmap", want)
				for i := 0; i < 3; i++ {
					out, err := Encode(rebuild(c.R, m).Interface())
					c.Event("repeated encodes", 1)
					if err != nil || !bytes.Equal(out, want) {
						c.Fail("map with %s keys: %v, %s instead of %s", kt, err, Hex(out), Hex(want))
					}
				}
			}},
			{"compound keys", 300, 5000, func(c *C) {
				// the order of such keys is not specified, but it is always the same
				k := func() reflect.Type {
					return LeafByName[Pick(c.R, []string{"uint8", "int8", "bool", "string", "Name", "uint64"})].RT
				}
				kt := reflect.StructOf([]reflect.StructField{{Name: "A", Type: k()}, {Name: "B", Type: reflect.ArrayOf(c.R.N(3), k())}, {Name: "C", Type: k()}})
				if c.R.Chance(1, 3) {
					kt = reflect.ArrayOf(2, kt)
				}
				m := reflect.MakeMap(reflect.MapOf(kt, LeafByName["uint16"].RT))
				g := NewG(c.R)
				g.NoBig = true
				var last reflect.Value
				for i := 0; i < 20; i++ {
					g.Budget = 100
					x := reflect.New(kt).Elem()
					x.Set(g.Value(kt))
					if last.IsValid() && kt.Kind() == reflect.Struct && c.R.Chance(2, 3) { // the same start
						x.Field(0).Set(last.Field(0))
						if c.R.Chance(1, 2) {
							x.Field(1).Set(last.Field(1))
						}
					}
					last = x
					m.SetMapIndex(x, reflect.ValueOf(uint16(i)))
				}
				want, err := Encode(m.Interface())
				if err != nil {
					c.Fail("map with %s keys: %v", kt, err)
				}
				c.DistinctBytes(kt.String(), want)
				for i := 0; i < 4; i++ {
					out, err := Encode(rebuild(c.R, m).Interface())
					c.Event("repeated encodes", 1)
					if err != nil || !bytes.Equal(out, want) {
						c.Fail("map with %s keys: %v, %s and then %s", kt, err, Hex(want), Hex(out))
					}
				}
			}},
			{"types", 4000, 100000, func(c *C) {
				if c.Idx%3 == 0 {
					repeat(c, UserTypes[(c.Idx/3)%len(UserTypes)])
				} else if c.Idx%3 == 1 {
					repeat(c, Leaves[(c.Idx/3)%len(Leaves)].RT)
				} else {
					repeat(c, RandStruct(c.R, 1+c.R.N(3)))
				}
			}},
			{"abi", 2000, 50000, func(c *C) {
				a := NewAGen(c.R)
				a.g.NoBig = true
				k := a.Case()
				c.DistinctBytes(abiDoc(a.Abi), k.Enc)
				for i := 0; i < 3; i++ {
					var b bytes.Buffer
					err := a.Abi.Encode(&b, k.Type.String(), k.In)
					c.Event("repeated encodes", 1)
					if err != nil || !bytes.Equal(b.Bytes(), k.Enc) {
						c.Fail("encode %d: %v, %s instead of %s", i, err, Hex(b.Bytes()), Hex(k.Enc))
					}
				}
			}},
			{"digests", 5000, 150000, func(c *C) {
				g := NewG(c.R)
				g.NoBig = c.Idx%4 != 0
				a := g.Action()
				enc := refAction(a)
				want := sha256.Sum256(enc)
				c.DistinctBytes("action", enc)
				d := a.Digest()
				if d != chain.Checksum256(want) {
					c.Fail("digest of %s is %x, sha256 of its encoding %x", short(a), d, want)
				}
				b := rebuild(c.R, reflect.ValueOf(a)).Interface().(chain.Action)
				if b.Digest() != d || a.Digest() != d {
					c.Fail("equal actions have different digests")
				}
				c.Event("digests", 3)
				for i := 0; i < 6; i++ {
					b := rebuild(c.R, reflect.ValueOf(a)).Interface().(chain.Action)
					bit := uint64(1) << uint(c.R.N(64))
					switch i {
					case 0:
						b.Account ^= chain.Name(bit)
					case 1:
						b.Name ^= chain.Name(bit)
					case 2:
						if len(b.Data) == 0 {
							b.Data = chain.Bytes{0}
						} else {
							b.Data[c.R.N(len(b.Data))] ^= byte(1 << uint(c.R.N(8)))
						}
					case 3:
						b.Data = append(b.Data, 0)
					case 4:
						if len(b.Authorization) == 0 {
							b.Authorization = append(b.Authorization, chain.PermissionLevel{})
						} else if k := c.R.N(len(b.Authorization)); c.R.Chance(1, 2) {
							b.Authorization[k].Actor ^= chain.Name(bit)
						} else {
							b.Authorization[k].Permission ^= chain.Name(bit)
						}
					case 5:
						if n := len(b.Authorization); n > 0 {
							b.Authorization = b.Authorization[:n-1]
						} else {
							b.Authorization = append(b.Authorization, g.PermissionLevel())
						}
					}
					x := b.Digest()
					c.Event("digests", 1)
					if x == d {
						c.Fail("change %d of %s does not change the digest", i, short(a))
					}
					if w := sha256.Sum256(refAction(b)); x != chain.Checksum256(w) {
						c.Fail("digest of %s is %x, sha256 of its encoding %x", short(b), x, w)
					}
				}
			}},
		}})
}

// dynScribble overwrites what is mutable in a dynamic value.
func dynScribble(v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			dynScribble(e)
			x[k] = "overwritten"
		}
		x["more"] = 1
	case []interface{}:
		for i, e := range x {
			dynScribble(e)
			x[i] = "overwritten"
		}
		x = x[:cap(x)]
		for i := range x {
			x[i] = "overwritten"
		}
	default:
		if v == nil {
			return
		}
		p := reflect.New(reflect.TypeOf(v)).Elem()
		p.Set(reflect.ValueOf(v))
		scribble(p, false)
	}
}
