package h

import (
	"bytes"
	"errors"
	"reflect"
	"strconv"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

// Types that bring their own codec: their methods write something the generic codec never would, so bytes show
// which one was used.

// mfail makes the n-th call of a method fail.
type mfail struct {
	calls, at int
	err       error
	user      *ucode // runs at every call
}

var marFail, unmarFail mfail

func (m *mfail) call() error {
	m.calls++
	if m.user != nil {
		m.user.call()
	}
	if m.at > 0 && m.calls == m.at {
		return m.err
	}
	return nil
}

func readMark(d *abi.Decoder, mark byte) error {
	if err := unmarFail.call(); err != nil {
		return err
	}
	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if b != mark {
		return errors.New("wrong marker")
	}
	return nil
}

func writeMark(e *abi.Encoder, mark byte) error {
	if err := marFail.call(); err != nil {
		return err
	}
	return e.WriteByte(mark)
}

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

// a struct, big-endian with the fields swapped
type MStruct struct {
	A uint32
	B string
}

func (m MStruct) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xb1); err != nil {
		return err
	}
	if err := e.WriteString(m.B); err != nil {
		return err
	}
	return e.WriteBytes(rev(le(uint64(m.A), 4)))
}

func (m *MStruct) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xb1); err != nil {
		return err
	}
	var err error
	if m.B, err = d.ReadString(); err != nil {
		return err
	}
	_, b, err := d.ReadBytes(4)
	if err != nil {
		return err
	}
	m.A = uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	return nil
}

func refMStruct(m MStruct) []byte {
	return cat([]byte{0xb1}, lenBytes([]byte(m.B)), rev(le(uint64(m.A), 4)))
}

// a number
type MNum uint32

func (m MNum) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xb2); err != nil {
		return err
	}
	return e.Encode(uint(m))
}

func (m *MNum) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xb2); err != nil {
		return err
	}
	var v uint
	err := d.Decode(&v)
	*m = MNum(v)
	return err
}

// a list, its elements are written through the encoder
type MList []chain.Name

func (m MList) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xb3); err != nil {
		return err
	}
	for _, n := range m {
		if err := e.WriteByte(1); err != nil {
			return err
		}
		if err := e.Encode(n); err != nil {
			return err
		}
	}
	return e.WriteByte(0)
}

func (m *MList) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xb3); err != nil {
		return err
	}
	*m = MList{}
	for {
		b, err := d.ReadByte()
		if err != nil || b == 0 {
			return err
		}
		var n chain.Name
		if err = d.Decode(&n); err != nil {
			return err
		}
		*m = append(*m, n)
	}
}

// an array
type MArr [5]uint16

func (m MArr) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xb4); err != nil {
		return err
	}
	for i := len(m) - 1; i >= 0; i-- {
		if err := e.WriteUint16(m[i]); err != nil {
			return err
		}
	}
	return nil
}

func (m *MArr) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xb4); err != nil {
		return err
	}
	for i := len(m) - 1; i >= 0; i-- {
		v, err := d.ReadUint16()
		if err != nil {
			return err
		}
		m[i] = v
	}
	return nil
}

// a map, as a list of pairs with a fixed size count
type MMap map[uint16]MNum

func (m MMap) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xb5); err != nil {
		return err
	}
	return e.Encode(map[uint16]MNum(m))
}

func (m *MMap) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xb5); err != nil {
		return err
	}
	var v map[uint16]MNum
	err := d.Decode(&v)
	*m = MMap(v)
	return err
}

// a struct that contains others of its kind
type MTree struct {
	V    MNum
	Kids []MTree
	Next *MStruct
}

func (m MTree) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xb6); err != nil {
		return err
	}
	if err := e.Encode(m.Kids); err != nil {
		return err
	}
	if err := e.Encode(m.Next); err != nil {
		return err
	}
	return e.Encode(&m.V)
}

func (m *MTree) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xb6); err != nil {
		return err
	}
	if err := d.Decode(&m.Kids); err != nil {
		return err
	}
	m.Next = &MStruct{}
	if err := d.Decode(m.Next); err != nil {
		return err
	}
	return d.Decode(&m.V)
}

// a text, written backwards
type MText string

func (m MText) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xb7); err != nil {
		return err
	}
	return e.WriteString(string(rev([]byte(m))))
}

func (m *MText) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xb7); err != nil {
		return err
	}
	s, err := d.ReadString()
	*m = MText(rev([]byte(s)))
	return err
}

// a byte
type MByte uint8

func (m MByte) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xb8); err != nil {
		return err
	}
	return e.WriteByte(^byte(m))
}

func (m *MByte) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xb8); err != nil {
		return err
	}
	b, err := d.ReadByte()
	*m = MByte(^b)
	return err
}

// some bytes
type MBytes []byte

func (m MBytes) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xb9); err != nil {
		return err
	}
	return e.Encode(rev(m))
}

func (m *MBytes) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xb9); err != nil {
		return err
	}
	var b []byte
	err := d.Decode(&b)
	*m = rev(b)
	return err
}

// a truth value
type MBool bool

func (m MBool) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xba); err != nil {
		return err
	}
	return e.WriteBool(!bool(m))
}

func (m *MBool) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xba); err != nil {
		return err
	}
	b, err := d.ReadBool()
	*m = MBool(!b)
	return err
}

// a wide number, as text
type MWide uint64

func (m MWide) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xbb); err != nil {
		return err
	}
	return e.WriteString(strconv.FormatUint(uint64(m), 36))
}

func (m *MWide) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xbb); err != nil {
		return err
	}
	s, err := d.ReadString()
	if err != nil {
		return err
	}
	v, err := strconv.ParseUint(s, 36, 64)
	*m = MWide(v)
	return err
}

// a variant with an index of its own kind
type MVar struct {
	A *uint16
	B *string
	C *MNum
}

func (m MVar) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xbc); err != nil {
		return err
	}
	v := reflect.ValueOf(m)
	for i := 0; i < v.NumField(); i++ {
		if !v.Field(i).IsNil() {
			if err := e.WriteUint16(uint16(1000 + i)); err != nil {
				return err
			}
			return e.Encode(v.Field(i).Interface())
		}
	}
	return errors.New("empty variant")
}

func (m *MVar) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xbc); err != nil {
		return err
	}
	i, err := d.ReadUint16()
	if err != nil {
		return err
	}
	*m = MVar{}
	switch i {
	case 1000:
		m.A = new(uint16)
		return d.Decode(m.A)
	case 1001:
		m.B = new(string)
		return d.Decode(m.B)
	case 1002:
		m.C = new(MNum)
		return d.Decode(m.C)
	}
	return errors.New("wrong index")
}

// a variant that adds something to the usual format
type MVarPlus struct {
	A *chain.Name
	B *MStruct
	C *[]uint8
	D *MVar
}

func (m MVarPlus) MarshalABI(e *abi.Encoder) error {
	if err := writeMark(e, 0xbd); err != nil {
		return err
	}
	return e.EncodeVariant(m)
}

func (m *MVarPlus) UnmarshalABI(d *abi.Decoder) error {
	if err := readMark(d, 0xbd); err != nil {
		return err
	}
	return d.DecodeVariant(m)
}

var marTypes = []reflect.Type{reflect.TypeOf(MStruct{}), reflect.TypeOf(MNum(0)), reflect.TypeOf(MList{}), reflect.TypeOf(MArr{}), reflect.TypeOf(MMap{}), reflect.TypeOf(MTree{}),
	reflect.TypeOf(MText("")), reflect.TypeOf(MByte(0)), reflect.TypeOf(MBytes{}), reflect.TypeOf(MBool(false)), reflect.TypeOf(MWide(0)),
	reflect.TypeOf(MVar{}), reflect.TypeOf(MVarPlus{}),
	reflect.TypeOf(MI8(0)), reflect.TypeOf(MI16(0)), reflect.TypeOf(MU16(0)), reflect.TypeOf(MI32(0)), reflect.TypeOf(MI64(0)), reflect.TypeOf(MInt(0)), reflect.TypeOf(MUint(0)), reflect.TypeOf(MF32(0)), reflect.TypeOf(MF64(0))}

func init() {
	variantStructs[reflect.TypeOf(MVar{})] = true
	variantStructs[reflect.TypeOf(MVarPlus{})] = true
}

// marRef is the reference of these types, with others on top. calls counts the values met in order.
func marRef(calls *int) Overrides {
	ov := Overrides{}
	on := func(t reflect.Type, f func(v reflect.Value) []byte) {
		ov[t] = func(v reflect.Value) []byte { *calls++; return f(v) }
	}
	on(marTypes[0], func(v reflect.Value) []byte { return refMStruct(v.Interface().(MStruct)) })
	on(marTypes[1], func(v reflect.Value) []byte { return append([]byte{0xb2}, RefVaruint(v.Uint())...) })
	on(marTypes[2], func(v reflect.Value) []byte {
		b := []byte{0xb3}
		for i := 0; i < v.Len(); i++ {
			b = append(append(b, 1), le(v.Index(i).Uint(), 8)...)
		}
		return append(b, 0)
	})
	on(marTypes[3], func(v reflect.Value) []byte {
		b := []byte{0xb4}
		for i := v.Len() - 1; i >= 0; i-- {
			b = append(b, le(v.Index(i).Uint(), 2)...)
		}
		return b
	})
	on(marTypes[4], func(v reflect.Value) []byte {
		return append([]byte{0xb5}, Ref(reflect.ValueOf(map[uint16]MNum(v.Interface().(MMap))), ov)...)
	})
	on(marTypes[5], func(v reflect.Value) []byte {
		return cat([]byte{0xb6}, Ref(v.Field(1), ov), Ref(v.Field(2).Elem(), ov), Ref(v.Field(0), ov))
	})
	on(marTypes[6], func(v reflect.Value) []byte { return cat([]byte{0xb7}, lenBytes(rev([]byte(v.String())))) })
	on(marTypes[7], func(v reflect.Value) []byte { return []byte{0xb8, ^byte(v.Uint())} })
	on(marTypes[8], func(v reflect.Value) []byte { return cat([]byte{0xb9}, lenBytes(rev(v.Bytes()))) })
	on(marTypes[9], func(v reflect.Value) []byte {
		if v.Bool() {
			return []byte{0xba, 0}
		}
		return []byte{0xba, 1}
	})
	on(marTypes[10], func(v reflect.Value) []byte {
		return cat([]byte{0xbb}, lenBytes([]byte(strconv.FormatUint(v.Uint(), 36))))
	})
	alternative := func(v reflect.Value) (int, []byte) {
		for i := 0; i < v.NumField(); i++ {
			if !v.Field(i).IsNil() {
				return i, Ref(v.Field(i).Elem(), ov)
			}
		}
		panic("ref: empty variant")
	}
	on(marTypes[11], func(v reflect.Value) []byte {
		i, b := alternative(v)
		return cat([]byte{0xbc}, le(uint64(1000+i), 2), b)
	})
	on(marTypes[12], func(v reflect.Value) []byte {
		i, b := alternative(v)
		return cat([]byte{0xbd, byte(i)}, b)
	})
	for t := range marBits {
		on(t, refBits)
	}
	return ov
}

// marType is a random type in which at least one of these occurs.
func marType(c *C) reflect.Type {
	r := *c.R
	r.Extra, r.Variants = marTypes, marTypes[11:13]
	for {
		t := RandTop(&r, 1+c.R.N(3))
		if c.R.Chance(1, 4) {
			t = RandType(&r, 1+c.R.N(2))
		}
		for _, m := range marTypes {
			if t == m || mentions(t, m, map[reflect.Type]bool{}) {
				return t
			}
		}
	}
}

func init() {
	gen := func(c *C) (v reflect.Value, want []byte, calls int) {
		for {
			g := NewG(c.R)
			g.NoBig, g.Budget = true, 400
			t := marType(c)
			if c.R.Chance(1, 6) { // bare, also behind pointers
				t = Pick(c.R, marTypes)
				for c.R.Chance(1, 3) {
					t = reflect.PointerTo(t)
				}
			}
			v = g.Value(t)
			calls = 0
			want = Ref(v, marRef(&calls))
			if calls > 0 || c.R.Chance(1, 20) {
				c.Desc("%s", t)
				return
			}
		}
	}

	Register(&Prop{ID: "C27", MinEvents: 5000,
		Rule:        "a case is one generated value of a generated type in which types with their own MarshalABI and UnmarshalABI occur (as field, element, key, optional, variant alternative, extension, behind pointers, nested in each other); bytes, decoded value and the number of method calls are compared with the reference that has the same formats; non-trivial if the bytes are new for that type",
		Assumptions: []string{"MarshalABI is declared on the value and UnmarshalABI on the pointer, as in package chain"},
		Cats: []Category{
			{"values", 20000, 600000, func(c *C) {
				v, want, calls := gen(c)
				c.DistinctBytes(v.Type().String(), want)
				c.Sample("%s -> %s", v.Type(), Hex(want))
				for _, e := range encoders {
					for _, byPtr := range []bool{false, true} {
						arg := v.Interface()
						if byPtr {
							arg = ptrTo(v)
						}
						marFail = mfail{}
						var b bytes.Buffer
						err := e.mk(&b).Encode(arg)
						c.Event("marshaler calls", marFail.calls)
						if err != nil || !bytes.Equal(b.Bytes(), want) {
							c.Fail("%s encoder: %T encodes to %s, %v want %s", e.name, arg, Hex(b.Bytes()), err, Hex(want))
						}
						if marFail.calls != calls {
							c.Fail("%s encoder: %d calls of MarshalABI for %d values", e.name, marFail.calls, calls)
						}
					}
				}
				for _, d := range decoders {
					trail := c.R.Bytes(c.R.N(9))
					if len(ExtensionCuts0(v)) > 0 {
						trail = nil
					}
					data := append(append([]byte{}, want...), trail...)
					r := bytes.NewReader(data)
					p := reflect.New(v.Type())
					unmarFail = mfail{}
					err := d.mk(r).Decode(p.Interface())
					c.Event("unmarshaler calls", unmarFail.calls)
					if err != nil {
						c.Fail("%s decoder: %s from %s failed: %v", d.name, v.Type(), Hex(want), err)
					}
					if r.Len() != len(trail) {
						c.Fail("%s decoder: %d bytes left instead of %d", d.name, r.Len(), len(trail))
					}
					if df := diff(p.Elem(), v, ""); df != "" {
						c.Fail("%s decoder: decoded value differs: %s (data %s)", d.name, df, Hex(want))
					}
					if unmarFail.calls != calls {
						c.Fail("%s decoder: %d calls of UnmarshalABI for %d values", d.name, unmarFail.calls, calls)
					}
				}
			}},
			{"errors", 4000, 100000, func(c *C) {
				v, want, calls := gen(c)
				if calls == 0 {
					return
				}
				c.DistinctBytes("errors"+v.Type().String(), want)
				boom := error(errHook)
				if c.R.Chance(1, 2) {
					boom = &hookError{c.Idx}
				}
				at := 1 + c.R.N(calls)
				for _, e := range encoders {
					marFail = mfail{at: at, err: boom}
					err := e.mk(&bytes.Buffer{}).Encode(v.Interface())
					n := marFail.calls
					marFail = mfail{}
					c.Event("failing methods", 1)
					if !errors.Is(err, boom) {
						c.Fail("%s encoder: MarshalABI failed at call %d of %d but the result is %v", e.name, at, calls, err)
					}
					if n != at {
						c.Fail("%s encoder: went on after MarshalABI had failed at call %d of %d", e.name, at, calls)
					}
				}
				for _, d := range decoders {
					unmarFail = mfail{at: at, err: boom}
					err := d.mk(bytes.NewReader(want)).Decode(reflect.New(v.Type()).Interface())
					n := unmarFail.calls
					unmarFail = mfail{}
					c.Event("failing methods", 1)
					if !errors.Is(err, boom) {
						c.Fail("%s decoder: UnmarshalABI failed at call %d of %d but the result is %v", d.name, at, calls, err)
					}
					if n != at {
						c.Fail("%s decoder: went on after UnmarshalABI had failed at call %d of %d", d.name, at, calls)
					}
				}
			}},
			{"truncated", 2000, 50000, func(c *C) {
				v, want, _ := gen(c)
				if mentions(v.Type(), reflect.TypeOf(chain.Abi{}), map[reflect.Type]bool{}) {
					return // its last list may be left out
				}
				cuts := ExtensionCuts0(v)
				c.DistinctBytes("cut"+v.Type().String(), want)
				for i := 0; i < 12 && len(want) > 0; i++ {
					n := c.R.N(len(want))
					if cuts == nil || cuts[n] {
						continue
					}
					marFail, unmarFail = mfail{}, mfail{}
					err := decoders[c.R.N(len(decoders))].mk(bytes.NewReader(want[:n])).Decode(reflect.New(v.Type()).Interface())
					c.Event("prefixes", 1)
					if err == nil {
						c.Fail("%d of %d bytes %s were accepted", n, len(want), Hex(want))
					}
				}
			}},
			{"hooks first", 3000, 60000, func(c *C) {
				// a hook is asked before the methods
				v, _, _ := gen(c)
				T := Pick(c.R, marTypes)
				mark := byte(0xd0 + c.R.N(16))
				n := 0
				ov := marRef(&n)
				took := 0
				ov[T] = func(v reflect.Value) []byte { took++; return []byte{mark} }
				want := Ref(v, ov)
				c.DistinctBytes("hook"+T.String(), want)
				for _, e := range hookEnc {
					var b bytes.Buffer
					got := 0
					marFail = mfail{}
					err := e.mk(&b, func(enc *abi.Encoder, x interface{}) (bool, error) {
						if _, ok := asType(x, T); ok {
							got++
							return true, enc.WriteByte(mark)
						}
						return false, nil
					}).Encode(v.Interface())
					c.Event("offers taken", got)
					if err != nil || !bytes.Equal(b.Bytes(), want) || got != took {
						c.Fail("%s with a hook for %s: %s, %v want %s (%d of %d values taken)", e.name, T, Hex(b.Bytes()), err, Hex(want), got, took)
					}
				}
				for _, d := range hookDec {
					got := 0
					r := bytes.NewReader(want)
					unmarFail = mfail{}
					err := d.mk(r, func(dec *abi.Decoder, x interface{}) (bool, error) {
						if _, ok := asType(x, T); ok {
							got++
							b, err := dec.ReadByte()
							if err == nil && b != mark {
								err = errors.New("not the mark of the hook")
							}
							return true, err
						}
						return false, nil
					}).Decode(reflect.New(v.Type()).Interface())
					c.Event("offers taken", got)
					if err != nil || r.Len() != 0 || got != took || unmarFail.calls != n {
						c.Fail("%s with a hook for %s: %v, %d of %d bytes left, %d of %d values taken, %d of %d methods called", d.name, T, err, r.Len(), len(want), got, took, unmarFail.calls, n)
					}
				}
			}},
		}})
}
