package h

import (
	"bytes"
	"math"
	"math/bits"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/greymass/go-eosio/pkg/chain"
)

// G generates values, biased towards the boundaries of the format.
type G struct {
	R      *R
	Budget int  // rough limit on the size of the value
	Text   bool // only values that have a text form (symbols of capital letters, UTF-8 strings, finite floats, ...)
	NoBig  bool
	depth  int
}

func NewG(r *R) *G { return &G{R: r, Budget: 4000} }

var ladderS = []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257}
var ladderM = []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193}
var ladderL = []int{16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 65793}

// near is a step of the ladder or, now and then, anything below its top.
func (g *G) near(ladder []int) int {
	if g.R.Chance(1, 4) {
		return g.R.N(ladder[len(ladder)-1])
	}
	return Pick(g.R, ladder)
}

// Scale is a size up to max, of any magnitude, half the time next to a power of two.
func Scale(r *R, max int) int {
	if n, ok := r.size(max); ok {
		return n
	}
	n := 1
	for n < max && !r.Chance(1, 1+bits.Len(uint(max/n))) {
		n *= 2
	}
	if r.Chance(1, 2) {
		n += r.N(n)
	} else {
		n += r.N(3) - 1
	}
	return min(n, max)
}

// LongList is a list with very many elements of the type, a few different ones in random order.
func LongList(r *R, et reflect.Type, max int) reflect.Value {
	var pool []reflect.Value
	size := 0
	for i := 1 + r.N(12); i > 0; i-- {
		g := NewG(r)
		g.NoBig, g.Budget = true, 60
		v := g.Value(et)
		size = size + len(Ref(v, nil)) + 1
		pool = append(pool, v)
	}
	n := Scale(r, max/(size/len(pool)+1)+1)
	if MinWidth(et) == 0 { // their number may be limited
		n = min(n, 1000)
	}
	v := reflect.MakeSlice(reflect.SliceOf(et), n, n)
	for i := 0; i < n; i++ {
		v.Index(i).Set(Pick(r, pool))
	}
	return v
}

// Len is a length, mostly short, sometimes around a power of two.
func (g *G) Len() int {
	n := 0
	switch x := g.R.N(100); {
	case x < 55:
		n = g.R.N(6)
	case x < 78:
		n = g.R.N(40)
	case x < 92:
		n = g.near(ladderS)
	case x < 98:
		n = g.near(ladderM)
	default:
		n = Pick(g.R, ladderL)
	}
	if x, ok := g.R.size(100000); ok {
		n = x
	}
	if g.NoBig && n > 300 || n > g.Budget && g.Budget < 3000 {
		n = g.R.N(5)
	}
	g.Budget -= n
	return n
}

// Count is a number of elements, each taking about size bytes.
func (g *G) Count(size int) int {
	if size < 1 {
		size = 1
	}
	n := 0
	switch x := g.R.N(100); {
	case x < 75:
		n = g.R.N(4)
	case x < 92:
		n = g.R.N(12)
	case x < 98:
		n = g.near(ladderS)
	default:
		n = g.near(ladderM)
	}
	if x, ok := g.R.size(10000); ok {
		n = x
	}
	if n*size > g.Budget {
		if g.Budget <= 0 {
			n = g.R.N(2)
		} else {
			n = g.R.N(3)
		}
	}
	g.Budget -= n * size
	return n
}

// U is an unsigned integer of up to bits bits.
func (g *G) U(bits uint) uint64 {
	mask := uint64(math.MaxUint64) >> (64 - bits)
	if v, ok := g.R.word(); ok {
		return v & mask
	}
	switch g.R.N(8) {
	case 0:
		return g.R.Uint64N(4)
	case 1:
		return mask - g.R.Uint64N(3)
	case 2:
		return ((uint64(1) << (bits - 1)) + g.R.Uint64N(3) - 1) & mask
	case 3:
		return ((uint64(1) << g.R.N(int(bits))) + g.R.Uint64N(3) - 1) & mask
	case 4:
		return g.R.Uint64() & mask >> uint(g.R.N(int(bits)))
	case 5: // a single interesting byte
		return (uint64(g.R.N(256)) << (8 * uint(g.R.N(int(bits/8))))) & mask
	default:
		return g.R.Uint64() & mask
	}
}

// Var32 is a 32-bit value biased to the varint group boundaries.
func (g *G) Var32() uint32 {
	if g.R.Chance(1, 2) {
		base := Pick(g.R, []uint64{0, 1 << 6, 1 << 7, 1 << 13, 1 << 14, 1 << 20, 1 << 21, 1 << 27, 1 << 28, 1 << 31, 1 << 32})
		return uint32(base + g.R.Uint64N(5) - 2)
	}
	return uint32(g.U(32))
}

func (g *G) Fixed(n int) []byte {
	if v, ok := g.R.word(); ok { // somewhere, or in every byte
		b := g.R.Bytes(n)
		if g.R.Chance(1, 4) {
			b = bytes.Repeat([]byte{byte(v)}, n)
		}
		b[Pick(g.R, []int{0, n - 1, g.R.N(n)})] = byte(v)
		return b
	}
	switch g.R.N(8) {
	case 0:
		return make([]byte, n)
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 2:
		b := make([]byte, n)
		b[g.R.N(n)] = byte(g.R.N(256))
		return b
	}
	return g.R.Bytes(n)
}

var runes = []rune{'a', 'Z', '0', ' ', '"', '\\', '<', '>', '&', '\n', '\t', 0x7f, 0xe9, 0x20ac, 0x2028, 0x1f600, '/', '[', ']', '?', '$', ',', '.'}

func (g *G) Str() string {
	if s, ok := g.R.phrase(); ok && (!g.Text || utf8.ValidString(s)) {
		switch g.R.N(4) {
		case 0:
			return strings.Repeat("x", g.R.N(20)) + s
		case 1:
			return s + strings.Repeat("x", g.R.N(20))
		case 2:
			return strings.Repeat(s, 1+g.R.N(4))
		}
		return s
	}
	n := g.Len()
	if !g.Text {
		switch g.R.N(3) {
		case 0:
			return string(g.R.Bytes(n))
		case 1:
			return strings.Repeat("a", n)
		}
	}
	var sb strings.Builder
	for sb.Len() < n {
		if g.R.Chance(1, 3) {
			sb.WriteRune(Pick(g.R, runes))
		} else {
			sb.WriteByte(byte('a' + g.R.N(26)))
		}
	}
	return sb.String()
}

func (g *G) F64() float64 {
	if !g.Text && g.R.Chance(1, 4) {
		return math.Float64frombits(Pick(g.R, []uint64{0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0xfff7ffffffffffff, 0x8000000000000000, 1, 0x000fffffffffffff, 0x7fefffffffffffff}))
	}
	for {
		f := math.Float64frombits(g.R.Uint64())
		if g.R.Chance(1, 3) {
			f = float64(g.R.N(2000000)-1000000) / 1000
		}
		if !g.Text || !(math.IsNaN(f) || math.IsInf(f, 0)) {
			return f
		}
	}
}

func (g *G) F32() float32 {
	if !g.Text && g.R.Chance(1, 4) {
		return math.Float32frombits(Pick(g.R, []uint32{0x7f800000, 0xff800000, 0x7fc00001, 0x7f800001, 0xff87ffff, 0x80000000, 1, 0x007fffff, 0x7f7fffff}))
	}
	for {
		f := math.Float32frombits(uint32(g.R.Uint64()))
		if g.R.Chance(1, 3) {
			f = float32(g.R.N(20000)-10000) / 100
		}
		if !g.Text || !(math.IsNaN(float64(f)) || math.IsInf(float64(f), 0)) {
			return f
		}
	}
}

func (g *G) Name() chain.Name { return chain.Name(g.NameBits()) }

func (g *G) NameBits() uint64 {
	if n, ok := g.R.nameWord(); ok {
		return uint64(n)
	}
	if g.R.Chance(1, 2) {
		// like real names: random characters, some length, sparse high characters
		var v uint64
		n := g.R.N(14)
		for i := 0; i < n && i < 12; i++ {
			v |= uint64(g.R.N(32)) << (59 - 5*uint(i))
		}
		if n == 13 {
			v |= uint64(g.R.N(16))
		}
		return v
	}
	return g.U(64)
}

func (g *G) Symbol() chain.Symbol {
	if !g.Text && g.R.Chance(1, 4) {
		return chain.Symbol(g.U(64))
	}
	v := uint64(g.R.N(19))
	if s, ok := g.R.phrase(); ok && len(s) <= 7 && strings.Trim(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") == "" {
		return chain.Symbol(refSymValue(int(v), s))
	}
	if x, ok := g.R.word(); ok { // a code as a number, or with its precision
		for _, x := range []uint64{x, x >> 8} {
			n, ok := "", true
			for y := x; y > 0; y >>= 8 {
				n += string(rune(y & 0xff))
				ok = ok && byte(y) >= 'A' && byte(y) <= 'Z'
			}
			if ok && n != "" && len(n) <= 7 {
				return chain.Symbol(x<<8 | v)
			}
		}
	}
	n := 1 + g.R.N(7)
	for i := 0; i < n; i++ {
		v |= uint64('A'+g.R.N(26)) << (8 * uint(i+1))
	}
	return chain.Symbol(v)
}

func (g *G) Asset() chain.Asset {
	v := int64(g.U(64))
	if g.R.Chance(1, 4) { // around powers of ten
		p := int64(1)
		for i := g.R.N(19); i > 0; i-- {
			p *= 10
		}
		v = p + int64(g.R.N(3)) - 1
		if g.R.Chance(1, 2) {
			v = -v
		}
	}
	return chain.Asset{Value: v, Symbol: g.Symbol()}
}

func (g *G) TimePoint() chain.TimePoint {
	if g.Text || g.R.Chance(1, 2) { // years 0001 to 9999, whole milliseconds if text
		us := g.R.Int64N(253402300800000000+62135596800000000) - 62135596800000000
		if g.R.Chance(1, 2) {
			us = g.R.Int64N(4102444800000000)
		}
		if v, ok := g.R.word(); ok { // seconds, milliseconds, days, a year
			switch g.R.N(4) {
			case 0:
				us = int64(v) % 253402300800 * 1000000
			case 1:
				us = int64(v) % 253402300800000 * 1000
			case 2:
				us = int64(v) % 2932896 * 86400000000
			default:
				us = time.Date(1+int(v%9998), time.Month(1+g.R.N(12)), 1+g.R.N(31), 0, 0, 0, 0, time.UTC).UnixMicro()
			}
			us = max(us, -62135596800000000)
		}
		if g.Text {
			us -= ((us % 1000) + 1000) % 1000
		}
		return chain.TimePoint(us)
	}
	return chain.TimePoint(g.U(64))
}

func (g *G) PublicKey() chain.PublicKey {
	switch g.R.N(3) {
	case 0:
		return chain.PublicKey{Type: chain.K1, Data: g.KeyBytes()}
	case 1:
		return chain.PublicKey{Type: chain.P1, Data: g.KeyBytes()}
	}
	rp := g.R.Bytes(g.Len())
	d := append(g.Fixed(34), lenBytes(rp)...)
	return chain.PublicKey{Type: chain.WA, Data: d}
}

// KeyBytes is a compressed point, or now and then any 33 bytes.
func (g *G) KeyBytes() []byte {
	b := g.Fixed(33)
	if g.R.Chance(3, 4) {
		b[0] = byte(2 + g.R.N(2))
	}
	return b
}

func (g *G) Signature() chain.Signature {
	switch g.R.N(3) {
	case 0:
		return chain.Signature{Type: chain.K1, Data: g.Fixed(65)}
	case 1:
		return chain.Signature{Type: chain.P1, Data: g.Fixed(65)}
	}
	d := append(g.Fixed(65), lenBytes(g.R.Bytes(g.Len()))...)
	d = append(d, lenBytes(g.R.Bytes(g.Len()))...)
	return chain.Signature{Type: chain.WA, Data: d}
}

func (g *G) PermissionLevel() chain.PermissionLevel {
	return chain.PermissionLevel{Actor: g.Name(), Permission: g.Name()}
}

func (g *G) Action() chain.Action {
	a := chain.Action{Account: g.Name(), Name: g.Name(), Authorization: []chain.PermissionLevel{}}
	for i := g.Count(16); i > 0; i-- {
		a.Authorization = append(a.Authorization, g.PermissionLevel())
	}
	a.Data = chain.Bytes(g.R.Bytes(g.Len()))
	return a
}

func (g *G) Header() chain.TransactionHeader {
	return chain.TransactionHeader{
		Expiration: chain.TimePointSec(g.U(32)), RefBlockNum: uint16(g.U(16)), RefBlockPrefix: uint32(g.U(32)),
		MaxNetUsageWords: uint(g.Var32()), MaxCpuUsageMs: uint8(g.U(8)), DelaySec: uint(g.Var32()),
	}
}

func (g *G) TxExt() chain.TransactionExtension {
	return chain.TransactionExtension{Type: uint16(g.U(16)), Data: chain.Bytes(g.R.Bytes(g.Len()))}
}

func (g *G) Tx() chain.Transaction {
	t := chain.Transaction{TransactionHeader: g.Header(), ContextFreeActions: []chain.Action{}, Actions: []chain.Action{}, Extensions: []chain.TransactionExtension{}}
	for i := g.Count(50); i > 0; i-- {
		t.ContextFreeActions = append(t.ContextFreeActions, g.Action())
	}
	for i := g.Count(50); i > 0; i-- {
		t.Actions = append(t.Actions, g.Action())
	}
	for i := g.Count(20); i > 0; i-- {
		t.Extensions = append(t.Extensions, g.TxExt())
	}
	return t
}

func (g *G) strs() []string {
	l := []string{}
	for i := g.Count(10); i > 0; i-- {
		l = append(l, g.Str())
	}
	return l
}

// Abi is an ABI definition document with arbitrary content (not necessarily consistent).
func (g *G) Abi() chain.Abi {
	a := chain.Abi{Version: g.Str(), Types: []chain.AbiType{}, Structs: []chain.AbiStruct{}, Actions: []chain.AbiAction{}, Tables: []chain.AbiTable{}, RicardianClauses: []chain.AbiClause{}}
	for i := g.Count(20); i > 0; i-- {
		a.Types = append(a.Types, chain.AbiType{NewTypeName: g.Str(), Type: g.Str()})
	}
	for i := g.Count(50); i > 0; i-- {
		s := chain.AbiStruct{Name: g.Str(), Base: g.Str(), Fields: []chain.AbiField{}}
		for j := g.Count(20); j > 0; j-- {
			s.Fields = append(s.Fields, chain.AbiField{Name: g.Str(), Type: g.Str()})
		}
		a.Structs = append(a.Structs, s)
	}
	for i := g.Count(30); i > 0; i-- {
		a.Actions = append(a.Actions, chain.AbiAction{Name: g.Name(), Type: g.Str(), RicardianContract: g.Str()})
	}
	for i := g.Count(50); i > 0; i-- {
		a.Tables = append(a.Tables, chain.AbiTable{Name: g.Name(), IndexType: g.Str(), KeyNames: g.strs(), KeyTypes: g.strs(), Type: g.Str()})
	}
	for i := g.Count(20); i > 0; i-- {
		a.RicardianClauses = append(a.RicardianClauses, chain.AbiClause{Id: g.Str(), Body: g.Str()})
	}
	for i := g.Count(20); i > 0; i-- {
		a.ErrorMessages = append(a.ErrorMessages, chain.AbiErrorMessage{Code: chain.Uint64(g.U(64)), Message: g.Str()})
	}
	for i := g.Count(20); i > 0; i-- {
		a.Extensions = append(a.Extensions, &chain.AbiExtension{Type: uint16(g.U(16)), Data: chain.Bytes(g.R.Bytes(g.Len()))})
	}
	for i := g.Count(20); i > 0; i-- {
		a.Variants = append(a.Variants, chain.AbiVariant{Name: g.Str(), Types: g.strs()})
	}
	return a
}

// Value generates a value of any supported Go type.
func (g *G) Value(t reflect.Type) reflect.Value { return g.value(t, "") }

func (g *G) value(t reflect.Type, tag string) reflect.Value {
	if l := leafByType[t]; l != nil {
		g.Budget -= l.Min
		return reflect.ValueOf(l.Gen(g)).Convert(t)
	}
	g.depth++
	defer func() { g.depth-- }()
	rv := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		p.Elem().Set(g.value(t.Elem(), tag))
		rv.Set(p)
	case reflect.Slice:
		n := 0
		if g.depth < 12 {
			w := MinWidth(t.Elem())
			n = g.Count(w + 4)
			if w == 0 && n > 500 {
				n = 500
			}
		}
		if n == 0 && g.R.Chance(1, 3) {
			break // a nil list is an empty list
		}
		rv.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			rv.Index(i).Set(g.value(t.Elem(), ""))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			rv.Index(i).Set(g.value(t.Elem(), ""))
		}
	case reflect.Map:
		n := 0
		if g.depth < 12 {
			n = g.Count(MinWidth(t.Key()) + MinWidth(t.Elem()) + 4)
		}
		if n > 0 || g.R.Chance(2, 3) {
			rv.Set(reflect.MakeMap(t))
			for ; n > 0; n-- {
				rv.SetMapIndex(g.value(t.Key(), ""), g.value(t.Elem(), ""))
			}
		}
	case reflect.Struct:
		if tag == "variant" || variantStructs[t] {
			i := g.R.N(t.NumField())
			rv.Field(i).Set(g.value(t.Field(i).Type, ""))
			break
		}
		for i := 0; i < t.NumField(); i++ {
			ft := t.Field(i)
			tg := ft.Tag.Get("eosio")
			if tg == "optional" && (g.R.Chance(2, 5) || g.depth > 8) {
				continue
			}
			fv := g.value(ft.Type, tg)
			if tg == "optional" && fv.IsZero() { // absent, a negative zero too
				continue
			}
			rv.Field(i).Set(fv)
		}
	case reflect.Uint64:
		rv.SetUint(g.U(64))
	case reflect.Uint32:
		rv.SetUint(g.U(32))
	case reflect.Int64:
		rv.SetInt(int64(g.U(64)))
	case reflect.Int32:
		rv.SetInt(int64(int32(g.U(32))))
	case reflect.Int8, reflect.Int16, reflect.Int: // these occur with methods of their own only
		rv.SetInt(int64(int32(g.U(32))) >> uint(32-min(32, t.Bits())))
	case reflect.Uint16, reflect.Uint:
		rv.SetUint(g.U(uint(min(32, t.Bits()))))
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(float64(float32(int32(g.U(32))) / 8))
	case reflect.Uint8:
		rv.SetUint(g.U(8))
	case reflect.String:
		rv.SetString(g.Str())
	case reflect.Bool:
		rv.SetBool(g.R.Chance(1, 2))
	default:
		panic("gen: unsupported " + t.String())
	}
	return rv
}

// named types without methods, a user could declare these
type (
	UserU64 uint64
	UserU32 uint32
	UserI64 int64
	UserI32 int32
	UserBuf []byte
	UserArr [3]uint16
	UserMap map[string]chain.Name
)

type Embedded struct {
	A uint16
	B chain.Name
}

type WithEmbedded struct {
	Embedded
	C []Embedded
	D *Embedded `eosio:"optional"`
}

type Keyed struct {
	*Embedded
	M map[Embedded]UserU32
	N map[[2]uint8]struct{}
	O map[UserI64]*Embedded
}

// recursive types
type Tree struct {
	V uint16
	L *Tree `eosio:"optional"`
	R *Tree `eosio:"optional"`
}
type RecSlice []RecSlice
type RecMap map[string]RecMap
type RecStruct struct {
	Kids []RecStruct
	P    *[]RecStruct `eosio:"optional"`
	Tag  chain.Bytes
}
type VarT struct {
	A *uint32
	B *string
	C *chain.Asset
	D *[]VarHolder
}
type VarHolder struct {
	X uint8
	V VarT `eosio:"variant"`
	W *struct {
		N *chain.Name
		S *chain.Signature
	} `eosio:"variant"`
}
type ExtT struct {
	A chain.Name
	B []string
	C uint32        `eosio:"extension"`
	D []chain.Asset `eosio:"extension"`
	E *chain.Bytes  `eosio:"extension"`
}

// every optional shape
type OptT struct {
	A uint8              `eosio:"optional"`
	B *uint8             `eosio:"optional"`
	C string             `eosio:"optional"`
	D []uint16           `eosio:"optional"`
	E *[]uint16          `eosio:"optional"`
	F map[uint8]string   `eosio:"optional"`
	G [2]chain.Name      `eosio:"optional"`
	H *chain.PublicKey   `eosio:"optional"`
	I chain.Asset        `eosio:"optional"`
	J **int              `eosio:"optional"`
	K Embedded           `eosio:"optional"`
	L *chain.Checksum256 `eosio:"optional"`
}

type Mixed struct {
	A  []chain.Name
	B  map[chain.Name][]chain.Asset
	C  [4][]byte
	D  map[string]*bool
	E  []*string
	F  **uint16
	G  UserU64
	H  UserBuf
	I  UserArr
	J  UserMap
	K  *UserI32
	M  [2]map[int16]UserU32
	N  []UserI64
	O  [][][]uint8
	P  chain.PublicKey
	Q  []chain.Signature
	R  []float32
	S  []float64
	T  map[bool]int
	U  []int
	V  []uint
	W  map[chain.Checksum160]chain.Uint128
	X  chain.Transaction
	Y  []bool
	Z  chain.Blob
	AA struct {
		A int8
		B struct{ C chain.Int128 }
	}
}

type Empty struct{}
type ManyEmpty struct {
	A []Empty
	B Empty
	C [3]Empty
	D uint8
}

var UserTypes = []reflect.Type{
	reflect.TypeOf(WithEmbedded{}), reflect.TypeOf(Tree{}), reflect.TypeOf(RecSlice{}), reflect.TypeOf(RecMap{}),
	reflect.TypeOf(RecStruct{}), reflect.TypeOf(VarHolder{}), reflect.TypeOf(ExtT{}), reflect.TypeOf(OptT{}),
	reflect.TypeOf(Mixed{}), reflect.TypeOf(ManyEmpty{}), reflect.TypeOf(UserMap{}), reflect.TypeOf(UserArr{}), reflect.TypeOf(Keyed{}),
}

var leafKeyTypes = []string{"bool", "string", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "int", "uint", "Name", "Checksum160", "Checksum256", "TimePointSec", "Uint64", "Symbol", "BlockNum", "TimePoint"}

// structs are ordered by their fields, arrays by their elements
var userKeyTypes = []reflect.Type{
	reflect.TypeOf(UserU64(0)), reflect.TypeOf(UserU32(0)), reflect.TypeOf(UserI64(0)), reflect.TypeOf(UserI32(0)), reflect.TypeOf(UserArr{}), reflect.TypeOf(Embedded{}),
	reflect.TypeOf([1]uint8{}), reflect.TypeOf([3]uint8{}), reflect.TypeOf([2]int16{}), reflect.TypeOf([2]string{}), reflect.TypeOf(struct {
		A string
		B [2]bool
		C int
	}{}),
}

// RandType builds a random Go type from the supported constructors.
func RandType(r *R, depth int) reflect.Type {
	if depth <= 0 || r.Chance(1, 4) {
		if len(r.Extra) > 0 && r.Chance(1, 2) {
			return Pick(r, r.Extra)
		}
		if r.Chance(1, 12) {
			return Pick(r, []reflect.Type{reflect.TypeOf(UserU64(0)), reflect.TypeOf(UserU32(0)), reflect.TypeOf(UserI64(0)), reflect.TypeOf(UserI32(0)), reflect.TypeOf(UserBuf{}), reflect.TypeOf(UserArr{}), reflect.TypeOf(Embedded{})})
		}
		l := Pick(r, Leaves)
		if (l.Name == "Abi" || l.Name == "Transaction") && r.Chance(3, 4) {
			l = LeafByName["Name"]
		}
		return l.RT
	}
	switch r.N(9) {
	case 0:
		return reflect.SliceOf(RandType(r, depth-1))
	case 1:
		if r.Chance(1, 25) {
			return reflect.ArrayOf(Scale(r, 300), RandType(r, 0))
		}
		return reflect.ArrayOf(r.N(4), RandType(r, depth-1))
	case 2:
		k := LeafByName[Pick(r, leafKeyTypes)].RT
		if r.Chance(1, 4) {
			k = Pick(r, userKeyTypes)
		}
		if len(r.Extra) > 0 && r.Chance(1, 2) {
			if x := Pick(r, r.Extra); x.Comparable() && x.Kind() != reflect.Struct && x.Kind() != reflect.Float32 && x.Kind() != reflect.Float64 {
				k = x
			}
		}
		return reflect.MapOf(k, RandType(r, depth-1))
	case 3:
		return reflect.PointerTo(RandType(r, depth-1))
	default:
		return RandStruct(r, depth)
	}
}

func RandStruct(r *R, depth int) reflect.Type {
	n := 1 + r.N(5)
	if r.Chance(1, 30) {
		n = 0
	}
	if r.Chance(1, 40) {
		n, depth = Scale(r, 140), 1
	}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: "F" + string(rune('A'+i%26)) + strings.Repeat("x", i/26), Type: RandType(r, depth-1)}
		switch r.N(8) {
		case 0, 1:
			f.Tag = `eosio:"optional"`
			if f.Type.Kind() != reflect.Ptr && r.Chance(2, 3) {
				f.Type = reflect.PointerTo(f.Type)
			}
		case 2:
			f.Tag = `eosio:"variant"`
			var vs []reflect.StructField
			for j := 1 + r.N(4); j > 0; j-- {
				vs = append(vs, reflect.StructField{Name: "V" + string(rune('A'+len(vs))), Type: reflect.PointerTo(RandType(r, depth-2))})
			}
			f.Type = reflect.StructOf(vs)
			if len(r.Variants) > 0 && r.Chance(1, 2) {
				f.Type = Pick(r, r.Variants)
			}
			if r.Chance(1, 3) {
				f.Type = reflect.PointerTo(f.Type)
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// variantStructs are variants wherever they occur.
var variantStructs = map[reflect.Type]bool{}

// RandTop is a random top-level struct, which may end in binary extensions.
func RandTop(r *R, depth int) reflect.Type {
	t := RandStruct(r, depth)
	if !r.Chance(1, 3) {
		return t
	}
	var fs []reflect.StructField
	for i := 0; i < t.NumField(); i++ {
		fs = append(fs, t.Field(i))
	}
	for j := 1 + r.N(3); j > 0; j-- {
		ft := RandType(r, depth-1)
		for MinWidth(ft) == 0 {
			ft = RandType(r, 0)
		}
		fs = append(fs, reflect.StructField{Name: "X" + string(rune('A'+j)), Type: ft, Tag: `eosio:"extension"`})
	}
	for i := range fs {
		fs[i].Offset, fs[i].Index = 0, nil
	}
	return reflect.StructOf(fs)
}

// Namesakes are different types that all call themselves h.T.
var Namesakes = []reflect.Type{
	func() reflect.Type { type T struct{ A uint8 }; return reflect.TypeOf(T{}) }(),
	func() reflect.Type { type T struct{ A, B uint8 }; return reflect.TypeOf(T{}) }(),
	func() reflect.Type { type T struct{ A uint16 }; return reflect.TypeOf(T{}) }(),
	func() reflect.Type { type T struct{ A *uint16 }; return reflect.TypeOf(T{}) }(),
	func() reflect.Type {
		type T struct {
			A *uint16 `eosio:"optional"`
		}
		return reflect.TypeOf(T{})
	}(),
	func() reflect.Type {
		type T struct {
			B string
			A uint8
		}
		return reflect.TypeOf(T{})
	}(),
	func() reflect.Type {
		type T struct {
			A struct {
				X *uint8
				Y *string
			} `eosio:"variant"`
		}
		return reflect.TypeOf(T{})
	}(),
	func() reflect.Type { type T []uint8; return reflect.TypeOf(T{}) }(),
	func() reflect.Type { type T []string; return reflect.TypeOf(T{}) }(),
	func() reflect.Type { type T [3]uint16; return reflect.TypeOf(T{}) }(),
	func() reflect.Type { type T map[uint8]string; return reflect.TypeOf(T{}) }(),
	func() reflect.Type { type T uint64; return reflect.TypeOf(T(0)) }(),
	func() reflect.Type { type T int32; return reflect.TypeOf(T(0)) }(),
}
