package h

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/greymass/go-eosio/pkg/chain"
)

// Reference encoder. Written from the EOSIO format, it only looks at the data of the
// values and never calls a method of the code under test.

func RefVaruint(v uint64) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v&0x7f)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func RefVarint(v int64) []byte {
	if v >= 0 {
		return RefVaruint(uint64(v) * 2)
	}
	return RefVaruint(uint64(-(v+1))*2 + 1)
}

func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return b
}

func lenBytes(b []byte) []byte { return append(refCount(len(b)), b...) }

// countHook, if set, replaces the counts the reference writes (number of bytes, elements, entries).
var countHook func(n int) []byte

func refCount(n int) []byte {
	if countHook != nil {
		return countHook(n)
	}
	return RefVaruint(uint64(n))
}

func cat(parts ...[]byte) []byte {
	var rv []byte
	for _, p := range parts {
		rv = append(rv, p...)
	}
	return rv
}

type Leaf struct {
	Name string
	RT   reflect.Type
	Abi  []string // ABI builtins that have this Go representation
	Gen  func(g *G) interface{}
	Ref  func(v interface{}) []byte
	Min  int // minimum width
}

var Leaves []*Leaf
var leafByType = map[reflect.Type]*Leaf{}
var LeafByName = map[string]*Leaf{}
var LeafByAbi = map[string]*Leaf{}

func leaf(name string, sample interface{}, min int, abi []string, gen func(g *G) interface{}, ref func(v interface{}) []byte) {
	l := &Leaf{name, reflect.TypeOf(sample), abi, gen, ref, min}
	Leaves = append(Leaves, l)
	leafByType[l.RT] = l
	LeafByName[name] = l
	for _, a := range abi {
		LeafByAbi[a] = l
	}
}

func u64s(v uint64) []byte { return le(v, 8) }

func refAction(a chain.Action) []byte {
	b := cat(u64s(uint64(a.Account)), u64s(uint64(a.Name)), refCount(len(a.Authorization)))
	for _, p := range a.Authorization {
		b = append(b, u64s(uint64(p.Actor))...)
		b = append(b, u64s(uint64(p.Permission))...)
	}
	return append(b, lenBytes(a.Data)...)
}

func refHeader(t chain.TransactionHeader) []byte {
	return cat(le(uint64(t.Expiration), 4), le(uint64(t.RefBlockNum), 2), le(uint64(t.RefBlockPrefix), 4),
		RefVaruint(uint64(t.MaxNetUsageWords)), []byte{t.MaxCpuUsageMs}, RefVaruint(uint64(t.DelaySec)))
}

func refTx(t chain.Transaction) []byte {
	b := refHeader(t.TransactionHeader)
	for _, l := range [][]chain.Action{t.ContextFreeActions, t.Actions} {
		b = append(b, refCount(len(l))...)
		for _, a := range l {
			b = append(b, refAction(a)...)
		}
	}
	b = append(b, refCount(len(t.Extensions))...)
	for _, e := range t.Extensions {
		b = append(b, cat(le(uint64(e.Type), 2), lenBytes(e.Data))...)
	}
	return b
}

func refStr(s string) []byte { return lenBytes([]byte(s)) }
func refStrs(l []string) []byte {
	b := refCount(len(l))
	for _, s := range l {
		b = append(b, refStr(s)...)
	}
	return b
}

// RefAbi encodes an ABI definition. The variants are a binary extension, always written.
func RefAbi(a chain.Abi) []byte { b, _ := refAbi(a); return b }

// refAbi also returns the offset at which the binary extension (variants) begins.
func refAbi(a chain.Abi) ([]byte, int) {
	b := refStr(a.Version)
	n := func(l int) { b = append(b, refCount(l)...) }
	s := func(x string) { b = append(b, refStr(x)...) }
	n(len(a.Types))
	for _, t := range a.Types {
		s(t.NewTypeName)
		s(t.Type)
	}
	n(len(a.Structs))
	for _, t := range a.Structs {
		s(t.Name)
		s(t.Base)
		n(len(t.Fields))
		for _, f := range t.Fields {
			s(f.Name)
			s(f.Type)
		}
	}
	n(len(a.Actions))
	for _, t := range a.Actions {
		b = append(b, u64s(uint64(t.Name))...)
		s(t.Type)
		s(t.RicardianContract)
	}
	n(len(a.Tables))
	for _, t := range a.Tables {
		b = append(b, u64s(uint64(t.Name))...)
		s(t.IndexType)
		b = append(b, refStrs(t.KeyNames)...)
		b = append(b, refStrs(t.KeyTypes)...)
		s(t.Type)
	}
	n(len(a.RicardianClauses))
	for _, t := range a.RicardianClauses {
		s(t.Id)
		s(t.Body)
	}
	n(len(a.ErrorMessages))
	for _, t := range a.ErrorMessages {
		b = append(b, u64s(uint64(t.Code))...)
		s(t.Message)
	}
	n(len(a.Extensions))
	for _, t := range a.Extensions {
		b = append(b, le(uint64(t.Type), 2)...)
		b = append(b, lenBytes(t.Data)...)
	}
	ext := len(b)
	n(len(a.Variants))
	for _, t := range a.Variants {
		s(t.Name)
		b = append(b, refStrs(t.Types)...)
	}
	return b, ext
}

func init() {
	leaf("bool", false, 1, []string{"bool"}, func(g *G) interface{} { return g.R.Chance(1, 2) },
		func(v interface{}) []byte {
			if v.(bool) {
				return []byte{1}
			}
			return []byte{0}
		})
	leaf("string", "", 1, []string{"string"}, func(g *G) interface{} { return g.Str() },
		func(v interface{}) []byte { return refStr(v.(string)) })
	leaf("uint8", uint8(0), 1, []string{"uint8"}, func(g *G) interface{} { return uint8(g.U(8)) },
		func(v interface{}) []byte { return []byte{v.(uint8)} })
	leaf("uint16", uint16(0), 2, []string{"uint16"}, func(g *G) interface{} { return uint16(g.U(16)) },
		func(v interface{}) []byte { return le(uint64(v.(uint16)), 2) })
	leaf("uint32", uint32(0), 4, []string{"uint32"}, func(g *G) interface{} { return uint32(g.U(32)) },
		func(v interface{}) []byte { return le(uint64(v.(uint32)), 4) })
	leaf("uint64", uint64(0), 8, nil, func(g *G) interface{} { return g.U(64) },
		func(v interface{}) []byte { return le(v.(uint64), 8) })
	leaf("int8", int8(0), 1, []string{"int8"}, func(g *G) interface{} { return int8(g.U(8)) },
		func(v interface{}) []byte { return []byte{byte(v.(int8))} })
	leaf("int16", int16(0), 2, []string{"int16"}, func(g *G) interface{} { return int16(g.U(16)) },
		func(v interface{}) []byte { return le(uint64(v.(int16)), 2) })
	leaf("int32", int32(0), 4, []string{"int32"}, func(g *G) interface{} { return int32(g.U(32)) },
		func(v interface{}) []byte { return le(uint64(v.(int32)), 4) })
	leaf("int64", int64(0), 8, []string{"int64"}, func(g *G) interface{} { return int64(g.U(64)) },
		func(v interface{}) []byte { return le(uint64(v.(int64)), 8) })
	leaf("float32", float32(0), 4, []string{"float32"}, func(g *G) interface{} { return g.F32() },
		func(v interface{}) []byte { return le(uint64(math.Float32bits(v.(float32))), 4) })
	leaf("float64", float64(0), 8, []string{"float64"}, func(g *G) interface{} { return g.F64() },
		func(v interface{}) []byte { return le(math.Float64bits(v.(float64)), 8) })
	leaf("int", int(0), 1, []string{"varint32"}, func(g *G) interface{} { return int(int32(g.Var32())) },
		func(v interface{}) []byte { return RefVarint(int64(v.(int))) })
	leaf("uint", uint(0), 1, []string{"varuint32"}, func(g *G) interface{} { return uint(g.Var32()) },
		func(v interface{}) []byte { return RefVaruint(uint64(v.(uint))) })
	leaf("[]byte", []byte(nil), 1, nil, func(g *G) interface{} { return g.R.Bytes(g.Len()) },
		func(v interface{}) []byte { return lenBytes(v.([]byte)) })
	leaf("Bytes", chain.Bytes(nil), 1, []string{"bytes"}, func(g *G) interface{} { return chain.Bytes(g.R.Bytes(g.Len())) },
		func(v interface{}) []byte { return lenBytes(v.(chain.Bytes)) })
	leaf("Blob", chain.Blob(nil), 1, nil, func(g *G) interface{} { return chain.Blob(g.R.Bytes(g.Len())) },
		func(v interface{}) []byte { return lenBytes(v.(chain.Blob)) })
	leaf("Name", chain.Name(0), 8, []string{"name", "eosio::name"}, func(g *G) interface{} { return g.Name() },
		func(v interface{}) []byte { return u64s(uint64(v.(chain.Name))) })
	leaf("Uint64", chain.Uint64(0), 8, []string{"uint64"}, func(g *G) interface{} { return chain.Uint64(g.U(64)) },
		func(v interface{}) []byte { return u64s(uint64(v.(chain.Uint64))) })
	leaf("BlockNum", chain.BlockNum(0), 4, nil, func(g *G) interface{} { return chain.BlockNum(g.U(32)) },
		func(v interface{}) []byte { return le(uint64(v.(chain.BlockNum)), 4) })
	leaf("BlockTimestamp", chain.BlockTimestamp(0), 4, []string{"block_timestamp_type"}, func(g *G) interface{} { return chain.BlockTimestamp(g.U(32)) },
		func(v interface{}) []byte { return le(uint64(v.(chain.BlockTimestamp)), 4) })
	leaf("TimePointSec", chain.TimePointSec(0), 4, []string{"time_point_sec"}, func(g *G) interface{} { return chain.TimePointSec(g.U(32)) },
		func(v interface{}) []byte { return le(uint64(v.(chain.TimePointSec)), 4) })
	leaf("TimePoint", chain.TimePoint(0), 8, []string{"time_point"}, func(g *G) interface{} { return g.TimePoint() },
		func(v interface{}) []byte { return u64s(uint64(v.(chain.TimePoint))) })
	leaf("Symbol", chain.Symbol(0), 8, []string{"symbol"}, func(g *G) interface{} { return g.Symbol() },
		func(v interface{}) []byte { return u64s(uint64(v.(chain.Symbol))) })
	leaf("SymbolCode", chain.SymbolCode(0), 8, []string{"symbol_code"}, func(g *G) interface{} { return chain.SymbolCode(g.Symbol() >> 8) },
		func(v interface{}) []byte { return u64s(uint64(v.(chain.SymbolCode))) })
	leaf("Asset", chain.Asset{}, 16, []string{"asset"}, func(g *G) interface{} { return g.Asset() },
		func(v interface{}) []byte {
			a := v.(chain.Asset)
			return cat(u64s(uint64(a.Value)), u64s(uint64(a.Symbol)))
		})
	leaf("ExtendedAsset", chain.ExtendedAsset{}, 24, []string{"extended_asset"}, func(g *G) interface{} {
		return chain.ExtendedAsset{Quantity: g.Asset(), Contract: g.Name()}
	}, func(v interface{}) []byte {
		a := v.(chain.ExtendedAsset)
		return cat(u64s(uint64(a.Quantity.Value)), u64s(uint64(a.Quantity.Symbol)), u64s(uint64(a.Contract)))
	})
	leaf("Checksum160", chain.Checksum160{}, 20, []string{"checksum160"}, func(g *G) interface{} {
		var c chain.Checksum160
		copy(c[:], g.Fixed(20))
		return c
	}, func(v interface{}) []byte { c := v.(chain.Checksum160); return append([]byte{}, c[:]...) })
	leaf("Checksum256", chain.Checksum256{}, 32, []string{"checksum256"}, func(g *G) interface{} {
		var c chain.Checksum256
		copy(c[:], g.Fixed(32))
		return c
	}, func(v interface{}) []byte { c := v.(chain.Checksum256); return append([]byte{}, c[:]...) })
	leaf("Checksum512", chain.Checksum512{}, 64, []string{"checksum512"}, func(g *G) interface{} {
		var c chain.Checksum512
		copy(c[:], g.Fixed(64))
		return c
	}, func(v interface{}) []byte { c := v.(chain.Checksum512); return append([]byte{}, c[:]...) })
	leaf("Uint128", chain.Uint128{}, 16, []string{"uint128"}, func(g *G) interface{} { return chain.Uint128{Lo: g.U(64), Hi: g.U(64)} },
		func(v interface{}) []byte { u := v.(chain.Uint128); return cat(u64s(u.Lo), u64s(u.Hi)) })
	leaf("Int128", chain.Int128{}, 16, []string{"int128"}, func(g *G) interface{} { return chain.Int128{Lo: g.U(64), Hi: g.U(64)} },
		func(v interface{}) []byte { u := v.(chain.Int128); return cat(u64s(u.Lo), u64s(u.Hi)) })
	leaf("Float128", chain.Float128{}, 16, []string{"float128"}, func(g *G) interface{} {
		var f chain.Float128
		copy(f.Data[:], g.Fixed(16))
		return f
	}, func(v interface{}) []byte { f := v.(chain.Float128); return append([]byte{}, f.Data[:]...) })
	leaf("PublicKey", chain.PublicKey{}, 34, []string{"public_key"}, func(g *G) interface{} { return g.PublicKey() },
		func(v interface{}) []byte { k := v.(chain.PublicKey); return append([]byte{byte(k.Type)}, k.Data...) })
	leaf("Signature", chain.Signature{}, 66, []string{"signature"}, func(g *G) interface{} { return g.Signature() },
		func(v interface{}) []byte { k := v.(chain.Signature); return append([]byte{byte(k.Type)}, k.Data...) })
	leaf("PermissionLevel", chain.PermissionLevel{}, 16, nil, func(g *G) interface{} { return g.PermissionLevel() },
		func(v interface{}) []byte {
			p := v.(chain.PermissionLevel)
			return cat(u64s(uint64(p.Actor)), u64s(uint64(p.Permission)))
		})
	leaf("Action", chain.Action{}, 18, nil, func(g *G) interface{} { return g.Action() },
		func(v interface{}) []byte { return refAction(v.(chain.Action)) })
	leaf("TransactionHeader", chain.TransactionHeader{}, 13, nil, func(g *G) interface{} { return g.Header() },
		func(v interface{}) []byte { return refHeader(v.(chain.TransactionHeader)) })
	leaf("TransactionExtension", chain.TransactionExtension{}, 3, nil, func(g *G) interface{} { return g.TxExt() },
		func(v interface{}) []byte {
			e := v.(chain.TransactionExtension)
			return cat(le(uint64(e.Type), 2), lenBytes(e.Data))
		})
	leaf("Transaction", chain.Transaction{}, 16, nil, func(g *G) interface{} { return g.Tx() },
		func(v interface{}) []byte { return refTx(v.(chain.Transaction)) })
	leaf("Abi", chain.Abi{}, 9, nil, func(g *G) interface{} { return g.Abi() },
		func(v interface{}) []byte { return RefAbi(v.(chain.Abi)) })
}

// Overrides replaces the encoding of a type wherever the generic codec meets it.
type Overrides map[reflect.Type]func(v reflect.Value) []byte

// Ref is the reference encoding of any supported value.
func Ref(v reflect.Value, ov Overrides) []byte {
	if f, ok := ov[v.Type()]; ok {
		return f(v)
	}
	return refInner(v, ov)
}

// refInner encodes the value itself without an override, what it contains with.
func refInner(v reflect.Value, ov Overrides) []byte {
	if l := leafByType[v.Type()]; l != nil && !(l.Name == "Abi" && len(ov) > 0) {
		return l.Ref(v.Interface())
	}
	switch v.Kind() {
	case reflect.Ptr:
		return Ref(v.Elem(), ov)
	case reflect.Slice:
		b := refCount(v.Len())
		for i := 0; i < v.Len(); i++ {
			b = append(b, Ref(v.Index(i), ov)...)
		}
		return b
	case reflect.Array:
		b := []byte{}
		for i := 0; i < v.Len(); i++ {
			b = append(b, Ref(v.Index(i), ov)...)
		}
		return b
	case reflect.Struct:
		b := []byte{}
		for i := 0; i < v.NumField(); i++ {
			b = append(b, refField(v, i, ov)...)
		}
		return b
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
		b := refCount(len(keys))
		for _, k := range keys {
			b = append(b, Ref(k, ov)...)
			b = append(b, Ref(v.MapIndex(k), ov)...)
		}
		return b
	case reflect.Uint64:
		return le(v.Uint(), 8)
	case reflect.Uint32:
		return le(v.Uint(), 4)
	case reflect.Int64:
		return le(uint64(v.Int()), 8)
	case reflect.Int32:
		return le(uint64(v.Int()), 4)
	}
	panic("ref: unsupported " + v.Type().String())
}

func refField(v reflect.Value, i int, ov Overrides) []byte {
	f := v.Field(i)
	switch v.Type().Field(i).Tag.Get("eosio") {
	case "optional":
		if f.IsZero() {
			return []byte{0}
		}
		return append([]byte{1}, Ref(f, ov)...)
	case "variant":
		if f.Kind() == reflect.Ptr {
			f = f.Elem()
		}
		if ov[f.Type()] != nil {
			return Ref(f, ov)
		}
		for j := 0; j < f.NumField(); j++ {
			if !f.Field(j).IsNil() {
				return append([]byte{byte(j)}, Ref(f.Field(j).Elem(), ov)...)
			}
		}
		panic("ref: empty variant")
	}
	return Ref(f, ov)
}

// ExtensionCuts returns the offsets at which the encoding of v may legitimately end early:
// where a trailing binary extension of the top-level struct begins.
func ExtensionCuts(v reflect.Value) map[int]bool {
	cuts := map[int]bool{}
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if a, ok := v.Interface().(chain.Abi); ok {
		_, n := refAbi(a)
		cuts[n] = true
		return cuts
	}
	if v.Kind() != reflect.Struct || leafByType[v.Type()] != nil {
		return cuts
	}
	n := 0
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Tag.Get("eosio") == "extension" {
			cuts[n] = true
		}
		n += len(refField(v, i, nil))
	}
	return cuts
}

// ExtensionCuts0 says whether v has extensions on top; nil if their offsets are not known.
func ExtensionCuts0(v reflect.Value) map[int]bool {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return map[int]bool{}
	}
	n := 0
	cuts := map[int]bool{}
	calls := 0
	ov := marRef(&calls)
	if ov[v.Type()] != nil {
		return cuts
	}
	if leafByType[v.Type()] != nil {
		return ExtensionCuts(v)
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Tag.Get("eosio") == "extension" {
			cuts[n] = true
		}
		n += len(refField(v, i, ov))
	}
	return cuts
}

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if x, y := a.Index(i), b.Index(i); keyLess(x, y) || keyLess(y, x) {
				return keyLess(x, y)
			}
		}
		return false
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if x, y := a.Field(i), b.Field(i); keyLess(x, y) || keyLess(y, x) {
				return keyLess(x, y)
			}
		}
		return false
	}
	panic("ref: unsupported map key")
}

// Eq compares values by content: floats by their bits, nil and empty lists alike.
func Eq(a, b reflect.Value) bool { return diff(a, b, "") == "" }

// Diff describes the first difference.
func Diff(a, b interface{}) string { return diff(reflect.ValueOf(a), reflect.ValueOf(b), "") }

func diff(a, b reflect.Value, path string) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return fmt.Sprintf("%s: %v vs %v", path, a, b)
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %v vs %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil %v vs nil %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return diff(a.Elem(), b.Elem(), path)
	case reflect.Slice:
		if a.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return fmt.Sprintf("%s: %s vs %s", path, Hex(a.Bytes()), Hex(b.Bytes()))
			}
			return ""
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d vs %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: map length %d vs %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return fmt.Sprintf("%s: key %v missing", path, k)
			}
			if d := diff(a.MapIndex(k), bv, fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
	case reflect.Float32:
		if x, y := math.Float32bits(f32of(a)), math.Float32bits(f32of(b)); x != y {
			return fmt.Sprintf("%s: float bits %08x vs %08x", path, x, y)
		}
	case reflect.Float64:
		if x, y := math.Float64bits(a.Float()), math.Float64bits(b.Float()); x != y {
			return fmt.Sprintf("%s: float bits %016x vs %016x", path, x, y)
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v vs %v", path, a, b)
		}
	case reflect.String:
		if a.String() != b.String() {
			x, y := a.String(), b.String()
			if len(x) > 80 {
				x = x[:80] + "..."
			}
			if len(y) > 80 {
				y = y[:80] + "..."
			}
			return fmt.Sprintf("%s: %q vs %q", path, x, y)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d vs %d", path, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %d vs %d", path, a.Uint(), b.Uint())
		}
	default:
		return path + ": cannot compare " + a.Type().String()
	}
	return ""
}

// without going through float64, which would quiet signalling NaNs
func f32of(v reflect.Value) float32 {
	if v.CanInterface() {
		if f, ok := v.Interface().(float32); ok {
			return f
		}
	}
	return float32(v.Float())
}

// MinWidth is the least number of bytes an encoding of the type can have.
func MinWidth(t reflect.Type) int { return minWidth(t, 0) }

func minWidth(t reflect.Type, d int) int {
	if l := leafByType[t]; l != nil {
		return l.Min
	}
	if d > 20 {
		return 1
	}
	switch t.Kind() {
	case reflect.Ptr:
		return minWidth(t.Elem(), d+1)
	case reflect.Slice, reflect.Map:
		return 1
	case reflect.Array:
		return t.Len() * minWidth(t.Elem(), d+1)
	case reflect.Struct:
		n := 0
		for i := 0; i < t.NumField(); i++ {
			switch t.Field(i).Tag.Get("eosio") {
			case "optional", "variant":
				n++
			case "extension":
			default:
				n += minWidth(t.Field(i).Type, d+1)
			}
		}
		return n
	case reflect.Uint64, reflect.Int64:
		return 8
	case reflect.Uint32, reflect.Int32:
		return 4
	}
	return 0
}

var _ = binary.LittleEndian
