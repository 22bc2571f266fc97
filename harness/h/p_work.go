package h

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"io"
	"reflect"
	"runtime"
	"runtime/coverage"
	"strings"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/codegen"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

// The work an operation does is counted, not timed: executions of the library's code blocks (the counters of
// its coverage instrumentation), bytes allocated, and calls of the reader, the writer and the hook.

// blocks is the number of block executions of the library so far.
func blocks() uint64 {
	var b bytes.Buffer
	if err := coverage.WriteCounters(&b); err != nil {
		panic(sprintf("the harness was not built for counting: %v", err))
	}
	d := b.Bytes()
	// header of the file and of its only segment
	flavor := d[24]
	entries := binary.LittleEndian.Uint64(d[32:])
	p := 32 + 16 + int(binary.LittleEndian.Uint32(d[40:])) + int(binary.LittleEndian.Uint32(d[44:]))
	next := func() uint64 {
		if flavor == 1 {
			v := binary.LittleEndian.Uint32(d[p:])
			p += 4
			return uint64(v)
		}
		v, n := binary.Uvarint(d[p:])
		p += n
		return v
	}
	var sum uint64
	for i := uint64(0); i < entries; i++ {
		n := next()
		next()
		next()
		for j := uint64(0); j < n; j++ {
			sum += next()
		}
	}
	return sum
}

type workload struct {
	Blocks, Bytes, Calls uint64
}

func measure(f func(u *ucode)) workload {
	u := &ucode{}
	var m1, m2 runtime.MemStats
	b1 := blocks()
	runtime.ReadMemStats(&m1)
	f(u)
	runtime.ReadMemStats(&m2)
	return workload{blocks() - b1, m2.TotalAlloc - m1.TotalAlloc, uint64(u.n)}
}

// grows compares the work for sizes n, 3n and 9n. Something that is proportional to the pow-th power of the size
// stays well below the limit, the next power is well above. Both steps have to exceed it: buffers that grow in
// steps can make one of them look worse than it is.
func grows(pow int, w [3]workload) string {
	lim := 4.8
	for ; pow > 1; pow-- {
		lim *= 3
	}
	check := func(what string, slack uint64, get func(w workload) uint64) string {
		a, b, c := get(w[0]), get(w[1]), get(w[2])
		if float64(b) > lim*float64(a)+float64(slack) && float64(c) > lim*float64(b)+float64(slack) {
			return sprintf("%s: %d, %d, %d for sizes 1, 3, 9", what, a, b, c)
		}
		return ""
	}
	for _, s := range []string{
		check("blocks executed", 2000, func(w workload) uint64 { return w.Blocks }),
		check("bytes allocated", 256<<10, func(w workload) uint64 { return w.Bytes }),
		check("calls of reader, writer and hook", 50, func(w workload) uint64 { return w.Calls }),
	} {
		if s != "" {
			return s
		}
	}
	return ""
}

type workFam struct {
	name string
	n    int // smallest size
	pow  int
	prep func(g *G, n int) []func(u *ucode)
}

// nullWriter counts and forgets.
type nullWriter struct{ u *ucode }

func (w nullWriter) Write(p []byte) (int, error) { w.u.call(); return len(p), nil }

type slowReader struct {
	r io.Reader
	u *ucode
}

func (r slowReader) Read(p []byte) (int, error) {
	r.u.call()
	if len(p) > 1 {
		p = p[:1]
	}
	return r.r.Read(p)
}

type countReader struct {
	r io.Reader
	u *ucode
}

func (r countReader) Read(p []byte) (int, error) { r.u.call(); return r.r.Read(p) }

// typedWork encodes and decodes v in various ways.
func typedWork(v reflect.Value, enc []byte) []func(u *ucode) {
	t := v.Type()
	arg := v.Interface()
	used := reflect.New(t)
	if err := chain.NewDecoder(bytes.NewReader(enc)).Decode(used.Interface()); err != nil {
		panic(failure{sprintf("decoding %s: %v", t, err)})
	}
	dec := func(r io.Reader) { chain.NewDecoder(r).Decode(reflect.New(t).Interface()) }
	return []func(u *ucode){
		func(u *ucode) { chain.NewEncoder(nullWriter{u}).Encode(arg) },
		func(u *ucode) { abi.NewEncoder(nullWriter{u}, noEnc).Encode(arg) },
		func(u *ucode) {
			chain.NewCustomEncoder(io.Discard, func(*abi.Encoder, interface{}) (bool, error) { u.call(); return false, nil }).Encode(arg)
		},
		func(u *ucode) { dec(countReader{bytes.NewReader(enc), u}) },
		func(u *ucode) { dec(slowReader{bytes.NewReader(enc), u}) },
		func(u *ucode) { dec(countReader{bytes.NewReader(enc[:len(enc)-1]), u}) },
		func(u *ucode) {
			chain.NewDecoder(countReader{bytes.NewReader(enc), u}).Decode(used.Interface())
		},
		func(u *ucode) {
			chain.NewCustomDecoder(bytes.NewReader(enc), func(*abi.Decoder, interface{}) (bool, error) { u.call(); return false, nil }).Decode(reflect.New(t).Interface())
		},
	}
}

func abiWork(a *chain.Abi, name string, in interface{}, enc []byte) []func(u *ucode) {
	a.Actions = append(a.Actions, chain.AbiAction{Name: 77, Type: name})
	act := chain.NewAction(1, 77, nil, enc)
	return []func(u *ucode){
		func(u *ucode) { a.Encode(nullWriter{u}, name, in) },
		func(u *ucode) { a.EncodeAction(nullWriter{u}, 77, in) },
		func(u *ucode) { a.Decode(countReader{bytes.NewReader(enc), u}, name) },
		func(u *ucode) { a.Decode(slowReader{bytes.NewReader(enc), u}, name) },
		func(u *ucode) { a.DecodeAction(countReader{bytes.NewReader(enc), u}, 77) },
		func(u *ucode) { act.Decode(a) },
		func(u *ucode) { a.Decode(countReader{bytes.NewReader(enc[:max(0, len(enc)-1)]), u}, name) },
	}
}

// jsonWork takes v to JSON and back.
func jsonWork(v interface{}) []func(u *ucode) {
	j, err := json.Marshal(v)
	if err != nil {
		panic(failure{sprintf("JSON of %T: %v", v, err)})
	}
	t := reflect.TypeOf(v)
	return []func(u *ucode){
		func(u *ucode) { json.Marshal(v) },
		func(u *ucode) { json.Unmarshal(j, reflect.New(t).Interface()) },
		func(u *ucode) { json.Unmarshal(j[:len(j)-1], reflect.New(t).Interface()) },
	}
}

func repeat(v reflect.Value, n int) reflect.Value {
	s := reflect.MakeSlice(reflect.SliceOf(v.Type()), n, n)
	for i := 0; i < n; i++ {
		s.Index(i).Set(v)
	}
	return s
}

type workNode struct {
	V    uint16
	Next []workNode
}
type workOpt struct {
	V    string
	Next *workOpt `eosio:"optional"`
}
type workVar struct {
	End  *uint8
	Next *workVarNode
}
type workVarNode struct {
	V workVar `eosio:"variant"`
}

func textParsers(s string) []func(u *ucode) {
	b := []byte(s)
	q, _ := json.Marshal(s)
	rv := []func(u *ucode){
		func(u *ucode) { tryLeak(func() { chain.NewName(s) }) },
		func(u *ucode) { chain.NewAssetFromString(s) },
		func(u *ucode) { chain.NewSymbolFromString(s) },
		func(u *ucode) { chain.NewPublicKeyFromString(s) },
		func(u *ucode) { chain.NewSignatureString(s) },
		func(u *ucode) { chain.NewUint128FromString(s) },
		func(u *ucode) { chain.NewInt128FromString(s) },
		func(u *ucode) { chain.NewTimePointFromString(s) },
		func(u *ucode) { chain.NewTimePointSecFromString(s) },
		func(u *ucode) { chain.NewBlockTimestampFromString(s) },
		func(u *ucode) { base58.Decode(s) },
		func(u *ucode) { base58.CheckDecode(s) },
		func(u *ucode) { base58.CheckDecodeEosio(s, "K1") },
		func(u *ucode) { base58.CheckDecodeEosio("6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5GDW5CV", s) },
	}
	for _, l := range Leaves {
		t := l.RT
		rv = append(rv, func(u *ucode) { json.Unmarshal(q, reflect.New(t).Interface()) })
		if _, ok := reflect.New(t).Interface().(interface{ UnmarshalText([]byte) error }); ok {
			rv = append(rv, func(u *ucode) { reflect.New(t).Interface().(interface{ UnmarshalText([]byte) error }).UnmarshalText(b) })
		}
	}
	return rv
}

func workFamilies() []workFam {
	var fs []workFam
	add := func(name string, n, pow int, prep func(g *G, n int) []func(u *ucode)) {
		fs = append(fs, workFam{name, n, pow, prep})
	}
	typed := func(name string, n int, mk func(g *G, n int) interface{}) {
		add(name, n, 1, func(g *G, n int) []func(u *ucode) {
			v := reflect.ValueOf(mk(g, n))
			return typedWork(v, Ref(v, nil))
		})
	}
	typed("string", 300000, func(g *G, n int) interface{} { return strings.Repeat("x", n) })
	typed("[]byte", 300000, func(g *G, n int) interface{} { return make([]byte, n) })
	typed("Bytes", 300000, func(g *G, n int) interface{} { return chain.Bytes(make([]byte, n)) })
	typed("Blob", 300000, func(g *G, n int) interface{} { return chain.Blob(make([]byte, n)) })
	typed("array", 500, func(g *G, n int) interface{} {
		return reflect.New(reflect.ArrayOf(n, reflect.TypeOf(uint16(0)))).Elem().Interface()
	})
	typed("strings", 1000, func(g *G, n int) interface{} { return repeat(reflect.ValueOf("some text"), n).Interface() })
	// more than is allocated at first
	typed("long list of checksums", 6000, func(g *G, n int) interface{} { return make([]chain.Checksum512, n) })
	typed("long list of strings", 20000, func(g *G, n int) interface{} { return make([]string, n) })
	typed("list of long strings", 20, func(g *G, n int) interface{} {
		return repeat(reflect.ValueOf(strings.Repeat("x", 70000)), n).Interface()
	})
	deep := func(name string, n int, mk func(g *G, n int) interface{}) {
		add(name, n, 1, func(g *G, n int) []func(u *ucode) {
			v := reflect.ValueOf(mk(g, n))
			ops := typedWork(v, Ref(v, nil))
			return append(ops[:5], ops[6:]...) // an error may say where in the nesting it happened
		})
	}
	deep("nested lists", 300, func(g *G, n int) interface{} {
		var v RecSlice
		for i := 0; i < n; i++ {
			v = RecSlice{v, {}}
		}
		return v
	})
	deep("nested nodes", 300, func(g *G, n int) interface{} {
		v := workNode{}
		for i := 0; i < n; i++ {
			v = workNode{3, []workNode{v}}
		}
		return v
	})
	deep("linked optionals", 300, func(g *G, n int) interface{} {
		v := workOpt{}
		for i := 0; i < n; i++ {
			w := v
			v = workOpt{"ab", &w}
		}
		return v
	})
	deep("nested variants", 200, func(g *G, n int) interface{} {
		v := workVarNode{V: workVar{End: new(uint8)}}
		for i := 0; i < n; i++ {
			w := v
			v = workVarNode{V: workVar{Next: &w}}
		}
		return v
	})
	deep("nested maps", 300, func(g *G, n int) interface{} {
		v := RecMap{}
		for i := 0; i < n; i++ {
			v = RecMap{"a": v, "b": RecMap{}}
		}
		return v
	})
	for _, k := range leafKeyTypes {
		k := k
		if k == "bool" || k == "uint8" || k == "int8" {
			continue
		}
		typed("map with keys "+k, 700, func(g *G, n int) interface{} {
			kt := LeafByName[k].RT
			m := reflect.MakeMap(reflect.MapOf(kt, reflect.TypeOf("")))
			g.NoBig = true
			for try := 0; m.Len() < n && try < 40*n; try++ {
				var key reflect.Value
				switch kt.Kind() {
				case reflect.String:
					key = reflect.ValueOf(sprintf("key %d", g.R.N(1<<30)))
				case reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
					key = reflect.New(kt).Elem()
					key.SetUint(g.R.Uint64() >> (64 - min(kt.Bits(), 32)))
				case reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
					key = reflect.New(kt).Elem()
					key.SetInt(int64(g.R.Uint64()) >> (64 - min(kt.Bits(), 31)))
				default:
					key = g.Value(kt)
					if b := key; b.Kind() == reflect.Array {
						c := reflect.New(kt).Elem()
						for i := 0; i < c.Len(); i++ {
							c.Index(i).SetUint(uint64(g.R.N(256)))
						}
						key = c
					}
				}
				m.SetMapIndex(key, reflect.ValueOf("value"))
			}
			return m.Interface()
		})
	}
	typed("transaction with many actions", 300, func(g *G, n int) interface{} {
		g.NoBig = true
		a := chain.Action{Account: 1, Name: 2, Authorization: []chain.PermissionLevel{{Actor: 3, Permission: 4}}, Data: chain.Bytes("some data")}
		return chain.Transaction{Actions: repeat(reflect.ValueOf(a), n).Interface().([]chain.Action), ContextFreeActions: []chain.Action{}, Extensions: []chain.TransactionExtension{}}
	})
	typed("transaction with many extensions", 300, func(g *G, n int) interface{} {
		e := chain.TransactionExtension{Type: 1, Data: chain.Bytes("ab")}
		return chain.Transaction{Extensions: repeat(reflect.ValueOf(e), n).Interface().([]chain.TransactionExtension), Actions: []chain.Action{}, ContextFreeActions: []chain.Action{}}
	})
	typed("action with many authorizations", 500, func(g *G, n int) interface{} {
		return chain.Action{Authorization: repeat(reflect.ValueOf(chain.PermissionLevel{Actor: 1}), n).Interface().([]chain.PermissionLevel), Data: chain.Bytes{}}
	})
	bigAbi := func(n int) chain.Abi {
		a := chain.Abi{Version: "eosio::abi/1.1"}
		for i := 0; i < n; i++ {
			s := sprintf("name%d", i)
			a.Types = append(a.Types, chain.AbiType{NewTypeName: s + "t", Type: "uint8"})
			a.Structs = append(a.Structs, chain.AbiStruct{Name: s, Fields: []chain.AbiField{{Name: "a", Type: "uint8"}}})
			a.Actions = append(a.Actions, chain.AbiAction{Name: chain.Name(i), Type: s, RicardianContract: "x"})
			a.Tables = append(a.Tables, chain.AbiTable{Name: chain.Name(i), IndexType: "i64", KeyNames: []string{}, KeyTypes: []string{}, Type: s})
			a.RicardianClauses = append(a.RicardianClauses, chain.AbiClause{Id: s, Body: "x"})
			a.ErrorMessages = append(a.ErrorMessages, chain.AbiErrorMessage{Code: chain.Uint64(i), Message: s})
			a.Extensions = append(a.Extensions, &chain.AbiExtension{Type: 1, Data: chain.Bytes("x")})
			a.Variants = append(a.Variants, chain.AbiVariant{Name: s + "v", Types: []string{"uint8", "string"}})
		}
		return a
	}
	typed("ABI definition", 100, func(g *G, n int) interface{} { return bigAbi(n) })
	add("JSON of an ABI definition", 100, 1, func(g *G, n int) []func(u *ucode) { return jsonWork(bigAbi(n)) })
	add("JSON of a transaction", 300, 1, func(g *G, n int) []func(u *ucode) {
		a := chain.Action{Account: 1, Name: 2, Authorization: []chain.PermissionLevel{{Actor: 3, Permission: 4}}, Data: chain.Bytes("some data")}
		return jsonWork(chain.Transaction{Actions: repeat(reflect.ValueOf(a), n).Interface().([]chain.Action)})
	})
	add("JSON and text of bytes", 10000, 1, func(g *G, n int) []func(u *ucode) {
		b := g.R.Bytes(n)
		hb, _ := chain.Bytes(b).MarshalText()
		tb, _ := chain.Blob(b).MarshalText()
		h, t := string(hb), string(tb)
		rv := append(jsonWork(chain.Bytes(b)), jsonWork(chain.Blob(b))...)
		return append(rv, func(u *ucode) { chain.Bytes(b).MarshalText() }, func(u *ucode) { chain.Blob(b).MarshalText() },
			func(u *ucode) { new(chain.Bytes).UnmarshalText([]byte(h)) }, func(u *ucode) { new(chain.Blob).UnmarshalText([]byte(t)) },
			func(u *ucode) { new(chain.Bytes).UnmarshalText([]byte(h[:len(h)-1] + "?")) }, func(u *ucode) { new(chain.Blob).UnmarshalText([]byte(t[:len(t)-4] + "????")) })
	})
	for _, n := range jsonLeaves {
		n := n
		add("JSON of many "+n, 500, 1, func(g *G, k int) []func(u *ucode) {
			g.NoBig, g.Text = true, true
			g.Budget = 100
			return jsonWork(repeat(g.Value(LeafByName[n].RT), k).Interface())
		})
	}
	add("hashes", 20000, 1, func(g *G, n int) []func(u *ucode) {
		b := g.R.Bytes(n)
		act := chain.Action{Authorization: []chain.PermissionLevel{}, Data: b}
		return []func(u *ucode){
			func(u *ucode) { chain.Checksum160Digest(b) }, func(u *ucode) { chain.Checksum256Digest(b) }, func(u *ucode) { chain.Checksum512Digest(b) },
			func(u *ucode) { act.Digest() },
			func(u *ucode) { h := ripemd160.New(); h.Write(b); h.Sum(nil) },
			func(u *ucode) {
				h := ripemd160.New()
				for i := range b {
					h.Write(b[i : i+1])
				}
				h.Sum(nil)
			},
			func(u *ucode) {
				h := ripemd160.New()
				for i := 0; i+100 < len(b); i += 100 {
					h.Write(b[i : i+100])
					h.Sum(nil)
				}
			},
		}
	})
	add("base58", 300, 2, func(g *G, n int) []func(u *ucode) {
		b := g.R.Bytes(n)
		z := append(make([]byte, n), 1)
		t, tz, tc, te := base58.Encode(b), base58.Encode(z), base58.CheckEncode(b), base58.CheckEncodeEosio(b, "K1")
		return []func(u *ucode){
			func(u *ucode) { base58.Encode(b) }, func(u *ucode) { base58.Encode(z) }, func(u *ucode) { base58.Decode(t) }, func(u *ucode) { base58.Decode(tz) },
			func(u *ucode) { base58.CheckEncode(b) }, func(u *ucode) { base58.CheckDecode(tc) },
			func(u *ucode) { base58.CheckEncodeEosio(b, "K1") }, func(u *ucode) { base58.CheckDecodeEosio(te, "K1") },
			func(u *ucode) { base58.Decode(strings.Repeat("1", 4*n)) }, func(u *ucode) { base58.Encode(make([]byte, 4*n)) },
		}
	})
	add("WebAuthn keys and signatures", 300, 2, func(g *G, n int) []func(u *ucode) {
		k := chain.PublicKey{Type: chain.WA, Data: append(append(g.KeyBytes(), 1), lenBytes(g.R.Bytes(n))...)}
		t := k.String()
		return []func(u *ucode){func(u *ucode) { _ = k.String() }, func(u *ucode) { chain.NewPublicKeyFromString(t) }}
	})
	for name, s := range map[string]string{"digits": "7", "zeros": "0", "letters": "a", "capitals": "A", "dots": ".", "blanks": " ", "ones": "1", "signs": "-", "commas": ","} {
		s := s
		add("long text of "+name, 700, 2, func(g *G, n int) []func(u *ucode) { return textParsers(strings.Repeat(s, n)) })
	}
	for _, s := range []string{"1.%s EOS", "%s EOS", "1.0000 %s", "4,%s", "%s,EOS", "PUB_K1_%s", "EOS%s", "SIG_R1_%s", "PUB_%s", "2020-01-01T00:00:00.%s", "-%s", "0x%s"} {
		s := s
		for _, d := range []string{"0", "7", "A"} {
			d := d
			add("long text "+sprintf(s, d+".."), 700, 2, func(g *G, n int) []func(u *ucode) {
				return textParsers(strings.Replace(s, "%s", strings.Repeat(d, n), 1))
			})
		}
	}

	// ABI-driven
	add("long ABI list", 20000, 1, func(g *G, n int) []func(u *ucode) {
		in := make([]interface{}, n)
		for i := range in {
			in[i] = uint8(i)
		}
		return abiWork(&chain.Abi{}, "uint8[]", in, cat(refCount(n), make([]byte, n)))
	})
	add("deep ABI structs", 200, 1, func(g *G, n int) []func(u *ucode) {
		a := &chain.Abi{Structs: []chain.AbiStruct{{Name: "node", Fields: []chain.AbiField{{Name: "v", Type: "uint8"}, {Name: "kids", Type: "node[]"}, {Name: "o", Type: "node?"}}}}}
		leaf := func() interface{} {
			return map[string]interface{}{"v": uint8(1), "kids": []interface{}{}, "o": nil}
		}
		v, enc := leaf(), []byte{1, 0, 0}
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = map[string]interface{}{"v": uint8(2), "kids": []interface{}{v}, "o": nil}
				enc = cat([]byte{2, 1}, enc, []byte{0})
			} else {
				v = map[string]interface{}{"v": uint8(2), "kids": []interface{}{}, "o": v}
				enc = cat([]byte{2, 0, 1}, enc)
			}
		}
		return abiWork(a, "node", v, enc)[:6]
	})
	add("deep ABI variants", 200, 1, func(g *G, n int) []func(u *ucode) {
		a := &chain.Abi{Variants: []chain.AbiVariant{{Name: "v", Types: []string{"uint8", "v[]", "w"}}}, Types: []chain.AbiType{{NewTypeName: "w", Type: "v"}}}
		var v interface{} = []interface{}{"uint8", uint8(5)}
		enc := []byte{0, 5}
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v, enc = []interface{}{"v[]", []interface{}{v}}, cat([]byte{1, 1}, enc)
			} else {
				v, enc = []interface{}{"w", v}, cat([]byte{2}, enc)
			}
		}
		return abiWork(a, "v", v, enc)[:6]
	})
	add("ABI struct with many fields", 150, 2, func(g *G, n int) []func(u *ucode) {
		s := chain.AbiStruct{Name: "s"}
		in := map[string]interface{}{}
		var enc []byte
		for i := 0; i < n; i++ {
			s.Fields = append(s.Fields, chain.AbiField{Name: sprintf("f%d", i), Type: "uint8"})
			in[sprintf("f%d", i)] = uint8(i)
			enc = append(enc, uint8(i))
		}
		return abiWork(&chain.Abi{Structs: []chain.AbiStruct{s}}, "s", in, enc)
	})
	add("ABI struct with many bases", 100, 2, func(g *G, n int) []func(u *ucode) {
		a := &chain.Abi{}
		in := map[string]interface{}{}
		var enc []byte
		for i := 0; i < n; i++ {
			s := chain.AbiStruct{Name: sprintf("s%d", i), Fields: []chain.AbiField{{Name: sprintf("f%d", i), Type: "uint8"}}}
			if i > 0 {
				s.Base = sprintf("s%d", i-1)
			}
			a.Structs = append(a.Structs, s)
			in[sprintf("f%d", i)] = uint8(i)
			enc = append(enc, uint8(i))
		}
		return abiWork(a, sprintf("s%d", n-1), in, enc)
	})
	add("ABI alias chain", 100, 2, func(g *G, n int) []func(u *ucode) {
		a := &chain.Abi{}
		for i := 0; i < n; i++ {
			a.Types = append(a.Types, chain.AbiType{NewTypeName: sprintf("t%d", i), Type: sprintf("t%d", i+1)})
		}
		a.Types = append(a.Types, chain.AbiType{NewTypeName: sprintf("t%d", n), Type: "uint8"})
		return abiWork(a, "t0", uint8(3), []byte{3})
	})
	add("ABI struct chain", 100, 2, func(g *G, n int) []func(u *ucode) {
		a := &chain.Abi{}
		var in interface{} = map[string]interface{}{"x": uint8(1)}
		for i := 0; i < n; i++ {
			a.Structs = append(a.Structs, chain.AbiStruct{Name: sprintf("s%d", i), Fields: []chain.AbiField{{Name: "x", Type: sprintf("s%d", i+1)}}})
			in = map[string]interface{}{"x": in}
		}
		a.Structs = append(a.Structs, chain.AbiStruct{Name: sprintf("s%d", n), Fields: []chain.AbiField{{Name: "x", Type: "uint8"}}})
		return abiWork(a, "s0", in, []byte{1})
	})
	// every type is used several times by the one before
	add("ABI struct lattice", 15, 2, func(g *G, n int) []func(u *ucode) {
		a := &chain.Abi{}
		for i := 0; i < n; i++ {
			nx := sprintf("s%d", i+1)
			a.Structs = append(a.Structs, chain.AbiStruct{Name: sprintf("s%d", i), Fields: []chain.AbiField{{Name: "x", Type: nx + "?"}, {Name: "y", Type: nx + "[]"}, {Name: "z", Type: nx + "?"}}})
		}
		a.Structs = append(a.Structs, chain.AbiStruct{Name: sprintf("s%d", n), Fields: []chain.AbiField{{Name: "x", Type: "uint8"}}})
		return abiWork(a, "s0", map[string]interface{}{"x": nil, "y": []interface{}{}, "z": nil}, []byte{0, 0, 0})
	})
	add("ABI variant lattice", 15, 2, func(g *G, n int) []func(u *ucode) {
		a := &chain.Abi{}
		for i := 0; i < n; i++ {
			nx := sprintf("v%d", i+1)
			a.Variants = append(a.Variants, chain.AbiVariant{Name: sprintf("v%d", i), Types: []string{"uint8", nx, nx + "[]", sprintf("t%d", i)}})
			a.Types = append(a.Types, chain.AbiType{NewTypeName: sprintf("t%d", i), Type: nx})
		}
		a.Variants = append(a.Variants, chain.AbiVariant{Name: sprintf("v%d", n), Types: []string{"uint8"}})
		return abiWork(a, "v0", []interface{}{"uint8", uint8(1)}, []byte{0, 1})
	})
	add("big ABI, small value", 100, 2, func(g *G, n int) []func(u *ucode) {
		a := bigAbi(n)
		s := sprintf("name%d", n-1)
		rv := abiWork(&a, s, map[string]interface{}{"a": uint8(1)}, []byte{1})
		return append(rv, func(u *ucode) { a.GetStruct(s) }, func(u *ucode) { a.GetStruct("none") }, func(u *ucode) { a.GetAction(chain.Name(n - 1)) },
			func(u *ucode) { a.GetTable(chain.Name(n)) }, func(u *ucode) { a.GetType("none") }, func(u *ucode) { a.GetVariant("none") },
			func(u *ucode) { a.Decode(bytes.NewReader(nil), "none") })
	})
	add("long ABI type names", 300, 2, func(g *G, n int) []func(u *ucode) {
		s := strings.Repeat("x", n)
		a := &chain.Abi{Structs: []chain.AbiStruct{{Name: s, Fields: []chain.AbiField{{Name: s, Type: s + "[]"}}}}}
		rv := abiWork(a, s, map[string]interface{}{s: []interface{}{map[string]interface{}{s: []interface{}{}}}}, []byte{1, 0})
		for _, m := range []string{"[]", "?", "$"} {
			t := s + strings.Repeat(m, n)
			rv = append(rv, func(u *ucode) { a.Decode(bytes.NewReader([]byte{1, 1, 1, 0, 0}), t) }, func(u *ucode) { a.Encode(nullWriter{u}, t, nil) })
		}
		return rv
	})
	add("code generator", 20, 2, func(g *G, n int) []func(u *ucode) {
		var fl []reflect.StructField
		for i := 0; i < n; i++ {
			fl = append(fl, reflect.StructField{Name: sprintf("F%d", i), Type: reflect.TypeOf([]chain.Name{})})
		}
		v := reflect.New(reflect.StructOf(fl)).Elem().Interface()
		return []func(u *ucode){func(u *ucode) { codegen.GenUnmarshalFn(v) }}
	})
	return fs
}

func workRun(c *C, f workFam) {
	n := f.n + c.R.N(f.n/4+1)
	seed := c.R.Uint64()
	gen := func(k int) []func(u *ucode) { return f.prep(NewG(NewR("work", seed)), k) }
	for _, op := range gen(max(1, n/8)) { // what is set up once
		op(&ucode{})
	}
	var w [][3]workload
	for i, k := 0, n; i < 3; i, k = i+1, k*3 {
		for j, op := range gen(k) {
			if i == 0 {
				w = append(w, [3]workload{})
			}
			w[j][i] = measure(op)
		}
	}
	total := uint64(0)
	for j := range w {
		for i := range w[j] {
			total += w[j][i].Blocks
		}
		if d := grows(f.pow, w[j]); d != "" {
			c.Fail("%s from %d on, operation %d: %s", f.name, n, j, d)
		}
	}
	c.Event("operations measured", 3*len(w))
	c.Event("thousands of block executions counted", int(total/1000))
	c.Distinct(f.name, n)
	if len(w) > 0 {
		c.Sample("%s of size %d, %d, %d: %+v", f.name, n, 3*n, 9*n, w[0])
	}
}

func init() {
	fams := workFamilies()
	Register(&Prop{ID: "C31", MinEvents: 1000,
		Rule: "a case is one family of inputs (or a list of a generated element) at sizes n, 3n and 9n for one n; the block executions of the library, bytes allocated and calls of reader, writer and hook of each operation are counted and their growth compared with the allowed power; non-trivial if the family and n are new",
		Cats: []Category{
			{"families", 2 * len(fams), 12 * len(fams), func(c *C) { workRun(c, fams[c.Idx%len(fams)]) }},
			{"lists", 400, 8000, func(c *C) {
				// n copies of one element of a generated type
				g := NewG(c.R)
				g.NoBig, g.Budget = true, 60
				var e reflect.Value
				for {
					t := RandType(c.R, 1+c.Idx%3)
					if hasType(t, LeafByName["Abi"].RT, 0) {
						continue
					}
					if e = g.Value(t); len(Ref(e, nil)) > 0 && len(ExtensionCuts0(e)) == 0 {
						break
					}
				}
				c.Desc("%s", e.Type())
				workRun(c, workFam{"list of " + e.Type().String(), 120, 1, func(g *G, n int) []func(u *ucode) {
					v := repeat(e, n)
					return typedWork(v, Ref(v, nil))
				}})
			}},
			{"ABI lists", 400, 8000, func(c *C) {
				a := NewSmallAGen(c.R)
				a.g.NoBig = true
				var k ACase
				for try := 0; ; try++ {
					a.g.Budget = 60
					if k = a.Case(); len(k.Enc) > 0 && !k.Ext && !strings.HasSuffix(k.Type.String(), "]") && !strings.HasSuffix(k.Type.String(), "?") {
						break
					}
					if try > 100 {
						return
					}
				}
				c.Desc("%s of %s", k.Type, tail(abiDoc(a.Abi), 1500))
				workRun(c, workFam{"ABI list", 120, 1, func(g *G, n int) []func(u *ucode) {
					in := make([]interface{}, n)
					enc := refCount(n)
					for i := range in {
						in[i] = k.In
						enc = append(enc, k.Enc...)
					}
					ab := a.Abi
					return abiWork(&ab, k.Type.String()+"[]", in, enc)
				}})
			}},
		}})
}
