package h

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/codegen"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

// Long runs of distinct inputs, every result dropped: the live heap and the number of goroutines are
// read between phases. A cache that fills up or a pool is fine, growth that goes on is not.

type leakFam struct {
	name  string
	calls int // in the first phase, quick
	prep  func(g *G) func(i int)
}

type leakRow struct {
	ID    uint64
	Owner chain.Name
	Bal   chain.Asset
	Memo  string
	Tags  []string
	Opt   *chain.TimePoint `eosio:"optional"`
	By    map[string]uint32
	Pair  [2]chain.Checksum160
	Key   chain.PublicKey
	Kids  []leakRow
	Data  chain.Bytes
	Ext   *uint32 `eosio:"extension"`
}

var errLeakWriter = errors.New("writer failed")

type leakWriter struct{ left int }

func (w *leakWriter) Write(b []byte) (int, error) {
	if w.left -= len(b); w.left < 0 {
		return 0, errLeakWriter
	}
	return len(b), nil
}

// leakStream is an endless stream of distinct encodings.
type leakStream struct {
	next func() []byte
	buf  []byte
}

func (s *leakStream) Read(p []byte) (int, error) {
	for len(s.buf) == 0 {
		s.buf = s.next()
	}
	n := copy(p, s.buf)
	s.buf = s.buf[n:]
	return n, nil
}

func tryLeak(f func()) {
	defer func() { recover() }() // whether it may panic is not the question here
	f()
}

func leakAbi(g *G, i int) *chain.Abi {
	n := sprintf("t%d_%x", i, g.R.Uint32())
	return &chain.Abi{Version: "eosio::abi/1.1",
		Types: []chain.AbiType{{NewTypeName: n + "_alias", Type: n}},
		Structs: []chain.AbiStruct{{Name: n + "_base", Fields: []chain.AbiField{{Name: "id" + n, Type: "uint64"}}},
			{Name: n, Base: n + "_base", Fields: []chain.AbiField{{Name: "memo", Type: "string"}, {Name: "list", Type: "name[]"}, {Name: "v", Type: n + "_variant"}}}},
		Actions:  []chain.AbiAction{{Name: chain.N("act"), Type: n + "_alias"}},
		Tables:   []chain.AbiTable{{Name: chain.N("tab"), IndexType: "i64", Type: n}},
		Variants: []chain.AbiVariant{{Name: n + "_variant", Types: []string{"uint8", "string"}}}}
}

func leakAbiUse(a *chain.Abi, g *G) {
	id := strings.TrimSuffix(a.Structs[0].Fields[0].Name, "")
	v := map[string]interface{}{id: g.R.Uint64(), "memo": g.Str(), "list": []interface{}{g.Name(), g.Name()}, "v": []interface{}{"uint8", uint8(g.R.N(256))}}
	var b bytes.Buffer
	if a.EncodeAction(&b, chain.N("act"), v) == nil {
		d, _ := a.DecodeAction(bytes.NewReader(b.Bytes()), chain.N("act"))
		_, _ = a.Decode(bytes.NewReader(b.Bytes()), a.Structs[1].Name)
		_, _ = json.Marshal(d)
		act := chain.NewAction(g.Name(), chain.N("act"), nil, b.Bytes())
		_, _ = act.Decode(a)
	}
	a.GetTable(chain.N("tab"))
	a.GetTable(g.Name())
	a.GetStruct(a.Structs[1].Name)
	a.GetStruct("no" + a.Structs[1].Name)
	a.GetType(a.Types[0].NewTypeName)
	a.GetVariant(a.Variants[0].Name)
	// failing
	delete(v, "memo")
	_ = a.Encode(&b, a.Structs[1].Name, v)
	_, _ = a.Decode(bytes.NewReader(b.Bytes()[:b.Len()/2]), a.Structs[1].Name)
	_, _ = a.Decode(bytes.NewReader(nil), "no"+a.Structs[1].Name)
	_, _ = a.DecodeAction(bytes.NewReader(nil), g.Name())
}

func each(f func(g *G, i int)) func(g *G) func(i int) {
	return func(g *G) func(i int) {
		return func(i int) {
			g.Budget = 300
			g.NoBig = true
			f(g, i)
		}
	}
}

func text[T any](g *G, v T) {
	if m, ok := any(v).(interface{ MarshalText() ([]byte, error) }); ok {
		t, err := m.MarshalText()
		if err != nil {
			return
		}
		var w T
		if u, ok := any(&w).(interface{ UnmarshalText([]byte) error }); ok {
			_ = u.UnmarshalText(t)
			if len(t) > 0 {
				t[g.R.N(len(t))] ^= 1 << g.R.N(7)
				_ = u.UnmarshalText(t)
			}
		}
	}
}

func leakFamilies() []leakFam {
	tl := func(v reflect.Value) interface{} { return v.Interface() }
	rowType := reflect.TypeOf(leakRow{})
	fams := []leakFam{
		{"names", 60000, each(func(g *G, i int) {
			n := g.Name()
			s := n.String()
			_ = chain.N(s)
			text(g, n)
			tryLeak(func() { chain.NewName(sprintf("%x!", g.R.Uint64())) })
		})},
		{"assets", 40000, each(func(g *G, i int) {
			g.Text = true
			a := g.Asset()
			text(g, a)
			s := a.String()
			_, _ = chain.NewAssetFromString(s)
			_, _ = chain.NewAssetFromString(s + "x")
			_ = a.FloatValue()
			sy := g.Symbol()
			text(g, sy)
			_, _ = chain.NewSymbol(uint8(g.R.N(19)), sy.Name())
			_, _ = chain.NewSymbolFromString(sy.String())
			text(g, sy.Code())
		})},
		{"keys", 8000, each(func(g *G, i int) {
			k := g.PublicKey()
			text(g, k)
			if k.Type == chain.K1 {
				_ = k.LegacyString("EOS")
				_, _ = chain.NewPublicKeyFromString(k.LegacyString("EOS"))
				_, _ = chain.NewPublicKeyFromString(k.LegacyString(sprintf("P%d", i)))
			}
			text(g, g.Signature())
			_ = chain.KeyType(g.R.N(256)).String()
		})},
		{"base58", 20000, each(func(g *G, i int) {
			b := g.R.Bytes(g.R.N(50))
			base58.Decode(base58.Encode(b))
			base58.Decode(string(b))
			_, _ = base58.CheckDecode(base58.CheckEncode(b))
			_, _ = base58.CheckDecode(base58.CheckEncodeEosio(b, "K1"))
			_, _ = base58.CheckDecodeEosio(base58.CheckEncodeEosio(b, sprintf("%d", i)), sprintf("%d", i))
		})},
		{"hashes", 60000, each(func(g *G, i int) {
			b := g.R.Bytes(g.R.N(150))
			h := ripemd160.New()
			h.Write(b)
			h.Sum(nil)
			_ = chain.Checksum160Digest(b).String()
			text(g, chain.Checksum256Digest(b))
			_ = chain.Checksum512Digest(b).String()
		})},
		{"numbers", 40000, each(func(g *G, i int) {
			u := chain.NewUint128(new(big.Int).SetBytes(g.R.Bytes(g.R.N(17))))
			text(g, u)
			_, _ = chain.NewUint128FromString(sprintf("%d%d", i, g.R.Uint64()))
			_, _ = chain.NewInt128FromString(sprintf("-%d%d", i, g.R.Uint64()))
			_, _ = chain.NewInt128FromString(sprintf("-%dx", i))
			for _, v := range []interface{}{chain.Uint64(g.R.Uint64()), chain.BlockNum(g.R.Uint32())} {
				b, _ := json.Marshal(v)
				p := reflect.New(reflect.TypeOf(v))
				_ = json.Unmarshal(b, p.Interface())
				_ = json.Unmarshal(append(b, 'x'), p.Interface())
			}
			_, _ = json.Marshal(u)
			_ = u.BigInt()
			text(g, chain.NewInt128(big.NewInt(int64(g.R.Uint64()))))
		})},
		{"times", 40000, each(func(g *G, i int) {
			t := time.Unix(int64(g.R.Uint32()), int64(g.R.N(1e9)))
			text(g, chain.NewTimePoint(t))
			text(g, chain.NewTimePointSec(t))
			if t.Year() >= 2001 {
				bt := chain.NewBlockTimestamp(t)
				text(g, bt)
				_ = bt.Time()
			}
			_, _ = chain.NewTimePointFromString(t.String())
		})},
		{"binary text", 40000, each(func(g *G, i int) {
			b := g.R.Bytes(g.R.N(60))
			text(g, chain.Bytes(b))
			text(g, chain.Blob(b))
			_ = chain.Bytes(b).Hex()
			_ = chain.Blob(b).Base64()
		})},
		{"typed rows", 20000, each(func(g *G, i int) {
			v := g.Value(rowType)
			b, err := Encode(tl(v))
			if err == nil {
				_, _, _ = Decode(rowType, b)
				_, _, _ = Decode(rowType, b[:g.R.N(len(b)+1)])
				for k := 0; k < 3 && len(b) > 0; k++ {
					b[g.R.N(len(b))] ^= byte(1 + g.R.N(255))
				}
				if len(b) < 2000 {
					_, _, _ = Decode(rowType, b)
				}
			}
		})},
		{"plain codec", 20000, each(func(g *G, i int) {
			v := g.Value(reflect.TypeOf([]map[string]uint64{}))
			var b bytes.Buffer
			_ = abi.NewEncoder(&b, noEnc).Encode(v.Interface())
			var w []map[string]uint64
			_ = abi.NewDecoder(bytes.NewReader(b.Bytes()), noDec).Decode(&w)
			var x struct{ F func() }
			_ = abi.NewDecoder(bytes.NewReader(b.Bytes()), noDec).Decode(&x)
			_ = abi.NewEncoder(io.Discard, noEnc).Encode(x)
		})},
		{"transactions", 8000, each(func(g *G, i int) {
			g.Text = true
			tx := g.Tx()
			b, _ := Encode(tx)
			var t2 chain.Transaction
			_ = chain.NewDecoder(bytes.NewReader(b)).Decode(&t2)
			j, _ := json.Marshal(tx)
			_ = json.Unmarshal(j, &t2)
			_ = json.Unmarshal(j[:len(j)/2], &t2)
			for _, a := range tx.Actions {
				_ = a.Digest()
				var r leakRow
				_ = a.DecodeInto(&r)
			}
		})},
		{"abi documents", 4000, each(func(g *G, i int) {
			a := leakAbi(g, i)
			b, _ := Encode(*a)
			var a2 chain.Abi
			_ = chain.NewDecoder(bytes.NewReader(b)).Decode(&a2)
			j, _ := json.Marshal(a)
			_ = json.Unmarshal(j, &a2)
		})},
		{"one abi", 8000, func(g *G) func(i int) {
			a := leakAbi(g, 0)
			return func(i int) { g.Budget, g.NoBig = 200, true; leakAbiUse(a, g) }
		}},
		{"one abi by value", 8000, func(g *G) func(i int) {
			a := leakAbi(g, 0)
			return func(i int) { g.Budget, g.NoBig = 200, true; b := *a; leakAbiUse(&b, g) }
		}},
		{"many abis", 8000, each(func(g *G, i int) { leakAbiUse(leakAbi(g, i), g) })},
		{"failing writers", 20000, each(func(g *G, i int) {
			v := g.Value(rowType)
			_ = chain.NewEncoder(&leakWriter{g.R.N(60)}).Encode(tl(v))
		})},
		{"hooks", 20000, each(func(g *G, i int) {
			v := g.Value(rowType)
			stop := g.R.N(12)
			var b bytes.Buffer
			err := chain.NewCustomEncoder(&b, func(e *abi.Encoder, v interface{}) (bool, error) {
				if stop--; stop == 0 {
					return false, errLeakWriter
				}
				return false, nil
			}).Encode(tl(v))
			if err == nil {
				stop = g.R.N(12)
				_ = chain.NewCustomDecoder(bytes.NewReader(b.Bytes()), func(e *abi.Decoder, v interface{}) (bool, error) {
					if stop--; stop == 0 {
						return false, errLeakWriter
					}
					return false, nil
				}).Decode(reflect.New(rowType).Interface())
			}
		})},
		{"marshalers", 8000, each(func(g *G, i int) {
			t := reflect.TypeOf(struct {
				A MStruct
				B []MNum
				C MList
				D MMap
				E *MText
			}{})
			v := g.Value(t)
			b, err := Encode(tl(v))
			if err == nil {
				_, _, _ = Decode(t, b)
			}
		})},
		{"one decoder", 40000, func(g *G) func(i int) {
			t := reflect.TypeOf([]struct {
				A string
				N chain.Name
				M map[uint8]chain.Asset
			}{})
			d := chain.NewDecoder(&leakStream{next: func() []byte {
				g.Budget, g.NoBig = 200, true
				b, _ := Encode(g.Value(t).Interface())
				return b
			}})
			return func(i int) { _ = d.Decode(reflect.New(t).Interface()) }
		}},
		{"one encoder", 40000, func(g *G) func(i int) {
			e := chain.NewEncoder(&leakWriter{math.MaxInt})
			return func(i int) { g.Budget, g.NoBig = 200, true; _ = e.Encode(g.Value(rowType).Interface()) }
		}},
		{"one encoder over a failed writer", 20000, func(g *G) func(i int) {
			e := chain.NewEncoder(&leakWriter{0})
			return func(i int) { g.Budget, g.NoBig = 200, true; _ = e.Encode(g.Value(rowType).Interface()) }
		}},
		{"one decoder at the end", 40000, func(g *G) func(i int) {
			d := chain.NewDecoder(bytes.NewReader(nil))
			return func(i int) { _ = d.Decode(reflect.New(rowType).Interface()) }
		}},
		{"one hash", 40000, func(g *G) func(i int) {
			h := ripemd160.New()
			return func(i int) {
				h.Write(g.R.Bytes(g.R.N(200)))
				h.Sum(nil)
				if g.R.Chance(1, 5000) {
					h.Reset()
				}
			}
		}},
		{"codegen", 400, each(func(g *G, i int) { _ = codegen.GenUnmarshalFn(genTarget{}) })},
	}
	for _, n := range abiBuiltins {
		l := LeafByAbi[n]
		fams = append(fams, leakFam{"abi type " + n, 15000, func(g *G) func(i int) {
			a := chain.Abi{}
			return func(i int) {
				g.Budget, g.NoBig = 100, true
				v := g.Value(l.RT)
				var b bytes.Buffer
				_ = a.Encode(&b, n, v.Interface())
				_ = chain.NewEncoder(&b).Encode(ptrTo(v))
				x, _ := a.Decode(bytes.NewReader(b.Bytes()), n)
				_, _ = json.Marshal(x)
				_ = chain.NewDecoder(bytes.NewReader(b.Bytes())).Decode(reflect.New(l.RT).Interface())
				_ = chain.NewDecoder(bytes.NewReader(b.Bytes()[:b.Len()/3])).Decode(reflect.New(l.RT).Interface())
			}
		}})
	}
	return fams
}

func liveHeap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func goroutines(limit int) int {
	n := runtime.NumGoroutine()
	for t := 0; n > limit && t < 200; t++ {
		time.Sleep(10 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

const leakPhases = 6

func leakRun(c *C, f leakFam, scale int) {
	c.Desc("family %s", f.name)
	g := NewG(c.R)
	call := f.prep(g)
	n, done := f.calls*scale, 0
	phase := func(k int) {
		for i := 0; i < k; i++ {
			tryLeak(func() { call(done) })
			done++
		}
	}
	before := runtime.NumGoroutine()
	phase(n)
	if k := goroutines(before); k > before {
		c.Fail("%d goroutines are still there after %d calls, %d before them", k, done, before)
	}
	h0 := liveHeap()
	last, grew, steps := h0, 0, []int64{}
	for p := 0; p < leakPhases; p++ {
		phase(n / 2)
		h := liveHeap()
		steps = append(steps, h-last)
		last = h
		c.Event("heap readings", 1)
	}
	total := last - h0
	for _, s := range steps {
		if s > total/10 {
			grew++
		}
	}
	calls := int64(leakPhases * (n / 2))
	if k := goroutines(before); k > before {
		c.Fail("%d goroutines are still there after %d calls, %d before them", k, done, before)
	}
	if limit := 64<<10 + calls; total > limit && grew >= 2 {
		c.Fail("the live heap grew by %d bytes over %d calls whose results are all dropped, after %d calls before (per phase %v)", total, calls, n, steps)
	}
	runtime.KeepAlive(call)
	c.Event("calls", done)
	c.Distinct(f.name, c.Idx)
	c.Sample("%s: %d calls, heap %+d bytes over the last %d", f.name, done, total, calls)
}

func init() {
	p := &Prop{ID: "C28", MinEvents: 100000,
		Rule: "a case is one family of calls (texts, hashes, typed values, transactions, one ABI, many ABIs, failing inputs, writers and hooks, one decoder over an endless stream, every built-in type by name), run with distinct inputs and every result dropped; after a first phase the live heap is read between six more; non-trivial by family"}
	n := 24
	p.Cats = append(p.Cats, Category{"families", n, n, func(c *C) {
		scale := 1
		if c.Tier == "thorough" {
			scale = 4
		}
		leakRun(c, leakFamilies()[c.Idx], scale)
	}})
	p.Cats = append(p.Cats, Category{"built-in types", 40, 40, func(c *C) {
		fs := leakFamilies()[24:]
		if c.Idx < len(fs) {
			leakRun(c, fs[c.Idx], 1)
		}
	}})
	Register(p)
}
