package h

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/codegen"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

// raceOp is a call that goroutines make at the same time; its result only depends on the shared environment.
type raceOp struct {
	name string
	run  func() string
}

func digest(b []byte, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprintf("%x", sha256.Sum256(b))
}

func dynString(v interface{}, err error) string {
	if err != nil {
		return "error"
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

type genTarget struct {
	A uint8
	B []chain.Name
	C *string `eosio:"optional"`
}

// raceEnv builds shared values and all the operations on them.
func raceEnv(c *C) (ops []raceOp, verify func() string) {
	add := func(name string, f func() string) { ops = append(ops, raceOp{name, f}) }
	var checks []func() string
	// typed values
	for i := 0; i < 6; i++ {
		var t reflect.Type
		switch i % 3 {
		case 0:
			t = Pick(c.R, Leaves).RT
		case 1:
			t = Pick(c.R, UserTypes)
		case 2:
			t = RandTop(c.R, 2)
		}
		v, want := twin(c, t, 300)
		enc := Ref(want, nil)
		shared := v.Addr().Interface()
		bad := mutate(c.R, enc)
		add("encode "+t.String(), func() string { return digest(Encode(shared)) })
		add("encode by value "+t.String(), func() string { return digest(Encode(v.Interface())) })
		add("decode "+t.String(), func() string {
			x, n, err := Decode(t, enc)
			if err != nil {
				return "error"
			}
			return fmt.Sprint(n) + digest(Ref(x, nil), nil)
		})
		add("decode damaged "+t.String(), func() string {
			_, _, err := Decode(t, bad)
			return fmt.Sprint(err == nil)
		})
		checks = append(checks, func() string { return diff(v, want, t.String()) })
	}
	// a shared ABI
	a := NewSmallAGen(c.R)
	a.g.NoBig = true
	ab := a.Abi
	doc := abiDoc(ab)
	for i := 0; i < 4; i++ {
		k := a.Case()
		n := k.Type.String()
		bad := mutate(c.R, k.Enc)
		add("abi encode", func() string {
			var b bytes.Buffer
			err := ab.Encode(&b, n, k.In)
			return digest(b.Bytes(), err)
		})
		add("abi decode", func() string { return dynString(ab.Decode(bytes.NewReader(k.Enc), n)) })
		add("abi decode damaged", func() string { return dynString(ab.Decode(bytes.NewReader(bad), n)) })
	}
	if len(ab.Actions) > 0 {
		act := ab.Actions[0]
		k := a.CaseOf(a.Actions[act.Name])
		shared := chain.NewAction(1, act.Name, []chain.PermissionLevel{{Actor: 1, Permission: 2}}, chain.Bytes(k.Enc))
		add("abi action", func() string {
			var b bytes.Buffer
			err := ab.EncodeAction(&b, act.Name, k.In)
			return digest(b.Bytes(), err) + dynString(ab.DecodeAction(bytes.NewReader(k.Enc), act.Name)) + dynString(shared.Decode(&ab))
		})
		add("abi lookups", func() string {
			return fmt.Sprint(ab.GetAction(act.Name) != nil, ab.GetStruct("nope") == nil, ab.GetType("x") != nil, ab.GetVariant("x") != nil, ab.GetTable(3) == nil)
		})
	}
	add("unknown type", func() string {
		_, err := ab.Decode(bytes.NewReader(nil), "no such type")
		return fmt.Sprint(err == nil)
	})
	checks = append(checks, func() string {
		if d := abiDoc(ab); d != doc {
			return "ABI changed to " + d
		}
		return ""
	})
	// text and JSON of shared values
	for i := 0; i < 6; i++ {
		n := Pick(c.R, jsonLeaves)
		v, want := textTwin(c, n)
		shared := v.Addr().Interface()
		j, err := json.Marshal(shared)
		if err != nil {
			c.Fail("%s: %v", n, err)
		}
		add("json of "+n, func() string { return dynString(shared, nil) })
		add("text of "+n, func() string { return fmt.Sprintf("%v", shared) })
		add("parse "+n, func() string {
			p := reflect.New(v.Type())
			if json.Unmarshal(j, p.Interface()) != nil {
				return "error"
			}
			return dynString(p.Interface(), nil)
		})
		checks = append(checks, func() string { return diff(v, want, n) })
	}
	g := NewG(c.R)
	g.NoBig, g.Text = true, true
	act := g.Action()
	add("digest", func() string { return act.Digest().String() })
	key := g.PublicKey()
	sig := g.Signature()
	k1 := chain.PublicKey{Type: chain.K1, Data: g.KeyBytes()}
	k1.Data[0] = 2
	keyText, sigText := key.String(), sig.String()
	add("keys", func() string {
		k, err := chain.NewPublicKeyFromString(keyText)
		s, err2 := chain.NewSignatureString(sigText)
		if err != nil || err2 != nil {
			return "error"
		}
		l := k1.LegacyString("EOS")
		k2, err := chain.NewPublicKeyFromString(l)
		if err != nil {
			return "error"
		}
		return k.String() + s.String() + l + k2.String() + key.String() + sig.String()
	})
	msg := c.R.Bytes(c.R.N(200))
	txt := base58.CheckEncode(msg)
	txt2 := base58.CheckEncodeEosio(msg, "R1")
	add("base58", func() string {
		d, err := base58.CheckDecode(txt)
		d2, err2 := base58.CheckDecodeEosio(txt2, "R1")
		return fmt.Sprintf("%s %x %x %x %v %v", base58.Encode(msg), base58.Decode(txt), d, d2, err, err2) + base58.CheckEncode(msg) + base58.CheckEncodeEosio(msg, "R1")
	})
	add("hash", func() string {
		h := ripemd160.New()
		h.Write(msg)
		return fmt.Sprintf("%x %v %v %v", h.Sum(nil), chain.Checksum160Digest(msg), chain.Checksum256Digest(msg), chain.Checksum512Digest(msg))
	})
	name := g.Name()
	add("names", func() string {
		s := name.String()
		return fmt.Sprint(s, uint64(chain.N(s)), uint64(chain.NewName(s)))
	})
	ass := g.Asset()
	assText := ass.String()
	add("assets", func() string {
		x, err := chain.NewAssetFromString(assText)
		if err != nil {
			return "error"
		}
		s, err := chain.NewSymbolFromString(ass.Symbol.String())
		return fmt.Sprint(x.String(), ass.FloatValue(), s, err, ass.Symbol.Name(), ass.Symbol.Decimals(), ass.Symbol.Precision(), ass.Symbol.Code())
	})
	u := chain.Uint128{Lo: g.U(64), Hi: g.U(64)}
	bigNeg, bigPos := chain.Int128{Lo: u.Lo, Hi: u.Hi | 1<<63}.BigInt(), u.BigInt()
	add("big integers", func() string { return fmt.Sprint(chain.NewInt128(bigNeg), chain.NewUint128(bigPos)) })
	add("numbers", func() string {
		x, err := chain.NewUint128FromString(u.String())
		y, err2 := chain.NewInt128FromString(chain.Int128(u).String())
		return fmt.Sprint(x, y, err, err2, u.BigInt(), u.Bytes(binary.LittleEndian), chain.Int128(u).BigInt())
	})
	bt, tp := chain.BlockTimestamp(g.U(32)), chain.TimePointSec(g.U(32))
	add("times", func() string {
		x, err := chain.NewBlockTimestampFromString(bt.String())
		y, err2 := chain.NewTimePointSecFromString(tp.String())
		z := chain.NewTimePoint(tp.Time().Add(time.Millisecond))
		w, err3 := chain.NewTimePointFromString(z.String())
		return fmt.Sprint(x, y, z, w, err, err2, err3, bt.Time(), chain.NewBlockTimestamp(bt.Time()), chain.NewTimePointSec(tp.Time()))
	})
	add("codegen", func() string { return fmt.Sprint(len(codegen.GenUnmarshalFn(genTarget{})) > 0) })
	add("custom codec", func() string {
		var b bytes.Buffer
		seen := 0
		err := chain.NewCustomEncoder(&b, func(e *abi.Encoder, v interface{}) (bool, error) {
			seen++
			if n, ok := v.(chain.Name); ok {
				return true, e.WriteString(n.String())
			}
			return false, nil
		}).Encode(struct {
			A chain.Name
			B []uint16
			C map[string]chain.Asset
		}{name, []uint16{1, 2}, map[string]chain.Asset{"a": ass, "b": ass}})
		return digest(b.Bytes(), err) + fmt.Sprint(seen)
	})
	add("custom decoding", func() string {
		var b bytes.Buffer
		if chain.NewEncoder(&b).Encode([]chain.Name{name, 1}) != nil {
			return "error"
		}
		var to []chain.Name
		seen := 0
		err := chain.NewCustomDecoder(&b, func(d *abi.Decoder, v interface{}) (bool, error) {
			seen++
			if n, ok := v.(*chain.Name); ok {
				u, err := d.ReadUint64()
				*n = chain.Name(u + 1)
				return true, err
			}
			return false, nil
		}).Decode(&to)
		return fmt.Sprint(to, err, seen)
	})
	auth := []chain.PermissionLevel{{Actor: 1, Permission: 2}}
	payload := chain.Bytes(c.R.Bytes(40))
	into, err := Encode(genTarget{A: 4, B: []chain.Name{name, 7}})
	if err != nil {
		c.Fail("encoding a struct: %v", err)
	}
	actData := chain.NewAction(1, 2, auth, into)
	add("constructors", func() string {
		x := chain.NewAction(3, name, auth, payload)
		var to genTarget
		err := actData.DecodeInto(&to)
		pk, sg := chain.NewPublicKey(key.Type, key.Data), chain.NewSignature(sig.Type, sig.Data)
		as := chain.NewAsset(ass.Value, ass.Symbol)
		return fmt.Sprint(dynString(x, nil), to.A, to.B, to.C, err, pk, sg, as, chain.A(assText))
	})
	nsAbi, nsIn, nsEnc := namesakeAbi(c.R)
	add("abi namesakes", func() string {
		var b bytes.Buffer
		err := nsAbi.Encode(&b, "t", nsIn)
		return digest(b.Bytes(), err) + dynString(nsAbi.Decode(bytes.NewReader(nsEnc), "t")) + dynString(nsAbi.DecodeAction(bytes.NewReader(nsEnc), 5)) + dynString(nsAbi.Decode(bytes.NewReader(nsEnc), "u"))
	})
	add("discard", func() string { return fmt.Sprint(chain.NewEncoder(io.Discard).Encode(act)) })
	verify = func() string {
		for _, f := range checks {
			if d := f(); d != "" {
				return d
			}
		}
		return ""
	}
	return ops, verify
}

func raceRun(c *C, expectFirst bool, workers, rounds int) {
	ops, verify := raceEnv(c)
	var want []string
	compute := func() {
		for _, o := range ops {
			want = append(want, o.run())
		}
	}
	if expectFirst {
		compute()
	}
	type res struct {
		op  int
		out string
	}
	results := make([][]res, workers)
	orders := make([][]int, workers)
	shared := c.R.Perm(len(ops))
	for w := range orders {
		for r := 0; r < rounds; r++ {
			if w%2 == 0 { // the same order as others, so that the same calls meet
				orders[w] = append(orders[w], shared...)
			} else {
				orders[w] = append(orders[w], c.R.Perm(len(ops))...)
			}
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	panics := make([]string, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panics[w] = fmt.Sprint(e)
				}
			}()
			<-start
			for _, k := range orders[w] {
				results[w] = append(results[w], res{k, ops[k].run()})
			}
		}()
	}
	close(start)
	wg.Wait()
	if !expectFirst {
		compute()
	}
	n := 0
	for w := range results {
		if panics[w] != "" {
			c.Fail("goroutine panicked: %s", panics[w])
		}
		for _, r := range results[w] {
			n++
			if r.out != want[r.op] {
				c.Fail("%s returned %s concurrently and %s alone", ops[r.op].name, tail(r.out, 400), tail(want[r.op], 400))
			}
		}
	}
	if d := verify(); d != "" {
		c.Fail("a shared value changed: %s", d)
	}
	c.Event("concurrent calls", n)
	c.Event("goroutines", workers)
	c.Distinct(fmt.Sprint(want))
	for _, o := range shared {
		c.res.mu.Lock()
		c.res.distinct[fnv64(ops[o].name+fmt.Sprint(o, c.Idx, c.Cat))] = struct{}{}
		c.res.mu.Unlock()
	}
	c.Sample("%d goroutines, %d calls, %d operations such as %s", workers, n, len(ops), ops[0].name)
}

func init() {
	Register(&Prop{ID: "C13", MinEvents: 5000,
		Rule:        "a case is one shared environment (ABI, values, texts) used by several goroutines at once under the race detector, every result compared with the same call made alone; non-trivial: (environment, operation) pairs that ran concurrently",
		Assumptions: []string{"the race detector sees the interleavings that occurred; values shared between goroutines are only read by the caller"},
		Cats: []Category{
			{"first use", 8, 8, func(c *C) { raceRun(c, false, 8, 2) }}, // one per process, nothing was called before
			{"stress", 240, 6000, func(c *C) { raceRun(c, c.Idx%2 == 0, 2+c.R.N(7), 2) }},
			{"storms", 10, 200, raceStorm},
			{"meetings", 40, 1200, raceMeet},
			{"many", 24, 400, func(c *C) { raceRun(c, false, 32, 2) }},
		}})
}

// namesakeAbi is an ABI whose type names are those of every other, and whose types are not.
func namesakeAbi(r *R) (a *chain.Abi, in interface{}, enc []byte) {
	a = &chain.Abi{Version: "eosio::abi/1.2", Types: []chain.AbiType{{NewTypeName: "u", Type: "t"}}, Actions: []chain.AbiAction{{Name: 5, Type: "t"}}}
	g := NewG(r)
	g.NoBig, g.Text = true, true
	s := chain.AbiStruct{Name: "t"}
	m := map[string]interface{}{}
	for i := 0; i < 4; i++ {
		b := Pick(r, []string{"uint8", "uint16", "uint32", "uint64", "string", "name", "asset", "bytes", "bool", "int8"})
		l := LeafByAbi[b]
		v := g.Value(l.RT).Interface()
		f := string(rune('a' + i))
		s.Fields = append(s.Fields, chain.AbiField{Name: f, Type: b})
		m[f] = v
		enc = append(enc, l.Ref(v)...)
	}
	a.Structs = append(a.Structs, s)
	return a, m, enc
}

// raceStorm has every goroutine repeat the same kind of call on data of its own.
func raceStorm(c *C) {
	envs := make([][]raceOp, 4)
	var verify []func() string
	for i := range envs {
		ops, v := raceEnv(c)
		envs[i], verify = ops, append(verify, v)
	}
	groups := map[string][]raceOp{}
	var names []string
	for _, ops := range envs {
		for _, o := range ops {
			k, _, _ := strings.Cut(o.name, " ")
			if strings.HasPrefix(o.name, "abi ") || strings.HasPrefix(o.name, "custom ") {
				k = o.name
			}
			if groups[k] == nil {
				names = append(names, k)
			}
			groups[k] = append(groups[k], o)
		}
	}
	for _, k := range names {
		ops := groups[k]
		want := make([]string, len(ops))
		workers := 8
		bad := make([]string, workers)
		counts := make([]int, workers)
		for i, o := range ops {
			want[i] = o.run()
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			i := (w + c.Idx*3) % len(ops)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						bad[w] = fmt.Sprint("panic: ", e)
					}
				}()
				<-start
				for t := time.Now(); counts[w] < 20 || counts[w] < 2000 && time.Since(t) < 15*time.Millisecond; counts[w]++ {
					if out := ops[i].run(); out != want[i] {
						bad[w] = fmt.Sprintf("%s returned %s concurrently and %s alone", ops[i].name, tail(out, 300), tail(want[i], 300))
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for w := range bad {
			if bad[w] != "" {
				c.Fail("storm of %s: %s", k, bad[w])
			}
			c.Event("concurrent calls", counts[w])
		}
		c.Distinct(k, fmt.Sprint(want))
		c.Event("goroutines", workers)
	}
	for _, v := range verify {
		if d := v(); d != "" {
			c.Fail("a shared value changed: %s", d)
		}
	}
	c.Sample("storms of %d kinds of calls", len(names))
}

// meeting lets goroutines wait for each other, but not forever.
type meeting struct {
	mu            sync.Mutex
	size, waiting int
	open          chan struct{}
	met           int
}

func (m *meeting) wait() {
	m.mu.Lock()
	if m.waiting++; m.waiting >= m.size {
		close(m.open)
		m.open, m.waiting = make(chan struct{}), 0
		m.met++
		m.mu.Unlock()
		return
	}
	ch := m.open
	m.mu.Unlock()
	t := time.NewTimer(10 * time.Millisecond)
	defer t.Stop()
	select {
	case <-ch:
	case <-t.C:
		m.mu.Lock()
		if m.open == ch {
			m.waiting--
		}
		m.mu.Unlock()
	}
}

func (m *meeting) leave() {
	m.mu.Lock()
	if m.size--; m.size > 0 && m.waiting >= m.size {
		close(m.open)
		m.open, m.waiting = make(chan struct{}), 0
		m.met++
	}
	m.mu.Unlock()
}

type pauseReader struct {
	r     io.Reader
	pause func()
}

func (p pauseReader) Read(b []byte) (int, error) { p.pause(); return p.r.Read(b) }

type pauseWriter struct {
	bytes.Buffer
	pause func()
}

func (p *pauseWriter) Write(b []byte) (int, error) { p.pause(); return p.Buffer.Write(b) }

// raceMeet stops several calls in the middle, at reads and writes, until all of them got there.
func raceMeet(c *C) {
	workers := 4 + c.R.N(5)
	type op struct {
		name string
		run  func(pause func()) string
	}
	var ops []op
	deep := c.Idx%3 == 0
	for w := 0; w < workers; w++ {
		kind := c.R.N(6)
		if deep {
			kind = 6 + c.Idx/3%4
		}
		switch kind {
		case 0, 1, 2:
			t := Pick(c.R, Leaves).RT
			switch kind {
			case 1:
				t = Pick(c.R, UserTypes)
			case 2:
				t = RandTop(c.R, 2)
			}
			v, want := twin(c, t, 300)
			enc := Ref(want, nil)
			if c.R.Chance(1, 2) {
				ops = append(ops, op{"encode " + t.String(), func(pause func()) string {
					b := &pauseWriter{pause: pause}
					err := chain.NewEncoder(b).Encode(v.Interface())
					return digest(b.Bytes(), err)
				}})
			} else {
				ops = append(ops, op{"decode " + t.String(), func(pause func()) string {
					p := reflect.New(t)
					err := chain.NewDecoder(pauseReader{bytes.NewReader(enc), pause}).Decode(p.Interface())
					if err != nil {
						return "error"
					}
					return digest(Ref(p.Elem(), nil), nil)
				}})
			}
		case 3, 4:
			a := NewSmallAGen(c.R)
			a.g.NoBig = true
			k := a.Case()
			n := k.Type.String()
			if kind == 3 {
				ops = append(ops, op{"abi encode " + n, func(pause func()) string {
					b := &pauseWriter{pause: pause}
					err := a.Abi.Encode(b, n, k.In)
					return digest(b.Bytes(), err)
				}})
			} else {
				ops = append(ops, op{"abi decode " + n, func(pause func()) string {
					return dynString(a.Abi.Decode(pauseReader{bytes.NewReader(k.Enc), pause}, n))
				}})
			}
		case 5:
			a, in, enc := namesakeAbi(c.R)
			ops = append(ops, op{"abi namesakes", func(pause func()) string {
				b := &pauseWriter{pause: pause}
				err := a.Encode(b, "t", in)
				return digest(b.Bytes(), err) + dynString(a.Decode(pauseReader{bytes.NewReader(enc), pause}, "u"))
			}})
		case 6, 7: // thousands of levels in each of them
			t := RecSlice{}
			for i := 1; i < 3000; i++ {
				t = RecSlice{t}
			}
			enc := Ref(reflect.ValueOf(t), nil)
			if kind == 6 {
				ops = append(ops, op{"deep decode", func(pause func()) string {
					var x RecSlice
					err := chain.NewDecoder(pauseReader{bytes.NewReader(enc), pause}).Decode(&x)
					if err != nil {
						return "error"
					}
					return digest(Ref(reflect.ValueOf(x), nil), nil)
				}})
			} else {
				ops = append(ops, op{"deep encode", func(pause func()) string {
					b := &pauseWriter{pause: pause}
					err := chain.NewEncoder(b).Encode(t)
					return digest(b.Bytes(), err)
				}})
			}
		default:
			a := chain.Abi{Structs: []chain.AbiStruct{{Name: "t", Fields: []chain.AbiField{{Name: "v", Type: "t[]"}}}}}
			m := map[string]interface{}{"v": []interface{}{}}
			for i := 1; i < 3000; i++ {
				m = map[string]interface{}{"v": []interface{}{m}}
			}
			enc := append(bytes.Repeat([]byte{1}, 2999), 0)
			if kind == 8 {
				ops = append(ops, op{"deep abi decode", func(pause func()) string {
					v, err := a.Decode(pauseReader{bytes.NewReader(enc), pause}, "t")
					if err != nil {
						return "error"
					}
					return fmt.Sprint(DynDiff(v, m, ""))
				}})
			} else {
				ops = append(ops, op{"deep abi encode", func(pause func()) string {
					b := &pauseWriter{pause: pause}
					err := a.Encode(b, "t", m)
					return digest(b.Bytes(), err)
				}})
			}
		}
	}
	want, out := make([]string, workers), make([]string, workers)
	stops := make([]map[int]bool, workers)
	for w, o := range ops {
		calls := 0
		want[w] = o.run(func() { calls++ })
		if want[w] == "error" {
			c.Fail("%s fails", o.name)
		}
		stops[w] = map[int]bool{calls - 1: true}
		for i := 0; i < 3 && calls > 0; i++ {
			stops[w][c.R.N(calls)] = true
		}
		if deep {
			stops[w] = map[int]bool{calls - 1: true}
		}
	}
	m := &meeting{size: workers, open: make(chan struct{})}
	var wg sync.WaitGroup
	for w, o := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer m.leave()
			defer func() {
				if e := recover(); e != nil {
					out[w] = fmt.Sprint("panic: ", e)
				}
			}()
			calls := 0
			out[w] = o.run(func() {
				if stops[w][calls] {
					m.wait()
				}
				calls++
			})
		}()
	}
	wg.Wait()
	for w, o := range ops {
		c.Distinct(o.name, want[w])
		if out[w] != want[w] {
			c.Fail("%s, interrupted by the others, returned %s and %s alone", o.name, tail(out[w], 300), tail(want[w], 300))
		}
	}
	c.Event("concurrent calls", workers)
	c.Event("goroutines", workers)
	c.Event("meetings", m.met)
	c.Sample("%d calls met %d times, such as %s", workers, m.met, ops[0].name)
}
