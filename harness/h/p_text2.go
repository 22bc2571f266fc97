package h

import (
	"bytes"
	"crypto"
	"crypto/sha256"
	"crypto/sha512"
	"encoding"
	"encoding/json"
	"fmt"
	"hash"
	"io"
	"math/big"
	"reflect"
	"strings"

	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

// C20

var oddTexts = []string{"", " ", "\x00", "\xff", "-", "+", ".", ",", "_", "=", "==", "0", "00", "1", "-1", "Z", "z", "\n", "é", "PUB_", "SIG_", "PUB_K1_", "SIG_K1_", "PUB_WA_", "SIG_WA_", "PUB_R1", "PUB_K1", "EOS", "SIG_R1_1111",
	"1 EOS", "1.0", ",EOS", "4,", "4,EOS", " EOS", ". EOS", "- EOS", "-. EOS", "1..0 EOS", "0x", "0x00", "null", "true", "{}", "[]", "\"", "\"\"", "\u202e", "T", "Z Z", "2020-01-01T00:00:00", "2020-01-01T00:00:00.000Z",
	"99999999999999999999999999999999999999999999999999999999", "-170141183460469231731687303715884105729", "340282366920938463463374607431768211456", "1e309", "NaN", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "11111111111111111111111111111111111111111111111111",
	"EOS11111111111111111111111111111111111111111111111111", "PUB_K1_11111111111111111111111111111111111111111111111111", strings.Repeat("z", 300), strings.Repeat("é", 40), "\U0001f600"}

// anyText is any kind of input a parser may be given.
func anyText(r *R) string {
	valid := func() string {
		n := textLeaves[r.N(len(textLeaves))]
		g := NewG(r)
		g.Text, g.NoBig, g.Budget = true, true, 300
		v := reflect.New(LeafByName[n].RT).Elem()
		v.Set(g.Value(LeafByName[n].RT))
		s, _ := refText(v)
		return s
	}
	any := "0123456789abcdefzABCKPRSUWZIG_-+.,:T= /\"\\\x00\x7f\x80\xff\xc3"
	switch r.N(10) {
	case 0:
		return string(r.Bytes(r.N(80)))
	case 1:
		b := make([]byte, r.N(60))
		for i := range b {
			b[i] = any[r.N(len(any))]
		}
		return string(b)
	case 2:
		return Pick(r, oddTexts)
	case 3:
		return mangle(r, Pick(r, oddTexts), any)
	case 4: // pieces of several texts
		s := ""
		for i := 1 + r.N(3); i > 0; i-- {
			v := valid()
			a := r.N(len(v) + 1)
			s += v[a : a+r.N(len(v)-a+1)]
		}
		return s
	case 5:
		return valid()
	case 6: // long
		if r.Chance(1, 8) {
			n := 1 + r.N(20000)
			return strings.Repeat(Pick(r, []string{"1", "z", "0", "9", ".", "a", "\xff", " ", "A=", "f", "PUB_", "é"}), n)
		}
		return valid()
	}
	return mangle(r, mangle(r, valid(), any), any)
}

// accepted checks that a value made from accepted text has a text that gives it back.
func textFixpoint(c *C, v reflect.Value, from string) {
	t1, err := v.Interface().(encoding.TextMarshaler).MarshalText()
	if err != nil {
		c.Fail("accepted %q, then MarshalText fails: %v", from, err)
	}
	w := reflect.New(v.Type().Elem())
	if err := w.Interface().(encoding.TextUnmarshaler).UnmarshalText(t1); err != nil {
		c.Fail("own text %q of the value parsed from %q is refused: %v", t1, from, err)
	}
	if d := diff(v, w, ""); d != "" {
		c.Fail("own text %q of the value parsed from %q gives another value: %s", t1, from, d)
	}
	c.Event("accepted texts fed back", 1)
}

// jsonTree mangles a JSON document by structure.
func jsonTree(r *R, v interface{}, p int) interface{} {
	if r.N(p) == 0 {
		switch r.N(14) {
		case 0:
			return nil
		case 1:
			return true
		case 2:
			return json.Number(fmt.Sprint(r.N(70000) - 5))
		case 3:
			return json.Number(Pick(r, []string{"1e5", "-1", "0.5", "18446744073709551615", "18446744073709551616", "4294967296", "4294967295", "-0", "1e400"}))
		case 4:
			return []interface{}{}
		case 5:
			return map[string]interface{}{}
		case 6:
			return []interface{}{v}
		case 7:
			return map[string]interface{}{"name": v}
		case 8:
			return []interface{}{nil, v, nil}
		}
		return strings.ToValidUTF8(anyText(r), "?")
	}
	switch x := v.(type) {
	case []interface{}:
		l := []interface{}{}
		for _, e := range x {
			if r.N(2*p) == 0 {
				continue
			}
			l = append(l, jsonTree(r, e, p))
			if r.N(2*p) == 0 {
				l = append(l, jsonTree(r, e, p))
			}
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for _, k := range sortedKeys(x) {
			if r.N(p) == 0 {
				continue
			}
			kk := k
			if r.N(2*p) == 0 {
				kk = strings.ToUpper(k)
			}
			m[kk] = jsonTree(r, x[k], p)
		}
		return m
	}
	return v
}

func jsonCase(c *C, n string, doc []byte) {
	c.Desc("%s JSON %q", n, tail(string(doc), 600))
	c.DistinctBytes(n, doc)
	t := LeafByName[n].RT
	v := reflect.New(t)
	c.Event("JSON texts parsed", 1)
	if u, ok := v.Interface().(json.Unmarshaler); ok {
		u.UnmarshalJSON(doc) // also without the standard library's syntax check in front
		v = reflect.New(t)
	}
	if err := json.Unmarshal(doc, v.Interface()); err != nil {
		return
	}
	j, err := json.Marshal(v.Interface())
	if err != nil {
		c.Fail("accepted, then marshalling fails: %v", err)
	}
	switch x := v.Interface().(type) { // null, or a field left out: no text was given for it
	case *chain.Asset, *chain.PublicKey, *chain.Signature:
		if v.Elem().IsZero() {
			return
		}
	case *chain.ExtendedAsset:
		if x.Quantity == (chain.Asset{}) {
			return
		}
	}
	w := reflect.New(t)
	if err := json.Unmarshal(j, w.Interface()); err != nil {
		c.Fail("own JSON %s is refused: %v", j, err)
	}
	if d := diff(v, w, ""); d != "" {
		c.Fail("own JSON %s gives another value: %s", j, d)
	}
	c.Event("accepted texts fed back", 1)
}

func init() {
	Register(&Prop{ID: "C20", MinEvents: 10000,
		Rule: "a case is one text given to every text parser of the library, or one JSON text given to one type; a panic anywhere, or an accepted text whose value does not survive its own text, is a violation; non-trivial if the text is new",
		Cats: []Category{
			{"any text", 25000, 1500000, func(c *C) {
				s := anyText(c.R)
				c.Desc("%q", tail(s, 500))
				c.Distinct(s)
				for _, n := range textLeaves {
					v := reflect.New(LeafByName[n].RT)
					c.desc = fmt.Sprintf("%s %q", n, tail(s, 500))
					if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(s)); err == nil {
						textFixpoint(c, v, s)
					}
				}
				c.Desc("constructors %q", tail(s, 500))
				var ks []interface{}
				add := func(v interface{}, err error) {
					if err == nil {
						ks = append(ks, v)
					}
				}
				n := chain.NewName(s)
				add(&n, nil)
				add(chain.NewAssetFromString(s))
				sy, err := chain.NewSymbolFromString(s)
				add(&sy, err)
				sy2, err := chain.NewSymbol(uint8(c.R.N(20)), s)
				add(&sy2, err)
				add(chain.NewPublicKeyFromString(s))
				add(chain.NewSignatureString(s))
				u, err := chain.NewUint128FromString(s)
				add(&u, err)
				i, err := chain.NewInt128FromString(s)
				add(&i, err)
				t1, err := chain.NewTimePointFromString(s)
				add(&t1, err)
				t2, err := chain.NewTimePointSecFromString(s)
				add(&t2, err)
				t3, err := chain.NewBlockTimestampFromString(s)
				add(&t3, err)
				for _, k := range ks {
					textFixpoint(c, reflect.ValueOf(k), s)
				}
				c.Desc("base58 %q", tail(s, 500))
				if b := base58.Decode(s); len(b) > 0 {
					if e := base58.Encode(b); e != s {
						c.Fail("base58 %q decodes, its bytes encode to %q", s, e)
					}
				}
				if b, err := base58.CheckDecode(s); err == nil && base58.CheckEncode(b) != s {
					c.Fail("checked base58 %q comes back as %q", s, base58.CheckEncode(b))
				}
				if b, err := base58.CheckDecodeEosio(s, "K1"); err == nil && base58.CheckEncodeEosio(b, "K1") != s {
					c.Fail("checked base58 %q comes back as %q", s, base58.CheckEncodeEosio(b, "K1"))
				}
				c.Event("texts parsed", len(textLeaves)+14)
			}},
			{"own texts, slightly off", 40000, 2000000, func(c *C) {
				// one parser, one near miss
				n := textLeaves[c.Idx%len(textLeaves)]
				g := NewG(c.R)
				g.Text, g.NoBig, g.Budget = true, true, 300
				v := reflect.New(LeafByName[n].RT)
				v.Elem().Set(g.Value(LeafByName[n].RT))
				s, _ := refText(v.Elem())
				for k := 1 + c.R.N(3); k > 0; k-- {
					s = mangle(c.R, s, s+"0129azAZ.-+_:=, TZ\x80\xe9")
				}
				c.Desc("%s %q", n, tail(s, 500))
				c.Distinct(n, s)
				if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(s)); err == nil {
					textFixpoint(c, v, s)
				}
				c.Event("texts parsed", 1)
			}},
			{"JSON bytes", 20000, 1000000, func(c *C) {
				n := jsonLeaves[c.Idx%len(jsonLeaves)]
				v, _ := textTwin(c, n)
				j, _ := json.Marshal(v.Interface())
				for k := c.R.N(4); k >= 0; k-- {
					j = []byte(mangle(c.R, string(j), `{}[]",:0123456789eE+-.tfn \u`+"\x00\x80\xff"))
				}
				jsonCase(c, n, j)
			}},
			{"JSON trees", 20000, 1000000, func(c *C) {
				n := jsonLeaves[c.Idx%len(jsonLeaves)]
				v, _ := textTwin(c, n)
				j, _ := json.Marshal(v.Interface())
				j, _ = json.Marshal(jsonTree(c.R, parseTree(c, j), 3+c.R.N(20)))
				jsonCase(c, n, j)
			}},
			{"any JSON", 10000, 500000, func(c *C) {
				n := jsonLeaves[c.Idx%len(jsonLeaves)]
				s := anyText(c.R)
				if c.R.Chance(1, 2) {
					b, _ := json.Marshal(s)
					s = string(b)
				}
				jsonCase(c, n, []byte(s))
			}},
		}})
}

// C21

func checkB58(c *C, b []byte) {
	want := refB58Encode(b)
	c.DistinctBytes("b", b)
	c.Desc("base58 of %s", Hex(b))
	if got := base58.Encode(b); got != want {
		c.Fail("encodes to %q, want %q", got, want)
	}
	if got := base58.Decode(want); !bytes.Equal(got, b) {
		c.Fail("%q decodes to %x", want, got)
	}
	c.Event("round trips", 1)
	c.Sample("%s %q", Hex(b), tail(want, 100))
}

func b58Bytes(c *C, max int) []byte {
	g := NewG(c.R)
	g.NoBig = true
	n := g.Len()
	if n > max {
		n = c.R.N(max + 1)
	}
	var b []byte
	switch c.R.N(4) {
	case 0:
		if n > 0 {
			b = g.Fixed(n)
		}
	case 1: // around powers of 58, where the number of digits changes
		v := new(big.Int).Exp(big.NewInt(58), big.NewInt(int64(c.R.N(60))), nil)
		v.Mul(v, big.NewInt(int64(1+c.R.N(57))))
		b = v.Add(v, big.NewInt(int64(c.R.N(3)-1))).Bytes()
	case 2: // chunks of ten digits that are small
		v := new(big.Int)
		r := new(big.Int).Exp(big.NewInt(58), big.NewInt(10), nil)
		for i := 1 + c.R.N(5); i > 0; i-- {
			v.Mul(v, r)
			v.Add(v, big.NewInt(int64(c.R.Uint64()>>uint(6+c.R.N(58)))))
		}
		b = v.Bytes()
	default:
		b = c.R.Bytes(n)
	}
	if c.R.Chance(1, 3) {
		b = append(make([]byte, c.R.N(6)), b...)
	}
	if c.R.Chance(1, 20) {
		b = append(make([]byte, c.R.N(100)), b...)
	}
	return b
}

// checkChecked compares both checked decoders with the reference reading of a text.
func checkChecked(c *C, s, suffix string) {
	c.Desc("checked text %q suffix %q", tail(s, 300), tail(suffix, 100))
	c.Distinct(s, "/", suffix)
	raw, ok := refB58Decode(s)
	ok = ok && len(raw) >= 4
	var data, sum []byte
	if ok {
		data, sum = raw[:len(raw)-4], raw[len(raw)-4:]
	}
	cmp := func(name string, got []byte, err error, ok bool) {
		if ok && (err != nil || !bytes.Equal(got, data)) {
			c.Fail("%s gives %x, %v, want %x", name, got, err, data)
		}
		if !ok && err == nil {
			c.Fail("%s accepts it as %x", name, got)
		}
		if ok {
			c.Event("checksums accepted", 1)
		} else {
			c.Event("checksums refused", 1)
		}
	}
	got, err := base58.CheckDecode(s)
	cmp("CheckDecode", got, err, ok && bytes.Equal(sum, sum4Btc(data)))
	got, err = base58.CheckDecodeEosio(s, suffix)
	cmp("CheckDecodeEosio", got, err, ok && bytes.Equal(sum, sum4Rmd(data, suffix)))
}

func init() {
	suffixes := []string{"", "K1", "R1", "WA", "K", "k1", "K1K1", "\x00", "XX", strings.Repeat("s", 64), strings.Repeat("t", 131), "é"}
	Register(&Prop{ID: "C21", MinEvents: 10000,
		Rule: "a case is one byte string or text, compared with an independent digit-by-digit base58 and independent checksums; non-trivial if new",
		Cats: []Category{
			{"bytes", 30000, 1500000, func(c *C) { checkB58(c, b58Bytes(c, 200)) }},
			{"short", 1 + 256 + 8192, 1 + 256 + 65536, func(c *C) {
				switch i := c.Idx; {
				case i == 0:
					checkB58(c, nil)
				case i < 257:
					checkB58(c, []byte{byte(i - 1)})
				case i < 257+65536:
					checkB58(c, []byte{byte((i - 257) >> 8), byte(i - 257)})
				}
			}},
			{"lengths", 400, 3000, func(c *C) {
				checkB58(c, c.R.Bytes(c.Idx))
				b := make([]byte, c.Idx)
				checkB58(c, b)
				checkB58(c, append(b, 1))
				for i := range b {
					b[i] = 0xff
				}
				checkB58(c, b)
			}},
			{"texts", 30000, 1000000, func(c *C) {
				n := c.R.N(80)
				if c.R.Chance(1, 2) {
					n = 10 * c.R.N(9)
				}
				b := make([]byte, n)
				for i := range b {
					b[i] = b58Chars[c.R.N(58)]
				}
				for k := c.R.N(3); k > 0 && n > 0; k-- { // runs of the zero digit
					i := c.R.N(n)
					if c.R.Chance(1, 2) {
						i -= i % 10
					}
					for j := i; j < n && j < i+c.R.N(24); j++ {
						b[j] = '1'
					}
				}
				s := string(b)
				c.Desc("%q", s)
				c.Distinct("t", s)
				want, _ := refB58Decode(s)
				if got := base58.Decode(s); !bytes.Equal(got, want) {
					c.Fail("decodes to %x, want %x", got, want)
				}
				if got := base58.Encode(want); got != s {
					c.Fail("its bytes encode to %q", got)
				}
				c.Event("round trips", 1)
			}},
			{"characters outside the alphabet", 256 * 40, 256 * 1000, func(c *C) {
				s := []byte(refB58Encode(b58Bytes(c, 60)))
				if len(s) == 0 {
					s = []byte("1")
				}
				i := c.R.N(len(s))
				s[i] = byte(c.Idx % 256)
				c.Desc("%q", s)
				c.Distinct("o", s)
				want, ok := refB58Decode(string(s))
				got := base58.Decode(string(s))
				if !ok && len(got) != 0 || ok && !bytes.Equal(got, want) {
					c.Fail("decodes to %x, want %x", got, want)
				}
				checkChecked(c, string(s), "K1")
				c.Event("characters tried", 1)
			}},
			{"checked", 20000, 800000, func(c *C) {
				b := b58Bytes(c, 150)
				suffix := Pick(c.R, suffixes)
				c.Desc("checked %s suffix %q", Hex(b), suffix)
				t1, t2 := refB58Encode(cat(b, sum4Btc(b))), refChecked(b, suffix)
				if got := base58.CheckEncode(b); got != t1 {
					c.Fail("CheckEncode gives %q, want %q", got, t1)
				}
				if got := base58.CheckEncodeEosio(b, suffix); got != t2 {
					c.Fail("CheckEncodeEosio gives %q, want %q", got, t2)
				}
				checkChecked(c, t1, suffix)
				checkChecked(c, t2, suffix)
				checkChecked(c, t2, Pick(c.R, suffixes))
				// the same bytes hashed with the boundary between data and suffix elsewhere
				if len(suffix) > 0 {
					checkChecked(c, refB58Encode(cat(b, []byte(suffix), sum4Rmd(b, suffix))), "")
				}
				c.Sample("%q %q", tail(t1, 100), tail(t2, 100))
			}},
			{"altered", 30000, 1000000, func(c *C) {
				b := b58Bytes(c, 80)
				suffix := Pick(c.R, suffixes)
				s := refChecked(b, suffix)
				if c.R.Chance(1, 2) {
					s = refB58Encode(cat(b, sum4Btc(b)))
				}
				switch c.R.N(6) {
				case 0:
					s = s[:c.R.N(len(s)+1)]
				case 1:
					s = s[c.R.N(len(s)+1):]
				case 2: // one bit of the bytes
					raw, _ := refB58Decode(s)
					raw[c.R.N(len(raw))] ^= 1 << uint(c.R.N(8))
					s = refB58Encode(raw)
				case 3: // one byte of the checksum
					raw, _ := refB58Decode(s)
					raw[len(raw)-1-c.R.N(4)] ^= byte(1 + c.R.N(255))
					s = refB58Encode(raw)
				case 4: // leading zeros
					s = strings.Repeat("1", 1+c.R.N(3)) + s
				default:
					s = mangle(c.R, s, b58Chars)
				}
				checkChecked(c, s, suffix)
			}},
			{"too short", 2000, 60000, func(c *C) {
				checkChecked(c, refB58Encode(c.R.Bytes(c.R.N(6))), Pick(c.R, suffixes))
				checkChecked(c, strings.Repeat("1", c.R.N(9)), Pick(c.R, suffixes))
			}},
		}})
}

// C22

func init() {
	// one run of a hash object against the messages it was given
	stream := func(c *C, mk func() hash.Hash, ops int) {
		type obj struct {
			h   hash.Hash
			msg []byte
		}
		objs := []*obj{{h: mk()}, {h: mk()}, {h: mk()}}
		total := 0
		log := ""
		for i := 0; i < ops; i++ {
			o := objs[c.R.N(len(objs))]
			switch k := c.R.N(12); {
			case k < 6:
				n := c.R.N(20)
				switch c.R.N(4) {
				case 0:
					n = Pick(c.R, []int{0, 1, 7, 8, 9, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129, 191, 192, 193})
				case 1: // up to or just past a block boundary
					n = 64 - len(o.msg)%64 + c.R.N(3) - 1 + 64*c.R.N(3)
				case 2:
					n = c.R.N(300)
				}
				if len(o.msg) > 4000 {
					n = 0
				}
				if x, ok := c.R.size(20000); ok && len(o.msg) < 20000 { // so many, or up to so many
					n = x
					if x >= len(o.msg) && c.R.Chance(1, 2) {
						n = x - len(o.msg)
					}
				}
				if n < 0 {
					n = 0
				}
				b := c.R.Bytes(n)
				keep := append([]byte{}, b...)
				w, err := o.h.Write(b)
				if c.R.Chance(1, 5) {
					m, err2 := io.WriteString(o.h, "x")
					if m != 1 || err2 != nil {
						c.Fail("WriteString gives %d, %v", m, err2)
					}
					keep = append(keep, 'x')
				}
				for j := range b {
					b[j] = 0xee // the hash must not hold on to the caller's buffer
				}
				log += fmt.Sprintf("w%d ", n)
				c.Desc("%s", log)
				if w != n || err != nil {
					c.Fail("Write of %d gives %d, %v", n, w, err)
				}
				o.msg = append(o.msg, keep...)
				total += n
			case k < 10:
				in := c.R.Bytes(c.R.N(5))
				if c.R.Chance(1, 3) {
					in = nil
				} else if c.R.Chance(1, 3) {
					in = append(make([]byte, 0, 40), in...)
				}
				pre := append([]byte{}, in...)
				got := o.h.Sum(in)
				want := append(pre, refRipemd(o.msg)...)
				log += "s "
				c.Desc("%s", log)
				if !bytes.Equal(got, want) {
					c.Fail("sum of %d bytes is %x, want %x", len(o.msg), got, want)
				}
				if !bytes.Equal(in, want[:len(in)]) {
					c.Fail("Sum changed the prefix")
				}
				for j := range got {
					got[j] = 0xdd
				}
				c.Event("sums compared", 1)
			case k == 10:
				o.h.Reset()
				o.msg = nil
				log += "r "
			default:
				if o.h.Size() != 20 || o.h.BlockSize() != 64 {
					c.Fail("size %d, block size %d", o.h.Size(), o.h.BlockSize())
				}
			}
		}
		for _, o := range objs {
			if got := o.h.Sum(nil); !bytes.Equal(got, refRipemd(o.msg)) {
				c.Fail("sum of %d bytes is %x, want %x", len(o.msg), got, refRipemd(o.msg))
			}
		}
		c.Distinct(log)
		c.Event("writes", ops)
		c.Sample("%s", log)
	}
	digests := func(c *C, m []byte) {
		c.DistinctBytes("d", m)
		c.Desc("message of %d bytes %s", len(m), Hex(m))
		if got := chain.Checksum160Digest(m); !bytes.Equal(got[:], refRipemd(m)) {
			c.Fail("RIPEMD-160 is %x, want %x", got, refRipemd(m))
		}
		if got, want := chain.Checksum256Digest(m), sha256.Sum256(m); got != chain.Checksum256(want) {
			c.Fail("SHA-256 is %x, want %x", got, want)
		}
		if got, want := chain.Checksum512Digest(m), sha512.Sum512(m); got != chain.Checksum512(want) {
			c.Fail("SHA-512 is %x, want %x", got, want)
		}
		c.Event("digests compared", 3)
	}
	Register(&Prop{ID: "C22", MinEvents: 10000,
		Rule:        "a case is one message, or one history of writes, sums and resets over several interleaved hash objects, compared with an independent RIPEMD-160 and the standard library's SHA-2; non-trivial if message or history is new",
		Assumptions: []string{"the standard library's SHA-256 and SHA-512 are correct"},
		Cats: []Category{
			{"lengths", 700, 4200, func(c *C) {
				digests(c, c.R.Bytes(c.Idx))
				digests(c, make([]byte, c.Idx))
				b := make([]byte, c.Idx)
				for i := range b {
					b[i] = 0xff
				}
				digests(c, b)
			}},
			{"messages", 6000, 300000, func(c *C) { digests(c, c.R.Bytes(NewG(c.R).Len())) }},
			{"histories", 8000, 400000, func(c *C) { stream(c, ripemd160.New, 5+c.R.N(30)) }},
			{"registered hash", 300, 3000, func(c *C) { stream(c, crypto.RIPEMD160.New, 5+c.R.N(30)) }},
			{"two writes", 200, 260, func(c *C) {
				// every way to split a message of this length in two
				m := c.R.Bytes(c.Idx)
				want := refRipemd(m)
				for k := 0; k <= len(m); k++ {
					c.Desc("%d bytes split at %d", len(m), k)
					h := ripemd160.New()
					h.Write(m[:k])
					first := h.Sum(nil)
					h.Write(m[k:])
					if got := h.Sum(nil); !bytes.Equal(got, want) || !bytes.Equal(first, refRipemd(m[:k])) {
						c.Fail("sum is %x, want %x", got, want)
					}
					h.Reset()
					if got := h.Sum(nil); !bytes.Equal(got, refRipemd()) {
						c.Fail("after reset the sum is %x", got)
					}
					c.Event("sums compared", 3)
				}
				c.Distinct("two", c.Idx)
			}},
			{"large writes", 40, 400, func(c *C) {
				m := c.R.Bytes(1<<16 + c.R.N(1<<20))
				h, want := ripemd160.New(), refRipemd(m)
				rest := m
				for len(rest) > 0 {
					n := 1 + c.R.N(1<<uint(4+c.R.N(17)))
					if n > len(rest) {
						n = len(rest)
					}
					h.Write(rest[:n])
					rest = rest[n:]
				}
				if got := h.Sum(nil); !bytes.Equal(got, want) {
					c.Fail("sum of %d bytes is %x, want %x", len(m), got, want)
				}
				digests(c, m)
			}},
			{"long, every remainder", 64, 256, func(c *C) {
				n := (1<<uint(14+c.R.N(7)))*(1+c.R.N(3)) + c.Idx%64
				if c.Idx%64 > 50 {
					n = 1<<20 + c.Idx%64
				}
				digests(c, c.R.Bytes(n))
			}},
			{"more than 2^32 bits", 1, 4, func(c *C) {
				block := c.R.Bytes(1 << 20)
				h, m := ripemd160.New(), newRmd()
				for i := 0; i < 512; i++ {
					h.Write(block)
					m.Write(block)
				}
				for k := 0; k < 130; k++ {
					got, want := h.Sum(nil), m.Sum()
					if !bytes.Equal(got, want) {
						c.Fail("sum of 2^29+%d bytes is %x, want %x", k, got, want)
					}
					c.Event("sums compared", 1)
					c.Distinct("big", k)
					h.Write(block[k : k+1])
					m.Write(block[k : k+1])
				}
			}},
		}})
}
