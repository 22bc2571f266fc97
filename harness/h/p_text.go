package h

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata"

	"encoding/base64"
	"encoding/binary"

	"github.com/greymass/go-eosio/pkg/chain"
)

// jsonForms are the JSON texts of a value in every position a program may put it in.
func jsonForms(c *C, v reflect.Value) map[string][]byte {
	t := v.Type()
	out := map[string][]byte{}
	add := func(name string, x interface{}, strip func(b []byte) []byte) {
		b, err := json.Marshal(x)
		if err != nil {
			c.Fail("JSON of %s: %v", name, err)
		}
		if strip != nil {
			b = strip(b)
		}
		out[name] = b
	}
	cut := func(pre, post int) func(b []byte) []byte {
		return func(b []byte) []byte {
			if len(b) < pre+post {
				c.Fail("JSON %s", b)
			}
			return b[pre : len(b)-post]
		}
	}
	add("value", v.Interface(), nil)
	add("pointer", ptrTo(v), nil)
	pp := reflect.New(reflect.PtrTo(t))
	pp.Elem().Set(reflect.ValueOf(ptrTo(v)))
	add("pointer to pointer", pp.Interface(), nil)
	sl := reflect.MakeSlice(reflect.SliceOf(t), 1, 1)
	sl.Index(0).Set(v)
	add("slice element", sl.Interface(), cut(1, 1))
	ar := reflect.New(reflect.ArrayOf(1, t)).Elem()
	ar.Index(0).Set(v)
	if t.Kind() != reflect.Uint8 {
		add("array element", ar.Interface(), cut(1, 1))
	}
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
	m.SetMapIndex(reflect.ValueOf("k"), v)
	add("map value", m.Interface(), cut(5, 1))
	st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "X", Type: t}, {Name: "Y", Type: reflect.PtrTo(t)}})).Elem()
	st.Field(0).Set(v)
	st.Field(1).Set(reflect.ValueOf(ptrTo(v)))
	both := func(b []byte) []byte {
		var r struct{ X, Y json.RawMessage }
		if json.Unmarshal(b, &r) != nil || !bytes.Equal(r.X, r.Y) {
			c.Fail("JSON of struct fields: %s", b)
		}
		return r.X
	}
	add("struct field", st.Interface(), both)
	add("field of struct pointer", ptrTo(st), both)
	add("interface", map[string]interface{}{"k": v.Interface()}, cut(5, 1))
	return out
}

// textForms checks every text and JSON view of a value against the expected text, and parses it back.
func textForms(c *C, v reflect.Value, want string) {
	t := v.Type()
	if m, ok := v.Interface().(encoding.TextMarshaler); ok {
		b, err := m.MarshalText()
		if err != nil || string(b) != want {
			c.Fail("MarshalText of %v is %q, %v, want %q", t, b, err, want)
		}
	}
	p := ptrTo(v)
	b, err := p.(encoding.TextMarshaler).MarshalText()
	if err != nil || string(b) != want {
		c.Fail("MarshalText of *%v is %q, %v, want %q", t, b, err, want)
	}
	if s, ok := p.(fmt.Stringer); ok {
		if s.String() != want {
			c.Fail("String of %v is %q, want %q", t, s.String(), want)
		}
	}
	for pos, j := range jsonForms(c, v) {
		var s string
		if err := json.Unmarshal(j, &s); err != nil || s != want {
			c.Fail("JSON of %v as %s is %s, want %q", t, pos, j, want)
		}
	}
	if t.Comparable() {
		m := reflect.MakeMap(reflect.MapOf(t, reflect.TypeOf(0)))
		m.SetMapIndex(v, reflect.ValueOf(1))
		if _, ok := v.Interface().(encoding.TextMarshaler); ok {
			j, err := json.Marshal(m.Interface())
			q, _ := json.Marshal(map[string]int{want: 1})
			if err != nil || !bytes.Equal(j, q) {
				c.Fail("JSON map with key %v is %s, %v, want %s", t, j, err, q)
			}
		}
	}
	c.Event("text views compared", 11)
	parseText(c, v, want)
}

// parseText checks that a text parses to the value, through every entry point.
func parseText(c *C, v reflect.Value, text string) {
	t := v.Type()
	for i := 0; i < 2; i++ {
		p := reflect.New(t)
		if i == 1 { // into a used variable
			g := NewG(c.R)
			g.Text, g.NoBig, g.Budget = true, true, 200
			p.Elem().Set(g.Value(t))
		}
		if err := p.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(text)); err != nil {
			c.Fail("UnmarshalText of %v %q: %v", t, text, err)
		}
		if d := diff(p.Elem(), v, ""); d != "" {
			c.Fail("%v parsed from %q differs: %s", t, text, d)
		}
	}
	j, _ := json.Marshal(text)
	p := reflect.New(t)
	if err := json.Unmarshal(j, p.Interface()); err != nil {
		c.Fail("JSON %s into %v: %v", j, t, err)
	}
	if d := diff(p.Elem(), v, ""); d != "" {
		c.Fail("%v from JSON %s differs: %s", t, j, d)
	}
	l := reflect.New(reflect.SliceOf(t))
	if err := json.Unmarshal(cat([]byte("[ "), j, []byte(" ,\n"), j, []byte("]")), l.Interface()); err != nil {
		c.Fail("JSON list of %s into %v: %v", j, t, err)
	}
	if l.Elem().Len() != 2 || !Eq(l.Elem().Index(0), v) || !Eq(l.Elem().Index(1), v) {
		c.Fail("JSON list of %s into %v differs", j, t)
	}
	c.Event("parses compared", 4)
}

// rejectText checks that a text is refused by the text and JSON parsers of a type.
func rejectText(c *C, t reflect.Type, text string) {
	p := reflect.New(t)
	if err := p.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(text)); err == nil {
		c.Fail("%v accepts %q as %s", t, text, short(p.Elem().Interface()))
	}
	c.Event("texts refused", 1)
	if strings.ToValidUTF8(text, "") != text {
		return // JSON would change it
	}
	j, _ := json.Marshal(text)
	p = reflect.New(t)
	if err := json.Unmarshal(j, p.Interface()); err == nil {
		c.Fail("%v accepts JSON %s as %s", t, j, short(p.Elem().Interface()))
	}
}

// mangle alters a text in a small way.
func mangle(r *R, s string, alphabet string) string {
	b := []byte(s)
	n := 1
	if r.Chance(1, 4) {
		n = 1 + r.N(4)
	}
	for ; n > 0; n-- {
		i := r.N(len(b) + 1)
		ch := alphabet[r.N(len(alphabet))]
		if r.Chance(1, 12) {
			ch = byte(r.N(256))
		}
		if w, ok := r.phrase(); ok {
			b = append(b[:i:i], append([]byte(w), b[min(len(b), i+r.N(3)):]...)...)
			continue
		}
		switch r.N(7) {
		case 0, 1, 2:
			if i < len(b) {
				b[i] = ch
			}
		case 3:
			b = append(b[:i:i], append([]byte{ch}, b[i:]...)...)
		case 4:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 5:
			if i+1 < len(b) {
				b[i], b[i+1] = b[i+1], b[i]
			}
		case 6:
			switch r.N(4) {
			case 0:
				b = b[:i]
			case 1:
				b = append(b, b[i:]...)
			case 2:
				b = append(b, Pick(r, []string{" ", "\n", "\x00", "=", "Z", "0", "\t"})...)
			case 3:
				b = append([]byte(Pick(r, []string{" ", "\n", "+", "-", "0", "0x", "\ufeff"})), b...)
			}
		}
	}
	return string(b)
}

// C14

func randNameText(r *R) string {
	n := r.N(14)
	s := ""
	for i := 0; i < n; i++ {
		k := 32
		if i == 12 {
			k = 16
		}
		ch := nameChars[r.N(k)]
		if i == n-1 && ch == '.' {
			ch = 'a'
		}
		s += string(ch)
	}
	return s
}

func nameRank(s string) []int {
	var l []int
	for i := 0; i < 13; i++ {
		if i < len(s) {
			l = append(l, strings.IndexByte(nameChars, s[i]))
		} else {
			l = append(l, 0)
		}
	}
	return l
}

func nameCase(c *C, v uint64) {
	c.Distinct(v)
	n := chain.Name(v)
	s := n.String()
	c.Desc("name %#x %q", v, s)
	if s != refNameText(v) {
		c.Fail("text of %#x is %q, want %q", v, s, refNameText(v))
	}
	if chain.NewName(s) != n || chain.N(s) != n {
		c.Fail("%q gives %#x and %#x", s, uint64(chain.NewName(s)), uint64(chain.N(s)))
	}
	textForms(c, reflect.ValueOf(n), refNameText(v))
	c.Event("names converted", 1)
	c.Sample("%#x <-> %q", v, s)
}

func init() {
	Register(&Prop{ID: "C14", MinEvents: 10000,
		Rule: "a case is one name value, text or pair of them, compared with an independent implementation of the EOSIO name encoding; non-trivial if the value is new",
		Cats: []Category{
			{"values", 40000, 4000000, func(c *C) { nameCase(c, NewG(c.R).NameBits()) }},
			{"one character", 12*32 + 16, 12*32 + 16, func(c *C) {
				if c.Idx >= 12*32 {
					nameCase(c, uint64(c.Idx-12*32))
				} else {
					nameCase(c, uint64(c.Idx%32)<<(59-5*uint(c.Idx/32)))
				}
			}},
			{"two characters", 12 * 1024, 66 * 1024, func(c *C) {
				// neighbouring positions first
				k, pair := c.Idx/1024, 0
				for d := 1; d < 12; d++ {
					for i := 0; i+d < 12; i++ {
						if pair == k {
							nameCase(c, uint64(c.Idx%32)<<(59-5*uint(i))|uint64(c.Idx/32%32)<<(59-5*uint(i+d)))
							return
						}
						pair++
					}
				}
			}},
			{"texts", 30000, 2000000, func(c *C) {
				s := randNameText(c.R)
				c.Distinct(s)
				c.Desc("%q", s)
				v := refNameValue(s)
				if got := uint64(chain.NewName(s)); got != v {
					c.Fail("%q gives %#x, want %#x", s, got, v)
				}
				if got := chain.NewName(s).String(); got != s {
					c.Fail("%q comes back as %q", s, got)
				}
				parseText(c, reflect.ValueOf(chain.Name(v)), s)
				if e, err := Encode(chain.NewName(s)); err != nil || !bytes.Equal(e, le(v, 8)) {
					c.Fail("%q encodes to %x, %v", s, e, err)
				}
				c.Event("names converted", 1)
			}},
			{"order", 30000, 2000000, func(c *C) {
				a := refNameValue(randNameText(c.R))
				b := refNameValue(randNameText(c.R))
				switch c.R.N(4) {
				case 0:
					b = a + uint64(c.R.N(3)) - 1
				case 1: // common prefix
					b = a ^ uint64(1)<<uint(c.R.N(64))
				case 2:
					k := uint(c.R.N(64))
					b = a>>k<<k | b&(1<<k-1)
				}
				sa, sb := chain.Name(a).String(), chain.Name(b).String()
				c.Desc("%q %q", sa, sb)
				c.Distinct(a, "/", b)
				cmp := 0
				for i, x := range nameRank(sa) {
					if y := nameRank(sb)[i]; x != y {
						if x < y {
							cmp = -1
						} else {
							cmp = 1
						}
						break
					}
				}
				na, nb := chain.NewName(sa), chain.NewName(sb)
				num := 0
				if na < nb {
					num = -1
				} else if na > nb {
					num = 1
				}
				if cmp != num || (a < b) != (num < 0) || (a == b) != (sa == sb) {
					c.Fail("order of %q and %q is %d, of their values %d", sa, sb, cmp, num)
				}
				c.Event("pairs ordered", 1)
			}},
		}})
}

// C15

const (
	textBad = iota
	textGood
	textUnclear // not settled by the format, nothing is asserted
)

// refAssetParse classifies an asset text.
func refAssetParse(s string) (a chain.Asset, st int) {
	p := strings.Split(s, " ")
	if len(p) != 2 || p[0] == "" || p[1] == "" || len(p[1]) > 7 {
		return a, textBad
	}
	for i := 0; i < len(p[1]); i++ {
		if p[1][i] < 'A' || p[1][i] > 'Z' {
			return a, textBad
		}
	}
	digits, prec, point := "", 0, false
	for i := 0; i < len(p[0]); i++ {
		switch ch := p[0][i]; {
		case ch == '-' && i == 0:
		case ch == '.' && !point:
			point = true
		case ch >= '0' && ch <= '9':
			digits += string(ch)
			if point {
				prec++
			}
		default:
			return a, textBad
		}
	}
	if digits == "" || prec > 18 {
		return a, textBad
	}
	v, _ := new(big.Int).SetString(digits, 10)
	if p[0][0] == '-' {
		v.Neg(v)
	}
	if !v.IsInt64() {
		return a, textBad
	}
	a = chain.Asset{Value: v.Int64(), Symbol: chain.Symbol(refSymValue(prec, p[1]))}
	if refAssetText(a) != s {
		return a, textUnclear
	}
	return a, textGood
}

func symNameStatus(s string) int {
	for i := 0; i < len(s); i++ {
		if s[i] < 'A' || s[i] > 'Z' {
			return textBad
		}
	}
	if len(s) > 7 {
		return textBad
	}
	if s == "" {
		return textUnclear
	}
	return textGood
}

func refSymParse(s string) (uint64, int) {
	p := strings.Split(s, ",")
	if len(p) != 2 || symNameStatus(p[1]) == textBad {
		return 0, textBad
	}
	d := strings.TrimPrefix(p[0], "+")
	if d == p[0] {
		d = strings.TrimPrefix(p[0], "-")
	}
	if d == "" || strings.Trim(d, "0123456789") != "" {
		return 0, textBad
	}
	n, _ := new(big.Int).SetString(d, 10)
	if p[0][0] == '-' {
		n.Neg(n)
	}
	if n.Sign() < 0 || n.Cmp(big.NewInt(18)) > 0 {
		return 0, textBad
	}
	v := refSymValue(int(n.Int64()), p[1])
	if p[1] == "" || refSymText(v) != s {
		return v, textUnclear
	}
	return v, textGood
}

func assetCase(c *C, a chain.Asset) {
	text := refAssetText(a)
	prec, name := int(uint64(a.Symbol)&0xff), refSymName(uint64(a.Symbol))
	c.Desc("asset %d %q", a.Value, text)
	c.Distinct(text)
	textForms(c, reflect.ValueOf(a), text)
	for i, f := range []func(string) (*chain.Asset, error){chain.NewAssetFromString, func(s string) (*chain.Asset, error) { return chain.A(s), nil }} {
		g, err := f(text)
		if err != nil || *g != a {
			c.Fail("constructor %d gives %v, %v for %q", i, g, err, text)
		}
	}
	if n := chain.NewAsset(a.Value, a.Symbol); *n != a {
		c.Fail("NewAsset gives %v", n)
	}
	fl, _ := strconv.ParseFloat(refAmount(a.Value, prec), 64)
	if got := a.FloatValue(); math.Float64bits(got) != math.Float64bits(fl) && !(got == 0 && fl == 0) {
		c.Fail("float view of %q is %v, want %v", text, got, fl)
	}
	s := a.Symbol
	p10 := 1
	for i := 0; i < prec; i++ {
		p10 *= 10
	}
	if s.Decimals() != prec || s.Name() != name || s.Precision() != p10 || uint64(s.Code()) != uint64(s)>>8 {
		c.Fail("symbol of %q: decimals %d, name %q, precision %d, code %#x", text, s.Decimals(), s.Name(), s.Precision(), uint64(s.Code()))
	}
	n, err := chain.NewSymbol(uint8(prec), name)
	if err != nil || n != s {
		c.Fail("NewSymbol(%d, %q) gives %#x, %v", prec, name, uint64(n), err)
	}
	n, err = chain.NewSymbolFromString(refSymText(uint64(s)))
	if err != nil || n != s {
		c.Fail("NewSymbolFromString(%q) gives %#x, %v", refSymText(uint64(s)), uint64(n), err)
	}
	textForms(c, reflect.ValueOf(s), refSymText(uint64(s)))
	textForms(c, reflect.ValueOf(s.Code()), name)
	c.Event("assets converted", 1)
	c.Sample("%d %#x <-> %q", a.Value, uint64(s), text)
}

var tAsset, tSymbol, tSymbolCode = reflect.TypeOf(chain.Asset{}), reflect.TypeOf(chain.Symbol(0)), reflect.TypeOf(chain.SymbolCode(0))

func checkAssetText(c *C, s string) {
	a, st := refAssetParse(s)
	c.Desc("asset text %q", s)
	c.Distinct("a", s)
	switch st {
	case textGood:
		parseText(c, reflect.ValueOf(a), s)
	case textBad:
		rejectText(c, tAsset, s)
		if v, err := chain.NewAssetFromString(s); err == nil {
			c.Fail("NewAssetFromString accepts %q as %v", s, v)
		}
		if !panics(func() { chain.A(s) }) {
			c.Fail("A(%q) returns", s)
		}
	}
}

func checkSymText(c *C, s string) {
	v, st := refSymParse(s)
	c.Desc("symbol text %q", s)
	c.Distinct("s", s)
	switch st {
	case textGood:
		parseText(c, reflect.ValueOf(chain.Symbol(v)), s)
	case textBad:
		rejectText(c, tSymbol, s)
		if v, err := chain.NewSymbolFromString(s); err == nil {
			c.Fail("NewSymbolFromString accepts %q as %v", s, v)
		}
	}
}

func checkCodeText(c *C, s string) {
	c.Desc("symbol code text %q", s)
	c.Distinct("c", s)
	switch symNameStatus(s) {
	case textGood:
		parseText(c, reflect.ValueOf(chain.SymbolCode(refSymValue(0, s)>>8)), s)
		if v, err := chain.NewSymbol(3, s); err != nil || uint64(v) != refSymValue(3, s) {
			c.Fail("NewSymbol(3, %q) gives %#x, %v", s, uint64(v), err)
		}
	case textBad:
		rejectText(c, tSymbolCode, s)
		if v, err := chain.NewSymbol(4, s); err == nil {
			c.Fail("NewSymbol accepts %q as %v", s, v)
		}
	}
}

func init() {
	edge := []int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, math.MaxInt64 - 1, math.MaxInt64, 9, 10, -10, 999999999999999999, 1000000000000000000, -1000000000000000000, 9007199254740993}
	Register(&Prop{ID: "C15", MinEvents: 10000,
		Rule:        "a case is one asset or one (mostly slightly malformed) text, compared with an independent exact-decimal implementation; non-trivial if the text is new",
		Assumptions: []string{"texts whose acceptance the format leaves open (surplus leading zeros, '1. EOS', '.5 EOS', '-0 EOS', signed precision, empty symbol) are not judged"},
		Cats: []Category{
			{"assets", 20000, 1000000, func(c *C) {
				g := NewG(c.R)
				g.Text = true
				assetCase(c, g.Asset())
			}},
			{"edges", 14 * 19 * 2, 14 * 19 * 7, func(c *C) {
				n := strings.Repeat(string(rune('A'+c.R.N(26))), 1+c.Idx/(14*19)%7)
				if c.R.Chance(1, 3) {
					n = "ABCDXYZ"[:len(n)]
				}
				assetCase(c, chain.Asset{Value: edge[c.Idx%14], Symbol: chain.Symbol(refSymValue(c.Idx/14%19, n))})
			}},
			{"mangled assets", 40000, 2000000, func(c *C) {
				g := NewG(c.R)
				g.Text = true
				checkAssetText(c, mangle(c.R, refAssetText(g.Asset()), "0123456789.- ,ABZaz+eE_"))
			}},
			{"mangled symbols", 20000, 1000000, func(c *C) {
				g := NewG(c.R)
				g.Text = true
				s := uint64(g.Symbol())
				checkSymText(c, mangle(c.R, refSymText(s), "0123456789,- ABZaz+.[@_`"))
				checkCodeText(c, mangle(c.R, refSymName(s), "ABMYZaz09 ,.@[_`"))
			}},
			{"amounts beyond 64 bits", 10000, 500000, func(c *C) {
				// around the limits and around powers of ten and two beyond them
				v := new(big.Int)
				switch c.R.N(4) {
				case 0:
					v.SetInt64(math.MaxInt64)
				case 1:
					v.Lsh(big.NewInt(1), uint(62+c.R.N(68)))
				case 2:
					v.Exp(big.NewInt(10), big.NewInt(int64(17+c.R.N(30))), nil)
				default:
					v.SetBytes(c.R.Bytes(7 + c.R.N(6)))
				}
				v.Add(v, big.NewInt(int64(c.R.N(5)-2)))
				if c.R.Chance(1, 2) {
					v.Neg(v)
				}
				digits := new(big.Int).Abs(v).String()
				prec := c.R.N(22)
				if len(digits) <= prec {
					digits = strings.Repeat("0", prec+1-len(digits)) + digits
				}
				s := digits[:len(digits)-prec]
				if prec > 0 {
					s += "." + digits[len(digits)-prec:]
				}
				if v.Sign() < 0 {
					s = "-" + s
				}
				checkAssetText(c, s+" "+refSymName(refSymValue(0, Pick(c.R, []string{"EOS", "A", "ABCDEFG"}))))
			}},
			{"precisions and names", 256 * 12, 256 * 200, func(c *C) {
				prec := c.Idx % 256
				n := ""
				for i := c.R.N(10); i > 0; i-- {
					ch := byte('A' + c.R.N(26))
					if c.R.Chance(1, 12) {
						ch = byte(c.R.N(256))
					}
					n += string([]byte{ch})
				}
				c.Desc("precision %d name %q", prec, n)
				c.Distinct(prec, n)
				v, err := chain.NewSymbol(uint8(prec), n)
				st := symNameStatus(n)
				switch {
				case prec > 18 || st == textBad:
					if err == nil {
						c.Fail("NewSymbol(%d, %q) accepted as %#x", prec, n, uint64(v))
					}
				case st == textGood:
					if err != nil || uint64(v) != refSymValue(prec, n) {
						c.Fail("NewSymbol(%d, %q) gives %#x, %v", prec, n, uint64(v), err)
					}
				}
				checkSymText(c, fmt.Sprintf("%d,%s", prec, n))
				checkSymText(c, fmt.Sprintf("%d,%s", prec-128, "EOS"))
				checkSymText(c, fmt.Sprintf("%d,%s", prec*(1+c.R.N(40)), "EOS"))
				checkAssetText(c, refAmount(int64(c.R.N(1000)), prec%24)+" "+n)
				c.Event("symbols converted", 1)
			}},
		}})
}

// C16

var tPub, tSig = reflect.TypeOf(chain.PublicKey{}), reflect.TypeOf(chain.Signature{})

func keyVal(sig bool, t int, d []byte) reflect.Value {
	if sig {
		return reflect.ValueOf(chain.Signature{Type: chain.KeyType(t), Data: d})
	}
	return reflect.ValueOf(chain.PublicKey{Type: chain.KeyType(t), Data: d})
}

func keyCtor(sig bool, s string) (reflect.Value, error) {
	if sig {
		v, err := chain.NewSignatureString(s)
		if err != nil {
			return reflect.Value{}, err
		}
		return reflect.ValueOf(*v), nil
	}
	v, err := chain.NewPublicKeyFromString(s)
	if err != nil {
		return reflect.Value{}, err
	}
	return reflect.ValueOf(*v), nil
}

// checkKeyText compares what the library makes of a text with what the text stands for.
func checkKeyText(c *C, sig bool, s string) {
	c.Desc("sig=%v text %q", sig, s)
	c.Distinct(sig, s)
	t, d, ok := refKeyParse(sig, s)
	if ok {
		v := keyVal(sig, t, d)
		g, err := keyCtor(sig, s)
		if err != nil {
			c.Fail("refused: %v", err)
		}
		if df := diff(g, v, ""); df != "" {
			c.Fail("differs: %s", df)
		}
		if strings.ToValidUTF8(s, "") == s {
			parseText(c, v, s)
		}
		return
	}
	if g, err := keyCtor(sig, s); err == nil {
		c.Fail("accepted as %s", short(g.Interface()))
	}
	if sig {
		rejectText(c, tSig, s)
	} else {
		rejectText(c, tPub, s)
	}
}

func randKey(c *C, sig bool) (int, []byte) {
	g := NewG(c.R)
	g.Budget = 2500
	if sig {
		s := g.Signature()
		return int(s.Type), s.Data
	}
	k := g.PublicKey()
	return int(k.Type), k.Data
}

func keyText(sig bool, t int, d []byte) string {
	if sig {
		return refKeyText("SIG", chain.KeyType(t), d)
	}
	return refKeyText("PUB", chain.KeyType(t), d)
}

func init() {
	prefixes := []string{"EOS", "EOS", "FIO", "", "TLOS", "E", "GMS", "PUB", "XPRNETWORK", "é"}
	Register(&Prop{ID: "C16", MinEvents: 10000,
		Rule:        "a case is one key or signature, or one altered text, compared with an independent base58/RIPEMD-160 implementation of the key text formats; non-trivial if the text is new",
		Assumptions: []string{"legacy texts are judged for keys with lead byte 02 or 03, the only ones whose legacy text has the fixed length of 50 characters"},
		Cats: []Category{
			{"keys", 8000, 300000, func(c *C) {
				sig := c.Idx%2 == 1
				t, d := randKey(c, sig)
				text := keyText(sig, t, d)
				c.Desc("%q", text)
				c.Distinct(text)
				v := keyVal(sig, t, d)
				textForms(c, v, text)
				var made interface{}
				if sig {
					made = *chain.NewSignature(chain.KeyType(t), d)
				} else {
					made = *chain.NewPublicKey(chain.KeyType(t), d)
				}
				if df := Diff(made, v.Interface()); df != "" {
					c.Fail("constructor: %s", df)
				}
				checkKeyText(c, sig, text)
				e, err := Encode(v.Interface())
				if err != nil || !bytes.Equal(e, append([]byte{byte(t)}, d...)) {
					c.Fail("encoded %x, %v", e, err)
				}
				c.Event("keys converted", 1)
				c.Sample("%q", text)
			}},
			{"unknown types", 1000, 20000, func(c *C) {
				sig := c.Idx%2 == 1
				t, d := randKey(c, sig)
				_ = t
				data := append(append([]byte{byte(3 + c.R.N(253))}, d...), c.R.Bytes(c.R.N(200))...)
				c.DistinctBytes("type", data)
				var to interface{} = &chain.PublicKey{}
				if sig {
					to = &chain.Signature{}
				}
				c.Event("unknown types", 1)
				if err := decoders[c.R.N(len(decoders))].mk(bytes.NewReader(data)).Decode(to); err == nil {
					c.Fail("%s was decoded as %T of type %d", Hex(data), to, data[0])
				}
				// only K1 keys have a legacy text
				k := chain.PublicKey{Type: Pick(c.R, []chain.KeyType{chain.P1, chain.WA}), Data: d}
				text := ""
				func() {
					defer func() { recover() }()
					text = k.LegacyString("EOS")
				}()
				if text != "" {
					c.Fail("key of type %v has the legacy text %q", k.Type, text)
				}
			}},
			{"legacy keys", 6000, 200000, func(c *C) {
				d := NewG(c.R).Fixed(33)
				d[0] = byte(2 + c.R.N(2))
				p := Pick(c.R, prefixes)
				text := p + refChecked(d, "")
				k := chain.PublicKey{Type: chain.K1, Data: d}
				if got := k.LegacyString(p); got != text {
					c.Fail("legacy text %q, want %q", got, text)
				}
				checkKeyText(c, false, text)
				checkKeyText(c, false, p+refChecked(d, Pick(c.R, keyTags)))
				checkKeyText(c, false, "PUB_"+Pick(c.R, keyTags)+"_"+refChecked(d, ""))
				for i := 0; i < 3; i++ {
					m := mangle(c.R, text[len(p):], b58Chars)
					if len(m) >= 50 || len(p) > 0 {
						checkKeyText(c, false, p+m)
					}
				}
				c.Event("legacy keys converted", 1)
				c.Sample("%q", text)
			}},
			{"mangled", 20000, 800000, func(c *C) {
				sig := c.Idx%2 == 1
				t, d := randKey(c, sig)
				text := keyText(sig, t, d)
				for i := 0; i < 3; i++ {
					m := text
					switch c.R.N(4) {
					case 0: // anywhere
						m = mangle(c.R, text, b58Chars+"0OIl_")
					case 1: // the head
						m = mangle(c.R, text[:7], "PUBSIG_K1R1WA0k ") + text[7:]
					case 2: // the payload
						m = text[:7] + mangle(c.R, text[7:], b58Chars)
					case 3: // one other digit
						b := []byte(text)
						i := 7 + c.R.N(len(b)-7)
						b[i] = b58Chars[(strings.IndexByte(b58Chars, b[i])+1+c.R.N(57))%58]
						m = string(b)
					}
					checkKeyText(c, sig, m)
				}
			}},
			{"other type, kind or checksum", 6000, 200000, func(c *C) {
				sig := c.Idx%2 == 1
				t, d := randKey(c, sig)
				text := keyText(sig, t, d)
				for i := range keyTags {
					checkKeyText(c, sig, text[:4]+keyTags[i]+text[6:])
					for _, s := range []string{"", keyTags[(i+1)%3], strings.ToLower(keyTags[i]), "P1"} {
						checkKeyText(c, sig, text[:4]+keyTags[i]+"_"+refChecked(d, s))
					}
				}
				checkKeyText(c, !sig, text)
				checkKeyText(c, sig, Pick(c.R, []string{"PVT_", "pub_", "sig_", "PUB-", "SIG", "EOS", ""})+text[4:])
				checkKeyText(c, sig, text[:4]+Pick(c.R, []string{"XX", "k1", "P1", "K2", "K", "R1_R1", ""})+text[6:])
				checkKeyText(c, sig, text[:6]+Pick(c.R, []string{"", "-", " ", "__", "1", "K"})+text[7:])
				b := cat(d, sum4Btc(d))
				checkKeyText(c, sig, text[:7]+refB58Encode(b))
			}},
			{"other length", 8000, 300000, func(c *C) {
				// the checksum is right, the data is not what the type holds
				sig := c.Idx%2 == 1
				t, d := randKey(c, sig)
				d = append([]byte{}, d...)
				switch c.R.N(5) {
				case 0:
					d = d[:c.R.N(len(d))]
				case 1:
					d = append(d, c.R.Bytes(1+c.R.N(4))...)
				case 2:
					d = d[:len(d)-1]
				case 3:
					d = append([]byte{0}, d...)
				case 4: // length bytes inside WebAuthn data
					n := 34
					if sig {
						n = 65
					}
					if len(d) > n {
						d[n] ^= 1 << uint(c.R.N(8))
					}
				}
				if t == 2 && wideVarints(sig, d) {
					return // lengths not in shortest form are not judged
				}
				checkKeyText(c, sig, keyText(sig, t, d))
				checkKeyText(c, sig, keyText(sig, (t+1)%3, d))
				if !sig {
					checkKeyText(c, false, "EOS"+refChecked(d, ""))
				}
			}},
		}})
}

// wideVarints tells whether WebAuthn data holds a length that is not in its shortest form.
func wideVarints(sig bool, d []byte) bool {
	n := 34
	if sig {
		n = 65
	}
	for i := 0; i < 2 && n < len(d); i++ {
		v, k := binary.Uvarint(d[n:])
		if k > 0 && len(RefVaruint(v)) != k || k <= 0 {
			return true
		}
		n += k
		if v > uint64(len(d)) {
			return false
		}
		n += int(v)
	}
	return false
}

// C17

func init() {
	tU, tI := reflect.TypeOf(chain.Uint128{}), reflect.TypeOf(chain.Int128{})
	intText := regexp.MustCompile(`^[+-]?[0-9]+$`)
	one := big.NewInt(1)
	maxU := new(big.Int).Sub(new(big.Int).Lsh(one, 128), one)
	minI := new(big.Int).Neg(new(big.Int).Lsh(one, 127))
	maxI := new(big.Int).Sub(new(big.Int).Lsh(one, 127), one)
	halves := func(v *big.Int) (lo, hi uint64) {
		x := new(big.Int).And(v, maxU) // two's complement
		return new(big.Int).And(x, new(big.Int).SetUint64(math.MaxUint64)).Uint64(), x.Rsh(x, 64).Uint64()
	}
	check128 := func(c *C, lo, hi uint64) {
		c.Distinct(lo, "/", hi)
		c.Desc("halves %#x %#x", hi, lo)
		u, i := chain.Uint128{Lo: lo, Hi: hi}, chain.Int128{Lo: lo, Hi: hi}
		bu, bi := u128Big(lo, hi, false), u128Big(lo, hi, true)
		if u.BigInt().Cmp(bu) != 0 || i.BigInt().Cmp(bi) != 0 {
			c.Fail("big integers %v and %v, want %v and %v", u.BigInt(), i.BigInt(), bu, bi)
		}
		lb := cat(le(lo, 8), le(hi, 8))
		bb := make([]byte, 16)
		for k := range lb {
			bb[15-k] = lb[k]
		}
		for _, x := range []interface {
			Bytes(binary.ByteOrder) []byte
		}{u, i} {
			if !bytes.Equal(x.Bytes(binary.LittleEndian), lb) || !bytes.Equal(x.Bytes(binary.BigEndian), bb) {
				c.Fail("bytes %x and %x", x.Bytes(binary.LittleEndian), x.Bytes(binary.BigEndian))
			}
		}
		ku, ki := new(big.Int).Set(bu), new(big.Int).Set(bi)
		if x := chain.NewUint128(ku); x != u {
			c.Fail("NewUint128(%v) gives %+v", bu, x)
		}
		if x := chain.NewInt128(ki); x != i {
			c.Fail("NewInt128(%v) gives %+v", bi, x)
		}
		if ku.Cmp(bu) != 0 || ki.Cmp(bi) != 0 {
			c.Fail("the big integer given was changed")
		}
		if x, err := chain.NewUint128FromString(bu.String()); err != nil || x != u {
			c.Fail("NewUint128FromString(%v) gives %+v, %v", bu, x, err)
		}
		if x, err := chain.NewInt128FromString(bi.String()); err != nil || x != i {
			c.Fail("NewInt128FromString(%v) gives %+v, %v", bi, x, err)
		}
		textForms(c, reflect.ValueOf(u), bu.String())
		textForms(c, reflect.ValueOf(i), bi.String())
		c.Event("128-bit values converted", 2)
		c.Sample("%v %v", bu, bi)
	}
	checkText := func(c *C, s string) {
		c.Desc("number text %q", s)
		c.Distinct(s)
		var v *big.Int
		if intText.MatchString(s) {
			v, _ = new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
		}
		canonical := v != nil && v.String() == s
		for k, t := range []reflect.Type{tU, tI} {
			in := v != nil && (k == 0 && v.Sign() >= 0 && v.Cmp(maxU) <= 0 || k == 1 && v.Cmp(minI) >= 0 && v.Cmp(maxI) <= 0)
			switch {
			case in && canonical:
				lo, hi := halves(v)
				x := reflect.ValueOf(chain.Uint128{Lo: lo, Hi: hi})
				if k == 1 {
					x = reflect.ValueOf(chain.Int128{Lo: lo, Hi: hi})
				}
				parseText(c, x, s)
			case !in:
				rejectText(c, t, s)
				var err error
				if k == 0 {
					_, err = chain.NewUint128FromString(s)
				} else {
					_, err = chain.NewInt128FromString(s)
				}
				if err == nil {
					c.Fail("%v from string accepts %q", t, s)
				}
				// the constructors have no error to return, they must not make up a number
				if v != nil && (k == 1 || v.Sign() > 0) && !panics(func() {
					if k == 0 {
						chain.NewUint128(v)
					} else {
						chain.NewInt128(v)
					}
				}) {
					c.Fail("%v from the big integer %v", t, v)
				}
			}
		}
	}
	checkJSON := func(c *C, v uint64) {
		c.Distinct("j", v)
		c.Desc("number %d", v)
		plain := strconv.FormatUint(v, 10)
		want := plain
		if v > math.MaxUint32 {
			want = `"` + plain + `"`
		}
		vals := []reflect.Value{reflect.ValueOf(chain.Uint64(v))}
		if v <= math.MaxUint32 {
			vals = append(vals, reflect.ValueOf(chain.BlockNum(v)))
		} else {
			for _, s := range []string{plain, `"` + plain + `"`} {
				var b chain.BlockNum
				if json.Unmarshal([]byte(s), &b) == nil {
					c.Fail("block number accepts %s as %d", s, uint32(b))
				}
			}
		}
		for _, x := range vals {
			for pos, j := range jsonForms(c, x) {
				if string(j) != want {
					c.Fail("JSON of %v as %s is %s, want %s", x.Type(), pos, j, want)
				}
			}
			for _, s := range []string{plain, `"` + plain + `"`, " " + plain + "\n", "\t\"" + plain + "\" "} {
				p := reflect.New(x.Type())
				if err := json.Unmarshal([]byte(s), p.Interface()); err != nil || p.Elem().Uint() != v {
					c.Fail("JSON %q into %v gives %d, %v", s, x.Type(), p.Elem().Uint(), err)
				}
				l := reflect.New(reflect.MapOf(reflect.TypeOf(""), x.Type()))
				if err := json.Unmarshal([]byte(`{"a":`+s+`}`), l.Interface()); err != nil || l.Elem().MapIndex(reflect.ValueOf("a")).Uint() != v {
					c.Fail("JSON %q in a document into %v gives %v, %v", s, x.Type(), l.Elem(), err)
				}
			}
			c.Event("JSON numbers compared", 17)
		}
	}
	Register(&Prop{ID: "C17", MinEvents: 10000,
		Rule:        "a case is one number or number text, compared with exact big-integer arithmetic; non-trivial if new",
		Assumptions: []string{"texts with surplus zeros or a plus sign and a negative zero are not judged", "NewUint128 of a negative number is not judged"},
		Cats: []Category{
			{"128-bit values", 15000, 800000, func(c *C) {
				g := NewG(c.R)
				check128(c, g.U(64), g.U(64))
			}},
			{"powers of two", 129 * 5, 129 * 5, func(c *C) {
				v := new(big.Int).Lsh(one, uint(c.Idx/5))
				v.Add(v, big.NewInt(int64(c.Idx%5-2)))
				if v.Cmp(maxU) > 0 {
					v.Set(maxU)
				}
				check128(c, new(big.Int).And(v, new(big.Int).SetUint64(math.MaxUint64)).Uint64(), new(big.Int).And(new(big.Int).Rsh(v, 64), new(big.Int).SetUint64(math.MaxUint64)).Uint64())
				for _, w := range []*big.Int{v, new(big.Int).Neg(v), new(big.Int).Lsh(v, 1), new(big.Int).Neg(new(big.Int).Lsh(v, 2))} {
					checkText(c, w.String())
				}
			}},
			{"around the range", 10000, 400000, func(c *C) {
				v := new(big.Int).Set(Pick(c.R, []*big.Int{maxU, minI, maxI, big.NewInt(0), new(big.Int).Neg(maxU)}))
				d := new(big.Int).Rsh(new(big.Int).SetBytes(c.R.Bytes(20)), uint(c.R.N(160)))
				if c.R.Chance(1, 2) {
					d.Neg(d)
				}
				checkText(c, v.Add(v, d).String())
			}},
			{"mangled", 20000, 800000, func(c *C) {
				v := new(big.Int).Rsh(new(big.Int).SetBytes(c.R.Bytes(17)), uint(c.R.N(136)))
				if c.R.Chance(1, 3) {
					v.Neg(v)
				}
				checkText(c, mangle(c.R, v.String(), "0123456789-+._ eExXabf,"))
			}},
			{"special texts", 40, 40, func(c *C) {
				l := []string{"", "-", "+", " ", "0x1", "1e3", "1.0", ".", "--1", "1-", "- 1", "1_0", "٣", "１", "NaN", "inf", "null", "0b1", "0o7", "1\x00", "\x001", "1\n", "\n1", "1,000", "2^127", "١٢", "0x", "-0x1", "1 ", " 1", "1e", "e1", "½", "true", "{}", "[]", "\"1\"", "'1'", "1/1", "1;"}
				checkText(c, l[c.Idx%len(l)])
			}},
			{"JSON numbers", 10000, 400000, func(c *C) { checkJSON(c, NewG(c.R).U(64)) }},
			{"JSON numbers by size", 65 * 5, 65 * 5, func(c *C) {
				v := new(big.Int).Lsh(one, uint(c.Idx/5))
				v.Add(v, big.NewInt(int64(c.Idx%5-2)))
				if v.IsUint64() {
					checkJSON(c, v.Uint64())
				}
			}},
			{"JSON refused", 10000, 400000, func(c *C) {
				var s string
				switch c.R.N(4) {
				case 0: // beyond 64 bits
					v := new(big.Int).Lsh(one, 64)
					s = v.Add(v, new(big.Int).Rsh(new(big.Int).SetBytes(c.R.Bytes(16)), uint(c.R.N(128)))).String()
				case 1: // negative
					s = "-" + strconv.FormatUint(1+c.R.Uint64()>>uint(1+c.R.N(63)), 10)
				case 2: // fractions
					s = strconv.FormatUint(c.R.Uint64()>>uint(c.R.N(63)), 10) + "." + strconv.Itoa(1+c.R.N(1000))
				case 3:
					s = Pick(c.R, []string{"true", "false", "{}", "[]", "[1]", `{"a":1}`, `""`, `"a"`, `"0x10"`, `" 1"`, `"1 "`, `"1,2"`, `"-"`, `"1.5"`, `"18446744073709551616"`, `"\"1\""`, `"1_0"`})
				}
				if s[0] != '"' && s[0] != '{' && s[0] != '[' && s[0] != 't' && s[0] != 'f' && c.R.Chance(1, 2) {
					s = `"` + s + `"`
				}
				c.Desc("JSON %s", s)
				c.Distinct("r", s)
				var u chain.Uint64
				var b chain.BlockNum
				if json.Unmarshal([]byte(s), &u) == nil {
					c.Fail("Uint64 accepts %s as %d", s, uint64(u))
				}
				if json.Unmarshal([]byte(s), &b) == nil {
					c.Fail("BlockNum accepts %s as %d", s, uint32(b))
				}
				c.Event("JSON refused", 2)
			}},
		}})
}

// C18

var zones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Europe/London", "Australia/Lord_Howe", "America/St_Johns", "Asia/Tokyo"}

func init() {
	for _, z := range zones {
		ChildEnvs["C18"] = append(ChildEnvs["C18"], "TZ="+z)
	}
	tTP, tTPS, tBTS := reflect.TypeOf(chain.TimePoint(0)), reflect.TypeOf(chain.TimePointSec(0)), reflect.TypeOf(chain.BlockTimestamp(0))
	envLocal := time.Local
	// zone picks the process time zone of the case, and a location for the times it makes
	zone := func(c *C) *time.Location {
		loc := func() *time.Location {
			if c.R.Chance(1, 3) {
				return time.FixedZone("x", c.R.N(2*86400)-86400)
			}
			l, err := time.LoadLocation(zones[c.R.N(len(zones))])
			if err != nil {
				panic(err)
			}
			return l
		}
		time.Local = envLocal
		if c.R.Chance(1, 2) {
			time.Local = loc()
		}
		if _, off := time.Unix(c.R.Int64N(1<<31), 0).Zone(); off != 0 {
			c.Event("cases outside UTC", 1)
		}
		switch c.R.N(4) {
		case 0:
			return time.UTC
		case 1:
			return time.Local
		}
		return loc()
	}
	instant := func(c *C, what string, t time.Time, sec, nsec int64) {
		if t.Unix() != sec || int64(t.Nanosecond()) != nsec {
			c.Fail("%s is %d s %d ns after 1970, want %d s %d ns", what, t.Unix(), t.Nanosecond(), sec, nsec)
		}
		c.Event("instants compared", 1)
	}
	goTime := func(c *C, us int64) (sec, nsec int64) {
		sec = floorDiv(us, 1000000)
		return sec, (us - sec*1000000) * 1000
	}
	const yearMin, yearMax = -62135596800000, 253402300800000 // years 1 to 9999, in milliseconds
	withZ := func(c *C, v reflect.Value, s string) {
		textForms(c, v, s)
		parseText(c, v, s+"Z")
	}
	tp := func(c *C, us int64) {
		loc := zone(c)
		c.Desc("time point %d, zone %v, time in %v", us, time.Local, loc)
		c.Distinct("tp", us)
		v := chain.TimePoint(us)
		sec, ns := goTime(c, us)
		instant(c, "Time()", v.Time(), sec, ns)
		extra := int64(c.R.N(1000))
		if c.R.Chance(1, 2) {
			extra = 0
		}
		if g := chain.NewTimePoint(time.Unix(sec, ns+extra).In(loc)); g != v {
			c.Fail("NewTimePoint gives %d", int64(g))
		}
		ms := floorDiv(us, 1000)
		if ms >= yearMin && ms < yearMax {
			text := refISO(ms, true)
			if v.String() != text {
				c.Fail("text %q, want %q", v.String(), text)
			}
			whole := chain.TimePoint(ms * 1000)
			withZ(c, reflect.ValueOf(whole), text)
			for _, s := range []string{text, text + "Z"} {
				if g, err := chain.NewTimePointFromString(s); err != nil || g != whole {
					c.Fail("%q parses to %d, %v", s, int64(g), err)
				}
			}
			c.Sample("%d <-> %s", us, text)
		}
	}
	tps := func(c *C, s uint32) {
		loc := zone(c)
		c.Desc("time point sec %d, zone %v, time in %v", s, time.Local, loc)
		c.Distinct("tps", s)
		v := chain.TimePointSec(s)
		instant(c, "Time()", v.Time(), int64(s), 0)
		ns := int64(0)
		if c.R.Chance(1, 2) {
			ns = c.R.Int64N(1000000000)
		}
		if g := chain.NewTimePointSec(time.Unix(int64(s), ns).In(loc)); g != v {
			c.Fail("NewTimePointSec gives %d", uint32(g))
		}
		text := refISO(int64(s)*1000, false)
		withZ(c, reflect.ValueOf(v), text)
		for _, x := range []string{text, text + "Z"} {
			if g, err := chain.NewTimePointSecFromString(x); err != nil || g != v {
				c.Fail("%q parses to %d, %v", x, uint32(g), err)
			}
		}
		c.Sample("%d <-> %s", s, text)
	}
	bts := func(c *C, b uint32) {
		loc := zone(c)
		c.Desc("block timestamp %d, zone %v, time in %v", b, time.Local, loc)
		c.Distinct("bts", b)
		v := chain.BlockTimestamp(b)
		ms := epoch2000 + int64(b)*500
		instant(c, "Time()", v.Time(), floorDiv(ms, 1000), (ms%1000)*1000000)
		// anything nearer to this half second than to its neighbours
		off := c.R.Int64N(500000000-2) - 250000000 + 1
		switch c.R.N(4) {
		case 0:
			off = 0
		case 1:
			off = Pick(c.R, []int64{249999999, -249999999, 249000000, -249000000, 249500000, -249500000, 1, -1, 200000000, -200000000})
		}
		if b == 0 && off < 0 || b == math.MaxUint32 && off > 0 {
			off = 0
		}
		t := time.UnixMilli(ms).Add(time.Duration(off)).In(loc)
		if g := chain.NewBlockTimestamp(t); g != v {
			c.Fail("NewBlockTimestamp of %v (%d ns off) gives %d", t.UTC(), off, uint32(g))
		}
		text := refISO(ms, true)
		withZ(c, reflect.ValueOf(v), text)
		oms := off / 1000000
		for _, x := range []string{text, text + "Z", refISO(ms+oms, true), refISO(ms+oms, true) + "Z"} {
			if g, err := chain.NewBlockTimestampFromString(x); err != nil || g != v {
				c.Fail("%q parses to %d, %v", x, uint32(g), err)
			}
		}
		c.Sample("%d <-> %s", b, text)
	}
	// checkTime compares a parser with the strict reading of the text
	oneDigitHour := regexp.MustCompile(`T\d:`)
	fraction := regexp.MustCompile(`\.\d*$`)
	checkTime := func(c *C, k int, s string) {
		zone(c)
		c.Desc("%d text %q, zone %v", k, s, time.Local)
		c.Distinct("x", k, s)
		t := []reflect.Type{tTP, tTPS, tBTS}[k]
		bare := strings.TrimSuffix(s, "Z")
		ms, ok := refISOParse(bare, k != 1)
		if !ok {
			// readings the Go time parser is lenient about are not judged
			if strings.Contains(s, ",") || strings.Contains(s, ".+") || strings.Contains(s, ".-") || oneDigitHour.MatchString(s) || k == 1 && fraction.MatchString(bare) {
				return
			}
		}
		var v int64
		switch k {
		case 0:
			v = ms * 1000
		case 1:
			v = ms / 1000
			if ms < 0 || v > math.MaxUint32 {
				ok = false
			}
		case 2:
			r := ms - epoch2000
			if r < 0 && r >= -250 || r > 500*math.MaxUint32 && r <= 500*math.MaxUint32+250 {
				return // rounds to the edge of the range
			}
			if (r%500+500)%500 == 250 {
				return // half way between
			}
			v = floorDiv(r+250, 500)
			if r < 0 || v > math.MaxUint32 {
				ok = false
			}
		}
		var got int64
		var err error
		switch k {
		case 0:
			var x chain.TimePoint
			x, err = chain.NewTimePointFromString(s)
			got = int64(x)
		case 1:
			var x chain.TimePointSec
			x, err = chain.NewTimePointSecFromString(s)
			got = int64(x)
		case 2:
			var x chain.BlockTimestamp
			x, err = chain.NewBlockTimestampFromString(s)
			got = int64(x)
		}
		if !ok {
			if err == nil {
				c.Fail("accepted as %d", got)
			}
			rejectText(c, t, s)
			return
		}
		if err != nil || got != v {
			c.Fail("parses to %d, %v, want %d", got, err, v)
		}
		x := reflect.New(t).Elem()
		if k == 0 {
			x.SetInt(v)
		} else {
			x.SetUint(uint64(v))
		}
		parseText(c, x, s)
	}
	randMs := func(r *R) int64 {
		switch r.N(6) {
		case 0:
			return yearMin + r.Int64N(yearMax-yearMin)
		case 1: // around the ends of the 32-bit ranges
			return Pick(r, []int64{0, math.MaxUint32 * 1000, epoch2000, epoch2000 + math.MaxUint32*500, math.MaxInt32 * 1000, epoch2000 + math.MaxInt32*500}) + r.Int64N(4001) - 2000
		case 2: // ends of months and years
			y := 1969 + r.Int64N(140)
			d := yearStart(y)
			for m := r.N(12); m > 0; m-- {
				d += monthDays(y, m)
			}
			return d*86400000 + r.Int64N(2001) - 1000
		case 3: // daylight saving changes somewhere
			return (yearStart(1970+r.Int64N(130))+59+r.Int64N(300))*86400000 + r.Int64N(86400)*1000
		}
		return r.Int64N(4102444800000)
	}
	Register(&Prop{ID: "C18", MinEvents: 10000,
		Rule:        "a case is one time value or time text under one process time zone, compared with independent calendar arithmetic; non-trivial if the value or text is new",
		Assumptions: []string{"texts of instants in the years 1 to 9999", "times exactly half way between two block timestamps may round either way", "leniencies of the Go time parser (one-digit hour, comma, signed fraction, fraction after whole seconds) are not judged", "time zones come from the Go tzdata package"},
		Cats: []Category{
			{"time points", 8000, 400000, func(c *C) {
				us := randMs(c.R)*1000 + int64(c.R.N(1000))
				if c.R.Chance(1, 4) {
					us = int64(NewG(c.R).U(64))
				}
				tp(c, us)
			}},
			{"seconds", 8000, 400000, func(c *C) {
				s := uint32(NewG(c.R).U(32))
				if ms := randMs(c.R); ms >= 0 && ms/1000 <= math.MaxUint32 && c.R.Chance(1, 2) {
					s = uint32(ms / 1000)
				}
				tps(c, s)
			}},
			{"block timestamps", 8000, 400000, func(c *C) {
				b := uint32(NewG(c.R).U(32))
				if ms := randMs(c.R) - epoch2000; ms >= 0 && ms/500 <= math.MaxUint32 && c.R.Chance(1, 2) {
					b = uint32(ms / 500)
				}
				bts(c, b)
			}},
			{"days", 4000, 140 * 366, func(c *C) {
				// every day from 1970 on
				d := int64(c.Idx)
				if c.Idx < 4000 && c.R.Chance(1, 2) {
					d = c.R.Int64N(49000)
				}
				ms := d*86400000 + Pick(c.R, []int64{0, 1000, 86399000, 43200000})
				tps(c, uint32(ms/1000))
				tp(c, ms*1000)
				if ms >= epoch2000 && ms < epoch2000+500*math.MaxUint32 {
					bts(c, uint32((ms-epoch2000)/500))
				}
			}},
			{"any time texts", 15000, 600000, func(c *C) {
				k := c.Idx % 3
				s := refISO(randMs(c.R), k != 1)
				if c.R.Chance(1, 2) {
					s += "Z"
				}
				checkTime(c, k, s)
			}},
			{"mangled", 30000, 1000000, func(c *C) {
				k := c.Idx % 3
				s := refISO(randMs(c.R), k != 1)
				if c.R.Chance(1, 3) {
					s += "Z"
				}
				if c.R.Chance(1, 8) {
					s += Pick(c.R, []string{"Z", "z", "+00:00", "+01:00", "-0500", " UTC", "ZZ", " ", "000"})
				}
				checkTime(c, k, mangle(c.R, s, "0123456789-:T.Z ztT+"))
			}},
			{"fields out of range", 10000, 300000, func(c *C) {
				k := c.Idx % 3
				n := func(max int) int {
					if c.R.Chance(1, 6) {
						return c.R.N(100)
					}
					return c.R.N(max)
				}
				s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", 1960+c.R.N(160), 1+n(12), 1+n(31), n(24), n(60), n(60))
				if k != 1 {
					s += fmt.Sprintf(".%03d", c.R.N(1000))
				}
				if c.R.Chance(1, 4) {
					s += "Z"
				}
				checkTime(c, k, s)
			}},
		}})
}

// C19

func init() {
	names := []string{"Bytes", "Blob", "Checksum160", "Checksum256", "Checksum512", "Float128"}
	width := map[string]int{"Checksum160": 20, "Checksum256": 32, "Checksum512": 64, "Float128": 16}
	mk := func(n string, b []byte) reflect.Value {
		v := reflect.New(LeafByName[n].RT).Elem()
		switch {
		case n == "Float128":
			reflect.Copy(v.Field(0), reflect.ValueOf(b))
		case width[n] > 0:
			reflect.Copy(v, reflect.ValueOf(b))
		default:
			v.SetBytes(append([]byte{}, b...))
		}
		return v
	}
	content := func(c *C, n string) []byte {
		g := NewG(c.R)
		if w := width[n]; w > 0 {
			return g.Fixed(w)
		}
		g.NoBig = c.R.Chance(9, 10)
		b := c.R.Bytes(g.Len())
		if len(b) > 0 && c.R.Chance(1, 4) {
			return g.Fixed(len(b))
		}
		return b
	}
	hexDigits := "0123456789abcdefABCDEF"
	checkText := func(c *C, n, s string) {
		c.Desc("%s text %q", n, tail(s, 300))
		c.Distinct(n, s)
		t := LeafByName[n].RT
		if n == "Blob" {
			// the alphabet, then padding up to a multiple of four at most
			body := strings.TrimRight(s, "=")
			pad := len(s) - len(body)
			need := (4 - len(body)%4) % 4
			if strings.ContainsAny(s, "\r\n") {
				return // ignored by the standard decoder
			}
			bad := len(body)%4 == 1 || pad > need
			for i := 0; i < len(body); i++ {
				if !strings.Contains("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", body[i:i+1]) {
					bad = true
				}
			}
			if bad {
				rejectText(c, t, s)
				return
			}
			b, err := base64.StdEncoding.DecodeString(body + strings.Repeat("=", need))
			if err != nil {
				panic(err)
			}
			if base64.RawStdEncoding.EncodeToString(b) != body {
				return // surplus bits
			}
			parseText(c, mk(n, b), s)
			return
		}
		bad := len(s)%2 == 1 || width[n] > 0 && len(s) != 2*width[n]
		for i := 0; i < len(s); i++ {
			if !strings.Contains(hexDigits, s[i:i+1]) {
				bad = true
			}
		}
		if bad {
			rejectText(c, t, s)
			return
		}
		if strings.ToLower(s) != s {
			return // upper case is not judged
		}
		b := make([]byte, len(s)/2)
		for i := range b {
			x, _ := strconv.ParseUint(s[2*i:2*i+2], 16, 8)
			b[i] = byte(x)
		}
		parseText(c, mk(n, b), s)
	}
	Register(&Prop{ID: "C19", MinEvents: 10000,
		Rule:        "a case is one byte string or one (mostly malformed) text of one of the six types, compared with an independent reading; non-trivial if type and text are new",
		Assumptions: []string{"upper-case hex, line breaks inside base64 and surplus bits in the last base64 character are not judged"},
		Cats: []Category{
			{"values", 20000, 800000, func(c *C) {
				n := names[c.Idx%len(names)]
				b := content(c, n)
				v := mk(n, b)
				text, _ := refText(v)
				c.Desc("%s %s", n, Hex(b))
				c.DistinctBytes(n, b)
				textForms(c, v, text)
				switch x := v.Interface().(type) {
				case chain.Bytes:
					if x.Hex() != text {
						c.Fail("Hex gives %q", x.Hex())
					}
				case chain.Blob:
					if x.Base64() != text {
						c.Fail("Base64 gives %q", x.Base64())
					}
					body := strings.TrimRight(text, "=")
					for p := 0; p <= len(text)-len(body); p++ {
						parseText(c, v, body+strings.Repeat("=", p))
					}
				}
				c.Event("values converted", 1)
				c.Sample("%s %s", n, tail(text, 80))
			}},
			{"lengths", 600, 6 * 1200, func(c *C) {
				n := names[c.Idx%len(names)]
				b := c.R.Bytes(c.Idx / len(names))
				if width[n] == 0 {
					text, _ := refText(mk(n, b))
					textForms(c, mk(n, b), text)
					checkText(c, n, text[:c.R.N(len(text)+1)])
					return
				}
				// a fixed-size type given every other length
				checkText(c, n, refHex(b))
				checkText(c, n, refHex(b)+"0")
			}},
			{"mangled", 40000, 1500000, func(c *C) {
				n := names[c.Idx%len(names)]
				text, _ := refText(mk(n, content(c, n)))
				alpha := "0123456789abcdefgG xXz:-"
				if n == "Blob" {
					alpha = "ABCyz019+/=-_ .,"
				}
				checkText(c, n, mangle(c.R, text, alpha))
				if n == "Blob" {
					body := strings.TrimRight(text, "=")
					checkText(c, n, body+strings.Repeat("=", c.R.N(6)))
					checkText(c, n, body[:c.R.N(len(body)+1)]+strings.Repeat("=", c.R.N(4)))
					if len(body) > 4 {
						k := c.R.N(len(body))
						checkText(c, n, body[:k]+"="+body[k:])
					}
				} else {
					checkText(c, n, text[:c.R.N(len(text)+1)])
					checkText(c, n, text+refHex(c.R.Bytes(1+c.R.N(4))))
					checkText(c, n, "0x"+text)
				}
			}},
			{"one bad character", 20000, 600000, func(c *C) {
				// any byte at any place
				n := names[c.Idx%len(names)]
				text, _ := refText(mk(n, content(c, n)))
				if len(text) == 0 {
					text = Pick(c.R, []string{"00", "0000"})
				}
				b := []byte(text)
				b[c.R.N(len(b))] = byte(c.Idx / len(names) % 256)
				checkText(c, n, string(b))
			}},
		}})
}
