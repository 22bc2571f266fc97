package h

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/bits"
	"reflect"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"
)

// Reference text forms, written from the EOSIO formats and independent of the code under test.

const nameChars = ".12345abcdefghijklmnopqrstuvwxyz"

func refNameText(v uint64) string {
	s := ""
	for i := 0; i < 12; i++ {
		s += string(nameChars[v>>(59-5*uint(i))&31])
	}
	s += string(nameChars[v&15])
	return strings.TrimRight(s, ".")
}

func refNameValue(s string) uint64 {
	var v uint64
	for i := 0; i < len(s) && i < 13; i++ {
		k := uint64(strings.IndexByte(nameChars, s[i]))
		if i < 12 {
			v += k << (59 - 5*uint(i))
		} else {
			v += k
		}
	}
	return v
}

func refSymName(v uint64) string {
	s := ""
	for v >>= 8; v > 0; v >>= 8 {
		s += string(rune(v & 0xff))
	}
	return s
}

func refSymText(v uint64) string { return fmt.Sprintf("%d,%s", v&0xff, refSymName(v)) }

func refSymValue(prec int, name string) uint64 {
	v := uint64(prec)
	for i := 0; i < len(name); i++ {
		v += uint64(name[i]) << (8 * uint(i+1))
	}
	return v
}

func refAmount(v int64, prec int) string {
	x := big.NewInt(v)
	neg := x.Sign() < 0
	x.Abs(x)
	ten := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil)
	q, r := new(big.Int).QuoRem(x, ten, new(big.Int))
	s := q.String()
	if prec > 0 {
		f := r.String()
		s += "." + strings.Repeat("0", prec-len(f)) + f
	}
	if neg {
		s = "-" + s
	}
	return s
}

func refAssetText(a chain.Asset) string {
	return refAmount(a.Value, int(uint64(a.Symbol)&0xff)) + " " + refSymName(uint64(a.Symbol))
}

// RIPEMD-160, from the paper's definition

var rmdR = [2][80]uint{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
		7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
		3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
		1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
		4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13},
	{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
		6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
		15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
		8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
		12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11},
}
var rmdS = [2][80]int{
	{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
		7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
		11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
		11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
		9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6},
	{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
		9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
		9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
		15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
		8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11},
}
var rmdK = [2][5]uint32{
	{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e},
	{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0},
}

type rmd struct {
	h    [5]uint32
	part []byte
	n    uint64
}

func newRmd() *rmd {
	return &rmd{h: [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}}
}

func (m *rmd) block(b []byte) {
	var x [16]uint32
	for i := range x {
		x[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	var res [2][5]uint32
	for l := 0; l < 2; l++ {
		a, b, c, d, e := m.h[0], m.h[1], m.h[2], m.h[3], m.h[4]
		for j := 0; j < 80; j++ {
			k := j / 16
			if l == 1 {
				k = 4 - k
			}
			var f uint32
			switch k {
			case 0:
				f = b ^ c ^ d
			case 1:
				f = b&c | ^b&d
			case 2:
				f = (b | ^c) ^ d
			case 3:
				f = b&d | c&^d
			case 4:
				f = b ^ (c | ^d)
			}
			t := bits.RotateLeft32(a+f+x[rmdR[l][j]]+rmdK[l][j/16], rmdS[l][j]) + e
			a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
		}
		res[l] = [5]uint32{a, b, c, d, e}
	}
	p, q := res[0], res[1]
	m.h = [5]uint32{m.h[1] + p[2] + q[3], m.h[2] + p[3] + q[4], m.h[3] + p[4] + q[0], m.h[4] + p[0] + q[1], m.h[0] + p[1] + q[2]}
}

func (m *rmd) Write(b []byte) {
	m.n += uint64(len(b))
	if len(m.part) > 0 {
		k := 64 - len(m.part)
		if k > len(b) {
			k = len(b)
		}
		m.part = append(m.part, b[:k]...)
		b = b[k:]
		if len(m.part) == 64 {
			m.block(m.part)
			m.part = m.part[:0]
		}
	}
	for len(b) >= 64 {
		m.block(b[:64])
		b = b[64:]
	}
	m.part = append(m.part, b...)
}

func (m0 *rmd) Sum() []byte {
	m := &rmd{h: m0.h, part: append([]byte{}, m0.part...), n: m0.n}
	n := m.n * 8
	pad := []byte{0x80}
	for (m.n+uint64(len(pad)))%64 != 56 {
		pad = append(pad, 0)
	}
	m.Write(append(pad, le(n, 8)...))
	var out []byte
	for _, v := range m.h {
		out = append(out, le(uint64(v), 4)...)
	}
	return out
}

func refRipemd(parts ...[]byte) []byte {
	m := newRmd()
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum()
}

func init() {
	// published test vectors
	for msg, want := range map[string]string{"": "9c1185a5c5e9fc54612808977ee8f548b2258d31", "abc": "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc",
		"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq": "12a053384a9c0c88e405a06c27dcf49ada62eb2b"} {
		if hex.EncodeToString(refRipemd([]byte(msg))) != want {
			panic("reference RIPEMD-160 is wrong")
		}
	}
	if refB58Encode([]byte{0, 0, 0x28, 0x7f, 0xb4, 0xcd}) != "11233QC4" {
		panic("reference base58 is wrong")
	}
}

// base58, digit by digit

const b58Chars = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func refB58Encode(b []byte) string {
	var digits []int // least significant first
	for _, x := range b {
		carry := int(x)
		for i := range digits {
			carry += digits[i] << 8
			digits[i] = carry % 58
			carry /= 58
		}
		for carry > 0 {
			digits = append(digits, carry%58)
			carry /= 58
		}
	}
	var sb strings.Builder
	for i := 0; i < len(b) && b[i] == 0; i++ {
		sb.WriteByte('1')
	}
	for i := len(digits) - 1; i >= 0; i-- {
		sb.WriteByte(b58Chars[digits[i]])
	}
	return sb.String()
}

func refB58Decode(s string) ([]byte, bool) {
	var out []int // least significant first
	for i := 0; i < len(s); i++ {
		carry := strings.IndexByte(b58Chars, s[i])
		if carry < 0 {
			return nil, false
		}
		for j := range out {
			carry += out[j] * 58
			out[j] = carry & 0xff
			carry >>= 8
		}
		for carry > 0 {
			out = append(out, carry&0xff)
			carry >>= 8
		}
	}
	var b []byte
	for i := 0; i < len(s) && s[i] == '1'; i++ {
		b = append(b, 0)
	}
	for i := len(out) - 1; i >= 0; i-- {
		b = append(b, byte(out[i]))
	}
	return b, true
}

func sum4Btc(b []byte) []byte {
	x := sha256.Sum256(b)
	x = sha256.Sum256(x[:])
	return x[:4]
}

func sum4Rmd(b []byte, suffix string) []byte { return refRipemd(b, []byte(suffix))[:4] }

var keyTags = []string{"K1", "R1", "WA"}

func refChecked(b []byte, suffix string) string { return refB58Encode(cat(b, sum4Rmd(b, suffix))) }

func refKeyText(prefix string, t chain.KeyType, d []byte) string {
	return prefix + "_" + keyTags[t] + "_" + refChecked(d, keyTags[t])
}

// key data of the length its type says, with shortest-form lengths
func refKeyDataOK(sig bool, t int, d []byte) bool {
	blob := func(d []byte) ([]byte, bool) {
		n, k := binary.Uvarint(d)
		if k <= 0 || n > uint64(len(d)-k) || len(RefVaruint(n)) != k {
			return nil, false
		}
		return d[k+int(n):], true
	}
	if t < 2 {
		if sig {
			return len(d) == 65
		}
		return len(d) == 33
	}
	n := 34
	if sig {
		n = 65
	}
	if len(d) < n {
		return false
	}
	d, ok := blob(d[n:])
	if ok && sig {
		d, ok = blob(d)
	}
	return ok && len(d) == 0
}

// refKeyParse is the value a PUB_/SIG_ or legacy key text stands for.
func refKeyParse(sig bool, s string) (t int, d []byte, ok bool) {
	tag, suffix := "PUB_", ""
	if sig {
		tag = "SIG_"
	}
	if strings.HasPrefix(s, tag) {
		t = -1
		for i, k := range keyTags {
			if strings.HasPrefix(s[4:], k+"_") {
				t, suffix = i, k
			}
		}
		if t < 0 {
			return 0, nil, false
		}
		s = s[7:]
	} else if sig || len(s) < 50 {
		return 0, nil, false
	} else {
		s = s[len(s)-50:]
	}
	b, ok := refB58Decode(s)
	if !ok || len(b) < 4 {
		return 0, nil, false
	}
	d = b[:len(b)-4]
	if string(sum4Rmd(d, suffix)) != string(b[len(b)-4:]) || !refKeyDataOK(sig, t, d) {
		return 0, nil, false
	}
	return t, d, true
}

// dates, proleptic Gregorian calendar

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func isLeap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthDays(y int64, m int) int64 {
	if m == 2 && isLeap(y) {
		return 29
	}
	return []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
}

// days from 1970-01-01 to January 1st of the year
func yearStart(y int64) int64 {
	p := y - 1
	return 365*(y-1970) + (floorDiv(p, 4) - floorDiv(p, 100) + floorDiv(p, 400)) - (492 - 19 + 4)
}

func civil(days int64) (y int64, m int, d int64) {
	y = 1970 + floorDiv(days*400, 146097)
	for yearStart(y) > days {
		y--
	}
	for yearStart(y+1) <= days {
		y++
	}
	days -= yearStart(y)
	for m = 1; days >= monthDays(y, m); m++ {
		days -= monthDays(y, m)
	}
	return y, m, days + 1
}

// refISO prints milliseconds since 1970.
func refISO(ms int64, frac bool) string {
	days := floorDiv(ms, 86400000)
	r := ms - days*86400000
	y, m, d := civil(days)
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, r/3600000, r/60000%60, r/1000%60)
	if frac {
		s += fmt.Sprintf(".%03d", r%1000)
	}
	return s
}

// refISOParse reads exactly the form refISO prints, in milliseconds.
func refISOParse(s string, frac bool) (int64, bool) {
	pat := "dddd-dd-ddTdd:dd:dd"
	if frac {
		pat += ".ddd"
	}
	if len(s) != len(pat) {
		return 0, false
	}
	for i := range pat {
		if pat[i] == 'd' && (s[i] < '0' || s[i] > '9') || pat[i] != 'd' && s[i] != pat[i] {
			return 0, false
		}
	}
	n := func(a, b int) int64 {
		var v int64
		for ; a < b; a++ {
			v = v*10 + int64(s[a]-'0')
		}
		return v
	}
	y, mo, d, h, mi, se := n(0, 4), n(5, 7), n(8, 10), n(11, 13), n(14, 16), n(17, 19)
	if mo < 1 || mo > 12 || d < 1 || d > monthDays(y, int(mo)) || h > 23 || mi > 59 || se > 59 {
		return 0, false
	}
	days := yearStart(y) + d - 1
	for m := 1; m < int(mo); m++ {
		days += monthDays(y, m)
	}
	ms := (days*86400 + h*3600 + mi*60 + se) * 1000
	if frac {
		ms += n(20, 23)
	}
	return ms, true
}

const epoch2000 = 946684800000

func refHex(b []byte) string {
	s := ""
	var sb strings.Builder
	for _, x := range b {
		sb.WriteByte("0123456789abcdef"[x>>4])
		sb.WriteByte("0123456789abcdef"[x&15])
	}
	s = sb.String()
	return s
}

func u128Big(lo, hi uint64, signed bool) *big.Int {
	x := new(big.Int).SetUint64(hi)
	x.Lsh(x, 64)
	x.Or(x, new(big.Int).SetUint64(lo))
	if signed && hi>>63 == 1 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	return x
}

// refText is the text form of a chain type value.
func refText(v reflect.Value) (string, bool) {
	switch x := v.Interface().(type) {
	case chain.Name:
		return refNameText(uint64(x)), true
	case chain.Symbol:
		return refSymText(uint64(x)), true
	case chain.SymbolCode:
		return refSymName(uint64(x) << 8), true
	case chain.Asset:
		return refAssetText(x), true
	case chain.PublicKey:
		return refKeyText("PUB", x.Type, x.Data), true
	case chain.Signature:
		return refKeyText("SIG", x.Type, x.Data), true
	case chain.Checksum160:
		return refHex(x[:]), true
	case chain.Checksum256:
		return refHex(x[:]), true
	case chain.Checksum512:
		return refHex(x[:]), true
	case chain.Float128:
		return refHex(x.Data[:]), true
	case chain.Bytes:
		return refHex(x), true
	case chain.Blob:
		return base64.StdEncoding.EncodeToString(x), true
	case chain.Uint128:
		return u128Big(x.Lo, x.Hi, false).String(), true
	case chain.Int128:
		return u128Big(x.Lo, x.Hi, true).String(), true
	case chain.TimePoint:
		return refISO(floorDiv(int64(x), 1000), true), true
	case chain.TimePointSec:
		return refISO(int64(x)*1000, false), true
	case chain.BlockTimestamp:
		return refISO(epoch2000+int64(x)*500, true), true
	}
	return "", false
}
