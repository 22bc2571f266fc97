package h

import (
	"bytes"
	"errors"
	"io"
	"reflect"
	"sort"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

// Custom encoders and decoders.

var hookEnc = []struct {
	name string
	mk   func(w io.Writer, fn abi.EncodeFunc) *abi.Encoder
}{
	{"chain.NewCustomEncoder", chain.NewCustomEncoder},
	{"abi.NewEncoder", abi.NewEncoder},
}
var hookDec = []struct {
	name string
	mk   func(r io.Reader, fn abi.DecodeFunc) *abi.Decoder
}{
	{"chain.NewCustomDecoder", chain.NewCustomDecoder},
	{"abi.NewDecoder", abi.NewDecoder},
}

func isChainLeaf(t reflect.Type) bool { return t.PkgPath() != "" && leafByType[t] != nil }

// occurrences walks a value the way the format does and counts the types a codec meets. Chain types are
// atoms: what happens inside of them is their own business.
func occurrences(v reflect.Value, tag string, n map[reflect.Type]int) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if tag == "variant" {
		for i := 0; i < v.NumField(); i++ {
			if !v.Field(i).IsNil() {
				occurrences(v.Field(i), "", n)
			}
		}
		return
	}
	n[v.Type()]++
	if leafByType[v.Type()] != nil {
		return
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			occurrences(v.Index(i), "", n)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			occurrences(k, "", n)
			occurrences(v.MapIndex(k), "", n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			tg := v.Type().Field(i).Tag.Get("eosio")
			if tg == "optional" && v.Field(i).IsZero() {
				continue
			}
			occurrences(v.Field(i), tg, n)
		}
	}
}

// mentions says whether values of type in can contain a t below the top.
func mentions(in, t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[in] {
		return false
	}
	seen[in] = true
	var kids []reflect.Type
	switch in.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		kids = []reflect.Type{in.Elem()}
	case reflect.Map:
		kids = []reflect.Type{in.Key(), in.Elem()}
	case reflect.Struct:
		for i := 0; i < in.NumField(); i++ {
			kids = append(kids, in.Field(i).Type)
		}
	}
	for _, k := range kids {
		if k == t || mentions(k, t, seen) {
			return true
		}
	}
	return false
}

// variantTypes are the wrapper structs of variant fields, which are no values of their own.
func variantTypes(t reflect.Type, out, seen map[reflect.Type]bool) {
	if seen[t] || leafByType[t] != nil {
		return
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		variantTypes(t.Elem(), out, seen)
	case reflect.Map:
		variantTypes(t.Key(), out, seen)
		variantTypes(t.Elem(), out, seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			ft := t.Field(i).Type
			if t.Field(i).Tag.Get("eosio") == "variant" {
				w := ft
				for w.Kind() == reflect.Ptr {
					w = w.Elem()
				}
				out[w] = true
			}
			variantTypes(ft, out, seen)
		}
	}
}

// claimable lists the types occurring in v that a hook must be offered wherever they occur.
func claimable(v reflect.Value) []reflect.Type {
	n := map[reflect.Type]int{}
	occurrences(v, "", n)
	vt := map[reflect.Type]bool{}
	variantTypes(v.Type(), vt, map[reflect.Type]bool{})
	var rv []reflect.Type
next:
	for t := range n {
		if vt[t] {
			continue
		}
		for l := range n {
			if !isChainLeaf(l) || l == t {
				continue
			}
			// chain types may encode what they consist of in any way
			if t.PkgPath() == "" && leafByType[t] != nil || mentions(l, t, map[reflect.Type]bool{}) || l == reflect.TypeOf(chain.Abi{}) {
				continue next
			}
		}
		rv = append(rv, t)
	}
	sort.Slice(rv, func(i, j int) bool { return rv[i].String() < rv[j].String() })
	return rv
}

// noChain replaces nothing but says whether a type has no chain types in it.
func noChain(t reflect.Type, seen map[reflect.Type]bool) bool {
	if isChainLeaf(t) {
		return false
	}
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return noChain(t.Elem(), seen)
	case reflect.Map:
		return noChain(t.Key(), seen) && noChain(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !noChain(t.Field(i).Type, seen) {
				return false
			}
		}
	}
	return true
}

func hookType(c *C) reflect.Type {
	if c.R.Chance(1, 5) {
		return Pick(c.R, UserTypes)
	}
	plain := c.R.Chance(1, 2)
	for try := 0; ; try++ {
		t := RandTop(c.R, 1+c.R.N(3))
		if !plain || noChain(t, map[reflect.Type]bool{}) {
			return t
		}
		if try > 200 {
			return reflect.TypeOf(struct {
				A []uint16
				B map[string]int
				C *UserArr
			}{})
		}
	}
}

// asType returns the value offered as a T: a T, or a non-nil pointer to one.
func asType(v interface{}, t reflect.Type) (reflect.Value, bool) {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() {
		return rv, false
	}
	if rv.Type() == t {
		return rv, true
	}
	if rv.Kind() == reflect.Ptr && rv.Type().Elem() == t && !rv.IsNil() {
		return rv.Elem(), true
	}
	return reflect.Value{}, false
}

var errHook = errors.New("error of the hook")

type hookError struct{ n int }

func (h *hookError) Error() string { return sprintf("hook error %d", h.n) }

func init() {
	hookMark := []byte{0xa5, 0x5a}
	gen := func(c *C) reflect.Value {
		g := NewG(c.R)
		g.NoBig = true
		g.Budget = 600
		v := g.Value(hookType(c))
		c.Desc("%s", v.Type())
		return v
	}

	// the hook claims values of one type (or those of a random half of them)
	claim := func(c *C, mode string) {
		var v reflect.Value
		var ts []reflect.Type
		for try := 0; len(ts) == 0; try++ {
			if try == 50 {
				return
			}
			v = gen(c)
			ts = claimable(v)
		}
		T := Pick(c.R, ts)
		half := c.R.Chance(1, 3)
		salt := c.R.Uint64()
		mine := func(x reflect.Value) bool {
			return !half || (fnvb(Ref(x, nil))^salt)>>7&1 == 0
		}
		var tabRef, tabEnc []reflect.Value
		id := func(n int) []byte { return append(append([]byte{}, hookMark...), le(uint64(n), 4)...) }
		ov := Overrides{}
		ov[T] = func(x reflect.Value) []byte {
			if !mine(x) {
				return refInner(x, ov)
			}
			tabRef = append(tabRef, x)
			switch mode {
			case "nothing":
				return nil
			case "delegate":
				return append(append([]byte{}, hookMark...), refInner(x, ov)...)
			case "another codec":
				return append(append([]byte{}, hookMark...), Ref(x, nil)...)
			}
			return id(len(tabRef) - 1)
		}
		want := Ref(v, ov)
		if len(tabRef) == 0 {
			c.Event("values without the claimed type", 1)
		}
		c.DistinctBytes(mode+T.String(), want)
		c.Sample("%s claimed in %s: %d values, %s", T, v.Type(), len(tabRef), Hex(want))
		for _, e := range hookEnc {
			for _, byPtr := range []bool{false, true} {
				tabEnc = nil
				var skip bool
				var b bytes.Buffer
				offers := 0
				enc := e.mk(&b, func(enc *abi.Encoder, x interface{}) (bool, error) {
					offers++
					rv, ok := asType(x, T)
					if !ok {
						return false, nil
					}
					if skip {
						skip = false
						return false, nil
					}
					if !mine(rv) {
						return false, nil
					}
					tabEnc = append(tabEnc, rv)
					switch mode {
					case "nothing":
						return true, nil
					case "delegate":
						if err := enc.WriteBytes(hookMark); err != nil {
							return true, err
						}
						skip = true
						return true, enc.Encode(rv.Interface())
					case "another codec":
						var nb bytes.Buffer
						if err := chain.NewEncoder(&nb).Encode(rv.Interface()); err != nil {
							return true, err
						}
						return true, enc.WriteBytes(append(append([]byte{}, hookMark...), nb.Bytes()...))
					}
					return true, enc.WriteBytes(id(len(tabEnc) - 1))
				})
				arg := v.Interface()
				if byPtr {
					arg = ptrTo(v)
				}
				err := enc.Encode(arg)
				c.Event("offers to encode hooks", offers)
				c.Event("values claimed by encode hooks", len(tabEnc))
				if err != nil {
					c.Fail("%s, hook for %s (%s): encoding %s failed: %v", e.name, T, mode, short(v.Interface()), err)
				}
				if len(tabEnc) != len(tabRef) {
					c.Fail("%s, hook for %s (%s): took %d values, there are %d in %s", e.name, T, mode, len(tabEnc), len(tabRef), short(v.Interface()))
				}
				for i := range tabEnc {
					if d := diff(tabEnc[i], tabRef[i], ""); d != "" {
						c.Fail("%s, hook for %s (%s): value %d offered is not the one in the data: %s", e.name, T, mode, i, d)
					}
				}
				if !bytes.Equal(b.Bytes(), want) {
					c.Fail("%s, hook for %s (%s): %s encodes to %s, want %s", e.name, T, mode, short(v.Interface()), Hex(b.Bytes()), Hex(want))
				}
			}
		}
		if half { // what to decode with the hook cannot be seen from the data
			return
		}
		for _, d := range hookDec {
			var skip bool
			n, offers := 0, 0
			r := bytes.NewReader(want)
			dec := d.mk(r, func(dec *abi.Decoder, x interface{}) (bool, error) {
				offers++
				rv := reflect.ValueOf(x)
				if rv.Kind() != reflect.Ptr || rv.Type().Elem() != T {
					return false, nil
				}
				if skip {
					skip = false
					return false, nil
				}
				n++
				if mode == "nothing" {
					if n <= len(tabRef) {
						rv.Elem().Set(tabRef[n-1])
					}
					return true, nil
				}
				_, m, err := dec.ReadBytes(2)
				if err != nil {
					return true, err
				}
				if !bytes.Equal(m, hookMark) {
					return true, errors.New("marker missing")
				}
				if mode == "delegate" {
					skip = true
					return true, dec.Decode(x)
				}
				if mode == "another codec" {
					return true, chain.NewDecoder(r).Decode(x)
				}
				i, err := dec.ReadUint32()
				if err == nil && int(i) >= len(tabRef) {
					err = errors.New("unknown id")
				}
				if err == nil {
					rv.Elem().Set(tabRef[i])
				}
				return true, err
			})
			p := reflect.New(v.Type())
			err := dec.Decode(p.Interface())
			c.Event("offers to decode hooks", offers)
			c.Event("values claimed by decode hooks", n)
			if err != nil {
				c.Fail("%s, hook for %s (%s): decoding %s as %s failed: %v", d.name, T, mode, Hex(want), v.Type(), err)
			}
			if r.Len() != 0 {
				c.Fail("%s, hook for %s (%s): %d bytes not consumed of %s", d.name, T, mode, r.Len(), Hex(want))
			}
			if n != len(tabRef) {
				c.Fail("%s, hook for %s (%s): took %d values, there are %d in %s", d.name, T, mode, n, len(tabRef), short(v.Interface()))
			}
			if df := diff(p.Elem(), v, ""); df != "" {
				c.Fail("%s, hook for %s (%s): decoded value differs: %s", d.name, T, mode, df)
			}
		}
	}

	Register(&Prop{ID: "C25", MinEvents: 10000,
		Rule: "a case is one generated value of a generated type with one recording hook: it declines everything, claims all or a content-selected half of the values of one type occurring in the value (writing its own bytes, nothing, a prefix before delegating back, or what another encoder on the side made of it), or returns an error at a chosen call; bytes and values are compared with the reference that has the same override; non-trivial if the bytes are new for that type",
		Cats: []Category{
			{"declining", 3000, 60000, func(c *C) {
				v := gen(c)
				want := Ref(v, nil)
				c.DistinctBytes("declining", want)
				need := map[reflect.Type]int{}
				for _, t := range claimable(v) {
					need[t] = 0
				}
				all := map[reflect.Type]int{}
				occurrences(v, "", all)
				for t := range need {
					need[t] = all[t]
				}
				check := func(name string, seen map[reflect.Type]int) {
					n := 0
					for t, k := range need {
						n += k
						if seen[t] < k {
							c.Fail("%s: the hook was offered %d values of %s, there are %d in %s", name, seen[t], t, k, short(v.Interface()))
						}
					}
					c.Event("values that had to be offered", n)
				}
				for _, e := range hookEnc {
					for _, byPtr := range []bool{false, true} {
						seen := map[reflect.Type]int{}
						var b bytes.Buffer
						enc := e.mk(&b, func(_ *abi.Encoder, x interface{}) (bool, error) {
							t := reflect.TypeOf(x)
							seen[t]++
							// a pointer to a chain type is as good as the value
							if t != nil && t.Kind() == reflect.Ptr && isChainLeaf(t.Elem()) {
								seen[t.Elem()]++
							}
							return false, nil
						})
						arg := v.Interface()
						if byPtr {
							arg = ptrTo(v)
						}
						if err := enc.Encode(arg); err != nil || !bytes.Equal(b.Bytes(), want) {
							c.Fail("%s with a declining hook: %s encodes to %s, %v want %s", e.name, short(v.Interface()), Hex(b.Bytes()), err, Hex(want))
						}
						check(e.name, seen)
					}
				}
				for _, d := range hookDec {
					seen := map[reflect.Type]int{}
					r := bytes.NewReader(want)
					dec := d.mk(r, func(_ *abi.Decoder, x interface{}) (bool, error) {
						if t := reflect.TypeOf(x); t != nil && t.Kind() == reflect.Ptr {
							seen[t.Elem()]++
						}
						return false, nil
					})
					p := reflect.New(v.Type())
					if err := dec.Decode(p.Interface()); err != nil {
						c.Fail("%s with a declining hook: decoding %s as %s failed: %v", d.name, Hex(want), v.Type(), err)
					}
					if df := diff(p.Elem(), v, ""); df != "" || r.Len() != 0 {
						c.Fail("%s with a declining hook: decoded value differs: %s (%d bytes left)", d.name, df, r.Len())
					}
					check(d.name, seen)
				}
			}},
			{"bytes", 6000, 120000, func(c *C) { claim(c, "bytes") }},
			{"nothing", 1500, 30000, func(c *C) { claim(c, "nothing") }},
			{"delegate", 3000, 60000, func(c *C) { claim(c, "delegate") }},
			{"another codec", 2000, 40000, func(c *C) { claim(c, "another codec") }},
			// an error at every call in turn
			{"errors", 1200, 20000, func(c *C) {
				v := gen(c)
				want := Ref(v, nil)
				c.DistinctBytes("errors", want)
				var boom error = errHook
				if c.R.Chance(1, 2) {
					boom = &hookError{c.Idx}
				} else if c.R.Chance(1, 2) {
					boom = Pick(c.R, faultErrs)
				} else if c.R.Chance(1, 3) && !hasExtension(v.Type(), map[reflect.Type]bool{}) {
					boom = io.EOF // where an extension begins this would mean that it is absent
				}
				run := func(name string, call func(hook func() (bool, error)) error) {
					total := 0
					if err := call(func() (bool, error) { total++; return false, nil }); err != nil {
						c.Fail("%s with a declining hook failed: %v", name, err)
					}
					ks := []int{}
					if total <= 25 {
						for k := 1; k <= total; k++ {
							ks = append(ks, k)
						}
					} else {
						ks = append(ks, 1, 2, total, total-1)
						for i := 0; i < 16; i++ {
							ks = append(ks, 1+c.R.N(total))
						}
					}
					for _, k := range ks {
						for _, done := range []bool{false, true} {
							n := 0
							err := call(func() (bool, error) {
								n++
								if n == k {
									return done, boom
								}
								return false, nil
							})
							c.Event("hook errors", 1)
							if !errors.Is(err, boom) {
								c.Fail("%s: hook failed at call %d of %d (done %v) but the result is %v", name, k, total, done, err)
							}
							if n != k {
								c.Fail("%s: hook failed at call %d of %d (done %v) but was called again", name, k, total, done)
							}
						}
					}
				}
				for _, e := range hookEnc {
					run(e.name, func(hook func() (bool, error)) error {
						return e.mk(io.Discard, func(*abi.Encoder, interface{}) (bool, error) { return hook() }).Encode(v.Interface())
					})
				}
				for _, d := range hookDec {
					run(d.name, func(hook func() (bool, error)) error {
						return d.mk(bytes.NewReader(want), func(*abi.Decoder, interface{}) (bool, error) { return hook() }).Decode(reflect.New(v.Type()).Interface())
					})
				}
			}},
		}})
}

// hasExtension tells whether the type has extension fields anywhere.
func hasExtension(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Map:
		return hasExtension(t.Key(), seen) || hasExtension(t.Elem(), seen)
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasExtension(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Tag.Get("eosio") == "extension" || hasExtension(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}
