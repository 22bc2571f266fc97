package h

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

// User code that runs inside an operation of the library: hooks, the methods of types, readers and writers.
// It may use the library itself, and it may end in a panic.

type ucode struct {
	n    int
	at   int    // the call that ends in boom
	boom func() // panics or ends the goroutine
	side func() // runs at every call
	in   bool
}

func (u *ucode) call() {
	if u.in { // operations that user code started
		return
	}
	u.n++
	if u.side != nil {
		u.in = true
		u.side()
		u.in = false
	}
	if u.at > 0 && u.n == u.at {
		u.boom()
	}
}

type uWriter struct {
	b     bytes.Buffer
	u     *ucode
	after bool
}

func (w *uWriter) Write(p []byte) (int, error) {
	if !w.after {
		w.u.call()
	}
	n, err := w.b.Write(p)
	if w.after {
		w.u.call()
	}
	return n, err
}

type uReader struct {
	b     *bytes.Reader
	u     *ucode
	after bool
}

func (r *uReader) Read(p []byte) (int, error) {
	if !r.after {
		r.u.call()
	}
	n, err := r.b.Read(p)
	if r.after {
		r.u.call()
	}
	return n, err
}

// uOp is an operation with user code in it. The codecs it makes can be used many times.
type uOp struct {
	name   string
	want   []byte
	encode func(w io.Writer, u *ucode) func() error
	decode func(r io.Reader, u *ucode) func() (interface{}, error)
	diff   func(v interface{}) string
}

func withUser(m *mfail, u *ucode, f func()) {
	old := *m
	*m = mfail{user: u}
	defer func() { *m = old }()
	f()
}

func userGo(v reflect.Value, want []byte, custom bool) *uOp {
	o := &uOp{name: v.Type().String(), want: want, diff: func(x interface{}) string { return diff(reflect.ValueOf(x), v, "") }}
	mkE, mkD := hookEnc[0], hookDec[0]
	if custom {
		mkE, mkD = hookEnc[1], hookDec[1]
	}
	o.encode = func(w io.Writer, u *ucode) func() error {
		enc := mkE.mk(w, func(*abi.Encoder, interface{}) (bool, error) { u.call(); return false, nil })
		return func() (err error) {
			withUser(&marFail, u, func() { err = enc.Encode(v.Interface()) })
			return
		}
	}
	o.decode = func(r io.Reader, u *ucode) func() (interface{}, error) {
		dec := mkD.mk(r, func(*abi.Decoder, interface{}) (bool, error) { u.call(); return false, nil })
		return func() (x interface{}, err error) {
			p := reflect.New(v.Type())
			withUser(&unmarFail, u, func() { err = dec.Decode(p.Interface()) })
			return p.Elem().Interface(), err
		}
	}
	return o
}

// userOp generates one of the given kind: 0 to 2 Go types with hooks, 3 and 4 ABI types, 5 types with methods.
func userOp(c *C, kind int) *uOp {
	custom := c.R.Chance(1, 2)
	if kind == 5 {
		g := NewG(c.R)
		g.NoBig, g.Budget = true, 200
		v := g.Value(marType(c))
		n := 0
		return userGo(v, Ref(v, marRef(&n)), custom)
	}
	s := subject(c, kind, c.R.N(1000), 200)
	if s.T != nil {
		return userGo(reflect.ValueOf(s.V), s.Enc, custom)
	}
	return &uOp{name: s.String(), want: s.Enc, diff: s.Diff,
		encode: func(w io.Writer, u *ucode) func() error { return func() error { return s.Encode(w) } },
		decode: func(r io.Reader, u *ucode) func() (interface{}, error) {
			return func() (interface{}, error) { return s.Decode(r) }
		}}
}

// plain runs the operation without user code.
func (o *uOp) plain() string {
	u := &ucode{}
	var b bytes.Buffer
	if err := o.encode(&b, u)(); err != nil || !bytes.Equal(b.Bytes(), o.want) {
		return sprintf("%s encodes to %s, %v want %s", o.name, Hex(b.Bytes()), err, Hex(o.want))
	}
	r := bytes.NewReader(o.want)
	x, err := o.decode(r, u)()
	if err != nil || r.Len() != 0 {
		return sprintf("%s: decoding %s: %v, %d bytes left", o.name, Hex(o.want), err, r.Len())
	}
	if d := o.diff(x); d != "" {
		return sprintf("%s: decoded value differs: %s", o.name, d)
	}
	return ""
}

// Operations of all kinds with the results they have when nothing else is going on.
type userEnv struct {
	group  int
	ops    []raceOp
	want   []string
	verify func() string
}

var curUserEnv = map[string]*userEnv{}

func getUserEnv(c *C) *userEnv {
	gr := c.Idx / 200
	if e := curUserEnv[c.Cat]; e != nil && e.group == gr {
		return e
	}
	c2 := *c
	c2.R = NewR(c.Seed, "/user env/", c.Cat, gr)
	e := &userEnv{group: gr}
	e.ops, e.verify = raceEnv(&c2)
	for _, o := range e.ops {
		e.want = append(e.want, o.run())
	}
	curUserEnv[c.Cat] = e
	return e
}

func (e *userEnv) one(r *R) string {
	i := r.N(len(e.ops))
	if got := e.ops[i].run(); got != e.want[i] {
		return sprintf("%s: %s instead of %s", e.ops[i].name, tail(got, 300), tail(e.want[i], 300))
	}
	return ""
}

type userPanic struct{ n int }

var errUserPanic = errors.New("error thrown by user code")

// boom is a way to end user code with a panic, and the test whether a recovered value is that panic.
func boom(r *R) (name string, f func(), same func(v interface{}) bool) {
	val := func(name string, x interface{}) (string, func(), func(v interface{}) bool) {
		return name, func() { panic(x) }, func(v interface{}) bool { return v == x }
	}
	switch r.N(16) {
	case 0:
		return val("a pointer", &userPanic{3})
	case 1:
		return val("a text", "stop")
	case 2:
		return val("an error", errUserPanic)
	case 3:
		return val("io.EOF", io.EOF)
	case 4:
		return val("io.ErrUnexpectedEOF", io.ErrUnexpectedEOF)
	case 5:
		return val("a number", 17)
	case 6:
		return val("a wrapped error", fmt.Errorf("user code: %w", os.ErrClosed))
	case 7:
		idx := 5 + r.N(10)
		return "a runtime error", func() { _ = make([]int, 3)[idx] }, func(v interface{}) bool {
			e, ok := v.(runtime.Error)
			return ok && e.Error() == sprintf("runtime error: index out of range [%d] with length 3", idx)
		}
	}
	switch r.N(8) {
	case 0:
		x := &reflect.ValueError{Method: "reflect.Value.Elem", Kind: reflect.Int}
		return val("a reflect.ValueError", x)
	case 1:
		return val("a text like one of reflect's", "reflect: call of reflect.Value.IsNil on int Value")
	case 2:
		return val("a text like one of the library's", "abi: value is nested too deeply")
	case 3:
		return val("a struct", userPanic{9})
	case 4:
		return "a nil pointer", func() { var p *userPanic; p.n++ }, func(v interface{}) bool {
			e, ok := v.(runtime.Error)
			return ok && strings.Contains(e.Error(), "nil pointer dereference")
		}
	case 5:
		return "a nil map", func() { var m map[int]int; m[r.N(3)] = 1 }, func(v interface{}) bool {
			e, ok := v.(error)
			return ok && strings.Contains(e.Error(), "nil map")
		}
	case 6:
		return "a division", func() { z := 0; _ = 5 / z }, func(v interface{}) bool {
			e, ok := v.(runtime.Error)
			return ok && strings.Contains(e.Error(), "divide by zero")
		}
	}
	return "a type assertion", func() { var x interface{} = "s"; _ = x.(int) }, func(v interface{}) bool {
		_, ok := v.(*runtime.TypeAssertionError)
		return ok
	}
}

// ended runs f to its end, whichever it is.
func ended(f func() error) (v interface{}, err error, returned bool) {
	defer func() {
		if !returned {
			v = recover()
		}
	}()
	err = f()
	returned = true
	return
}

func init() {
	kinds := []int{0, 1, 1, 2, 2, 3, 3, 4, 5, 5}

	// user code that uses the library
	back := func(c *C) {
		o := userOp(c, kinds[c.Idx%len(kinds)])
		c.Desc("%s", o.name)
		env := getUserEnv(c)
		c.DistinctBytes(o.name, o.want)
		c.Sample("%s with operations inside", o.name)
		var bad string
		left, ran := 0, 0
		side := func() {
			if bad != "" || left == 0 || !c.R.Chance(1, 2) {
				return
			}
			left--
			ran++
			if c.R.Chance(1, 3) {
				bad = o.plain() // the same operation
				return
			}
			bad = env.one(c.R)
		}
		for pass := 0; pass < 2; pass++ {
			left = 12
			u := &ucode{side: side}
			w := &uWriter{u: u, after: c.R.Chance(1, 2)}
			enc := o.encode(w, u)
			for i := 0; i < 2; i++ {
				w.b.Reset()
				err := enc()
				if bad != "" {
					c.Fail("an operation inside the encoding of %s: %s", o.name, bad)
				}
				if err != nil || !bytes.Equal(w.b.Bytes(), o.want) {
					c.Fail("encoding with operations inside: %s, %v want %s", Hex(w.b.Bytes()), err, Hex(o.want))
				}
			}
			c.Event("calls of user code", u.n)
			u = &ucode{side: side}
			left = 12
			r := &uReader{u: u, after: c.R.Chance(1, 2)}
			dec := o.decode(r, u)
			for i := 0; i < 2; i++ {
				r.b = bytes.NewReader(o.want)
				x, err := dec()
				if bad != "" {
					c.Fail("an operation inside the decoding of %s: %s", o.name, bad)
				}
				if err != nil || r.b.Len() != 0 {
					c.Fail("decoding %s with operations inside: %v, %d bytes left", Hex(o.want), err, r.b.Len())
				}
				if d := o.diff(x); d != "" {
					c.Fail("decoding %s with operations inside: %s", Hex(o.want), d)
				}
			}
			c.Event("calls of user code", u.n)
		}
		c.Event("operations inside others", ran)
		if d := env.verify(); d != "" {
			c.Fail("a shared value changed: %s", d)
		}
	}

	// user code that ends in a panic
	throw := func(c *C) {
		o := userOp(c, kinds[c.Idx%len(kinds)])
		c.Desc("%s", o.name)
		env := getUserEnv(c)
		c.DistinctBytes(o.name, o.want)
		gone := c.R.Chance(1, 6) // the goroutine ends instead
		run := func(f func() error, where string, same func(interface{}) bool) {
			if gone {
				done := make(chan bool)
				ret := false
				go func() {
					defer close(done)
					f()
					ret = true
				}()
				<-done
				c.Event("goroutines ended by user code", 1)
				if ret {
					c.Fail("%s: user code ended the goroutine but the call returned", where)
				}
				return
			}
			v, err, returned := ended(f)
			c.Event("panics of user code", 1)
			if returned {
				c.Fail("%s: user code panicked but the call returned %v", where, err)
			}
			if !same(v) {
				c.Fail("%s: the caller gets the panic %v (%T)", where, v, v)
			}
		}
		way := func() (string, func(), func(interface{}) bool) {
			if gone {
				return "end of the goroutine", runtime.Goexit, nil
			}
			return boom(c.R)
		}
		// encoding
		u := &ucode{}
		w := &uWriter{u: u, after: c.R.Chance(1, 2)}
		enc := o.encode(w, u)
		if err := enc(); err != nil || !bytes.Equal(w.b.Bytes(), o.want) {
			c.Fail("encodes to %s, %v want %s", Hex(w.b.Bytes()), err, Hex(o.want))
		}
		for i, total := 0, u.n; i < 5 && total > 0; i++ {
			name, f, same := way()
			u.n, u.at, u.boom = 0, 1+c.R.N(total), f
			w.b.Reset()
			where := sprintf("encoding, %s at call %d of %d", name, u.at, total)
			run(enc, where, same)
			if !bytes.HasPrefix(o.want, w.b.Bytes()) {
				c.Fail("%s: wrote %s, which is no beginning of %s", where, Hex(w.b.Bytes()), Hex(o.want))
			}
			u.at = 0
			n := w.b.Len()
			if err := enc(); err != nil || !bytes.Equal(w.b.Bytes()[n:], o.want) {
				c.Fail("%s: afterwards the encoder writes %s, %v want %s", where, Hex(w.b.Bytes()[n:]), err, Hex(o.want))
			}
		}
		// decoding
		u = &ucode{}
		r := &uReader{u: u, after: c.R.Chance(1, 2), b: bytes.NewReader(o.want)}
		dec := o.decode(r, u)
		decode := func(what string) {
			r.b = bytes.NewReader(o.want)
			x, err := dec()
			if err != nil || r.b.Len() != 0 {
				c.Fail("%sdecoding %s: %v, %d bytes left", what, Hex(o.want), err, r.b.Len())
			}
			if d := o.diff(x); d != "" {
				c.Fail("%sdecoding %s: %s", what, Hex(o.want), d)
			}
		}
		decode("")
		for i, total := 0, u.n; i < 5 && total > 0; i++ {
			name, f, same := way()
			u.n, u.at, u.boom = 0, 1+c.R.N(total), f
			where := sprintf("decoding, %s at call %d of %d", name, u.at, total)
			r.b = bytes.NewReader(o.want)
			run(func() error { _, err := dec(); return err }, where, same)
			u.at = 0
			decode("after " + where + ": ")
		}
		if d := o.plain(); d != "" {
			c.Fail("afterwards: %s", d)
		}
		for i := 0; i < 3; i++ {
			if d := env.one(c.R); d != "" {
				c.Fail("afterwards: %s", d)
			}
		}
		if d := env.verify(); d != "" {
			c.Fail("a shared value changed: %s", d)
		}
	}

	// many times with the same codec, deep inside
	many := func(c *C) {
		depth := 8 + c.R.N(17)
		reps := 30000/depth + 1
		if c.Idx%9 < 3 { // more than 16 bits can count
			depth, reps = 1+c.R.N(3), 140000
		}
		var o *uOp
		switch c.Idx % 3 {
		case 0:
			t := reflect.TypeOf(uint16(0))
			for i := 0; i < depth; i++ {
				switch c.R.N(4) {
				case 0:
					t = reflect.ArrayOf(1, t)
				case 1:
					t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: t}})
				case 2:
					t = reflect.PointerTo(t)
				default:
					t = reflect.SliceOf(t)
				}
			}
			v := deepValue(NewG(c.R), t)
			o = userGo(v, Ref(v, nil), c.R.Chance(1, 2))
		case 1:
			leafs := MTree{V: 1, Kids: []MTree{}, Next: &MStruct{}}
			v := leafs
			for i := 0; i < depth; i++ {
				v = MTree{V: MNum(i), Kids: []MTree{v}, Next: &MStruct{A: 7, B: "x"}}
			}
			n := 0
			o = userGo(reflect.ValueOf(v), Ref(reflect.ValueOf(v), marRef(&n)), c.R.Chance(1, 2))
		case 2:
			a := chain.Abi{Structs: []chain.AbiStruct{{Name: "node", Fields: []chain.AbiField{{Name: "v", Type: "uint8"}, {Name: "kids", Type: "node[]"}}}}}
			v := interface{}(map[string]interface{}{"v": uint8(1), "kids": []interface{}{}})
			want := []byte{1, 0}
			for i := 0; i < depth; i++ {
				v = map[string]interface{}{"v": uint8(i), "kids": []interface{}{v}}
				want = append([]byte{byte(i), 1}, want...)
			}
			o = &uOp{name: "nested ABI structs", want: want, diff: func(x interface{}) string { return DynDiff(x, v, "") },
				encode: func(w io.Writer, u *ucode) func() error { return func() error { return a.Encode(w, "node", v) } },
				decode: func(r io.Reader, u *ucode) func() (interface{}, error) {
					return func() (interface{}, error) { return a.Decode(r, "node") }
				}}
		}
		c.Desc("%s", o.name)
		c.DistinctBytes(o.name, o.want)
		u := &ucode{}
		w := &uWriter{u: u}
		enc := o.encode(w, u)
		r := &uReader{u: u, b: bytes.NewReader(o.want)}
		dec := o.decode(r, u)
		check := func(what string) {
			w.b.Reset()
			if err := enc(); err != nil || !bytes.Equal(w.b.Bytes(), o.want) {
				c.Fail("%s: encodes to %s, %v want %s", what, Hex(w.b.Bytes()), err, Hex(o.want))
			}
			r.b = bytes.NewReader(o.want)
			x, err := dec()
			if err != nil || r.b.Len() != 0 {
				c.Fail("%s: decoding %s: %v, %d bytes left", what, Hex(o.want), err, r.b.Len())
			}
			if d := o.diff(x); d != "" {
				c.Fail("%s: decoding %s: %s", what, Hex(o.want), d)
			}
		}
		check("at first")
		te, td := 0, 0
		u.n = 0
		w.b.Reset()
		enc()
		te = u.n
		u.n = 0
		r.b = bytes.NewReader(o.want)
		dec()
		td = u.n
		boomV := &userPanic{1}
		u.boom = func() { panic(boomV) }
		late := func(n int) int { return n - c.R.N(max(1, n/3)) } // deep inside
		for i := 0; i < reps; i++ {
			u.n, u.at = 0, late(te)
			w.b.Reset()
			if v, err, ret := ended(enc); ret || v != interface{}(boomV) {
				c.Fail("encoding, panic %d: %v, %v", i, v, err)
			}
			u.n, u.at = 0, late(td)
			r.b = bytes.NewReader(o.want)
			if v, err, ret := ended(func() error { _, err := dec(); return err }); ret || v != interface{}(boomV) {
				c.Fail("decoding, panic %d: %v, %v", i, v, err)
			}
		}
		u.at = 0
		c.Event("panics of user code", 2*reps)
		check(sprintf("after %d panics", reps))
	}

	Register(&Prop{ID: "C30", MinEvents: 10000,
		Rule: "a case is one generated value of a generated type, encoded and decoded with user code inside (hooks, methods of the types, reader, writer) that runs other operations or the same one, panics, or ends its goroutine; results inside, outside and afterwards with the same codec are compared with the reference; non-trivial if the bytes are new for that type",
		Cats: []Category{
			{"calling back", 6000, 200000, back},
			{"panicking", 6000, 200000, throw},
			{"again and again", 60, 1200, many},
		}})
}
