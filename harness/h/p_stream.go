package h

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"os"
	"reflect"
	"strings"
	"syscall"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

// Subject is something that can be encoded and decoded: a Go type or a type of an ABI.
type Subject struct {
	Name string
	T    reflect.Type // nil for ABI types
	Ab   chain.Abi
	Act  bool // use the action functions
	AT   AT
	V    interface{} // value as encoded
	Want interface{} // value as decoded (for Go types the same, addressable copy not needed)
	Enc  []byte
	Cuts map[int]bool
	Ext  bool // has extensions, so decoding looks for more data at the end
}

func (s *Subject) Encode(w io.Writer) error {
	if s.T != nil {
		return chain.NewEncoder(w).Encode(s.V)
	}
	if s.Act {
		return s.Ab.EncodeAction(w, 7, s.V)
	}
	return s.Ab.Encode(w, s.Name, s.V)
}

func (s *Subject) Decode(r io.Reader) (interface{}, error) {
	if s.T != nil {
		p := reflect.New(s.T)
		err := chain.NewDecoder(r).Decode(p.Interface())
		return p.Elem().Interface(), err
	}
	if s.Act {
		return s.Ab.DecodeAction(r, 7)
	}
	return s.Ab.Decode(r, s.Name)
}

func (s *Subject) Diff(v interface{}) string {
	if s.T != nil {
		return Diff(v, s.Want)
	}
	return DynDiff(v, s.Want, "")
}

func (s *Subject) String() string {
	if s.T != nil {
		return s.T.String()
	}
	return sprintf("%q of %s", s.Name, tail(abiDoc(s.Ab), 1200))
}

func hasType(t, x reflect.Type, depth int) bool {
	if t == x {
		return true
	}
	if depth > 10 || leafByType[t] != nil {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasType(t.Elem(), x, depth+1)
	case reflect.Map:
		return hasType(t.Key(), x, depth+1) || hasType(t.Elem(), x, depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasType(t.Field(i).Type, x, depth+1) {
				return true
			}
		}
	}
	return false
}

func goSubject(c *C, t reflect.Type, budget int) *Subject {
	g := NewG(c.R)
	if budget > 0 {
		g.NoBig, g.Budget = true, budget
	}
	v := g.Value(t)
	s := &Subject{Name: t.String(), T: t, V: v.Interface(), Want: v.Interface(), Enc: Ref(v, nil), Cuts: ExtensionCuts(v)}
	s.Ext = len(s.Cuts) > 0
	return s
}

// subject generates one of the given kind: 0 leaf, 1 user type, 2 random type, 3 type of a random ABI, 4 ABI action.
func subject(c *C, kind, idx, budget int) *Subject {
	abiT := LeafByName["Abi"].RT
	switch kind {
	case 0:
		return goSubject(c, Leaves[idx%len(Leaves)].RT, budget)
	case 1:
		return goSubject(c, UserTypes[idx%len(UserTypes)], budget)
	case 2:
		for {
			var t reflect.Type
			if c.R.Chance(2, 3) {
				t = RandTop(c.R, 1+idx%3)
			} else {
				t = RandType(c.R, 1+idx%3)
			}
			if !hasType(t, abiT, 0) { // its extension would be at the end only sometimes
				return goSubject(c, t, budget)
			}
		}
	}
	a := NewSmallAGen(c.R)
	a.g.NoBig = budget > 0
	var k ACase
	if kind == 4 {
		k = a.CaseOf(AT{Def: Pick(c.R, a.Defs)})
		a.Abi.Actions = []chain.AbiAction{{Name: 6, Type: "uint8"}, {Name: 7, Type: k.Type.String()}}
	} else {
		k = a.Case()
	}
	return &Subject{Name: k.Type.String(), Ab: a.Abi, Act: kind == 4, AT: k.Type, V: k.In, Want: k.Out, Enc: k.Enc, Cuts: k.Cuts, Ext: k.Ext}
}

// offsets returns all of 0..n-1, or a sample with both ends if there are many.
func offsets(r *R, n, max int) []int {
	var rv []int
	if n <= max {
		for i := 0; i < n; i++ {
			rv = append(rv, i)
		}
		return rv
	}
	for i := 0; i < max/4; i++ {
		rv = append(rv, i, n-1-i)
	}
	for len(rv) < max {
		rv = append(rv, r.N(n))
	}
	return rv
}

// withoutExtensions is the value expected when the data ends at the given cut.
func withoutExtensions(s *Subject, cut int) interface{} {
	if s.T == nil {
		m := map[string]interface{}{}
		for k, v := range s.Want.(map[string]interface{}) {
			m[k] = v
		}
		st := s.AT.structOf()
		// offsets are those of the extensions in order
		var cuts []int
		for i := 0; i <= len(s.Enc); i++ {
			if s.Cuts[i] {
				cuts = append(cuts, i)
			}
		}
		n := 0
		for _, f := range st.allFields() {
			if f.T.Ext {
				if n >= len(cuts) || cuts[n] >= cut {
					m[f.Name] = nil
				}
				n++
			}
		}
		return m
	}
	if s.T.Kind() == reflect.Ptr {
		e := *s
		e.T, e.Want = s.T.Elem(), reflect.ValueOf(s.Want).Elem().Interface()
		p := reflect.New(e.T)
		p.Elem().Set(reflect.ValueOf(withoutExtensions(&e, cut)))
		return p.Interface()
	}
	v := reflect.New(s.T).Elem()
	v.Set(reflect.ValueOf(s.Want))
	if a, ok := v.Interface().(chain.Abi); ok {
		a.Variants = nil
		return a
	}
	n := 0
	for i := 0; i < v.NumField(); i++ {
		w := len(refField(reflect.ValueOf(s.Want), i, nil))
		if v.Type().Field(i).Tag.Get("eosio") == "extension" && n >= cut {
			v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
		}
		n += w
	}
	return v.Interface()
}

// countCase makes one count of an encoding claim more than there is data for.
func countCase(c *C) {
	kind, budget := c.Idx%5, 600
	seed := []interface{}{c.Seed, "/counts/", c.Idx}
	gen := func(hook func(n int) []byte) *Subject {
		c2 := *c
		c2.R = NewR(seed...)
		countHook = hook
		defer func() { countHook = nil }()
		return subject(&c2, kind, c.Idx/5, budget)
	}
	total := 0
	s := gen(func(n int) []byte { total++; return RefVaruint(uint64(n)) })
	c.DistinctBytes(s.String(), s.Enc)
	if total == 0 {
		c.Event("encodings without counts", 1)
		return
	}
	if _, err := s.Decode(bytes.NewReader(s.Enc)); err != nil {
		c.Fail("the encoding itself is refused: %v", err)
	}
	for try := 0; try < 6; try++ {
		at, i, was := c.R.N(total), 0, 0
		claim := uint64(len(s.Enc)) + 2048 + uint64(c.R.N(100))
		if x := Pick(c.R, []uint64{0, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 1<<32 - 1, 1 << 32, 1 << 33, 1 << 40, 1 << 62, 1 << 63}); x > claim {
			claim = x
		}
		low := c.R.Chance(1, 2) // the low bits are those of the true count
		w := gen(func(n int) []byte {
			if i++; i-1 != at {
				return RefVaruint(uint64(n))
			}
			was = n
			if low && claim >= 1<<31 && claim&0xffff == 0 {
				claim += uint64(n)
			}
			return RefVaruint(claim)
		})
		if bytes.Equal(w.Enc, s.Enc) {
			continue // one that is not in the data
		}
		c.Desc("count %d (of %d) claims %d instead of %d in %s, %s", at, total, claim, was, Hex(w.Enc), s)
		c.Event("counts beyond the data", 1)
		if v, err := s.Decode(bytes.NewReader(w.Enc)); err == nil {
			c.Fail("data that claims more than is there was accepted as %s", short(v))
		}
	}
}

func truncCase(c *C, s *Subject) {
	c.DistinctBytes(s.String(), s.Enc)
	for _, n := range offsets(c.R, len(s.Enc), 300) {
		c.Desc("%d of %d bytes %s of %s", n, len(s.Enc), Hex(s.Enc), s)
		var r io.Reader = bytes.NewReader(s.Enc[:n])
		if n%3 == 1 {
			r = &fragReader{data: s.Enc[:n], r: c.R, mode: c.R.N(fragModes)}
		}
		v, err := s.Decode(r)
		if s.Cuts[n] {
			c.Event("extensions left out", 1)
			if err != nil {
				c.Fail("data that ends where an extension begins was refused: %v", err)
			}
			w := *s
			w.Want = withoutExtensions(s, n)
			if d := w.Diff(v); d != "" {
				c.Fail("data that ends where an extension begins: %s", d)
			}
			continue
		}
		c.Event("prefixes", 1)
		if err == nil {
			c.Fail("truncated data was accepted as %s", short(v))
		}
		if n%4 == 0 { // as the data of an action
			a := chain.Action{Name: 7, Data: s.Enc[:n]}
			if s.Act {
				if v, err := a.Decode(&s.Ab); err == nil {
					c.Fail("truncated action data was accepted as %s", short(v))
				}
			} else if s.T != nil {
				if err := a.DecodeInto(reflect.New(s.T).Interface()); err == nil {
					c.Fail("truncated action data was accepted by DecodeInto")
				}
			}
		}
	}
}

// fragReader delivers data in pieces.
type fragReader struct {
	data  []byte
	pos   int
	r     *R
	mode  int
	reads int
	past  int // reads after everything was delivered
	empty bool
	idle  int // empty reads to come
}

const fragModes = 7

func (f *fragReader) Read(p []byte) (int, error) {
	f.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos == len(f.data) {
		f.past++
		return 0, io.EOF
	}
	n := 1
	switch f.mode {
	case 0: // single bytes
	case 1: // random pieces
		n = 1 + f.r.N(len(p))
	case 2: // empty reads in between
		if f.empty = !f.empty; f.empty {
			return 0, nil
		}
		n = 1 + f.r.N(3)
	case 6: // idle for a while, now and then
		if f.idle > 0 {
			f.idle--
			return 0, nil
		}
		if f.r.Chance(1, 6) {
			f.idle = 1 + f.r.N(60)
		}
		n = 1 + f.r.N(len(p))
	case 3: // as much as is asked for
		n = len(p)
	case 4: // random, the last with EOF
		n = 1 + f.r.N(len(p))
	case 5: // all, the last with EOF
		n = len(p)
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], f.data[f.pos:])
	f.pos += n
	if (f.mode == 4 || f.mode == 5) && f.pos == len(f.data) {
		return n, io.EOF
	}
	return n, nil
}

// byteReader can also be read byte by byte, as files and buffers can.
type byteReader struct{ io.Reader }

func (r byteReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// fullWriter has the optional methods of writers.
type fullWriter struct{ *faultWriter }

func (w fullWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w fullWriter) WriteByte(b byte) error            { _, err := w.Write([]byte{b}); return err }
func (w fullWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}

// readers of the standard library
var stdReaders = []struct {
	name string
	mk   func(c *C, b []byte) io.Reader
}{
	{"bytes.Buffer", func(c *C, b []byte) io.Reader { return bytes.NewBuffer(append([]byte{}, b...)) }},
	{"bytes.Reader", func(c *C, b []byte) io.Reader { return bytes.NewReader(b) }},
	{"strings.Reader", func(c *C, b []byte) io.Reader { return strings.NewReader(string(b)) }},
	{"bufio.Reader", func(c *C, b []byte) io.Reader { return bufio.NewReaderSize(bytes.NewReader(b), 16+c.R.N(20)) }},
	{"bufio.Reader in pieces", func(c *C, b []byte) io.Reader {
		return bufio.NewReaderSize(&fragReader{data: b, r: c.R, mode: c.R.N(fragModes)}, 16)
	}},
	{"io.LimitedReader", func(c *C, b []byte) io.Reader {
		return io.LimitReader(bytes.NewReader(append(append([]byte{}, b...), 1, 2, 3)), int64(len(b)))
	}},
	{"io.SectionReader", func(c *C, b []byte) io.Reader {
		return io.NewSectionReader(bytes.NewReader(append(append([]byte{9, 9}, b...), 1, 2, 3)), 2, int64(len(b)))
	}},
	{"io.MultiReader", func(c *C, b []byte) io.Reader {
		k := c.R.N(len(b) + 1)
		return io.MultiReader(bytes.NewReader(b[:k]), strings.NewReader(string(b[k:])))
	}},
	{"with ReadByte", func(c *C, b []byte) io.Reader {
		return byteReader{&fragReader{data: b, r: c.R, mode: c.R.N(fragModes)}}
	}},
}

func fragCase(c *C, s *Subject) {
	c.DistinctBytes(s.String(), s.Enc)
	for _, sr := range stdReaders {
		trail := c.R.Bytes(c.R.N(9))
		if s.Ext {
			trail = nil
		}
		c.Desc("%s, %s as %s", sr.name, Hex(s.Enc), s)
		r := sr.mk(c, cat(s.Enc, trail))
		v, err := s.Decode(r)
		c.Event("decodes from standard readers", 1)
		if err != nil {
			c.Fail("failed: %v", err)
		}
		if d := s.Diff(v); d != "" {
			c.Fail("value differs: %s", d)
		}
		if rest, err := io.ReadAll(r); err != nil || !bytes.Equal(rest, trail) {
			c.Fail("%s is left in the reader, %v instead of %s", Hex(rest), err, Hex(trail))
		}
		if d := s.Diff(v); d != "" {
			c.Fail("value changed when the rest was read: %s", d)
		}
	}
	for mode := 0; mode < fragModes; mode++ {
		c.Desc("reader mode %d, %s as %s", mode, Hex(s.Enc), s)
		trail := c.R.Bytes(c.R.N(9))
		if s.Ext {
			trail = nil
		}
		f := &fragReader{data: cat(s.Enc, trail), r: c.R, mode: mode}
		v, err := s.Decode(f)
		c.Event("fragmented decodes", 1)
		c.Event("reads observed", f.reads)
		if err != nil {
			c.Fail("failed: %v", err)
		}
		if d := s.Diff(v); d != "" {
			c.Fail("value differs: %s", d)
		}
		if f.pos != len(s.Enc) {
			c.Fail("%d bytes were read for a value of %d", f.pos, len(s.Enc))
		}
		if !s.Ext && f.past > 0 {
			c.Fail("the decoder read again after the value was complete")
		}
	}
	// the same with damaged data, which may or may not decode
	for i := 0; i < 3; i++ {
		data := mutate(c.R, s.Enc)
		want, werr := s.Decode(bytes.NewReader(data))
		for mode := 0; mode < fragModes; mode++ {
			c.Desc("reader mode %d, %s as %s", mode, Hex(data), s)
			v, err := s.Decode(&fragReader{data: data, r: c.R, mode: mode})
			c.Event("fragmented decodes of damaged data", 1)
			if (err == nil) != (werr == nil) {
				c.Fail("result depends on the reader: %v vs %v", err, werr)
			}
			if err == nil {
				w := *s
				w.Want = want
				if d := w.Diff(v); d != "" {
					c.Fail("value depends on the reader: %s", d)
				}
			}
		}
	}
}

var errFault = errors.New("injected fault")
var faultErrs = []error{errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EIO}

// a writer may also fail with these, which mean something else to a reader
var writeErrs = append([]error{io.EOF, io.ErrShortWrite, io.ErrShortBuffer, syscall.EPIPE, syscall.EINTR, os.ErrClosed}, faultErrs...)

// faultWriter fails one (or every) write from a certain call on.
type faultWriter struct {
	failAt    int
	permanent bool
	mode      int
	err       error
	calls     int
	fired     bool
	got       []byte
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if n := w.calls - 1; n == w.failAt || w.permanent && w.fired {
		w.fired = true
		k := 0
		switch w.mode {
		case 1:
			k = len(p) / 2
		case 2:
			k = len(p)
		}
		w.got = append(w.got, p[:k]...)
		return k, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// faultReader fails when a certain offset is reached.
type faultReader struct {
	data      []byte
	pos       int
	failAt    int
	permanent bool
	partial   bool // deliver what is before the offset together with the error
	one       bool
	err       error
	fired     bool
}

func (f *faultReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.fired && f.permanent {
		return 0, f.err
	}
	if f.pos == f.failAt && !f.fired {
		f.fired = true
		return 0, f.err
	}
	if f.pos == len(f.data) {
		return 0, io.EOF
	}
	n := len(p)
	if f.one {
		n = 1
	}
	if !f.fired && f.pos+n > f.failAt {
		n = f.failAt - f.pos
		n = copy(p[:n], f.data[f.pos:])
		f.pos += n
		if f.partial {
			f.fired = true
			return n, f.err
		}
		return n, nil
	}
	n = copy(p[:n], f.data[f.pos:])
	f.pos += n
	return n, nil
}

func writeFaults(c *C, s *Subject) {
	c.DistinctBytes("w"+s.String(), s.Enc)
	dry := &faultWriter{failAt: -1}
	c.Desc("encoding %s", s)
	full := c.R.Chance(1, 3)
	writer := func(w *faultWriter) io.Writer {
		if full {
			return fullWriter{w}
		}
		return w
	}
	if err := s.Encode(writer(dry)); err != nil {
		c.Fail("failed without a fault: %v", err)
	}
	if !bytes.Equal(dry.got, s.Enc) {
		c.Fail("wrote %s instead of %s", Hex(dry.got), Hex(s.Enc))
	}
	for _, k := range offsets(c.R, dry.calls, 60) {
		for _, perm := range []bool{false, true} {
			w := &faultWriter{failAt: k, permanent: perm, mode: c.R.N(3), err: Pick(c.R, writeErrs)}
			c.Desc("write %d of %d fails with %v (permanent %v, mode %d) encoding %s %s", k, dry.calls, w.err, perm, w.mode, s, short(s.V))
			err := s.Encode(writer(w))
			if !w.fired {
				c.Fail("the number of writes depends on the run")
			}
			c.Event("write faults", 1)
			if err == nil {
				c.Fail("a failed write was not reported")
			}
		}
	}
}

func readFaults(c *C, s *Subject) {
	c.DistinctBytes("r"+s.String(), s.Enc)
	n := len(s.Enc)
	if s.Ext {
		n++ // the data may also fail where an extension was expected
	}
	for _, k := range offsets(c.R, n, 120) {
		f := &faultReader{data: s.Enc, failAt: k, permanent: c.R.Chance(1, 3), partial: c.R.Chance(1, 2), one: c.R.Chance(1, 3), err: Pick(c.R, faultErrs)}
		c.Desc("read fails at %d of %d with %v (permanent %v partial %v) decoding %s as %s", k, len(s.Enc), f.err, f.permanent, f.partial, Hex(s.Enc), s)
		var r io.Reader = f
		if c.R.Chance(1, 3) {
			r = byteReader{f}
		}
		v, err := s.Decode(r)
		if !f.fired {
			c.Event("faults not reached", 1)
			if err != nil {
				c.Fail("failed without a fault: %v", err)
			}
			continue
		}
		c.Event("read faults", 1)
		if err == nil {
			c.Fail("a failed read was not reported, value %s", short(v))
		}
	}
}

func init() {
	kinds := []string{"leaves", "user types", "random types", "abi types", "abi actions"}
	perKind := func(quick, thorough []int, f func(c *C, kind int)) []Category {
		var rv []Category
		for k, n := range kinds {
			rv = append(rv, Category{n, quick[k], thorough[k], func(c *C) { f(c, k) }})
		}
		return rv
	}

	Register(&Prop{ID: "C07", Level: "fault_enumeration", MinEvents: 20000,
		Rule: "a case is one valid encoding, of which all strict prefixes (a sample with both ends if over 300) are decoded; all have to be refused except those ending where a trailing extension begins; or one whose counts (bytes, elements, entries) in turn claim more than the data holds; non-trivial if type and encoding are new",
		Cats: append(perKind([]int{2500, 1200, 3000, 2500, 800}, []int{60000, 30000, 60000, 50000, 20000}, func(c *C, kind int) {
			truncCase(c, subject(c, kind, c.Idx, 600))
		}), Category{"long", 80, 1500, func(c *C) {
			s := subject(c, c.R.N(2), c.R.N(100), 0)
			if c.Idx%2 == 0 {
				n := Pick(c.R, append(append([]int{}, ladderM...), ladderL...))
				b := c.R.Bytes(n)
				s = &Subject{T: reflect.TypeOf(b), V: b, Want: b, Enc: lenBytes(b)}
				if c.Idx%4 == 0 {
					s = &Subject{T: reflect.TypeOf(""), V: string(b), Want: string(b), Enc: lenBytes(b)}
				}
			}
			truncCase(c, s)
		}}, Category{"counts", 6000, 120000, countCase}, Category{"readers", 1500, 30000, func(c *C) {
			// the reading methods custom unmarshalers use
			type rd struct {
				n int
				f func(d *abi.Decoder) error
			}
			l := []rd{
				{1, func(d *abi.Decoder) error { _, e := d.ReadBool(); return e }}, {1, func(d *abi.Decoder) error { _, e := d.ReadByte(); return e }},
				{1, func(d *abi.Decoder) error { _, e := d.ReadUint8(); return e }}, {2, func(d *abi.Decoder) error { _, e := d.ReadUint16(); return e }},
				{4, func(d *abi.Decoder) error { _, e := d.ReadUint32(); return e }}, {8, func(d *abi.Decoder) error { _, e := d.ReadUint64(); return e }},
				{1, func(d *abi.Decoder) error { _, e := d.ReadInt8(); return e }}, {2, func(d *abi.Decoder) error { _, e := d.ReadInt16(); return e }},
				{4, func(d *abi.Decoder) error { _, e := d.ReadInt32(); return e }}, {8, func(d *abi.Decoder) error { _, e := d.ReadInt64(); return e }},
				{4, func(d *abi.Decoder) error { _, e := d.ReadFloat32(); return e }}, {8, func(d *abi.Decoder) error { _, e := d.ReadFloat64(); return e }},
			}
			x := l[c.Idx%len(l)]
			b := c.R.Bytes(x.n)
			for n := 0; n <= x.n; n++ {
				err := x.f(chain.NewDecoder(bytes.NewReader(b[:n])))
				c.Event("prefixes", 1)
				if (err == nil) != (n == x.n) {
					c.Fail("reader method %d with %d of %d bytes: %v", c.Idx%len(l), n, x.n, err)
				}
			}
			v := c.R.Uint64() >> uint(32+c.R.N(32))
			vb := RefVaruint(v)
			sb := lenBytes(c.R.Bytes(c.R.N(300)))
			n := c.R.N(200) + 1
			for i := 0; i < len(vb); i++ {
				if _, err := chain.NewDecoder(bytes.NewReader(vb[:i])).ReadVaruint(); err == nil {
					c.Fail("ReadVaruint accepted %x", vb[:i])
				}
				if _, err := chain.NewDecoder(bytes.NewReader(vb[:i])).ReadVarint(); err == nil {
					c.Fail("ReadVarint accepted %x", vb[:i])
				}
			}
			for i := 0; i < len(sb); i++ {
				if _, err := chain.NewDecoder(bytes.NewReader(sb[:i])).ReadString(); err == nil {
					c.Fail("ReadString accepted %d of %d bytes", i, len(sb))
				}
			}
			raw := c.R.Bytes(n)
			for i := 0; i < n; i++ {
				if _, _, err := chain.NewDecoder(bytes.NewReader(raw[:i])).ReadBytes(n); err == nil {
					c.Fail("ReadBytes(%d) accepted %d bytes", n, i)
				}
			}
			if k, got, err := chain.NewDecoder(bytes.NewReader(raw)).ReadBytes(n); err != nil || k != n || !bytes.Equal(got, raw) {
				c.Fail("ReadBytes(%d): %d, %x, %v", n, k, got, err)
			}
			c.Event("prefixes", len(vb)*2+len(sb)+n)
			c.DistinctBytes("raw", raw)
		}})})

	Register(&Prop{ID: "C08", MinEvents: 20000,
		Rule: "a case is one value decoded through six fragmenting readers that count and record reads, intact and damaged, or a sequence of values on one stream; non-trivial if type and encoding are new",
		Cats: append(perKind([]int{5000, 2000, 5000, 4000, 1200}, []int{150000, 50000, 120000, 100000, 30000}, func(c *C, kind int) {
			fragCase(c, subject(c, kind, c.Idx, 600))
		}), Category{"long", 200, 3000, func(c *C) {
			s := subject(c, 0, c.Idx, 0)
			if c.Idx%2 == 0 {
				b := c.R.Bytes(Pick(c.R, append(append([]int{131072, 200000}, ladderM...), ladderL...)))
				s = &Subject{T: reflect.TypeOf(b), V: b, Want: b, Enc: lenBytes(b)}
			}
			fragCase(c, s)
		}}, Category{"sequences", 5000, 120000, func(c *C) {
			var subs []*Subject
			var all []byte
			n := 2 + c.R.N(6)
			allGo := true
			for i := 0; i < n; i++ {
				s := subject(c, c.R.N(5), c.R.N(1000), 300)
				if s.Ext && i < n-1 { // extensions are only last on a stream
					i--
					continue
				}
				allGo = allGo && s.T != nil
				subs = append(subs, s)
				all = append(all, s.Enc...)
			}
			c.DistinctBytes("seq", all)
			var w bytes.Buffer
			one := chain.NewEncoder(&w)
			shared := c.R.Chance(1, 2)
			for i, s := range subs {
				c.Desc("value %d of %d: %s", i, n, s)
				var err error
				if shared && s.T != nil {
					err = one.Encode(s.V)
				} else {
					err = s.Encode(&w)
				}
				if err != nil {
					c.Fail("encoding: %v", err)
				}
			}
			if !bytes.Equal(w.Bytes(), all) {
				c.Fail("%d values on one stream: got %s want %s", n, Hex(w.Bytes()), Hex(all))
			}
			f := &fragReader{data: all, r: c.R, mode: c.R.N(fragModes)}
			dec := chain.NewDecoder(f)
			off := 0
			for i, s := range subs {
				c.Desc("value %d of %d (reader mode %d): %s", i, n, f.mode, s)
				var v interface{}
				var err error
				if shared && s.T != nil {
					p := reflect.New(s.T)
					err = dec.Decode(p.Interface())
					v = p.Elem().Interface()
				} else {
					v, err = s.Decode(f)
				}
				c.Event("values in sequence", 1)
				if err != nil {
					c.Fail("decoding: %v", err)
				}
				off += len(s.Enc)
				if f.pos != off {
					c.Fail("stream is at %d instead of %d", f.pos, off)
				}
				if d := s.Diff(v); d != "" {
					c.Fail("value differs: %s", d)
				}
			}
		}}, Category{"long streams", 16, 200, func(c *C) {
			// tens of thousands of values through one encoder and one decoder, nothing may add up
			var subs []*Subject
			for len(subs) < 4 {
				s := subject(c, 1+c.R.N(2), c.R.N(1000), 60)
				if c.R.Chance(1, 3) {
					s = subject(c, 0, c.R.N(1000), 60)
				}
				if s.T != nil && !s.Ext && len(s.Enc) <= 200 {
					subs = append(subs, s)
				}
			}
			n := 11000 + c.R.N(12000)
			order := make([]uint8, n)
			var all []byte
			for i := range order {
				order[i] = uint8(c.R.N(len(subs)))
				all = append(all, subs[order[i]].Enc...)
			}
			c.DistinctBytes("stream", all)
			var w bytes.Buffer
			e := chain.NewEncoder(&w)
			for i, k := range order {
				c.Desc("encoding value %d: %s", i, subs[k])
				if err := e.Encode(subs[k].V); err != nil {
					c.Fail("failed: %v", err)
				}
			}
			if !bytes.Equal(w.Bytes(), all) {
				c.Fail("%d values on one stream are not the concatenation of their encodings", n)
			}
			r := bytes.NewReader(all)
			d := chain.NewDecoder(r)
			left := len(all)
			for i, k := range order {
				s := subs[k]
				c.Desc("decoding value %d: %s", i, s)
				p := reflect.New(s.T)
				if err := d.Decode(p.Interface()); err != nil {
					c.Fail("failed: %v", err)
				}
				left -= len(s.Enc)
				if r.Len() != left {
					c.Fail("%d bytes left instead of %d", r.Len(), left)
				}
				if i < 50 || i%97 == 0 || i > n-50 {
					if df := s.Diff(p.Elem().Interface()); df != "" {
						c.Fail("value differs: %s", df)
					}
				}
			}
			c.Event("values in sequence", 2*n)
		}}, Category{"after failure", 1500, 30000, func(c *C) {
			// a failed decode on one decoder does not change what another decodes
			s := subject(c, c.R.N(5), c.R.N(1000), 300)
			bad := mutate(c.R, s.Enc)
			s.Decode(bytes.NewReader(bad))
			c.Desc("%s after %s as %s", Hex(s.Enc), Hex(bad), s)
			v, err := s.Decode(bytes.NewReader(s.Enc))
			c.Event("decodes after a failure", 1)
			if err != nil {
				c.Fail("failed: %v", err)
			}
			if d := s.Diff(v); d != "" {
				c.Fail("value differs: %s", d)
			}
			c.DistinctBytes(s.String(), bad)
		}})})

	Register(&Prop{ID: "C09", Level: "fault_enumeration", MinEvents: 20000,
		Rule:        "a case is one value; every write call and every read offset (a sample if there are many) is made to fail in turn, transiently and permanently, with full, partial or no transfer and different errors; non-trivial if type and encoding are new",
		Assumptions: []string{"end-of-file is the end of the data, not a failure; a read that delivers everything asked for together with an error counts as successful, as in io.ReadFull"},
		Cats: append(perKind([]int{4000, 1500, 4000, 3500, 1000}, []int{100000, 30000, 80000, 80000, 20000}, func(c *C, kind int) {
			s := subject(c, kind, c.Idx, 400)
			writeFaults(c, s)
			readFaults(c, s)
		}), Category{"long", 100, 2000, func(c *C) {
			s := subject(c, c.R.N(2), c.R.N(100), 0)
			writeFaults(c, s)
			readFaults(c, s)
		}}, Category{"recovery", 1500, 30000, func(c *C) {
			// a failed call leaves nothing behind on its encoder or decoder
			n := 3 + c.R.N(6)
			if c.Idx%300 == 0 {
				n = 4000 // more than any limit on nesting
			}
			typ := func() reflect.Type {
				if c.R.Chance(1, 3) {
					return Pick(c.R, Leaves).RT
				}
				return RandTop(c.R, 1+c.R.N(3))
			}
			pool := []*Subject{}
			for i := 0; i < min(n, 12); i++ {
				pool = append(pool, goSubject(c, typ(), 200))
			}
			w := &swapWriter{}
			enc := encoders[c.R.N(len(encoders))].mk(w)
			r := &swapReader{}
			dec := decoders[c.R.N(len(decoders))].mk(r)
			for i := 0; i < n; i++ {
				s := Pick(c.R, pool)
				if n < 100 {
					c.DistinctBytes("recovery"+s.T.String(), s.Enc)
				}
				for k := c.R.N(3); k > 0; k-- {
					w.Writer = &faultWriter{failAt: c.R.N(12), mode: c.R.N(3), err: Pick(c.R, writeErrs)}
					enc.Encode(Pick(c.R, pool).V)
					b := Pick(c.R, pool)
					data := mutate(c.R, b.Enc)
					if len(b.Enc) > 0 && c.R.Chance(1, 2) {
						data = b.Enc[:c.R.N(len(b.Enc))]
					}
					r.Reader = io.MultiReader(bytes.NewReader(data), errReader{Pick(c.R, faultErrs)})
					dec.Decode(reflect.New(b.T).Interface())
					c.Event("failures before", 2)
				}
				c.Desc("%s after failures", s)
				var b bytes.Buffer
				w.Writer = &b
				if err := enc.Encode(s.V); err != nil || !bytes.Equal(b.Bytes(), s.Enc) {
					c.Fail("an encoder that failed before writes %s, %v instead of %s", Hex(b.Bytes()), err, Hex(s.Enc))
				}
				br := bytes.NewReader(s.Enc)
				r.Reader = br
				p := reflect.New(s.T)
				if err := dec.Decode(p.Interface()); err != nil || br.Len() != 0 {
					c.Fail("a decoder that failed before reports %v, %d bytes left of %s", err, br.Len(), Hex(s.Enc))
				}
				if d := s.Diff(p.Elem().Interface()); d != "" {
					c.Fail("a decoder that failed before returns another value: %s", d)
				}
				c.Event("calls after failures", 2)
			}
		}}, Category{"digest", 200, 2000, func(c *C) {
			// writing methods used directly
			g := NewG(c.R)
			type wr func(e *abi.Encoder) error
			l := []wr{
				func(e *abi.Encoder) error { return e.WriteBool(true) }, func(e *abi.Encoder) error { return e.WriteByte(1) },
				func(e *abi.Encoder) error { return e.WriteBytes([]byte{1, 2}) }, func(e *abi.Encoder) error { return e.WriteUint8(3) },
				func(e *abi.Encoder) error { return e.WriteUint16(uint16(g.U(16))) }, func(e *abi.Encoder) error { return e.WriteUint32(uint32(g.U(32))) },
				func(e *abi.Encoder) error { return e.WriteUint64(g.U(64)) }, func(e *abi.Encoder) error { return e.WriteInt8(-1) },
				func(e *abi.Encoder) error { return e.WriteInt16(-1) }, func(e *abi.Encoder) error { return e.WriteInt32(-1) },
				func(e *abi.Encoder) error { return e.WriteInt64(-1) }, func(e *abi.Encoder) error { return e.WriteFloat32(1) },
				func(e *abi.Encoder) error { return e.WriteFloat64(1) }, func(e *abi.Encoder) error { return e.WriteVaruint(uint(g.Var32())) },
				func(e *abi.Encoder) error { return e.WriteVarint(int(int32(g.Var32()))) }, func(e *abi.Encoder) error { return e.WriteString("text") },
			}
			for i, f := range l {
				for k := 0; k < 4; k++ {
					w := &faultWriter{failAt: k, mode: c.R.N(3), err: Pick(c.R, writeErrs)}
					err := f(chain.NewEncoder(w))
					c.Event("write faults", 1)
					if (err == nil) == w.fired {
						c.Fail("writer method %d, write %d fails: %v", i, k, err)
					}
				}
			}
		}})})

	history := func(c *C, t reflect.Type) {
		p := reflect.New(t)
		steps := 1 + c.R.N(4)
		hist := ""
		for i := 0; i < steps; i++ {
			s := goSubject(c, t, 500)
			switch c.R.N(5) {
			case 0: // set directly
				p.Elem().Set(reflect.ValueOf(s.V))
				hist += " set"
			case 1: // a failing decode
				chain.NewDecoder(bytes.NewReader(mutate(c.R, s.Enc))).Decode(p.Interface())
				hist += " damaged"
			case 2: // a truncated decode
				if len(s.Enc) > 0 {
					chain.NewDecoder(bytes.NewReader(s.Enc[:c.R.N(len(s.Enc))])).Decode(p.Interface())
				}
				hist += " truncated"
			default:
				if err := chain.NewDecoder(bytes.NewReader(s.Enc)).Decode(p.Interface()); err != nil {
					c.Fail("decoding %s again failed: %v", t, err)
				}
				hist += " decoded"
			}
		}
		s := goSubject(c, t, 500)
		data := s.Enc
		want := s.Want
		if s.Ext && c.R.Chance(1, 2) { // leave out extensions this time
			var cuts []int
			for k := range s.Cuts {
				cuts = append(cuts, k)
			}
			cut := cuts[0]
			for _, k := range cuts {
				if c.R.Chance(1, 2) || k < cut {
					cut = min(cut, k)
				}
			}
			data = data[:cut]
			want = withoutExtensions(s, cut)
		}
		c.Desc("history%s, then %s into %s", hist, Hex(data), t)
		c.DistinctBytes(t.String()+hist, data)
		fresh := reflect.New(t)
		err1 := chain.NewDecoder(bytes.NewReader(data)).Decode(fresh.Interface())
		err2 := chain.NewDecoder(bytes.NewReader(data)).Decode(p.Interface())
		c.Event("decodes into used values", 1)
		if err1 != nil || err2 != nil {
			c.Fail("errors: fresh %v, used %v", err1, err2)
		}
		if d := diff(fresh.Elem(), reflect.ValueOf(want), ""); d != "" {
			c.Fail("fresh value differs from the one encoded: %s", d)
		}
		if d := diff(p.Elem(), fresh.Elem(), ""); d != "" {
			c.Fail("used value differs from a fresh one: %s", d)
		}
	}
	Register(&Prop{ID: "C10", MinEvents: 5000,
		Rule:        "a case is a history of one to four decodes (complete, damaged, truncated) or assignments on one variable followed by a decode that is compared with a decode of the same bytes into a fresh variable; non-trivial if type, history and final bytes are new",
		Assumptions: []string{"an empty list and a nil list are the same value"},
		Cats: []Category{
			{"leaves", 8000, 200000, func(c *C) { history(c, Leaves[c.Idx%len(Leaves)].RT) }},
			{"user types", 5000, 100000, func(c *C) { history(c, UserTypes[c.Idx%len(UserTypes)]) }},
			{"random types", 8000, 200000, func(c *C) { history(c, RandTop(c.R, 1+c.Idx%3)) }},
			{"containers", 5000, 100000, func(c *C) { history(c, RandType(c.R, 1+c.Idx%3)) }},
			{"long lists", 150, 4000, func(c *C) {
				et := RandType(c.R, c.R.N(3))
				p := reflect.New(reflect.SliceOf(et))
				hist := ""
				for i := 2 + c.R.N(3); i > 0; i-- {
					v := LongList(c.R, et, 60000)
					enc := Ref(v, nil)
					hist += sprintf(" %d", v.Len())
					c.Desc("lists of%s %s", hist, et)
					c.DistinctBytes(et.String()+hist, enc)
					if c.R.Chance(1, 3) && len(enc) > 0 {
						chain.NewDecoder(bytes.NewReader(enc[:c.R.N(len(enc))])).Decode(p.Interface())
						hist += " cut off"
						continue
					}
					if err := chain.NewDecoder(bytes.NewReader(enc)).Decode(p.Interface()); err != nil {
						c.Fail("decoding the list failed: %v", err)
					}
					c.Event("decodes into used values", 1)
					if d := diff(p.Elem(), v, ""); d != "" {
						c.Fail("used value differs from the one encoded: %s", d)
					}
				}
			}},
			{"variants", 1500, 30000, func(c *C) {
				// the wrapper struct itself decoded repeatedly
				var h VarT
				for i := 0; i < 4; i++ {
					s := goSubject(c, reflect.TypeOf(VarHolder{}), 200)
					v := s.V.(VarHolder).V
					enc := refField(reflect.ValueOf(s.V), 1, nil)
					if err := chain.NewDecoder(bytes.NewReader(enc)).DecodeVariant(&h); err != nil {
						c.Fail("decoding variant %s: %v", Hex(enc), err)
					}
					c.Event("variants decoded", 1)
					c.DistinctBytes("v", enc)
					if d := Diff(h, v); d != "" {
						c.Fail("variant decoded into a used one differs: %s", d)
					}
				}
			}},
		}})
}

type swapWriter struct{ io.Writer }
type swapReader struct{ io.Reader }
type errReader struct{ err error }

func (r errReader) Read([]byte) (int, error) { return 0, r.err }
