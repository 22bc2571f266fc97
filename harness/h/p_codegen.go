package h

import (
	"bytes"
	"errors"
	"fmt"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

// Generated marshalling code. Struct declarations are written from the seed into two packages, one of which
// gets the code the generator makes for them. Both are compiled into a program (this package with CGTypes
// filled in) which compares them.

// CGPair is one struct, without methods (T) and with the generated ones (G).
type CGPair struct{ T, G reflect.Type }

var CGTypes []CGPair

// Prepare builds the program that runs the shards of a property.
var Prepare = map[string]func(seed int64, tier, scratch string) (exe string, viol *Violation, err string){}

const (
	cgQuick    = 240
	cgThorough = 700
	cgPer      = 24 // cases for each struct
)

var cgBuiltin = []string{"bool", "string", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "int", "uint"}
var cgChain []string

func init() {
	for _, l := range Leaves {
		if isChainLeaf(l.RT) && l.Name != "Abi" {
			cgChain = append(cgChain, "chain."+l.Name)
		}
	}
}

// cgStruct writes the declaration of struct i.
func cgStruct(seed int64, i int) string {
	r := NewR(seed, "/C24/struct/", i)
	n := 1 + r.N(7)
	if r.Chance(1, 10) {
		n = max(1, Scale(r, 60))
	} else if x, ok := r.size(60); ok && x > 0 {
		n = x
	}
	base := func() string {
		switch x := r.N(10); {
		case x < 4:
			return Pick(r, cgBuiltin)
		case x < 8 || i == 0 || n > 10:
			b := Pick(r, cgChain)
			if b == "chain.Transaction" && r.Chance(3, 4) {
				return "chain.Name"
			}
			return b
		}
		lo := i - 6
		if lo < 0 {
			lo = 0
		}
		return "S" + strconv.Itoa(lo+r.N(i-lo))
	}
	if i < len(cgBuiltin)+len(cgChain) { // every type once in every position over the first structs
		all := append(append([]string{}, cgBuiltin...), cgChain...)
		b := all[i]
		forms := []string{"%s", "[]%s", "[3]%s", "*%s", "*[]%s", "*[2]%s", "*%s `eosio:\"optional\"`", "*[]%s `eosio:\"optional\"`", "*[4]%s `eosio:\"optional\"`"}
		var sb strings.Builder
		for k, p := range r.Perm(len(forms)) {
			fmt.Fprintf(&sb, "\tF%d %s\n", k, fmt.Sprintf(forms[p], b))
			if k > 3 && r.Chance(1, 3) {
				break
			}
		}
		return fmt.Sprintf("type S%d struct {\n%s}\n", i, sb.String())
	}
	var sb strings.Builder
	names := []string{"A", "Err", "Length", "Exists", "V", "E", "D", "I", "Name", "Type", "Data", "From", "Memo", "X1", "Abi", "Bytes", "New", "Len"}
	perm, used := r.Perm(len(names)), map[string]bool{}
	for k := 0; k < n; k++ {
		fn := names[perm[k%len(perm)]]
		if s, ok := r.phrase(); ok && token.IsIdentifier(s) && token.IsExported(s) {
			fn = s
		}
		ft := ""
		switch r.N(8) {
		case 0, 1:
			ft = base()
		case 2, 3:
			ft = "[]" + base()
		case 4:
			ft = base()
			l := 1 + r.N(5)
			if !strings.HasPrefix(ft, "S") && ft != "chain.Transaction" && r.Chance(1, 3) {
				l = max(1, Scale(r, 100))
			}
			ft = "[" + strconv.Itoa(l) + "]" + ft
		case 5:
			ft = Pick(r, []string{"[]byte", "[]byte", "[][]byte", "[3][]byte", "[20]byte", "[33]uint8"})
		default:
			ft = base()
		}
		if ft == "[]byte" && r.Chance(1, 4) {
			fn = "Data"
		}
		for used[fn] {
			fn += "_"
		}
		used[fn] = true
		tag := ""
		if r.Chance(2, 5) {
			ft = "*" + ft
			if r.Chance(1, 2) {
				tag = "`eosio:\"optional\"`"
				if r.Chance(1, 3) {
					tag = "`json:\"x_" + fn + ",omitempty\" eosio:\"optional\"`"
				}
			}
		} else if r.Chance(1, 8) {
			tag = "`json:\"x_" + fn + "\"`"
		}
		if r.Chance(1, 25) { // a list of itself
			ft, tag = "*S"+strconv.Itoa(i), "`eosio:\"optional\"`"
		}
		fmt.Fprintf(&sb, "\t%s %s %s\n", fn, ft, tag)
	}
	return fmt.Sprintf("type S%d struct {\n%s}\n", i, sb.String())
}

func init() {
	Prepare["C24"] = func(seed int64, tier, scratch string) (string, *Violation, string) {
		return cgPrepare("C24", seed, tier, scratch)
	}
}

// cgPrepare makes struct declarations, runs the generator on them and builds this harness together with its code.
func cgPrepare(id string, seed int64, tier, scratch string) (string, *Violation, string) {
	n := cgQuick
	if tier == "thorough" {
		n = cgThorough
	}
	root := filepath.Join(scratch, "harness")
	dir := filepath.Join(root, "cg")
	w := func(name, s string) {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	decl := "import \"github.com/greymass/go-eosio/pkg/chain\"\nvar _ chain.Name\n"
	emit, run := "", ""
	for i := 0; i < n; i++ {
		decl += cgStruct(seed, i)
		emit += fmt.Sprintf("\temit(%d, func() string { return codegen.GenUnmarshalFn(gen.S%d{}) })\n", i, i)
		run += fmt.Sprintf("\t\t{reflect.TypeOf(twin.S%d{}), reflect.TypeOf(gen.S%d{})},\n", i, i)
	}
	w("twin/types.go", "package twin\n"+decl)
	w("gen/types.go", "package gen\n"+decl)
	w("emit/main.go", `package main
import (
	"fmt"
	"os"
	"github.com/greymass/go-eosio/pkg/codegen"
	"verif/cg/gen"
)
func emit(i int, f func() string) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(os.Stderr, "CODEGEN-PANIC S%d: %v\n", i, e)
			os.Exit(3)
		}
	}()
	fmt.Printf("\n// code for S%d\n%s\n", i, f())
}
func main() {
`+emit+"}\n")
	w("run/main.go", `package main
import (
	"reflect"
	"verif/cg/gen"
	"verif/cg/twin"
	"verif/h"
)
func main() {
	h.CGTypes = []h.CGPair{
`+run+"\t}\n\th.Main()\n}\n")
	goCmd := func(args ...string) (string, string, error) {
		cmd := exec.Command("go", args...)
		cmd.Dir = root
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		err := cmd.Run()
		return o.String(), e.String(), err
	}
	if _, e, err := goCmd("build", "-o", filepath.Join(scratch, "emit"), "./cg/emit"); err != nil {
		return "", nil, "the struct declarations do not build: " + tail(e, 2000)
	}
	cmd := exec.Command(filepath.Join(scratch, "emit"))
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		if s := e.String(); strings.Contains(s, "CODEGEN-PANIC") {
			f := strings.TrimSuffix(strings.Fields(s)[1], ":")
			i, _ := strconv.Atoi(f[1:])
			return "", &Violation{id, "generate", i, seed, "the generator panics: " + tail(s, 1000) + "\n" + cgStruct(seed, i)}, ""
		}
		return "", nil, "running the generator failed: " + err.Error() + tail(e.String(), 2000)
	}
	// the user adds the imports, whatever the code needs of these
	code := "package gen\nimport (\n\t\"errors\"\n\t\"fmt\"\n\t\"io\"\n\t\"reflect\"\n\t\"math\"\n\t\"bytes\"\n\t\"github.com/greymass/go-eosio/pkg/abi\"\n\t\"github.com/greymass/go-eosio/pkg/chain\"\n)\n" +
		"var _ = errors.New\nvar _ = fmt.Errorf\nvar _ io.Reader\nvar _ reflect.Type\nvar _ = math.MaxInt8\nvar _ bytes.Buffer\nvar _ abi.Encoder\nvar _ chain.Name\n" + o.String()
	w("gen/methods.go", code)
	if _, e, err := goCmd("build", "-o", os.DevNull, "./cg/gen"); err != nil {
		if !strings.Contains(e, "methods.go:") {
			return "", nil, "building the generated code failed: " + tail(e, 2000)
		}
		// which struct does the first error belong to
		idx := 0
		for _, l := range strings.Split(e, "\n") {
			if k := strings.Index(l, "methods.go:"); k >= 0 {
				line, _ := strconv.Atoi(strings.SplitN(l[k+len("methods.go:"):], ":", 2)[0])
				ls := strings.Split(code, "\n")
				for j := line - 1; j >= 0 && j < len(ls); j-- {
					if strings.HasPrefix(ls[j], "// code for S") {
						idx, _ = strconv.Atoi(ls[j][len("// code for S"):])
						break
					}
				}
				break
			}
		}
		return "", &Violation{id, "compile", idx, seed, "the generated code does not compile: " + tail(e, 1500) + "\n" + cgStruct(seed, idx)}, ""
	}
	exe := filepath.Join(scratch, "cgrun")
	if _, e, err := goCmd("build", "-cover", "-coverpkg=github.com/greymass/go-eosio/...", "-o", exe, "./cg/run"); err != nil {
		return "", nil, "building the runner failed: " + tail(e, 2000)
	}
	return exe, nil, ""
}

// cgCopy copies between the two packages' versions of a type.
func cgCopy(dst, src reflect.Value) {
	if dst.Type() == src.Type() {
		dst.Set(src)
		return
	}
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			dst.Set(reflect.Zero(dst.Type()))
			return
		}
		dst.Set(reflect.New(dst.Type().Elem()))
		cgCopy(dst.Elem(), src.Elem())
	case reflect.Slice:
		if src.IsNil() {
			dst.Set(reflect.Zero(dst.Type()))
			return
		}
		dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			cgCopy(dst.Index(i), src.Index(i))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			cgCopy(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			cgCopy(dst.Field(i), src.Field(i))
		}
	default:
		panic("cgCopy " + src.Type().String())
	}
}

func cgTo(t reflect.Type, v reflect.Value) reflect.Value {
	rv := reflect.New(t).Elem()
	cgCopy(rv, v)
	return rv
}

// cgNils calls f for every nil-able required pointer, set to nil while f runs.
func cgNils(v reflect.Value, path string, f func(path string)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			cgNils(v.Elem(), path, f)
		}
	case reflect.Slice, reflect.Array:
		if v.Len() > 0 {
			cgNils(v.Index(v.Len()-1), sprintf("%s[%d]", path, v.Len()-1), f)
		}
	case reflect.Struct:
		if !strings.HasPrefix(v.Type().Name(), "S") || isChainLeaf(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			p := path + "." + v.Type().Field(i).Name
			if fv.Kind() == reflect.Ptr && v.Type().Field(i).Tag.Get("eosio") != "optional" {
				old := reflect.New(fv.Type()).Elem()
				old.Set(fv)
				fv.Set(reflect.Zero(fv.Type()))
				f(p)
				fv.Set(old)
			}
			cgNils(fv, p, f)
		}
	}
}

type cutWriter struct {
	n   int
	err error
}

func (w *cutWriter) Write(b []byte) (int, error) {
	if len(b) > w.n {
		k := w.n
		w.n = 0
		return k, w.err
	}
	w.n -= len(b)
	return len(b), nil
}

// onceWriter fails in one call only, onceReader likewise.
type onceWriter struct {
	n, at int
	err   error
}

func (w *onceWriter) Write(b []byte) (int, error) {
	w.n++
	if w.n == w.at+1 {
		return 0, w.err
	}
	return len(b), nil
}

type onceReader struct {
	r     *bytes.Reader
	n, at int
	err   error
}

func (r *onceReader) Read(b []byte) (int, error) {
	r.n++
	if r.n == r.at+1 {
		return 0, r.err
	}
	return r.r.Read(b)
}

type cutReader struct {
	r   *bytes.Reader
	err error
}

func (r *cutReader) Read(b []byte) (int, error) {
	n, err := r.r.Read(b)
	if err == io.EOF {
		err = r.err
	}
	return n, err
}

func init() {
	pair := func(c *C) CGPair {
		if len(CGTypes) == 0 {
			panic("C24 cases run in the generated program only")
		}
		p := CGTypes[(c.Idx/cgPer)%len(CGTypes)]
		c.Desc("%s", cgStruct(c.Seed, (c.Idx/cgPer)%len(CGTypes)))
		return p
	}
	value := func(c *C, t reflect.Type) reflect.Value {
		g := NewG(c.R)
		g.Budget = 1500
		g.NoBig = !c.R.Chance(1, 20)
		return g.Value(t)
	}
	dec := func(t reflect.Type, b []byte, plain bool) (reflect.Value, int, error) {
		r := bytes.NewReader(b)
		p := reflect.New(t)
		var err error
		if plain {
			err = abi.NewDecoder(r, noDec).Decode(p.Interface())
		} else {
			err = chain.NewDecoder(r).Decode(p.Interface())
		}
		return p.Elem(), len(b) - r.Len(), err
	}
	// same bytes into both, same outcome
	compare := func(c *C, p CGPair, b []byte) bool {
		plain := c.R.Chance(1, 3)
		tv, tn, terr := dec(p.T, b, plain)
		before := allocated()
		gv, gn, gerr := dec(p.G, b, plain)
		used := allocated() - before
		c.Event("compared decodes", 1)
		if used > allocBound(len(b)) {
			c.Fail("generated decoder allocates %d bytes for %d bytes of data: %s", used, len(b), Hex(b))
		}
		if (terr == nil) != (gerr == nil) {
			c.Fail("decoding %s: generic result %v, generated result %v", Hex(b), terr, gerr)
		}
		if terr != nil {
			return false
		}
		if tn != gn {
			c.Fail("decoding %s: generic code consumed %d bytes, generated code %d", Hex(b), tn, gn)
		}
		if d := diff(cgTo(p.T, gv), tv, ""); d != "" {
			c.Fail("decoding %s: generated code's value differs from the generic one: %s", Hex(b), d)
		}
		return true
	}
	encode := func(v interface{}, plain bool) ([]byte, error) {
		var b bytes.Buffer
		var err error
		if plain {
			err = abi.NewEncoder(&b, noEnc).Encode(v)
		} else {
			err = chain.NewEncoder(&b).Encode(v)
		}
		return b.Bytes(), err
	}
	Register(&Prop{ID: "C24", MinEvents: 20000,
		Rule: "structs are declared from the seed, the generator's code for them is compiled, and each case runs generated and generic code of one struct on the same generated value or bytes (by value, pointer, in lists and maps; fresh and used targets; every truncation; damaged data; failing readers and writers; nil pointers); outcomes are compared; non-trivial if struct and bytes are new",
		Cats: []Category{
			{"values", cgQuick * cgPer, cgThorough * cgPer, func(c *C) {
				p := pair(c)
				v := value(c, p.T)
				gv := cgTo(p.G, v)
				for _, plain := range []bool{false, true} {
					want, err := encode(v.Interface(), plain)
					if err != nil {
						c.Event("generic encoder refused", 1)
						return
					}
					c.DistinctBytes(p.T.Name(), want)
					c.Sample("%s -> %s", short(v.Interface()), Hex(want))
					for _, arg := range []interface{}{gv.Interface(), ptrTo(gv)} {
						got, err := encode(arg, plain)
						c.Event("compared encodes", 1)
						if err != nil || !bytes.Equal(got, want) {
							c.Fail("encoding %s as %T: generated code gives %s, %v, generic code %s", short(v.Interface()), arg, Hex(got), err, Hex(want))
						}
					}
					// called directly
					var b bytes.Buffer
					m, ok := gv.Interface().(abi.Marshaler)
					if !ok {
						c.Fail("the generated code has no MarshalABI")
					}
					if err := m.MarshalABI(chain.NewEncoder(&b)); err != nil || !bytes.Equal(b.Bytes(), want) {
						c.Fail("MarshalABI of %s gives %s, %v, want %s", short(v.Interface()), Hex(b.Bytes()), err, Hex(want))
					}
					x := reflect.New(p.G)
					u, ok := x.Interface().(abi.Unmarshaler)
					if !ok {
						c.Fail("the generated code has no UnmarshalABI")
					}
					if tv, _, terr := dec(p.T, want, plain); terr == nil {
						if err := u.UnmarshalABI(chain.NewDecoder(bytes.NewReader(want))); err != nil {
							c.Fail("UnmarshalABI of %s: %v", Hex(want), err)
						}
						if d := diff(cgTo(p.T, x.Elem()), tv, ""); d != "" {
							c.Fail("UnmarshalABI of %s: %s", Hex(want), d)
						}
					}
					if !compare(c, p, append(append([]byte{}, want...), c.R.Bytes(c.R.N(10))...)) {
						c.Event("generic decoder refused", 1)
					}
				}
				// inside of other values
				sl := reflect.MakeSlice(reflect.SliceOf(p.T), 2, 2)
				sl.Index(0).Set(v)
				sl.Index(1).Set(value(c, p.T))
				gs := cgTo(reflect.SliceOf(p.G), sl)
				want, err := encode(sl.Interface(), false)
				got, gerr := encode(gs.Interface(), false)
				if err == nil && (gerr != nil || !bytes.Equal(got, want)) {
					c.Fail("encoding a list: generated code gives %s, %v, generic code %s", Hex(got), gerr, Hex(want))
				}
				if err == nil {
					x, n, err := dec(gs.Type(), want, false)
					if err != nil || n != len(want) {
						c.Fail("decoding a list: %v, %d of %d bytes", err, n, len(want))
					}
					if d := diff(cgTo(sl.Type(), x), sl, ""); d != "" {
						tx, _, terr := dec(sl.Type(), want, false)
						if terr == nil && diff(tx, sl, "") == "" {
							c.Fail("decoding a list: %s", d)
						}
					}
				}
			}},
			{"long lists", cgQuick * 2, cgThorough * 2, func(c *C) { // in the fields of the struct, and of it
				p := CGTypes[(c.Idx/2)%len(CGTypes)]
				c.Desc("%s", cgStruct(c.Seed, (c.Idx/2)%len(CGTypes)))
				v := reflect.New(p.T).Elem()
				v.Set(value(c, p.T))
				for i := 0; i < v.NumField(); i++ {
					f := v.Field(i)
					if f.Kind() == reflect.Ptr && !f.IsNil() {
						f = f.Elem()
					}
					switch {
					case f.Kind() == reflect.String:
						f.SetString(strings.Repeat("x\x00é", Scale(c.R, 30000)))
					case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint8:
						f.SetBytes(c.R.Bytes(Scale(c.R, 100000)))
					case f.Kind() == reflect.Slice && c.R.Chance(2, 3):
						f.Set(LongList(c.R, f.Type().Elem(), 60000).Convert(f.Type()))
					}
				}
				if c.Idx%2 == 1 {
					v = LongList(c.R, p.T, 60000)
					p.T, p.G = reflect.SliceOf(p.T), reflect.SliceOf(p.G)
				}
				want, err := encode(v.Interface(), false)
				if err != nil {
					c.Event("generic encoder refused", 1)
					return
				}
				c.DistinctBytes(p.T.Name(), want)
				got, err := encode(cgTo(p.G, v).Interface(), false)
				c.Event("compared encodes", 1)
				if err != nil || !bytes.Equal(got, want) {
					c.Fail("generated code writes %d bytes, %v, generic code %d", len(got), err, len(want))
				}
				compare(c, p, want)
				compare(c, p, want[:c.R.N(len(want)+1)])
			}},
			{"reuse", cgQuick * cgPer / 2, cgThorough * cgPer / 2, func(c *C) {
				p := CGTypes[(c.Idx/(cgPer/2))%len(CGTypes)]
				c.Desc("%s", cgStruct(c.Seed, (c.Idx/(cgPer/2))%len(CGTypes)))
				used := reflect.New(p.G)
				if c.R.Chance(1, 3) {
					used.Elem().Set(cgTo(p.G, value(c, p.T)))
				}
				for i := 0; i < 4; i++ {
					b, err := encode(value(c, p.T).Interface(), false)
					if err != nil {
						return
					}
					if c.R.Chance(1, 4) && len(b) > 0 { // a failed decode in between
						chain.NewDecoder(bytes.NewReader(b[:c.R.N(len(b))])).Decode(used.Interface())
						continue
					}
					want, _, err := dec(p.T, b, false)
					if err != nil {
						return
					}
					c.DistinctBytes("reuse"+p.T.Name(), b)
					c.Event("decodes into used values", 1)
					if err := chain.NewDecoder(bytes.NewReader(b)).Decode(used.Interface()); err != nil {
						c.Fail("decoding %s into a used value: %v", Hex(b), err)
					}
					if d := diff(cgTo(p.T, used.Elem()), want, ""); d != "" {
						c.Fail("decoding %s into a used value: %s", Hex(b), d)
					}
				}
			}},
			{"truncated", cgQuick * 4, cgThorough * 4, func(c *C) {
				p := CGTypes[(c.Idx/4)%len(CGTypes)]
				c.Desc("%s", cgStruct(c.Seed, (c.Idx/4)%len(CGTypes)))
				v := value(c, p.T)
				b, err := encode(v.Interface(), false)
				if err != nil {
					return
				}
				c.DistinctBytes("truncated"+p.T.Name(), b)
				boom := errors.New("device failed")
				for _, n := range cutPoints(c.R, len(b), 150) {
					if compare(c, p, b[:n]) {
						c.Event("prefixes accepted by both", 1)
					}
					// the device fails instead of ending
					x := reflect.New(p.G)
					if err := chain.NewDecoder(&cutReader{bytes.NewReader(b[:n]), boom}).Decode(x.Interface()); !errors.Is(err, boom) {
						y := reflect.New(p.T)
						if terr := chain.NewDecoder(&cutReader{bytes.NewReader(b[:n]), boom}).Decode(y.Interface()); errors.Is(terr, boom) {
							c.Fail("reader fails after %d of %d bytes: generated decoder returns %v", n, len(b), err)
						}
					}
					gv := cgTo(p.G, v)
					if err := chain.NewEncoder(&cutWriter{n, boom}).Encode(gv.Interface()); !errors.Is(err, boom) {
						if terr := chain.NewEncoder(&cutWriter{n, boom}).Encode(v.Interface()); errors.Is(terr, boom) {
							c.Fail("writer fails after %d of %d bytes: generated encoder returns %v", n, len(b), err)
						}
					}
					c.Event("I/O failures", 2)
				}
				// one operation fails and the next ones work again
				gv := cgTo(p.G, v)
				for at := 0; at < 60; at++ {
					gw, tw := &onceWriter{at: at, err: boom}, &onceWriter{at: at, err: boom}
					gerr := chain.NewEncoder(gw).Encode(gv.Interface())
					if terr := chain.NewEncoder(tw).Encode(v.Interface()); terr == nil && gerr == nil && tw.n <= at && gw.n <= at {
						break
					}
					if gw.n > at && !errors.Is(gerr, boom) {
						c.Fail("write %d fails: generated encoder returns %v", at, gerr)
					}
					c.Event("I/O failures", 1)
				}
				for at := 0; at < 60; at++ {
					r := &onceReader{r: bytes.NewReader(b), at: at, err: boom}
					gerr := chain.NewDecoder(r).Decode(reflect.New(p.G).Interface())
					if r.n <= at {
						break
					}
					if !errors.Is(gerr, boom) {
						c.Fail("read %d fails: generated decoder returns %v", at, gerr)
					}
					c.Event("I/O failures", 1)
				}
			}},
			{"hostile", cgQuick * cgPer, cgThorough * cgPer, func(c *C) {
				p := pair(c)
				b, err := encode(value(c, p.T).Interface(), false)
				if err != nil {
					return
				}
				for i := 0; i < 6; i++ {
					d := append([]byte{}, b...)
					for k := 1 + c.R.N(3); k > 0 && len(d) > 0; k-- {
						at := c.R.N(len(d))
						switch c.R.N(5) {
						case 0:
							d[at] = byte(c.R.N(256))
						case 1:
							d[at] ^= 1 << uint(c.R.N(8))
						case 2:
							d = append(d[:at], d[at+1:]...)
						case 3: // a huge length
							d = append(append(append([]byte{}, d[:at]...), Pick(c.R, [][]byte{{0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x80, 0x08}, {0xff, 0xff, 0xff, 0xff, 0x1f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}})...), d[at+1:]...)
						case 4:
							d = d[:at]
						}
					}
					if c.R.Chance(1, 6) {
						d = c.R.Bytes(c.R.N(200))
					}
					c.DistinctBytes("hostile"+p.T.Name(), d)
					if compare(c, p, d) {
						c.Event("damaged data accepted by both", 1)
					}
				}
			}},
			{"nil pointers", cgQuick * 6, cgThorough * 6, func(c *C) {
				p := CGTypes[(c.Idx/6)%len(CGTypes)]
				c.Desc("%s", cgStruct(c.Seed, (c.Idx/6)%len(CGTypes)))
				gv := cgTo(p.G, value(c, p.T))
				total := 0
				cgNils(gv, "", func(path string) { total++ })
				cgNils(gv, "", func(path string) {
					if total > 100 && !c.R.Chance(100, total) {
						return
					}
					c.Event("nil pointers", 1)
					c.Distinct("nil", p.G.Name(), path)
					for _, arg := range []interface{}{gv.Interface(), ptrTo(gv)} {
						if b, err := encode(arg, c.R.Chance(1, 2)); err == nil {
							c.Fail("nil in %s was encoded as %s", path, Hex(b))
						}
					}
				})
			}},
		}})
}

// cutPoints are the strict prefixes of n bytes, sampled if there are more than max.
func cutPoints(r *R, n, max int) []int {
	var rv []int
	for i := 0; i < n; i++ {
		if n <= max || i < max/3 || i >= n-max/3 || r.Chance(max/3+1, n) {
			rv = append(rv, i)
		}
	}
	return rv
}
