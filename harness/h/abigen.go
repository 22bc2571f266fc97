package h

import (
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/greymass/go-eosio/pkg/chain"
)

// Generator of well-formed ABIs together with conforming values, their reference encoding and the
// value expected from decoding. The encoding is produced from the generator's own type tree.

type AT struct {
	Builtin string
	Def     *ADef
	Array   bool
	Opt     bool
	Ext     bool
}

type ADef struct {
	Kind   byte // 's'truct, 'v'ariant, 'a'lias
	Name   string
	Base   *ADef
	BaseAs string // how the base is spelled, an alias maybe
	Fields []AField
	Alts   []AT
	Target AT
	order  int
	weight int // how many leaves a value has without its lists and optionals
}

type AField struct {
	Name string
	T    AT
}

func (t AT) String() string {
	s := t.Builtin
	if t.Def != nil {
		s = t.Def.Name
	}
	if t.Array {
		s += "[]"
	}
	if t.Opt {
		s += "?"
	}
	if t.Ext {
		s += "$"
	}
	return s
}

// resolvesOptional: nil is a value of the type.
func (t AT) resolvesOptional() bool {
	return t.Opt || !t.Array && t.Def != nil && t.Def.Kind == 'a' && t.Def.Target.resolvesOptional()
}

func (d *ADef) allFields() []AField {
	if d.Base != nil {
		return append(append([]AField{}, d.Base.allFields()...), d.Fields...)
	}
	return d.Fields
}

// structOf follows aliases to a plain struct.
func (t AT) structOf() *ADef {
	if t.Array || t.Opt || t.Def == nil {
		return nil
	}
	switch t.Def.Kind {
	case 's':
		return t.Def
	case 'a':
		return t.Def.Target.structOf()
	}
	return nil
}

type AGen struct {
	g       *G
	Defs    []*ADef
	Abi     chain.Abi
	Actions map[chain.Name]AT
	used    map[string]bool
	extra   []*ADef
	shape   int
}

// Shapes of ABIs.
const (
	shapeMixed   = iota
	shapeInherit // bases of many fields shared by structs that contain one another
	shapeWide    // variants with hundreds of alternatives, structs with dozens of fields
	shapeChain   // long chains of aliases and bases
)

var abiBuiltins []string

func init() {
	for k := range LeafByAbi {
		abiBuiltins = append(abiBuiltins, k)
	}
	sort.Strings(abiBuiltins)
}

var oddNames = []string{"a", "b", "x", "Z", "_", "é", "T1", "transfer", "a_very_long_type_name_that_goes_on_and_on_and_on_and_on_and_on", "ns::type", "vec<int>", "with space", "0", "bool_", "uint", "string_t", "optional", "map_1", "pair-2", ".", "b0"}

func (a *AGen) name() string {
	for {
		n := Pick(a.g.R, oddNames)
		if s, ok := a.g.R.phrase(); ok && utf8.ValidString(s) && s != "" && !strings.ContainsAny(s, "[]?$") {
			n = s
		}
		if a.g.R.Chance(1, 2) {
			n += Pick(a.g.R, oddNames)
		}
		if !a.used[n] && LeafByAbi[n] == nil {
			a.used[n] = true
			return n
		}
	}
}

// NewAGen builds a random well-formed ABI.
func NewAGen(r *R) *AGen { return newAGen(r, true) }

// NewSmallAGen leaves out the ones with hundreds of types, for workloads that repeat everything many times.
func NewSmallAGen(r *R) *AGen { return newAGen(r, false) }

func newAGen(r *R, wide bool) *AGen {
	a := &AGen{g: NewG(r), used: map[string]bool{}, Actions: map[chain.Name]AT{}}
	n := 1 + r.N(8)
	switch x := r.N(12); {
	case x < 3:
		a.shape, n = shapeInherit, 3+r.N(7)
	case x == 3 && wide:
		a.shape, n = shapeWide, 3+r.N(4)
	case x == 4:
		a.shape, n = shapeChain, 6+r.N(14)
	}
	for i := 0; i < n; i++ {
		a.Defs = append(a.Defs, &ADef{Name: a.name(), order: i})
	}
	var small []AT
	if a.shape == shapeWide {
		for i := r.N(3) * 150; i > 0; i-- {
			d := &ADef{Kind: 's', Name: sprintf("w%d", i), order: -1, weight: 1}
			if r.Chance(7, 8) {
				d.Fields = []AField{{"v", AT{Builtin: Pick(r, abiBuiltins)}}}
			}
			if a.used[d.Name] {
				continue
			}
			a.used[d.Name] = true
			a.extra = append(a.extra, d)
			small = append(small, AT{Def: d})
		}
	}
	for i, d := range a.Defs {
		x := r.N(10)
		switch a.shape {
		case shapeInherit:
			x = Pick(r, []int{0, 0, 0, 0, 0, 0, 0, 6, 8})
		case shapeChain:
			x = Pick(r, []int{0, 0, 0, 8, 8, 8, 6})
		}
		switch {
		case x < 6:
			d.Kind = 's'
		case x < 8:
			d.Kind = 'v'
		default:
			d.Kind = 'a'
		}
		switch d.Kind {
		case 's':
			if a.shape == shapeMixed && r.Chance(1, 3) || a.shape > shapeMixed && r.Chance(3, 4) {
				// a base, by its name or an alias
				var cand []*ADef
				for _, b := range a.Defs[:i] {
					if s := (AT{Def: b}).structOf(); s != nil && s.weight <= maxWeight {
						cand = append(cand, b)
					}
				}
				if len(cand) > 0 {
					b := Pick(r, cand)
					switch a.shape {
					case shapeInherit:
						b = cand[r.N(1+r.N(len(cand)))]
					case shapeChain:
						b = cand[len(cand)-1]
					}
					d.Base, d.BaseAs = AT{Def: b}.structOf(), b.Name
				}
			}
			seen := map[string]bool{}
			for _, f := range d.allFields() {
				seen[f.Name] = true
				d.weight += a.weight(f.T)
			}
			nf := r.N(5)
			switch a.shape {
			case shapeInherit:
				nf = r.N(10)
			case shapeWide:
				nf = r.N(40)
			case shapeChain:
				nf = r.N(3)
			}
			for ; nf > 0; nf-- {
				fn := Pick(r, []string{"a", "b", "c", "from", "to", "memo", "quantity", "", "é", "A", "a.b", "field with space", "1", "_"})
				if s, ok := r.phrase(); ok && utf8.ValidString(s) {
					fn = s
				}
				for seen[fn] {
					fn += "x"
				}
				seen[fn] = true
				t := a.field(i)
				d.weight += a.weight(t)
				d.Fields = append(d.Fields, AField{fn, t})
			}
		case 'v':
			seen := map[string]bool{}
			add := func(t AT) {
				if !seen[t.String()] {
					seen[t.String()] = true
					d.Alts = append(d.Alts, t)
					if w := a.weight(t); w > d.weight {
						d.weight = w
					}
				}
			}
			if a.shape == shapeWide {
				for _, k := range r.Perm(len(small)) {
					add(small[k])
				}
				for j := r.N(200); j > 0; j-- {
					add(a.typ(i, false))
				}
			}
			for j := 1 + r.N(5); j > 0; j-- {
				add(a.typ(i, len(d.Alts) > 0))
			}
		case 'a':
			d.Target = a.typ(i, false)
			d.weight = a.weight(d.Target)
		}
	}
	a.Defs = append(a.Defs, a.extra...)
	// a top-level struct with binary extensions, used by nothing else
	if r.Chance(1, 2) {
		d := &ADef{Kind: 's', Name: a.name(), order: n}
		for j := r.N(3); j > 0; j-- {
			d.Fields = append(d.Fields, AField{"f" + string(rune('a'+j)), a.field(n)})
		}
		for j := 1 + r.N(3); j > 0; j-- {
			t := a.typ(n, false)
			for a.minWidth(t) == 0 || !t.Opt && t.resolvesOptional() {
				t = AT{Builtin: Pick(r, abiBuiltins), Array: r.Chance(1, 3), Opt: r.Chance(1, 3)}
			}
			t.Ext = true
			d.Fields = append(d.Fields, AField{"x" + string(rune('a'+j)), t})
		}
		a.Defs = append(a.Defs, d)
	}
	a.render()
	return a
}

const maxWeight = 60

func (a *AGen) weight(t AT) int {
	if t.Def == nil || t.Array || t.Opt {
		return 1
	}
	return t.Def.weight + 1
}

func (a *AGen) minWidth(t AT) int {
	if t.Opt || t.Array || t.Builtin != "" {
		return 1
	}
	switch t.Def.Kind {
	case 'v':
		return 1
	case 'a':
		return a.minWidth(t.Def.Target)
	}
	n := 0
	for _, f := range t.Def.allFields() {
		if f.T.Def == nil || f.T.Def.order < t.Def.order {
			n += a.minWidth(f.T)
		} else {
			n++ // recursion is always below a modifier
		}
	}
	return n
}

// typ is a type that may refer to definitions before i, or, if recursive, to any below an array or optional.
func (a *AGen) typ(i int, recursive bool) AT {
	r := a.g.R
	t := AT{}
	switch {
	case recursive && r.Chance(1, 3):
		t.Def = a.Defs[r.N(len(a.Defs))]
		if r.Chance(1, 2) {
			t.Array = true
		} else {
			t.Opt = true
		}
		return t
	case i > 0 && r.Chance(1, 2):
		t.Def = a.Defs[r.N(i)]
		if a.shape == shapeChain && r.Chance(2, 3) {
			t.Def = a.Defs[i-1]
		}
	default:
		t.Builtin = Pick(r, abiBuiltins)
	}
	if a.shape == shapeMixed || r.Chance(1, 3) {
		t.Array = r.Chance(1, 4)
		t.Opt = r.Chance(1, 4)
	}
	if t.Def != nil && t.Def.weight > maxWeight {
		t = AT{Builtin: Pick(r, abiBuiltins)}
	}
	return t
}

func (a *AGen) field(i int) AT { return a.typ(i, a.g.R.Chance(1, 5) && i < len(a.Defs)) }

func (a *AGen) render() {
	r := a.g.R
	ab := chain.Abi{Version: "eosio::abi/1.1", Types: []chain.AbiType{}, Structs: []chain.AbiStruct{}, Actions: []chain.AbiAction{}, Tables: []chain.AbiTable{}, RicardianClauses: []chain.AbiClause{}}
	for _, k := range r.Perm(len(a.Defs)) {
		d := a.Defs[k]
		switch d.Kind {
		case 's':
			s := chain.AbiStruct{Name: d.Name, Base: d.BaseAs, Fields: []chain.AbiField{}}
			for _, f := range d.Fields {
				s.Fields = append(s.Fields, chain.AbiField{Name: f.Name, Type: f.T.String()})
			}
			ab.Structs = append(ab.Structs, s)
		case 'v':
			v := chain.AbiVariant{Name: d.Name}
			for _, t := range d.Alts {
				v.Types = append(v.Types, t.String())
			}
			ab.Variants = append(ab.Variants, v)
		case 'a':
			ab.Types = append(ab.Types, chain.AbiType{NewTypeName: d.Name, Type: d.Target.String()})
		}
		n := a.g.Name()
		if _, ok := a.Actions[n]; !ok {
			a.Actions[n] = AT{Def: d}
			ab.Actions = append(ab.Actions, chain.AbiAction{Name: n, Type: d.Name})
		}
	}
	a.Abi = ab
}

// ACase is a conforming value: what to encode, its bytes and what decoding returns.
type ACase struct {
	Type AT
	In   interface{}
	Out  interface{}
	Enc  []byte
	Cuts map[int]bool // offsets where the data may end because an extension begins
	Ext  bool         // has extensions, nothing may follow it
}

// Case generates a value for a random type of the ABI.
func (a *AGen) Case() ACase {
	r := a.g.R
	t := AT{Def: Pick(r, a.Defs)}
	if r.Chance(1, 8) {
		t = AT{Builtin: Pick(r, abiBuiltins)}
	}
	ext := false
	if t.Def != nil && t.Def.Kind == 's' {
		for _, f := range t.Def.allFields() {
			ext = ext || f.T.Ext
		}
	}
	if !ext {
		t.Array = r.Chance(1, 8)
		t.Opt = r.Chance(1, 8)
	}
	return a.CaseOf(t)
}

func (a *AGen) CaseOf(t AT) ACase {
	a.g.Budget = 2500
	c := ACase{Type: t, Cuts: map[int]bool{}}
	if t.Def != nil && t.Def.Kind == 's' && !t.Array && !t.Opt {
		for _, f := range t.Def.allFields() {
			c.Ext = c.Ext || f.T.Ext
		}
		c.In, c.Out, c.Enc = a.genStruct(t.Def, 0, c.Cuts)
	} else {
		c.In, c.Out, c.Enc = a.gen(t, 0)
	}
	return c
}

func (a *AGen) genStruct(d *ADef, depth int, cuts map[int]bool) (in, out interface{}, enc []byte) {
	mi, mo := map[string]interface{}{}, map[string]interface{}{}
	absent := false
	for _, f := range d.allFields() {
		if f.T.Ext {
			if cuts != nil && !absent {
				cuts[len(enc)] = true
			}
			// an optional extension is only absent after another that is
			absent = absent || !f.T.Opt && a.g.R.Chance(1, 4)
			if absent {
				mo[f.Name] = nil
				if a.g.R.Chance(1, 2) {
					mi[f.Name] = nil
				}
				continue
			}
		}
		a.g.Budget -= 4
		i, o, e := a.gen(f.T, depth+1)
		mi[f.Name], mo[f.Name] = i, o
		if i == nil && a.g.R.Chance(1, 2) {
			delete(mi, f.Name) // an absent optional may be left out
		}
		enc = append(enc, e...)
	}
	if absent && cuts != nil {
		delete(cuts, len(enc)) // that's the end of the data, not a strict prefix
	}
	return mi, mo, enc
}

func (a *AGen) gen(t AT, depth int) (in, out interface{}, enc []byte) {
	r := a.g.R
	if t.Opt {
		if depth > 6 || a.g.Budget < -500 || r.Chance(2, 5) {
			return nil, nil, []byte{0}
		}
		in, out, enc = a.genArr(t, depth)
		if in == nil { // optional of an optional that is absent
			return nil, nil, []byte{0}
		}
		return in, out, append([]byte{1}, enc...)
	}
	return a.genArr(t, depth)
}

func (a *AGen) genArr(t AT, depth int) (in, out interface{}, enc []byte) {
	if !t.Array {
		return a.genInner(t, depth)
	}
	n := 0
	if depth <= 6 && a.g.Budget >= -500 {
		inner := t
		inner.Array, inner.Opt, inner.Ext = false, false, false
		w := a.minWidth(inner)
		n = a.g.Count(a.weight(inner)*6 + w*2)
		if w == 0 && n > 300 {
			n = 300
		}
	}
	li, lo := []interface{}{}, []interface{}{}
	if n == 0 && a.g.R.Chance(1, 3) {
		li = nil // of its type: an empty list
	}
	enc = refCount(n)
	for i := 0; i < n; i++ {
		x, y, e := a.genInner(t, depth)
		li, lo = append(li, x), append(lo, y)
		enc = append(enc, e...)
	}
	return li, lo, enc
}

func (a *AGen) genInner(t AT, depth int) (in, out interface{}, enc []byte) {
	r := a.g.R
	if t.Def == nil {
		l := LeafByAbi[t.Builtin]
		v := a.g.Value(l.RT).Interface()
		in = v
		switch x := v.(type) {
		case chain.Uint64:
			if r.Chance(1, 2) {
				in = uint64(x)
			}
		case chain.Bytes:
			if len(x) == 0 && r.Chance(1, 3) {
				x = nil
				in = x
			}
			if r.Chance(1, 2) {
				in = []byte(x)
			}
		}
		return in, v, l.Ref(v)
	}
	switch t.Def.Kind {
	case 's':
		return a.genStruct(t.Def, depth+1, nil)
	case 'v':
		i := r.N(len(t.Def.Alts))
		if depth > 6 {
			i = 0
		}
		x, y, e := a.gen(t.Def.Alts[i], depth+1)
		n := t.Def.Alts[i].String()
		return []interface{}{n, x}, []interface{}{n, y}, append(RefVaruint(uint64(i)), e...)
	}
	return a.gen(t.Def.Target, depth+1)
}

// DynDiff compares dynamic values strictly, including their Go types and that lists are lists.
func DynDiff(a, b interface{}, path string) string {
	switch x := a.(type) {
	case nil:
		if b != nil {
			return sprintf("%s: nil vs %T", path, b)
		}
		return ""
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			return sprintf("%s: map vs %T", path, b)
		}
		if len(x) != len(y) {
			return sprintf("%s: %d vs %d fields", path, len(x), len(y))
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return sprintf("%s: field %q missing", path, k)
			}
			if d := DynDiff(v, w, path+"."+k); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok {
			return sprintf("%s: list vs %T", path, b)
		}
		if len(x) != len(y) || (x == nil) != (y == nil) {
			return sprintf("%s: %d vs %d elements (nil: %v, %v)", path, len(x), len(y), x == nil, y == nil)
		}
		for i := range x {
			if d := DynDiff(x[i], y[i], sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	if b == nil {
		return sprintf("%s: %T vs nil", path, a)
	}
	return diff(reflect.ValueOf(a), reflect.ValueOf(b), path)
}
