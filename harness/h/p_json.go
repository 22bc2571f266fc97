package h

import (
	"bytes"
	"encoding/json"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"
)

func sortedKeys(m map[string]interface{}) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// parseTree reads a JSON document with its numbers as written.
func parseTree(c *C, b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		c.Fail("not JSON: %v: %s", err, tail(string(b), 400))
	}
	if d.More() {
		c.Fail("more than one JSON value: %s", tail(string(b), 400))
	}
	return v
}

type jm = map[string]interface{}
type jl = []interface{}

func jnum(v uint64) interface{} { return json.Number(strconv.FormatUint(v, 10)) }

func refJSONList(n int, f func(i int) interface{}) interface{} {
	l := jl{}
	for i := 0; i < n; i++ {
		l = append(l, f(i))
	}
	return l
}

func refJSONAction(a chain.Action) interface{} {
	return jm{"account": refNameText(uint64(a.Account)), "name": refNameText(uint64(a.Name)),
		"authorization": refJSONList(len(a.Authorization), func(i int) interface{} { return refJSON(reflect.ValueOf(a.Authorization[i])) }),
		"data":          refHex(a.Data)}
}

// refJSON is the JSON tree of a value in the EOSIO shape.
func refJSON(v reflect.Value) interface{} {
	if s, ok := refText(v); ok {
		return s
	}
	strs := func(l []string) interface{} {
		return refJSONList(len(l), func(i int) interface{} { return l[i] })
	}
	switch x := v.Interface().(type) {
	case chain.Uint64:
		if x > 0xffffffff {
			return strconv.FormatUint(uint64(x), 10)
		}
		return jnum(uint64(x))
	case chain.BlockNum:
		return jnum(uint64(x))
	case chain.PermissionLevel:
		return jm{"actor": refNameText(uint64(x.Actor)), "permission": refNameText(uint64(x.Permission))}
	case chain.ExtendedAsset:
		return jm{"quantity": refAssetText(x.Quantity), "contract": refNameText(uint64(x.Contract))}
	case chain.Action:
		return refJSONAction(x)
	case chain.TransactionExtension:
		return jm{"type": jnum(uint64(x.Type)), "data": refHex(x.Data)}
	case chain.TransactionHeader:
		return jm{"expiration": refISO(int64(x.Expiration)*1000, false), "ref_block_num": jnum(uint64(x.RefBlockNum)), "ref_block_prefix": jnum(uint64(x.RefBlockPrefix)),
			"max_net_usage_words": jnum(uint64(x.MaxNetUsageWords)), "max_cpu_usage_ms": jnum(uint64(x.MaxCpuUsageMs)), "delay_sec": jnum(uint64(x.DelaySec))}
	case chain.Transaction:
		m := refJSON(reflect.ValueOf(x.TransactionHeader)).(jm)
		m["context_free_actions"] = refJSONList(len(x.ContextFreeActions), func(i int) interface{} { return refJSONAction(x.ContextFreeActions[i]) })
		m["actions"] = refJSONList(len(x.Actions), func(i int) interface{} { return refJSONAction(x.Actions[i]) })
		m["transaction_extensions"] = refJSONList(len(x.Extensions), func(i int) interface{} { return refJSON(reflect.ValueOf(x.Extensions[i])) })
		return m
	case chain.Abi:
		m := jm{"version": x.Version,
			"types": refJSONList(len(x.Types), func(i int) interface{} {
				return jm{"new_type_name": x.Types[i].NewTypeName, "type": x.Types[i].Type}
			}),
			"structs": refJSONList(len(x.Structs), func(i int) interface{} {
				s := x.Structs[i]
				return jm{"name": s.Name, "base": s.Base, "fields": refJSONList(len(s.Fields), func(j int) interface{} {
					return jm{"name": s.Fields[j].Name, "type": s.Fields[j].Type}
				})}
			}),
			"actions": refJSONList(len(x.Actions), func(i int) interface{} {
				a := x.Actions[i]
				return jm{"name": refNameText(uint64(a.Name)), "type": a.Type, "ricardian_contract": a.RicardianContract}
			}),
			"tables": refJSONList(len(x.Tables), func(i int) interface{} {
				t := x.Tables[i]
				return jm{"name": refNameText(uint64(t.Name)), "index_type": t.IndexType, "key_names": strs(t.KeyNames), "key_types": strs(t.KeyTypes), "type": t.Type}
			}),
			"ricardian_clauses": refJSONList(len(x.RicardianClauses), func(i int) interface{} {
				return jm{"id": x.RicardianClauses[i].Id, "body": x.RicardianClauses[i].Body}
			})}
		if len(x.ErrorMessages) > 0 {
			m["error_messages"] = refJSONList(len(x.ErrorMessages), func(i int) interface{} {
				return jm{"error_code": refJSON(reflect.ValueOf(x.ErrorMessages[i].Code)), "error_msg": x.ErrorMessages[i].Message}
			})
		}
		if len(x.Extensions) > 0 {
			m["abi_extensions"] = refJSONList(len(x.Extensions), func(i int) interface{} {
				return jm{"type": jnum(uint64(x.Extensions[i].Type)), "data": refHex(x.Extensions[i].Data)}
			})
		}
		if len(x.Variants) > 0 {
			m["variants"] = refJSONList(len(x.Variants), func(i int) interface{} {
				return jm{"name": x.Variants[i].Name, "types": strs(x.Variants[i].Types)}
			})
		}
		return m
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return json.Number(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return jnum(v.Uint())
	case reflect.Float32:
		return float32(v.Float())
	case reflect.Float64:
		return v.Float()
	}
	panic("no reference JSON for " + v.Type().String())
}

// refDynJSON is the JSON tree of a dynamic value.
func refDynJSON(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case map[string]interface{}:
		m := jm{}
		for k, e := range x {
			m[k] = refDynJSON(e)
		}
		return m
	case []interface{}:
		return refJSONList(len(x), func(i int) interface{} { return refDynJSON(x[i]) })
	}
	return refJSON(reflect.ValueOf(v))
}

// treeDiff compares a parsed JSON tree with a reference tree; floats are compared by value, other numbers as written.
func treeDiff(got, want interface{}, path string) string {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return sprintf("%s: %T, want an object", path, got)
		}
		for _, k := range sortedKeys(w) {
			e, ok := g[k]
			if !ok {
				return sprintf("%s: field %q missing", path, k)
			}
			if d := treeDiff(e, w[k], path+"."+k); d != "" {
				return d
			}
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				return sprintf("%s: field %q unexpected", path, k)
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok {
			return sprintf("%s: %T, want an array", path, got)
		}
		if len(g) != len(w) {
			return sprintf("%s: %d elements, want %d", path, len(g), len(w))
		}
		for i := range w {
			if d := treeDiff(g[i], w[i], sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case float32:
		n, ok := got.(json.Number)
		f, err := strconv.ParseFloat(string(n), 32)
		if !ok || err != nil || float32(f) != w {
			return sprintf("%s: %v, want %v", path, got, w)
		}
		return ""
	case float64:
		n, ok := got.(json.Number)
		f, err := strconv.ParseFloat(string(n), 64)
		if !ok || err != nil || f != w {
			return sprintf("%s: %v, want %v", path, got, w)
		}
		return ""
	}
	if got != want {
		return sprintf("%s: %T %s, want %T %s", path, got, tail(sprintf("%v", got), 100), want, tail(sprintf("%v", want), 100))
	}
	return ""
}

// render writes a tree as JSON with its own order of fields and spacing.
func renderTree(r *R, v interface{}) string {
	sp := func() string {
		if r.Chance(1, 3) {
			return Pick(r, []string{" ", "\n", "\t", "  "})
		}
		return ""
	}
	switch x := v.(type) {
	case map[string]interface{}:
		ks := sortedKeys(x)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		var l []string
		for _, k := range ks {
			l = append(l, sp()+quoteAnyhow(r, k)+sp()+":"+sp()+renderTree(r, x[k])+sp())
		}
		if r.Chance(1, 4) {
			i := r.N(len(l) + 1)
			l = append(l[:i:i], append([]string{Pick(r, []string{`"unknown_field":[1,{"a":null}]`, `"zz":"x"`, `"hex_data":"00"`})}, l[i:]...)...)
		}
		return "{" + strings.Join(l, ",") + "}"
	case []interface{}:
		var l []string
		for _, e := range x {
			l = append(l, sp()+renderTree(r, e)+sp())
		}
		return "[" + strings.Join(l, ",") + "]"
	case string:
		return quoteAnyhow(r, x)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// quoteAnyhow writes a string as JSON, sometimes with escapes where none are needed. Digits stay as they are:
// numbers in quotes are read without unescaping.
func quoteAnyhow(r *R, s string) string {
	q, _ := json.Marshal(s)
	if !r.Chance(1, 8) {
		return string(q)
	}
	var b strings.Builder
	b.WriteByte('"')
	every := 1 + r.N(4)
	for _, x := range s {
		switch {
		case x == '/' && r.Chance(1, 2):
			b.WriteString(`\/`)
		case x < 0x80 && (x < '0' || x > '9') && (x == '"' || x == '\\' || x < 0x20 || r.Chance(1, every)):
			b.WriteString(sprintf(Pick(r, []string{`\u%04x`, `\u%04X`}), x))
		default:
			b.WriteRune(x)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// dropEmpty removes the lists of an ABI document that are left out when empty.
func dropEmpty(v interface{}) interface{} {
	if m, ok := v.(map[string]interface{}); ok {
		for _, k := range []string{"error_messages", "abi_extensions", "variants"} {
			if l, ok := m[k].([]interface{}); ok && len(l) == 0 {
				delete(m, k)
			}
		}
	}
	return v
}

func jsonDoc(c *C, t reflect.Type, v reflect.Value) {
	want := refJSON(v)
	norm := func(b []byte) interface{} {
		x := parseTree(c, b)
		if t == reflect.TypeOf(chain.Abi{}) {
			return dropEmpty(x)
		}
		return x
	}
	for pos, j := range jsonForms(c, v) {
		if d := treeDiff(norm(j), want, ""); d != "" {
			c.Fail("JSON of %v as %s: %s\n%s", t, pos, d, tail(string(j), 500))
		}
	}
	c.Event("JSON documents compared", 9)
	j, err := json.Marshal(v.Interface())
	if err != nil {
		c.Fail("marshalling: %v", err)
	}
	c.Sample("%v %s", t, j)
	for i, doc := range []string{string(j), renderTree(c.R, want)} {
		c.Desc("%v from %s", t, tail(doc, 1500))
		p := reflect.New(t)
		if err := json.Unmarshal([]byte(doc), p.Interface()); err != nil {
			c.Fail("unmarshalling: %v", err)
		}
		if d := diff(p.Elem(), v, ""); d != "" {
			c.Fail("unmarshalled value differs: %s", d)
		}
		c.Event("JSON documents parsed", 1)
		if i == 1 && (t == reflect.TypeOf(chain.Transaction{}) || t == reflect.TypeOf(chain.Abi{}) || c.R.Chance(1, 4)) {
			// through binary and back to JSON
			e, err := Encode(p.Interface())
			if err != nil {
				c.Fail("encoding: %v", err)
			}
			if !bytes.Equal(e, Ref(v, nil)) {
				c.Fail("the value from JSON encodes to %s, want %s", Hex(e), Hex(Ref(v, nil)))
			}
			b, _, err := Decode(t, e)
			if err != nil {
				c.Fail("decoding: %v", err)
			}
			j2, err := json.Marshal(b.Interface())
			if err != nil {
				c.Fail("marshalling what came from binary: %v", err)
			}
			if d := treeDiff(norm(j2), want, ""); d != "" {
				c.Fail("JSON after a binary round trip: %s", d)
			}
			if !bytes.Equal(j, j2) {
				c.Fail("JSON before and after a binary round trip: %s and %s", tail(string(j), 800), tail(string(j2), 800))
			}
			c.Event("JSON-binary-JSON round trips", 1)
		}
	}
}

var txAbi = chain.Abi{Version: "eosio::abi/1.1",
	Structs: []chain.AbiStruct{
		{Name: "permission_level", Fields: []chain.AbiField{{Name: "actor", Type: "name"}, {Name: "permission", Type: "name"}}},
		{Name: "action", Fields: []chain.AbiField{{Name: "account", Type: "name"}, {Name: "name", Type: "name"}, {Name: "authorization", Type: "permission_level[]"}, {Name: "data", Type: "bytes"}}},
		{Name: "extension", Fields: []chain.AbiField{{Name: "type", Type: "uint16"}, {Name: "data", Type: "bytes"}}},
		{Name: "transaction_header", Fields: []chain.AbiField{{Name: "expiration", Type: "time_point_sec"}, {Name: "ref_block_num", Type: "uint16"}, {Name: "ref_block_prefix", Type: "uint32"},
			{Name: "max_net_usage_words", Type: "varuint32"}, {Name: "max_cpu_usage_ms", Type: "uint8"}, {Name: "delay_sec", Type: "varuint32"}}},
		{Name: "transaction", Base: "transaction_header", Fields: []chain.AbiField{{Name: "context_free_actions", Type: "action[]"}, {Name: "actions", Type: "action[]"}, {Name: "transaction_extensions", Type: "extension[]"}}},
		{Name: "extasset", Fields: []chain.AbiField{{Name: "quantity", Type: "asset"}, {Name: "contract", Type: "name"}}},
	}}

func init() {
	docs := []string{"Action", "Transaction", "TransactionHeader", "TransactionExtension", "PermissionLevel", "ExtendedAsset", "Abi"}
	mk := func(c *C, n string, big bool) reflect.Value {
		g := NewG(c.R)
		g.Text, g.NoBig, g.Budget = true, !big, 1200
		v := reflect.New(LeafByName[n].RT).Elem()
		v.Set(g.Value(LeafByName[n].RT))
		return v
	}
	Register(&Prop{ID: "C23", MinEvents: 10000,
		Rule:        "a case is one document or dynamic value; its JSON is parsed and compared as a tree with an independently built one, and parsed back from reordered, respaced and escaped JSON; non-trivial if the document is new",
		Assumptions: []string{"strings are valid UTF-8 and floats finite, as JSON requires; lists are not nil", "empty lists an ABI document leaves out may also be written as empty"},
		Cats: []Category{
			{"documents", 8000, 300000, func(c *C) {
				n := docs[c.Idx%len(docs)]
				v := mk(c, n, c.R.Chance(1, 20))
				c.Desc("%s %s", n, short(v.Interface()))
				c.DistinctBytes(n, Ref(v, nil))
				jsonDoc(c, v.Type(), v)
			}},
			{"empty documents", 70, 700, func(c *C) {
				// one list at a time left empty
				n := docs[c.Idx%len(docs)]
				v := mk(c, n, false)
				for i := 0; i < v.NumField(); i++ {
					if v.Field(i).Kind() == reflect.Slice && (c.Idx < 7 || c.R.Chance(1, 2)) {
						v.Field(i).Set(reflect.MakeSlice(v.Field(i).Type(), 0, 0))
					}
				}
				c.Desc("%s %s", n, short(v.Interface()))
				c.DistinctBytes(n, Ref(v, nil))
				jsonDoc(c, v.Type(), v)
			}},
			{"dynamic values", 4000, 150000, func(c *C) {
				a := NewAGen(c.R)
				a.g.NoBig, a.g.Text = true, true
				ab := transport(c, a.Abi)
				c.Desc("abi %s", tail(abiDoc(ab), 1500))
				for i := 0; i < 4; i++ {
					k := a.Case()
					c.DistinctBytes(k.Type.String()+abiDoc(ab), k.Enc)
					v, err := ab.Decode(bytes.NewReader(k.Enc), k.Type.String())
					if err != nil {
						c.Fail("decoding %s: %v", k.Type, err)
					}
					j, err := json.Marshal(v)
					if err != nil {
						c.Fail("marshalling %s: %v", k.Type, err)
					}
					c.Sample("%s", j)
					if d := treeDiff(parseTree(c, j), refDynJSON(k.Out), ""); d != "" {
						c.Fail("JSON of %s: %s in %s", k.Type, d, tail(string(j), 500))
					}
					c.Event("dynamic values compared", 1)
				}
			}},
			{"dynamic builtins", 4000, 150000, func(c *C) {
				n := abiBuiltins[c.Idx%len(abiBuiltins)]
				a := &AGen{g: NewG(c.R)}
				a.g.NoBig, a.g.Text = true, true
				for _, t := range []AT{{Builtin: n}, {Builtin: n, Array: true}, {Builtin: n, Opt: true}} {
					k := a.CaseOf(t)
					c.DistinctBytes(t.String(), k.Enc)
					c.Desc("%s %s", t, Hex(k.Enc))
					v, err := chain.Abi{}.Decode(bytes.NewReader(k.Enc), t.String())
					if err != nil {
						c.Fail("decoding: %v", err)
					}
					j, err := json.Marshal(v)
					if err != nil {
						c.Fail("marshalling: %v", err)
					}
					if d := treeDiff(parseTree(c, j), refDynJSON(k.Out), ""); d != "" {
						c.Fail("JSON: %s in %s", d, tail(string(j), 500))
					}
					c.Event("dynamic values compared", 1)
				}
			}},
			{"typed and dynamic", 3000, 100000, func(c *C) {
				n := Pick(c.R, []string{"Transaction", "Action", "PermissionLevel", "TransactionHeader", "TransactionExtension", "ExtendedAsset"})
				tn := map[string]string{"Transaction": "transaction", "Action": "action", "PermissionLevel": "permission_level", "TransactionHeader": "transaction_header", "TransactionExtension": "extension", "ExtendedAsset": "extasset"}[n]
				v := mk(c, n, false)
				e := Ref(v, nil)
				c.Desc("%s %s", n, Hex(e))
				c.DistinctBytes("td"+n, e)
				d, err := txAbi.Decode(bytes.NewReader(e), tn)
				if err != nil {
					c.Fail("decoding by ABI: %v", err)
				}
				j1, err1 := json.Marshal(d)
				j2, err2 := json.Marshal(v.Interface())
				if err1 != nil || err2 != nil {
					c.Fail("marshalling: %v, %v", err1, err2)
				}
				if df := treeDiff(parseTree(c, j1), parseTree(c, j2), ""); df != "" {
					c.Fail("dynamic and typed JSON: %s", df)
				}
				c.Event("typed and dynamic compared", 1)
			}},
		}})
}
