package h

import (
	"bytes"
	"io"
	"reflect"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

func noEnc(*abi.Encoder, interface{}) (bool, error) { return false, nil }
func noDec(*abi.Decoder, interface{}) (bool, error) { return false, nil }

// Encoders under observation: the chain-aware one, the plain generic one, and a custom one that declines everything.
var encoders = []struct {
	name string
	mk   func(w io.Writer) *abi.Encoder
}{
	{"chain", func(w io.Writer) *abi.Encoder { return chain.NewEncoder(w) }},
	{"plain", func(w io.Writer) *abi.Encoder { return abi.NewEncoder(w, noEnc) }},
	{"custom", func(w io.Writer) *abi.Encoder { return chain.NewCustomEncoder(w, noEnc) }},
}

var decoders = []struct {
	name string
	mk   func(r io.Reader) *abi.Decoder
}{
	{"chain", func(r io.Reader) *abi.Decoder { return chain.NewDecoder(r) }},
	{"plain", func(r io.Reader) *abi.Decoder { return abi.NewDecoder(r, noDec) }},
	{"custom", func(r io.Reader) *abi.Decoder { return chain.NewCustomDecoder(r, noDec) }},
}

func Encode(v interface{}) ([]byte, error) {
	var b bytes.Buffer
	err := chain.NewEncoder(&b).Encode(v)
	return b.Bytes(), err
}

// Decode decodes into a fresh value of type t and returns it with the number of bytes consumed.
func Decode(t reflect.Type, b []byte) (reflect.Value, int, error) {
	r := bytes.NewReader(b)
	p := reflect.New(t)
	err := chain.NewDecoder(r).Decode(p.Interface())
	return p.Elem(), len(b) - r.Len(), err
}

func ptrTo(v reflect.Value) interface{} {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface()
}

func short(v interface{}) string {
	s := sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// panics tells whether f ends in a panic.
func panics(f func()) (rv bool) {
	defer func() { rv = recover() != nil }()
	f()
	return false
}
