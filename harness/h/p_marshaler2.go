package h

import (
	"math"
	"reflect"

	"github.com/greymass/go-eosio/pkg/abi"
)

// Numbers of the other kinds with their own format, a mark and the complement of the bits.

func writeBits(e *abi.Encoder, mark byte, v uint64) error {
	if err := writeMark(e, mark); err != nil {
		return err
	}
	return e.WriteUint64(^v)
}

func readBits(d *abi.Decoder, mark byte) (uint64, error) {
	if err := readMark(d, mark); err != nil {
		return 0, err
	}
	v, err := d.ReadUint64()
	return ^v, err
}

type MI8 int8

func (m MI8) MarshalABI(e *abi.Encoder) error { return writeBits(e, 0xc1, uint64(m)) }

func (m *MI8) UnmarshalABI(d *abi.Decoder) error {
	v, err := readBits(d, 0xc1)
	*m = MI8(v)
	return err
}

type MI16 int16

func (m MI16) MarshalABI(e *abi.Encoder) error { return writeBits(e, 0xc2, uint64(m)) }

func (m *MI16) UnmarshalABI(d *abi.Decoder) error {
	v, err := readBits(d, 0xc2)
	*m = MI16(v)
	return err
}

type MU16 uint16

func (m MU16) MarshalABI(e *abi.Encoder) error { return writeBits(e, 0xc3, uint64(m)) }

func (m *MU16) UnmarshalABI(d *abi.Decoder) error {
	v, err := readBits(d, 0xc3)
	*m = MU16(v)
	return err
}

type MI32 int32

func (m MI32) MarshalABI(e *abi.Encoder) error { return writeBits(e, 0xc4, uint64(m)) }

func (m *MI32) UnmarshalABI(d *abi.Decoder) error {
	v, err := readBits(d, 0xc4)
	*m = MI32(v)
	return err
}

type MI64 int64

func (m MI64) MarshalABI(e *abi.Encoder) error { return writeBits(e, 0xc5, uint64(m)) }

func (m *MI64) UnmarshalABI(d *abi.Decoder) error {
	v, err := readBits(d, 0xc5)
	*m = MI64(v)
	return err
}

type MInt int

func (m MInt) MarshalABI(e *abi.Encoder) error { return writeBits(e, 0xc6, uint64(m)) }

func (m *MInt) UnmarshalABI(d *abi.Decoder) error {
	v, err := readBits(d, 0xc6)
	*m = MInt(v)
	return err
}

type MUint uint

func (m MUint) MarshalABI(e *abi.Encoder) error { return writeBits(e, 0xc7, uint64(m)) }

func (m *MUint) UnmarshalABI(d *abi.Decoder) error {
	v, err := readBits(d, 0xc7)
	*m = MUint(v)
	return err
}

type MF32 float32

func (m MF32) MarshalABI(e *abi.Encoder) error {
	return writeBits(e, 0xc8, uint64(math.Float32bits(float32(m))))
}

func (m *MF32) UnmarshalABI(d *abi.Decoder) error {
	v, err := readBits(d, 0xc8)
	*m = MF32(math.Float32frombits(uint32(v)))
	return err
}

type MF64 float64

func (m MF64) MarshalABI(e *abi.Encoder) error {
	return writeBits(e, 0xc9, uint64(math.Float64bits(float64(m))))
}

func (m *MF64) UnmarshalABI(d *abi.Decoder) error {
	v, err := readBits(d, 0xc9)
	*m = MF64(math.Float64frombits(uint64(v)))
	return err
}

// marBits are these types and their marks.
var marBits = map[reflect.Type]byte{reflect.TypeOf(MI8(0)): 0xc1, reflect.TypeOf(MI16(0)): 0xc2, reflect.TypeOf(MU16(0)): 0xc3, reflect.TypeOf(MI32(0)): 0xc4, reflect.TypeOf(MI64(0)): 0xc5, reflect.TypeOf(MInt(0)): 0xc6, reflect.TypeOf(MUint(0)): 0xc7, reflect.TypeOf(MF32(0)): 0xc8, reflect.TypeOf(MF64(0)): 0xc9}

func refBits(v reflect.Value) []byte {
	var x uint64
	switch {
	case v.CanInt():
		x = uint64(v.Int())
	case v.CanUint():
		x = v.Uint()
	case v.Kind() == reflect.Float32:
		x = uint64(math.Float32bits(float32(v.Float())))
	default:
		x = math.Float64bits(v.Float())
	}
	return append([]byte{marBits[v.Type()]}, le(^x, 8)...)
}
