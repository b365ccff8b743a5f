package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"

	"vsim/zmodel"
)

// offset is what an array with offsets reports about an element.
type offset struct {
	Index int
	Pos   int64
}

// offsetArrays drives an array whose elements have offsets: everyone starts at
// a byte, and its position is reported.
func (r *Run) offsetArrays() *Violation {
	t := ztype.ArrayTraits
	s := r.S
	num := func() uint64 { return s.U64() >> uint(s.N(64)) }
	text := func() string {
		b := make([]byte, s.Small(12))
		for i := range b {
			b[i] = byte('a' + s.N(26))
		}
		return string(b)
	}
	putText := func(b *zmodel.Bits, v string) {
		b.Put(uint64(len(v)), 8)
		for _, c := range []byte(v) {
			b.Put(uint64(c), 8)
		}
	}
	switch s.N(9) {
	case 0:
		return offsets(r, t.UInt8, func() uint8 { return uint8(num()) }, func(b *zmodel.Bits, v uint8) { b.Put(uint64(v), 8) }, true)
	case 1:
		n := 1 + s.N(32)
		return offsets(r, ztype.GetBitFieldArrayTraits[uint32](uint8(n)), func() uint32 { return uint32(num() & (1<<uint(n) - 1)) }, func(b *zmodel.Bits, v uint32) { b.Put(uint64(v), n) }, true)
	case 2:
		n := 1 + s.N(64)
		return offsets(r, ztype.GetSignedBitFieldArrayTraits[int64](uint8(n)), func() int64 { return int64(s.U64()) >> uint(64-n+s.N(n)) }, func(b *zmodel.Bits, v int64) { b.Put(uint64(v), n) }, true)
	case 3:
		return offsets(r, t.Bool, func() bool { return s.N(2) == 1 }, func(b *zmodel.Bits, v bool) {
			if v {
				b.Put(1, 1)
			} else {
				b.Put(0, 1)
			}
		}, false)
	case 4:
		return offsets(r, t.String, text, putText, false)
	case 5:
		return offsets(r, t.Float64, func() float64 { return float64(int64(s.U64())) }, func(b *zmodel.Bits, v float64) { b.Put(math.Float64bits(v), 64) }, false)
	case 6:
		return offsets(r, t.Float32, func() float32 { return float32(int32(s.U64())) }, func(b *zmodel.Bits, v float32) { b.Put(uint64(math.Float32bits(v)), 32) }, false)
	case 7:
		return offsets(r, t.VarUInt16, func() uint16 { return uint16(num() & 0x7fff) }, func(b *zmodel.Bits, v uint16) {
			if v < 128 {
				b.Put(uint64(v), 8)
			} else {
				b.Put(uint64(v>>8|0x80), 8)
				b.Put(uint64(v), 8)
			}
		}, true)
	default:
		return offsets(r, t.UInt64, func() uint64 { return num() }, func(b *zmodel.Bits, v uint64) { b.Put(v, 64) }, true)
	}
}

func offsets[T any, Y ztype.IArrayTraits[T]](r *Run, traits Y, draw func() T, put func(*zmodel.Bits, T), packable bool) *Violation {
	s := r.S
	p, n, auto := s.Small(40), s.Small(30), s.P(50)
	var data zmodel.Bits
	data.Put(s.U64(), p)
	if auto {
		data.Put(uint64(n), 8)
	}
	vals := make([]T, 0)
	var want []offset
	var starts []int
	for i := 0; i < n; i++ {
		for data.N%8 != 0 {
			data.Put(0, 1)
		}
		want = append(want, offset{i, int64(data.N)})
		starts = append(starts, data.N)
		v := draw()
		vals = append(vals, v)
		put(&data, v)
		if k := traits.InitializeOffsets(starts[i], v); k != data.N {
			return vio("offset", "the end of %v at bit %d is announced at %d, not %d", v, starts[i], k, data.N)
		}
	}
	what := fmt.Sprintf("%T of %v at bit %d, auto %v", traits, vals, p, auto)
	r.trace("%s", what)
	r.count("arrays with offsets", 1)
	r.Nontriv = r.Nontriv || n > 0
	var checked, set []offset
	check := ztype.WithCheckOffsetMethod[T, Y](func(i int, pos int64) { checked = append(checked, offset{i, pos}) })
	mark := ztype.WithSetOffsetMethod[T, Y](func(i int, pos int64) { set = append(set, offset{i, pos}) })
	read := func(b []byte, f Fault, packed bool) (*ztype.Array[T, Y], int, error) {
		checked = nil
		src := &Source{Data: b, F: f}
		if s.P(40) {
			src.Chunks = []int{1 + s.N(3), s.N(4)}
		}
		br := zstream.NewReader(src)
		if err := skip(br, p); err != nil {
			return nil, 0, err
		}
		size := n
		if auto {
			size = 0
		}
		var a *ztype.Array[T, Y]
		err := guard(func() (err error) {
			a, err = ztype.ArrayFromReader[T, Y](br, traits, size, packed, auto, check, mark)
			return
		})
		return a, readPos(br), err
	}
	if len(data.B) > 0 && s.P(40) {
		// The input fails, and is read again afterwards.
		f := Fault{Kind: []string{"eof", "error"}[s.N(2)], At: s.N(len(data.B)), Err: errIO}
		_, _, err := read(data.B, f, false)
		if err == nil || isPanic(err) {
			return vio("offset-fault", "reading %s from a source with %s: %v", what, f, err)
		}
		if len(checked) > len(want) || len(checked) > 0 && !reflect.DeepEqual(checked, want[:len(checked)]) {
			return vio("offset", "reading %s with %s reports %v, not %v", what, f, checked, want)
		}
		for _, c := range checked {
			if c.Pos > int64(f.At)*8 {
				return vio("ahead", "reading %s with %s reports an element at %d", what, f, c.Pos)
			}
		}
		r.count("fault "+f.Kind, 1)
	}
	a, pos, err := read(data.B, Fault{}, false)
	if err != nil {
		return vio("offset-error", "reading %s: %v", what, err)
	}
	if pos != data.N || !reflect.DeepEqual(a.RawArray, vals) {
		return vio("offset-value", "reading %s ends at bit %d, not %d, with %v", what, pos, data.N, a.RawArray)
	}
	if !reflect.DeepEqual(checked, want) {
		return vio("offset", "reading %s reports %v, not %v", what, checked, want)
	}
	// Write it, perhaps packed.
	a.IsPacked = packable && s.P(40)
	write := func(f Fault) ([]byte, int, error) {
		checked = nil
		sink := &Sink{F: f}
		w := zstream.NewWriter(sink)
		err := skipOut(w, &data, p)
		if err == nil {
			err = guard(func() error { return a.MarshalZserio(w) })
		}
		end := int(w.BitPosition())
		if err == nil {
			err = guard(w.Close)
		}
		return sink.Got, end, err
	}
	if s.P(40) {
		f := Fault{Kind: []string{"error", "full", "short", "transient"}[s.N(4)], At: s.N(len(data.B) + 1), Err: errFull}
		b, _, err := write(f)
		if isPanic(err) {
			return vio("offset-fault", "writing %s with %s: %v", what, f, err)
		}
		if err == nil && f.At < len(b) && !a.IsPacked {
			return vio("fault-hidden", "writing %s with %s succeeds", what, f)
		}
		for _, c := range checked {
			if c.Pos > int64(len(b)*8) {
				return vio("ahead", "writing %s with %s reports an element at %d, but only %d bytes were accepted", what, f, c.Pos, len(b))
			}
		}
		r.count("fault "+f.Kind, 1)
	}
	size := -1
	if err := guard(func() (err error) { size, err = a.ZserioBitSize(p); return }); err != nil {
		return vio("offset-error", "size of %s: %v", what, err)
	}
	b, end, err := write(Fault{})
	if err != nil {
		return vio("offset-error", "writing %s: %v", what, err)
	}
	if end-p != size {
		return vio("offset-size", "%s (packed %v) takes %d bits, announced are %d", what, a.IsPacked, end-p, size)
	}
	if !a.IsPacked {
		if end != data.N || string(b) != string(data.B) {
			return vio("offset-content", "%s is written as %x (%d bits), not %x (%d)", what, b, end, data.B, data.N)
		}
		if !reflect.DeepEqual(checked, want) {
			return vio("offset", "writing %s reports %v, not %v", what, checked, want)
		}
		return nil
	}
	written := checked
	if len(written) != n {
		return vio("offset", "writing %s packed reports %v", what, written)
	}
	for i, c := range written {
		if c.Index != i || c.Pos%8 != 0 || i > 0 && c.Pos < written[i-1].Pos || c.Pos > int64(end) {
			return vio("offset", "writing %s packed reports %v", what, written)
		}
	}
	again, pos, err := read(b, Fault{}, true)
	if err != nil {
		return vio("offset-error", "reading packed %s: %v", what, err)
	}
	if pos != end || !reflect.DeepEqual(again.RawArray, vals) || !reflect.DeepEqual(checked, written) && n > 0 {
		return vio("offset-value", "reading packed %s ends at bit %d, not %d, with %v, and reports %v, not %v", what, pos, end, again.RawArray, checked, written)
	}
	r.count("packed arrays with offsets", 1)
	return nil
}

// skipOut writes the first n bits of b.
func skipOut(w *zstream.BitWriter, b *zmodel.Bits, n int) error {
	for i := 0; i < n; i++ {
		if err := w.WriteBool(b.At(i) == 1); err != nil {
			return err
		}
	}
	return nil
}
