package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/crc32"
	"math/bits"
	"reflect"
	"runtime"

	"github.com/woven-planet/go-zserio/zstream"

	"vsim/simrt"
	"vsim/zmodel"
)

// damage alters bytes as storage and transport do.
func (r *Run) damage(b []byte) []byte {
	b = append([]byte{}, b...)
	kinds := []string{"flip", "set", "cut", "extend", "delete", "repeat", "swap", "big length", "ones"}
	for k := 1 + r.S.Small(4); k > 0; k-- {
		kind := kinds[r.S.N(len(kinds))]
		n := len(b)
		if n == 0 && kind != "extend" {
			continue
		}
		r.count("damage "+kind, 1)
		switch kind {
		case "flip":
			i := r.S.N(n * 8)
			b[i/8] ^= 0x80 >> (i % 8)
		case "set":
			b[r.S.N(n)] = byte(r.S.U64())
		case "cut":
			b = b[:r.S.N(n)]
		case "extend":
			for i := 1 + r.S.N(6); i > 0; i-- {
				b = append(b, byte(r.S.U64()))
			}
		case "delete":
			i := r.S.N(n)
			j := min(n, i+1+r.S.N(4))
			b = append(b[:i], b[j:]...)
		case "repeat":
			i := r.S.N(n)
			j := min(n, i+1+r.S.N(8))
			b = append(b[:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case "swap":
			i, j := r.S.N(n), r.S.N(n)
			b[i], b[j] = b[j], b[i]
		case "big length":
			// A varsize at any bit offset: up to five bytes with large values.
			p := r.S.N(n * 8)
			v := [][]byte{{0x87, 0xff, 0xff, 0xff, 0xff}, {0x83, 0xff, 0xff, 0xff, 0x00}, {0xff, 0x7f}, {0xff, 0xff, 0x7f}, {0x8f, 0xff, 0xff, 0x7f}, {0x81, 0x80, 0x80, 0x00}, {0xff}}[r.S.N(7)]
			for i := 0; i < len(v)*8 && p+i < n*8; i++ {
				m := byte(0x80 >> ((p + i) % 8))
				b[(p+i)/8] &^= m
				if v[i/8]>>(7-i%8)&1 != 0 {
					b[(p+i)/8] |= m
				}
			}
		case "ones":
			i := r.S.N(n)
			for j := i; j < min(n, i+1+r.S.N(6)); j++ {
				b[j] = 0xff
			}
		}
	}
	return b
}

// input draws an input: a damaged encoding, or anything.
func (r *Run) input() (Msg, []byte, bool) {
	m := r.messageOf(r.W.Roots, 30, false)
	if r.S.P(8) {
		var b []byte
		for k := r.S.N(60); k > 0; k-- {
			b = append(b, byte(r.S.U64()))
		}
		r.count("damage random", 1)
		return m, b, true
	}
	enc := &zmodel.Enc{PackMode: r.S.N(4)}
	if err := enc.Encode(m.D, m.V); err != nil {
		panic(err)
	}
	return m, r.damage(enc.Out.B), true
}

const maxObjects = 20000

// refDecode tells how far the reference gets.
func refDecode(m Msg, b []byte) (objects int, limited bool, err error) {
	d, limited, err := refDecodeMax(m, b, maxObjects)
	return d.Objects, limited, err
}

func refDecodeMax(m Msg, b []byte, most int) (d *zmodel.Dec, limited bool, err error) {
	d = zmodel.NewDec(&zmodel.Bits{B: b, N: len(b) * 8}, 0)
	d.Max = most
	_, err = d.Decode(m.D, nil)
	return d, errors.Is(err, zmodel.ErrLimit), err
}

// late draws an input that announces far more than arrives, of which a lot does.
func (r *Run) late() (Msg, []byte) {
	m := r.messageOf(r.W.Roots, 30, false)
	enc := &zmodel.Enc{PackMode: r.S.N(4)}
	if err := enc.Encode(m.D, m.V); err != nil {
		panic(err)
	}
	if len(enc.Lengths) == 0 {
		return m, enc.Out.B
	}
	l := enc.Lengths[r.S.N(len(enc.Lengths))]
	in := &zmodel.Bits{}
	in.Append(&enc.Out, 0, l.At)
	in.Put([]uint64{0x87ffffffff, 0x83ffffff00, 0x81c0800001}[r.S.N(3)], 40)
	if r.S.P(30) {
		in.Append(&enc.Out, l.End, enc.Out.N)
	}
	n := r.S.N(1 << r.S.N(20))
	var b []byte
	switch seed := r.S.U64(); r.S.N(3) {
	case 0:
		b = make([]byte, n)
	case 1:
		b = bytes.Repeat([]byte{byte(seed)}, n)
	default:
		b = noise(n, seed)
	}
	in.Append(&zmodel.Bits{B: b, N: n * 8}, 0, n*8)
	r.count("late damage", 1)
	return m, in.B
}

// noise makes random bytes.
func noise(n int, seed uint64) []byte {
	b := make([]byte, n)
	for i := range b {
		seed = seed*6364136223846793005 + 1442695040888963407
		b[i] = byte(seed >> 56)
	}
	return b
}

func c05(r *Run) *Violation {
	m, b, _ := r.input()
	r.trace("input %x", b)
	objects, limited, referr := refDecode(m, b)
	if limited {
		r.count("skipped: too many elements", 1)
		return nil
	}
	if referr == nil {
		r.count("still decodable", 1)
	}
	r.Nontriv = true
	o := fresh(m.D)
	_, rd := r.source(b, Fault{})
	r.trace("%d elements, %v", objects, referr)
	limit := int64(100000 + 5000*objects)
	simrt.Reset(limit, 1<<30)
	err := guard(func() error { return o.UnmarshalZserio(zstream.NewReader(rd)) })
	r.count("steps", simrt.Steps)
	if err != nil {
		if steps, alloc := overrun(err); steps {
			return vio("too-many-steps", "no end after %d steps; the input has %d elements", limit, objects).of(m)
		} else if alloc {
			r.count("skipped: memory", 1)
			return nil
		}
		if isPanic(err) {
			return vio("panic", "decoding %d damaged bytes: %v", len(b), err).of(m)
		}
		r.count("ends in an error", 1)
		return nil
	}
	r.count("ends in a value", 1)
	simrt.Reset(4*limit, 1<<30)
	if err := guard(func() error { _, err := o.ZserioBitSize(0); return err }); isPanic(err) {
		if s, a := overrun(err); !s && !a {
			return vio("panic-size", "measuring a decoded value: %v", err).of(m)
		}
	}
	simrt.Reset(4*limit, 1<<30)
	if _, _, err := encode(o); isPanic(err) {
		if s, a := overrun(err); !s && !a {
			return vio("panic-encode", "encoding a decoded value: %v", err).of(m)
		}
	}
	return nil
}

var sizes = map[reflect.Type]int64{}

// widest is the size of the largest element type in a type.
func widest(t reflect.Type) int64 {
	if n, ok := sizes[t]; ok {
		return n
	}
	sizes[t] = int64(t.Size())
	n := int64(t.Size())
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice:
		n = max(n, widest(t.Elem()))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			n = max(n, widest(t.Field(i).Type))
		}
	}
	sizes[t] = n
	return n
}

func c06(r *Run) *Violation {
	var m Msg
	var b []byte
	if r.S.P(5) {
		m, b = r.late()
	} else {
		m, b, _ = r.input()
	}
	if len(b) < 2000 {
		r.trace("input %x", b)
	} else {
		r.trace("input %x and %d bytes more, sum %08x", b[:2000], len(b)-2000, crc32.ChecksumIEEE(b))
	}
	most := maxObjects
	if len(b) > 1<<16 {
		most = 10 * maxObjects
	}
	ref, limited, referr := refDecodeMax(m, b, most)
	objects := ref.Objects
	r.trace("%d elements, %v", objects, referr)
	if limited {
		r.count("skipped: too many elements", 1)
		return nil
	}
	r.Nontriv = true
	o := fresh(m.D)
	src := &Source{Data: b}
	allowed := int64(1<<20) + 4096*int64(len(b)) + 8*int64(objects)*(64+widest(reflect.TypeOf(o).Elem()))
	// Every array and every element may claim a fixed amount in advance.
	each := 8192 + 128*widest(reflect.TypeOf(o).Elem())
	allowed = min(allowed, 1<<20+64*int64(len(b))+int64(objects+ref.Arrays+1)*each)
	simrt.Reset(int64(100000+5000*objects+64*len(b)), allowed)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	err := guard(func() error { return o.UnmarshalZserio(zstream.NewReader(src)) })
	runtime.ReadMemStats(&after)
	if _, alloc := overrun(err); alloc {
		return vio("announced", "%d bytes of input make the decoder ask for %d bytes at once, %d are proportionate", len(b), simrt.AllocMax, allowed).of(m)
	}
	if used := int64(after.TotalAlloc - before.TotalAlloc); used > allowed {
		return vio("announced-total", "%d bytes of input make the decoder allocate %d bytes, %d are proportionate", len(b), used, allowed).of(m)
	}
	if err != nil {
		r.count("ends in an error", 1)
	} else {
		r.count("ends in a value", 1)
	}
	return nil
}

func c09(r *Run) *Violation {
	simrt.Reset(0, 0)
	m := r.messageOf(r.W.Roots, 40, true)
	o := m.Obj()
	var ps []int
	for k := 1 + r.S.N(6); k > 0; k-- {
		ps = append(ps, r.S.Small(520))
	}
	for i, p := range ps {
		if r.S.P(20) {
			o = m.Obj()
		}
		var n int
		err := guard(func() (err error) { n, err = o.ZserioBitSize(p); return })
		if err != nil {
			return vio("size-error", "size of a valid message at bit %d: %v", p, err).of(m)
		}
		bits, err := encodeAt(o, p)
		if err != nil {
			return vio("encode-error", "valid message at bit %d: %v", p, err).of(m)
		}
		r.count("sizes", 1)
		r.Nontriv = r.Nontriv || bits.N > 0
		if far := zmodel.Period << uint(r.S.N(36)); r.S.P(20) {
			// Alignments repeat, so the size is the same far behind in a stream.
			var k int
			err := guard(func() (err error) { k, err = o.ZserioBitSize(p + far); return })
			if err != nil || k != bits.N {
				return vio("size-far", "announced are %d bits at bit offset %d (%v), but written %d at offset %d", k, p+far, err, bits.N, p).of(m)
			}
			r.count("far sizes", 1)
		}
		if n != bits.N {
			return vio("size-differs", "announced are %d bits at bit offset %d, written are %d", n, p, bits.N).of(m)
		}
		if r.S.N(10000) == 9999 {
			// Really there.
			base := zmodel.Period << 24
			w := zstream.NewWriter(&Sink{Before: base / 8})
			err := guard(func() error {
				return far(base/8, func(b []byte) (int, error) { return w.Write(b) })
			})
			for left := p; left > 0 && err == nil; left -= min(left, 64) {
				err = w.WriteBits(0, uint8(min(left, 64)))
			}
			if err == nil {
				err = guard(func() error { return o.MarshalZserio(w) })
			}
			if k := int(w.BitPosition()) - base - p; err != nil || k != bits.N {
				return vio("size-far", "written are %d bits at bit offset %d (%v), but %d at offset %d", k, p+base, err, bits.N, p).of(m)
			}
			r.count("far positions", 1)
		}
		if i == 0 {
			// A destination with exactly the announced room.
			room := (p + n + 7) / 8
			sink := &Sink{F: Fault{Kind: "full", At: room, Err: errFull}}
			w := zstream.NewWriter(sink)
			for left := p; left > 0; left -= min(left, 64) {
				w.WriteBits(0, uint8(min(left, 64)))
			}
			err := guard(func() error { return o.MarshalZserio(w) })
			if err == nil {
				err = guard(w.Close)
			}
			if err != nil {
				return vio("full", "a destination with the announced room of %d bytes fills up: %v", room, err).of(m)
			}
			if len(sink.Got) != room {
				return vio("left-over", "a destination with the announced room of %d bytes gets %d", room, len(sink.Got)).of(m)
			}
			r.count("exact destinations", 1)
		}
	}
	return nil
}

func c10(r *Run) *Violation {
	simrt.Reset(0, 0)
	g := &zmodel.Gen{S: r.S, Budget: []int{30, 80, 300}[r.S.N(3)]}
	if r.S.N(300) == 299 {
		g.Vast = true
		r.count("vast arrays", 1)
	}
	m := r.generate(r.W.Packed[r.S.N(len(r.W.Packed))], g)
	p := r.S.Small(40)
	o := m.Obj()
	plain := &zmodel.Enc{Plain: true}
	plain.Out.Put(0, p)
	if err := plain.Encode(m.D, m.V); err != nil {
		panic(err)
	}
	packed := &zmodel.Enc{}
	packed.Out.Put(0, p)
	if err := packed.Encode(m.D, m.V); err != nil {
		panic(err)
	}
	r.count("elements", int64(packed.Elements))
	r.count("descriptors", int64(packed.Descriptors))
	r.Nontriv = packed.Descriptors > 0
	// A transport that faults first.
	for k := r.S.Small(3); k > 0; k-- {
		sink := &Sink{F: r.sinkFault((packed.Out.N + 7) / 8)}
		w := zstream.NewWriter(sink)
		err := guard(func() error { return o.MarshalZserio(w) })
		if isPanic(err) {
			return vio("panic", "%v", err).of(m)
		}
		guard(w.Close)
		r.count("failed sends", 1)
	}
	got, err := encodeAt(o, p)
	if err != nil {
		return vio("encode-error", "%v", err).of(m)
	}
	all := &zmodel.Bits{}
	all.Put(0, p)
	all.Append(got, 0, got.N)
	allow := plain.Out.N - p + packed.Descriptors + packed.Aligned
	if got.N > allow {
		return vio("larger", "packed %d bits, plain %d bits and %d descriptors", got.N, plain.Out.N-p, packed.Descriptors).of(m)
	}
	o2 := fresh(m.D)
	for k := r.S.Small(3); k > 0; k-- {
		src := &Source{Data: all.B, F: Fault{Kind: []string{"eof", "error"}[r.S.N(2)], At: r.S.N(len(all.B) + 1), Err: errIO}}
		br := zstream.NewReader(src)
		if skip(br, p) != nil {
			continue
		}
		if err := guard(func() error { return o2.UnmarshalZserio(br) }); isPanic(err) {
			return vio("panic", "%v", err).of(m)
		}
		r.count("failed receptions", 1)
	}
	br := zstream.NewReader(bytes.NewReader(all.B))
	if err := skip(br, p); err != nil {
		return vio("skip", "%v", err)
	}
	if err := guard(func() error { return o2.UnmarshalZserio(br) }); err != nil {
		return vio("decode-error", "%v", err).of(m)
	}
	if d := decoded(m, o2); d != "" {
		return vio("lossy", "packing is not lossless: %s", d).of(m)
	}
	if n := readPos(br); n != all.N {
		return vio("position", "%d bits written, %d read", all.N, n).of(m)
	}
	return nil
}

var _ = bits.Len
var _ = fmt.Sprint
