package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"

	"vsim/simrt"
	"vsim/zmodel"
)

func (r *Run) plan(n int) []simrt.Slice {
	var p []simrt.Slice
	for k := r.S.N(n + 1); k > 0; k-- {
		p = append(p, simrt.Slice{Next: int32(r.S.N(8)), Len: int32(1 + r.S.Small(120))})
	}
	return p
}

// source makes a source that delivers in some way.
func (r *Run) source(data []byte, f Fault) (*Source, byteReader) {
	s := &Source{Data: data, F: f}
	switch r.S.N(4) {
	case 1:
		s.Chunks = []int{1}
	case 2:
		for k := 1 + r.S.N(5); k > 0; k-- {
			s.Chunks = append(s.Chunks, r.S.Small(9))
		}
	case 3:
		s.Together = true
	}
	if r.S.P(30) {
		r.count("buffered reader", 1)
		return s, buffered(s, 16+r.S.N(64))
	}
	if len(s.Chunks) > 0 {
		r.count("short reads", 1)
	}
	return s, s
}

// recv decodes messages one after the other and compares them.
func recv(ms []Msg, ends []int, br *zstream.BitReader) *Violation {
	objs := make([]Codec, len(ms))
	for i, m := range ms {
		o := fresh(m.D)
		objs[i] = o
		err := guard(func() error { return o.UnmarshalZserio(br) })
		if err != nil {
			return vio("decode-error", "message %d of %d is not decoded: %v", i+1, len(ms), err).of(m)
		}
		if d := decoded(m, o); d != "" {
			return vio("altered", "message %d of %d arrives altered: %s", i+1, len(ms), d).of(m)
		}
		if ends != nil {
			if p := readPos(br); p != ends[i] {
				return vio("position", "after message %d of %d the reader is at bit %d, the writer was at %d", i+1, len(ms), p, ends[i]).of(m)
			}
		}
	}
	for i, m := range ms[:len(ms)-1] {
		if d := decoded(m, objs[i]); d != "" {
			return vio("altered", "message %d changes while later ones are received: %s", i+1, d).of(m)
		}
	}
	return nil
}

func send(ms []Msg, objs []Codec, bw *zstream.BitWriter) ([]int, *Violation) {
	var ends []int
	for i, m := range ms {
		if err := guard(func() error { return objs[i].MarshalZserio(bw) }); err != nil {
			return nil, vio("encode-error", "valid message %d is not encoded: %v", i+1, err).of(m)
		}
		ends = append(ends, int(bw.BitPosition()))
	}
	if err := guard(bw.Close); err != nil {
		return nil, vio("close-error", "close: %v", err)
	}
	return ends, nil
}

func (r *Run) batch(n int) (ms []Msg, objs []Codec) {
	for k := 1 + r.S.Small(n); k > 0; k-- {
		m := r.messageOf(r.W.Roots, 30, true)
		ms = append(ms, m)
		objs = append(objs, m.Obj())
	}
	return
}

func c01(r *Run) *Violation {
	simrt.Reset(0, 0)
	mode := r.S.N(4)
	r.trace("mode %d", mode)
	switch mode {
	case 0, 3:
		ms, objs := r.batch(5)
		if mode == 3 {
			return r.framed(ms, objs)
		}
		sink := &Sink{}
		var w zstream.Writer = sink
		var bufw *bufio.Writer
		if r.S.P(30) {
			bufw = bufio.NewWriterSize(sink, 16)
			w = bufw
		}
		bw := zstream.NewWriter(w)
		ends, v := send(ms, objs, bw)
		if v != nil {
			return v
		}
		if bufw != nil {
			bufw.Flush()
		}
		last := ends[len(ends)-1]
		r.count("bits", int64(last))
		r.Nontriv = last > 0
		if len(sink.Got) != (last+7)/8 {
			return vio("length", "%d bits are sent as %d bytes", last, len(sink.Got)).of(ms[len(ms)-1])
		}
		data := append([]byte{}, sink.Got...)
		extra := r.S.N(3)
		for i := 0; i < extra; i++ {
			data = append(data, 0xa5)
		}
		src, rd := r.source(data, Fault{})
		br := zstream.NewReader(rd)
		if v := recv(ms, ends, br); v != nil {
			return v
		}
		if rd == byteReader(src) && src.Pos != (last+7)/8 {
			return vio("over-read", "%d bytes were sent, %d taken from the transport", (last+7)/8, src.Pos).of(ms[len(ms)-1])
		}
	default:
		pairs := mode
		type pair struct {
			ms   []Msg
			objs []Codec
			p    *Pipe
			ends []int
			v    *Violation
		}
		var ps []*pair
		var tasks []func()
		for i := 0; i < pairs; i++ {
			ms, objs := r.batch(4)
			pr := &pair{ms: ms, objs: objs, p: &Pipe{cap: 1 + r.S.Small(64), chunk: r.S.Small(9)}}
			ps = append(ps, pr)
			tasks = append(tasks, func() {
				defer pr.p.Close()
				ends, v := send(pr.ms, pr.objs, zstream.NewWriter(pr.p))
				if v != nil {
					pr.v = v
				}
				pr.ends = ends
			}, func() {
				if v := recv(pr.ms, nil, zstream.NewReader(pr.p)); v != nil && pr.v == nil {
					pr.v = v
				}
			})
		}
		res := simrt.Run(r.plan(30), tasks...)
		r.count("switches", int64(res.Switches))
		r.Extra = res.Hash
		for i, p := range res.Panics {
			if p != nil {
				return vio("stuck", "task %d: %v", i, p)
			}
		}
		for _, pr := range ps {
			if pr.v != nil {
				return pr.v
			}
			last := pr.ends[len(pr.ends)-1]
			r.count("bits", int64(last))
			r.Nontriv = r.Nontriv || last > 0
			if pr.p.In != (last+7)/8 || pr.p.Out != pr.p.In {
				return vio("over-read", "%d bits: %d bytes sent, %d received", last, pr.p.In, pr.p.Out).of(pr.ms[len(pr.ms)-1])
			}
		}
	}
	return nil
}

// framed sends messages with the package's Marshal and Unmarshal, each in a
// frame of its own.
func (r *Run) framed(ms []Msg, objs []Codec) *Violation {
	var frames [][]byte
	for i, o := range objs {
		var b []byte
		err := guard(func() (err error) { b, err = zserio.Marshal(o); return })
		if err != nil {
			return vio("encode-error", "Marshal of a valid message: %v", err).of(ms[i])
		}
		frames = append(frames, b)
		r.count("bits", int64(8*len(b)))
		r.Nontriv = true
	}
	for i, m := range ms {
		o := fresh(m.D)
		if err := guard(func() error { return zserio.Unmarshal(frames[i], o) }); err != nil {
			return vio("decode-error", "Unmarshal of message %d: %v", i+1, err).of(m)
		}
		if d := decoded(m, o); d != "" {
			return vio("altered", "message %d arrives altered: %s", i+1, d).of(m)
		}
		// The receiver's buffer is used for something else.
		for k := range frames[i] {
			frames[i][k] = ^frames[i][k]
		}
		if d := decoded(m, o); d != "" {
			return vio("shared", "message %d changes with the buffer it was received in: %s", i+1, d).of(m)
		}
	}
	return nil
}

// c02: a stream that real and model encoders write in turns.
func c02(r *Run) *Violation {
	simrt.Reset(0, 0)
	var stream zmodel.Bits
	stream.Put(r.S.U64(), r.S.N(64))
	pre := stream.N
	var ms []Msg
	var ends []int
	for k := 1 + r.S.Small(5); k > 0; k-- {
		m := r.messageOf(r.W.Roots, 30, true)
		pos := stream.N
		enc := &zmodel.Enc{PackMode: r.S.N(4)}
		enc.Out = zmodel.Bits{B: append([]byte{}, stream.B...), N: stream.N}
		if err := enc.Encode(m.D, m.V); err != nil {
			panic(fmt.Sprintf("model: %v for %s", err, m))
		}
		packed := m.D.HasPacked()
		if r.S.N(2) == 0 {
			r.count("encoded by the real peer", 1)
			bits, err := encodeAt(m.Obj(), pos)
			if err != nil {
				return vio("encode-error", "valid message at bit %d: %v", pos, err).of(m)
			}
			if !packed {
				want := &zmodel.Bits{}
				want.Append(&enc.Out, pos, enc.Out.N)
				if d := diffBits(want, bits); d != "" {
					return vio("bits-differ", "encoding at bit %d: %s", pos, d).of(m)
				}
			}
			stream.Append(bits, 0, bits.N)
			dec := zmodel.NewDec(&stream, pos)
			v, err := dec.Decode(m.D, nil)
			if err != nil {
				return vio("peer-error", "the peer cannot decode what is written at bit %d: %v", pos, err).of(m)
			}
			if d := zmodel.Diff(typ(m.D), m.V, v, m.D.Name); d != "" {
				return vio("peer-altered", "the peer decodes something else from bit %d on: %s", pos, d).of(m)
			}
			if dec.Pos != stream.N {
				return vio("peer-position", "the peer needs %d bits, written are %d", dec.Pos-pos, stream.N-pos).of(m)
			}
		} else {
			r.count("encoded by the model peer", 1)
			stream = enc.Out
		}
		ms = append(ms, m)
		ends = append(ends, stream.N)
	}
	r.count("bits", int64(stream.N))
	r.Nontriv = stream.N > pre
	_, rd := r.source(stream.B, Fault{})
	br := zstream.NewReader(rd)
	if err := skip(br, pre); err != nil {
		return vio("skip", "%v", err)
	}
	return recv(ms, ends, br)
}

func skip(br *zstream.BitReader, n int) error {
	for n > 0 {
		k := min(n, 64)
		if _, err := br.ReadBits(uint8(k)); err != nil {
			return err
		}
		n -= k
	}
	return nil
}

func diffBits(want, got *zmodel.Bits) string {
	n := min(want.N, got.N)
	for i := 0; i < n; i++ {
		if want.At(i) != got.At(i) {
			return fmt.Sprintf("bit %d is %d, the peer has %d (%d bits, the peer %d)", i, got.At(i), want.At(i), got.N, want.N)
		}
	}
	if want.N != got.N {
		return fmt.Sprintf("%d bits, the peer has %d", got.N, want.N)
	}
	return ""
}

func (r *Run) sinkFault(n int) Fault {
	f := Fault{Kind: []string{"error", "transient", "short", "full"}[r.S.N(4)]}
	f.Err = []error{errIO, errFull, errPipe}[r.S.N(3)]
	switch r.S.N(4) {
	case 0:
		f.At = 0
	case 1:
		f.At = max(0, n-1)
	default:
		f.At = r.S.N(n + 2)
	}
	return f
}

// c03: a destination that fails.
func c03(r *Run) *Violation {
	simrt.Reset(0, 0)
	ms, objs := r.batch(3)
	clean := &Sink{}
	if _, v := send(ms, objs, zstream.NewWriter(clean)); v != nil {
		return v
	}
	for k := 1 + r.S.Small(10); k > 0; k-- {
		for i := range objs {
			if r.S.N(2) == 0 {
				objs[i] = ms[i].Obj()
			}
		}
		var v *Violation
		if r.S.P(45) {
			v = r.bitFault(ms, objs, clean.Got)
		} else {
			v = r.byteFault(ms, objs, clean.Got)
		}
		if v != nil {
			return v
		}
	}
	return nil
}

// byteFault encodes into a destination that fails at a byte.
func (r *Run) byteFault(ms []Msg, objs []Codec, clean []byte) *Violation {
	f := r.sinkFault(len(clean))
	sink := &Sink{F: f}
	var w zstream.Writer = sink
	var bufw *bufio.Writer
	if r.S.P(25) {
		bufw = bufio.NewWriterSize(sink, 16)
		w = bufw
	}
	r.trace("%d bytes; %s, buffered %v", len(clean), f, bufw != nil)
	bw := zstream.NewWriter(w)
	var err error
	for i := range objs {
		if err = guard(func() error { return objs[i].MarshalZserio(bw) }); err != nil {
			break
		}
	}
	again := false
	if err == nil {
		err = guard(bw.Close)
		if err == nil && bufw != nil {
			err = bufw.Flush()
		} else if err != nil && bufw == nil {
			// The caller may close it once more.
			again = guard(bw.Close) == nil
		}
	}
	at := ms[0]
	if again && string(sink.Got) != string(clean) {
		return vio("false-success", "closing again reports success with %d of %d bytes written (%s)", len(sink.Got), len(clean), f).of(at)
	}
	if sink.Fired == 0 {
		sink.First = len(sink.Got)
	} else {
		r.count("fault "+f.Kind, 1)
		r.Nontriv = true
	}
	if k := sink.First; k > len(clean) || string(sink.Got[:k]) != string(clean[:k]) {
		return vio("no-prefix", "the %d bytes accepted before the first rejected one are no prefix of the encoding (%s)", k, f).of(at)
	}
	if err == nil {
		if string(sink.Got) != string(clean) {
			return vio("false-success", "success is reported with %d of %d bytes written (%s)", len(sink.Got), len(clean), f).of(at)
		}
		return nil
	}
	if isPanic(err) {
		return vio("panic", "%v (%s)", err, f).of(at)
	}
	if sink.Fired == 0 {
		return vio("error-without-fault", "%v", err).of(at)
	}
	if !errors.Is(err, errInjected) || !errors.Is(err, f.Err) {
		return vio("error-lost", "the destination's error cannot be recovered from: %v (%s)", err, f).of(at)
	}
	return nil
}

// bitFault encodes into a destination of bits one of whose operations fails.
func (r *Run) bitFault(ms []Msg, objs []Codec, clean []byte) *Violation {
	sink := &Sink{}
	b := &bitSink{w: zstream.NewWriter(sink), at: -1}
	for i := range ms {
		// Count the operations.
		if err := guard(func() error { return ms[i].Obj().MarshalZserio(b) }); err != nil {
			return vio("error-without-fault", "%v", err).of(ms[i])
		}
	}
	total := b.n
	at := r.S.N(total + 1)
	if r.S.N(4) == 0 {
		at = max(0, total-1)
	}
	*sink = Sink{}
	b = &bitSink{w: zstream.NewWriter(sink), at: at, stick: r.S.N(2) == 0, part: r.S.Small(5), err: []error{errIO, errFull, errPipe}[r.S.N(3)]}
	r.trace("%d operations; operation %d fails, for good %v", total, at, b.stick)
	var err error
	for i := range objs {
		before := b.fired
		err = guard(func() error { return objs[i].MarshalZserio(b) })
		if err == nil && b.fired > before {
			return vio("false-success", "operation %d of %d on the destination failed, and encoding reports success", at+1, total).of(ms[i])
		}
		if err != nil {
			if isPanic(err) {
				return vio("panic", "%v", err).of(ms[i])
			}
			if b.fired == 0 {
				return vio("error-without-fault", "%v", err).of(ms[i])
			}
			if !errors.Is(err, errInjected) || !errors.Is(err, b.err) {
				return vio("error-lost", "the destination's error cannot be recovered from: %v", err).of(ms[i])
			}
			break
		}
	}
	if b.fired > 0 {
		r.count("fault operation", 1)
		r.Nontriv = true
	} else {
		b.first = b.w.BitPosition()
	}
	if err := b.w.Close(); err != nil {
		return vio("error-without-fault", "%v", err).of(ms[0])
	}
	got, want := zmodel.Bits{B: sink.Got, N: int(b.first)}, zmodel.Bits{B: clean, N: 8 * len(clean)}
	for i := 0; i < got.N; i++ {
		if i >= want.N || got.At(i) != want.At(i) {
			return vio("no-prefix", "the %d bits accepted before the first failing operation are no prefix of the encoding", got.N).of(ms[0])
		}
	}
	if b.fired == 0 && string(sink.Got) != string(clean) {
		return vio("false-success", "success is reported with %d of %d bytes written", len(sink.Got), len(clean)).of(ms[0])
	}
	return nil
}

// bitCut decodes from a source of bits one of whose operations fails.
func (r *Run) bitCut(ms []Msg, data []byte) *Violation {
	chunk := r.S.Small(4)
	total := 0
	for pass, last := 0, 1+r.S.Small(6); pass <= last; pass++ {
		b := &bitSource{r: zstream.NewReader(&Source{Data: data}), at: -1, chunk: chunk}
		if pass > 0 {
			b.at, b.stick, b.err = r.S.N(total+1), r.S.N(2) == 0, []error{errIO, errPipe, io.ErrUnexpectedEOF}[r.S.N(3)]
			r.trace("%d operations; operation %d fails, for good %v, blocks of %d", total, b.at, b.stick, chunk)
		}
		for _, m := range ms {
			o := fresh(m.D)
			before := b.fired
			err := guard(func() error { return o.UnmarshalZserio(b) })
			switch {
			case isPanic(err):
				return vio("panic", "%v", err).of(m)
			case err == nil && b.fired > before:
				return vio("false-success", "operation %d of %d on the source failed, and decoding reports success", b.at+1, total).of(m)
			case err == nil:
				if d := decoded(m, o); d != "" {
					return vio("invented", "success with invented content: %s (blocks of %d)", d, chunk).of(m)
				}
				continue
			case b.fired == 0:
				return vio("disturbed", "error without a fault: %v (blocks of %d)", err, chunk).of(m)
			case !errors.Is(err, b.err):
				return vio("error-lost", "the source's error cannot be recovered from: %v", err).of(m)
			}
			break
		}
		if b.fired > 0 {
			r.count("fault operation", 1)
			r.Nontriv = true
		}
		if pass == 0 {
			total = b.n
		}
	}
	return nil
}

// c04: a source that ends early or fails.
func c04(r *Run) *Violation {
	simrt.Reset(0, 0)
	ms, objs := r.batch(3)
	clean := &Sink{}
	ends, v := send(ms, objs, zstream.NewWriter(clean))
	if v != nil {
		return v
	}
	for k := 1 + r.S.Small(10); k > 0; k-- {
		switch r.S.N(8) {
		case 0, 1, 2:
			v = r.bitCut(ms, clean.Got)
		case 3:
			v = r.cutFrame(ms[r.S.N(len(ms))])
		default:
			v = r.byteCut(ms, clean.Got, ends)
		}
		if v != nil {
			return v
		}
	}
	return nil
}

// cutFrame hands the beginning of an encoding to the package's Unmarshal.
func (r *Run) cutFrame(m Msg) *Violation {
	b, bits, err := encode(m.Obj())
	if err != nil {
		return vio("error-without-fault", "%v", err).of(m)
	}
	need := (bits + 7) / 8
	at := r.S.N(len(b) + 1)
	if r.S.N(3) == 0 {
		at = max(0, need-1)
	}
	r.trace("%d bytes needed; Unmarshal is given %d", need, at)
	o := fresh(m.D)
	err = guard(func() error { return zserio.Unmarshal(b[:at:at], o) })
	switch {
	case isPanic(err):
		return vio("panic", "%v", err).of(m)
	case at >= need && err != nil:
		return vio("error-without-fault", "%v", err).of(m)
	case at >= need:
		return nil
	case err == nil:
		return vio("false-success", "Unmarshal succeeds with %d of %d bytes", at, need).of(m)
	case !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF):
		return vio("error-lost", "the end of the input cannot be recovered from: %v", err).of(m)
	}
	r.count("fault cut frame", 1)
	r.Nontriv = true
	return nil
}

// byteCut decodes from a source that ends early or fails at a byte.
func (r *Run) byteCut(ms []Msg, clean []byte, ends []int) *Violation {
	n := len(clean)
	f := Fault{Kind: []string{"eof", "error", "transient", "together"}[r.S.N(4)]}
	f.Err = []error{errIO, errPipe}[r.S.N(2)]
	behind := r.S.P(15)
	data := clean
	if behind {
		f.At = n + r.S.N(3)
		data = append(append([]byte{}, data...), 1, 2, 3)
	} else if n == 0 {
		return nil
	} else {
		switch r.S.N(4) {
		case 0:
			f.At = 0
		case 1:
			f.At = n - 1
		default:
			f.At = r.S.N(n)
		}
	}
	src, rd := r.source(data, f)
	r.trace("%d bytes needed; %s", n, f)
	br := zstream.NewReader(rd)
	for i, m := range ms {
		o := fresh(m.D)
		err := guard(func() error { return o.UnmarshalZserio(br) })
		if src.Fired > 0 {
			r.count("fault "+f.Kind, 1)
			r.Nontriv = true
		}
		if err == nil {
			if !behind && ends[i] > 8*f.At && f.Kind != "transient" {
				return vio("false-success", "success although the source failed before the last of %d bytes (%s)", (ends[i]+7)/8, f).of(m)
			}
			if d := decoded(m, o); d != "" {
				return vio("invented", "success with invented content: %s (%s)", d, f).of(m)
			}
			continue
		}
		if isPanic(err) {
			return vio("panic", "%v (%s)", err, f).of(m)
		}
		if behind {
			r.Nontriv = true
			return vio("disturbed", "a fault behind the last byte disturbs the decoding: %v (%s)", err, f).of(m)
		}
		if ends[i] <= 8*f.At {
			return vio("too-early", "a fault behind message %d disturbs its decoding: %v (%s)", i+1, err, f).of(m)
		}
		ok := errors.Is(err, f.Err)
		if f.Kind == "eof" {
			ok = errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
		}
		if !ok {
			return vio("error-lost", "the source's error cannot be recovered from: %v (%s)", err, f).of(m)
		}
		return nil
	}
	if behind {
		r.count("fault behind", 1)
		r.Nontriv = true
	}
	return nil
}
