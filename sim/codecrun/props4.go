package main

import (
	"bytes"

	"vsim/simrt"
	"vsim/zmodel"

	"github.com/woven-planet/go-zserio/zstream"
)

// c14 compares what the decoder makes of damaged input with what an
// independent peer makes of it.
func c14(r *Run) *Violation {
	m, b, _ := r.input()
	pos := 0
	if r.S.P(40) {
		pos = 1 + r.S.N(7)
	}
	r.trace("input %x from bit %d", b, pos)
	if len(b)*8 < pos {
		return nil
	}
	d := zmodel.NewDec(&zmodel.Bits{B: b, N: len(b) * 8}, pos)
	d.Max = maxObjects
	zmodel.Wraps = 0
	want, referr := d.Decode(m.D, nil)
	if referr == zmodel.ErrLimit {
		r.count("skipped: too many elements", 1)
		return nil
	}
	r.trace("peer: %v", referr)
	if d.Wild {
		// What such a value means is not defined.
		r.count("skipped: differences lead out of the range", 1)
		return nil
	}
	if zmodel.Wraps > 0 {
		// What computes with them is the subject of N01.
		r.count("skipped: expressions overflow", 1)
		return nil
	}
	r.Nontriv = true
	limit := int64(100000 + 5000*d.Objects)
	o := fresh(m.D)
	_, rd := r.source(b, Fault{})
	br := zstream.NewReader(rd)
	simrt.Reset(limit, 1<<30)
	err := guard(func() error {
		if err := skip(br, pos); err != nil {
			return err
		}
		return o.UnmarshalZserio(br)
	})
	if isPanic(err) {
		// The subject of C05 and C06.
		r.count("skipped: panic", 1)
		return nil
	}
	if referr != nil {
		if err == nil {
			return vio("accepted", "a peer refuses the input (%v), the decoder takes it", referr).of(m)
		}
		r.count("refused by both", 1)
		return nil
	}
	if err != nil && d.Odd {
		r.count("values without a name refused", 1)
		return nil
	}
	if err != nil {
		return vio("refused", "a peer takes the input, the decoder refuses it: %v", err).of(m)
	}
	r.count("taken by both", 1)
	w := Msg{D: m.D, V: want}
	if s := decoded(w, o); s != "" {
		return vio("differs", "a peer reads something else: %s", s).of(w)
	}
	if p := readPos(br); p != d.Pos {
		return vio("position", "the reader stops at bit %d, a peer at %d", p, d.Pos).of(w)
	}
	// What was taken can be passed on.
	simrt.Reset(4*limit, 1<<30)
	bits, n, err := encode(o)
	if isPanic(err) {
		r.count("skipped: panic", 1)
		return nil
	}
	if err != nil && d.Odd {
		r.count("values without a name refused", 1)
		return nil
	}
	if err != nil {
		return vio("stuck", "a value that was decoded is not encoded: %v", err).of(w)
	}
	again := fresh(m.D)
	if err := guard(func() error { return again.UnmarshalZserio(zstream.NewReader(bytes.NewReader(bits))) }); err != nil {
		return vio("stuck", "a value that was decoded and encoded (%d bits) is not decoded again: %v", n, err).of(w)
	}
	if s := decoded(w, again); s != "" {
		return vio("changed", "a value that was decoded is altered when it is passed on: %s", s).of(w)
	}
	return nil
}
