package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"

	"vsim/simrt"
	"vsim/zmodel"
)

// op is one operation on a message, with everything it needs.
type op struct {
	kind  string // "encode", "size", "decode", "faulty encode", "faulty decode", "damaged decode"
	m     Msg
	pos   int
	data  []byte
	f     Fault
	chunk int
	again bool // on an object that was used before
	used  Msg
	obj   Codec
	dst   Codec
	kept  []kept // what Marshal returned
}

// kept are bytes that the package returned and the caller holds on to.
type kept struct{ raw, was []byte }

func (o *op) String() string {
	return fmt.Sprintf("%s of %s at %d, %s", o.kind, o.m.D.FullName(), o.pos, o.f)
}

var opKinds = []string{"encode", "decode", "size", "faulty encode", "faulty decode", "damaged decode", "invalid encode", "marshal", "unmarshal"}

func (r *Run) op() *op {
	o := &op{kind: opKinds[r.S.N(len(opKinds))]}
	o.m = r.messageOf(r.W.Roots, 14, false)
	o.pos = r.S.Small(20)
	if o.kind == "unmarshal" {
		o.pos = 0
	}
	enc := &zmodel.Enc{}
	enc.Out.Put(0, o.pos)
	if err := enc.Encode(o.m.D, o.m.V); err != nil {
		panic(err)
	}
	o.data = enc.Out.B
	switch o.kind {
	case "faulty encode":
		o.f = r.sinkFault(len(o.data))
	case "faulty decode":
		o.f = Fault{Kind: []string{"eof", "error"}[r.S.N(2)], At: r.S.N(len(o.data) + 1), Err: errIO}
	case "damaged decode":
		o.data = r.damage(o.data)
		if _, limited, _ := refDecode(o.m, o.data); limited || o.pos > 0 {
			o.kind = "decode"
			o.data = enc.Out.B
		}
	}
	if o.f.Kind != "" {
		r.count("fault "+o.f.Kind, 1)
	}
	o.chunk = r.S.N(3)
	o.obj = o.m.Obj()
	if o.kind == "invalid encode" {
		r.mutate(o.m, o.obj)
	}
	o.dst = fresh(o.m.D)
	return o
}

// run does the operation and describes the outcome completely.
func (o *op) run() string {
	res := ""
	err := guard(func() error {
		switch o.kind {
		case "encode", "invalid encode":
			b, err := encodeAtRaw(o.obj, o.pos)
			if b != nil {
				res = fmt.Sprintf("%d bits %x", b.N, b.B)
			}
			return err
		case "size":
			n, err := o.obj.ZserioBitSize(o.pos)
			res = fmt.Sprint(n)
			return err
		case "marshal":
			b, err := zserio.Marshal(o.obj)
			res = fmt.Sprintf("%x", b)
			o.kept = append(o.kept, kept{b, append([]byte{}, b...)})
			return err
		case "unmarshal":
			b := append([]byte{}, o.data...)
			err := zserio.Unmarshal(b, o.dst)
			if err == nil {
				// The caller uses its buffer for something else.
				for i := range b {
					b[i] ^= 0x5a
				}
				res = dump(o.dst)
			}
			return err
		case "faulty encode":
			s := &Sink{F: o.f}
			w := zstream.NewWriter(s)
			err := o.obj.MarshalZserio(w)
			if err == nil {
				err = w.Close()
			}
			res = fmt.Sprintf("%x", s.Got)
			return err
		}
		src := &Source{Data: o.data, F: o.f}
		if o.chunk > 0 {
			src.Chunks = []int{o.chunk}
		}
		br := zstream.NewReader(src)
		if err := skip(br, o.pos); err != nil {
			return err
		}
		err := o.dst.UnmarshalZserio(br)
		if err == nil {
			res = fmt.Sprintf("%d %s", readPos(br), dump(o.dst))
		}
		return err
	})
	if err != nil {
		return "error " + err.Error() + " " + res
	}
	return "ok " + res
}

func encodeAtRaw(o Codec, pos int) (*zmodel.Bits, error) {
	s := &Sink{}
	w := zstream.NewWriter(s)
	for left := pos; left > 0; left -= min(left, 64) {
		if err := w.WriteBits(0, uint8(min(left, 64))); err != nil {
			return nil, err
		}
	}
	if err := o.MarshalZserio(w); err != nil {
		return nil, err
	}
	n := int(w.BitPosition())
	if err := w.Close(); err != nil {
		return nil, err
	}
	return &zmodel.Bits{B: s.Got, N: n}, nil
}

// expect judges the outcome of an operation by the model.
func (o *op) expect(got string, after func() *Violation) *Violation {
	return after()
}

func c07(r *Run) *Violation {
	simrt.Reset(0, 0)
	n := 2 + r.S.N(3)
	type task struct {
		ops []*op
		res []string
	}
	var ts []*task
	var fs []func()
	pool := make([]*op, 0)
	for i := 0; i < n; i++ {
		t := &task{}
		for k := 1 + r.S.Small(4); k > 0; k-- {
			o := r.op()
			t.ops = append(t.ops, o)
			pool = append(pool, o)
			r.trace("task %d: %s", i, o)
		}
		t.res = make([]string, len(t.ops))
		ts = append(ts, t)
		fs = append(fs, func() {
			for k, o := range t.ops {
				t.res[k] = o.run()
			}
		})
	}
	plan := r.plan(60)
	simrt.Reset(20_000_000, 0)
	races := raceErrors()
	res := simrt.Run(plan, fs...)
	simrt.Reset(0, 0)
	r.count("switches", int64(res.Switches))
	r.count("operations", int64(len(pool)))
	r.Extra = res.Hash
	r.Nontriv = res.Switches > 0
	r.trace("%d switches", res.Switches)
	for i, p := range res.Panics {
		if p != nil {
			return vio("stuck", "task %d does not end: %v", i, p)
		}
	}
	if k := raceErrors() - races; k > 0 {
		return vio("race", "%d data races between %d tasks, see the report of the race detector", k, n)
	}
	for i, t := range ts {
		for k, o := range t.ops {
			alone := *o
			alone.dst = fresh(o.m.D)
			want := alone.run()
			if o.kind == "decode" || o.kind == "faulty decode" || o.kind == "damaged decode" {
			} else if o.kind != "invalid encode" {
				// The object as it should be, untouched.
				alone.obj = o.m.Obj()
				want = alone.run()
			}
			if t.res[k] != want {
				return vio("disturbed", "task %d, %s: %s", i, o, firstDiff(want, t.res[k])).of(o.m)
			}
			if v := o.judge(t.res[k]); v != nil {
				return v
			}
		}
	}
	return unkept(pool)
}

// unkept finds bytes that were returned to the caller and changed later.
func unkept(ops []*op) *Violation {
	for _, o := range ops {
		for _, k := range o.kept {
			if !bytes.Equal(k.raw, k.was) {
				return vio("returned-bytes", "bytes that Marshal returned before have changed: %s", firstDiff(fmt.Sprintf("%x", k.was), fmt.Sprintf("%x", k.raw))).of(o.m)
			}
		}
	}
	return nil
}

// judge compares the outcome of an operation on valid data with the model.
func (o *op) judge(res string) *Violation {
	isErr := len(res) > 6 && res[:6] == "error "
	switch o.kind {
	case "encode", "decode", "size", "marshal", "unmarshal":
		if isErr {
			return vio("failed", "%s: %s", o, res).of(o.m)
		}
		if o.kind == "decode" || o.kind == "unmarshal" {
			if d := decoded(o.m, o.dst); d != "" {
				return vio("wrong", "%s: %s", o, d).of(o.m)
			}
		}
	}
	return nil
}

func digest(s string) string {
	h := sha256.Sum256([]byte(s))
	if len(s) > 160 {
		return fmt.Sprintf("%s…(%d, %x)", s[:120], len(s), h[:6])
	}
	return s
}

// c08: the outcome of an operation after some history (phase 0), and in a
// fresh process (phase 1).
func c08(r *Run) *Violation {
	simrt.Reset(0, 0)
	target := r.op()
	r.trace("target: %s", target)
	var hist []*op
	for k := r.S.Small(10); k > 0; k-- {
		o := r.op()
		r.trace("before: %s", o)
		hist = append(hist, o)
	}
	repeat := r.S.N(3)
	// An object that was used before, for decoding.
	used := r.op()
	if r.Phase == 1 {
		r.Digests = []string{digest(target.run())}
		return nil
	}
	for _, o := range hist {
		o.run()
		r.count("history operations", 1)
	}
	r.Nontriv = len(hist) > 0 || repeat > 0
	for k := 0; k < repeat; k++ {
		first := target.run()
		second := target.run()
		r.count("repetitions", 1)
		if first != second {
			return vio("repeat", "%s gives something else when it is repeated: %s", target, firstDiff(first, second)).of(target.m)
		}
	}
	target.dst = fresh(target.m.D)
	r.Digests = []string{digest(target.run())}
	if v := unkept(append(hist, target)); v != nil {
		return v
	}
	// Decode into an object that holds another message.
	used.kind, used.f = "decode", Fault{}
	g := &zmodel.Gen{S: r.S, Budget: 14}
	other := Msg{D: used.m.D, V: g.Message(used.m.D)}
	old := other.Obj()
	enc := &zmodel.Enc{PackMode: r.S.N(4)}
	if err := enc.Encode(used.m.D, used.m.V); err != nil {
		panic(err)
	}
	data := enc.Out.B
	if r.S.N(2) == 1 {
		// One reception failed before.
		br := zstream.NewReader(&Source{Data: data, F: Fault{Kind: "eof", At: r.S.N(len(data) + 1)}})
		guard(func() error { return old.UnmarshalZserio(br) })
	}
	neu := fresh(used.m.D)
	e1 := guard(func() error { return old.UnmarshalZserio(zstream.NewReader(bytes.NewReader(data))) })
	e2 := guard(func() error { return neu.UnmarshalZserio(zstream.NewReader(bytes.NewReader(data))) })
	if (e1 == nil) != (e2 == nil) {
		return vio("used-object", "decoding into a used object: %v, into a new one: %v", e1, e2).of(used.m)
	}
	if e1 == nil {
		b1, n1, e1 := encode(old)
		b2, n2, e2 := encode(neu)
		if e1 != nil || e2 != nil || n1 != n2 || !bytes.Equal(b1, b2) {
			return vio("used-object", "what was decoded into a used object is encoded to %d bits %x (%v), into a new one to %d bits %x (%v)", n1, b1, e1, n2, b2, e2).of(used.m)
		}
		r.count("used objects", 1)
	}
	return nil
}

// site is a place in an object that can be changed.
type site struct {
	path string
	t    *zmodel.Type
	v    reflect.Value
	env  zmodel.Env
	kind string // "num", "float", "bytes", "extern", "length", "union", "ptr"
	f    *zmodel.Field
}

func sites(d *zmodel.Decl, v *zmodel.Val, o reflect.Value, path string, out *[]site) {
	env := zmodel.Env{D: d, V: v}
	if d.Kind == zmodel.DUnion {
		*out = append(*out, site{path + ".UnionChoice", nil, o.FieldByName("UnionChoice"), env, "union", nil})
	}
	for i, f := range d.AllFields() {
		if v.F[i] == nil {
			continue
		}
		rv := o.FieldByName(zmodel.GoName(f.Name))
		if f.Optional {
			rv = rv.Elem()
		}
		p := path + "." + f.Name
		one := func(t *zmodel.Type, x *zmodel.Val, rv reflect.Value, p string) {
			b := t.Base()
			ptr := rv
			for rv.Kind() == reflect.Pointer {
				ptr = rv
				rv = rv.Elem()
			}
			if ptr.Kind() == reflect.Pointer {
				*out = append(*out, site{p, t, ptr, env, "ptr", f})
			}
			switch {
			case b.Kind == zmodel.KBytes:
				*out = append(*out, site{p, t, rv, env, "bytes", f})
			case b.Kind == zmodel.KExtern:
				*out = append(*out, site{p, t, rv, env, "extern", f})
			case b.Kind == zmodel.KFloat:
				*out = append(*out, site{p, t, rv, env, "float", f})
			case b.Kind == zmodel.KBool || b.Kind == zmodel.KString:
			case t.Compound():
				sites(b.Ref, x, rv, p, out)
			default:
				*out = append(*out, site{p, t, rv, env, "num", f})
			}
		}
		if f.Array == nil {
			one(f.Type, v.F[i], rv, p)
			continue
		}
		*out = append(*out, site{p, f.Type, rv, env, "length", f})
		for k, x := range v.F[i].A {
			one(f.Type, x, rv.Index(k), fmt.Sprintf("%s[%d]", p, k))
		}
	}
}

// mutate puts a value into an object that its type may not be able to carry.
func (r *Run) mutate(m Msg, o Codec) string {
	var ss []site
	sites(m.D, m.V, reflect.ValueOf(o).Elem(), m.D.Name, &ss)
	if len(ss) == 0 {
		return ""
	}
	s := ss[r.S.N(len(ss))]
	r.count("change "+s.kind, 1)
	switch s.kind {
	case "num":
		old := s.v
		bits := old.Type().Bits()
		if old.Kind() == reflect.Bool {
			return ""
		}
		var x uint64
		switch r.S.N(5) {
		case 0:
			x = math.MaxUint64
		case 1:
			x = 1 << uint(bits-1)
		case 2:
			x = 1<<uint(bits-1) - 1
		case 3:
			x = uint64(1)<<uint(r.S.N(64)) + uint64(r.S.N(3)) - 1
		default:
			x = r.S.U64() >> uint(r.S.N(64))
		}
		switch old.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			old.SetInt(int64(x) << (64 - bits) >> (64 - bits))
		default:
			old.SetUint(x << (64 - bits) >> (64 - bits))
		}
		return fmt.Sprintf("%s = %v", s.path, old.Interface())
	case "float":
		u := r.S.U64()
		if s.v.Type().Bits() == 64 {
			f := math.Float64frombits(u)
			if f != f {
				f = 1e300
			}
			s.v.SetFloat(f)
		} else {
			f := math.Float32frombits(uint32(u))
			if f != f {
				f = 1e30
			}
			s.v.SetFloat(float64(f))
		}
		return fmt.Sprintf("%s = %v", s.path, s.v.Float())
	case "bytes", "extern":
		name := map[string]string{"bytes": "ByteSize", "extern": "BitSize"}[s.kind]
		n := s.v.FieldByName(name)
		old := n.Uint()
		switch r.S.N(5) {
		case 0:
			n.SetUint(old + 1 + uint64(r.S.N(20)))
		case 1:
			n.SetUint(old - min(old, 1+uint64(r.S.N(20))))
		case 2:
			n.SetUint(r.S.U64() >> uint(r.S.N(64)))
		case 3:
			s.v.FieldByName("Buffer").SetBytes(nil)
		case 4:
			b := s.v.FieldByName("Buffer").Bytes()
			s.v.FieldByName("Buffer").SetBytes(append(append([]byte{}, b...), byte(r.S.U64())))
		}
		return fmt.Sprintf("%s: size %d of %d bytes", s.path, n.Uint(), s.v.FieldByName("Buffer").Len())
	case "length":
		n := s.v.Len()
		if r.S.N(2) == 0 || n == 0 {
			s.v.Set(reflect.Append(s.v, reflect.New(s.v.Type().Elem()).Elem()))
		} else {
			s.v.Set(s.v.Slice(0, r.S.N(n)))
		}
		return fmt.Sprintf("%s: %d elements instead of %d", s.path, s.v.Len(), n)
	case "union":
		s.v.SetUint([]uint64{0, 200, 1 << 32, math.MaxUint64}[r.S.N(4)])
		return fmt.Sprintf("%s = %d", s.path, s.v.Uint())
	case "ptr":
		s.v.Set(reflect.Zero(s.v.Type()))
		return s.path + " = nil"
	}
	return ""
}

func c11(r *Run) *Violation {
	simrt.Reset(0, 0)
	m := r.messageOf(r.W.Roots, 16, false)
	o := m.Obj()
	what := r.mutate(m, o)
	if what == "" {
		return nil
	}
	r.Nontriv = true
	r.trace("change: %s", what)
	want, invalid := zmodel.FromGoDerived(m.D, o)
	b, n, err := encode(o)
	if err != nil {
		if isPanic(err) {
			return vio("panic", "encoding with %s: %v", what, err).of(m)
		}
		r.count("refused", 1)
		return nil
	}
	r.count("accepted", 1)
	if invalid != nil {
		return vio("accepted", "encoding succeeds with %s (%v)", what, invalid).of(m)
	}
	got := fresh(m.D)
	br := zstream.NewReader(bytes.NewReader(b))
	if err := guard(func() error { return got.UnmarshalZserio(br) }); err != nil {
		return vio("undecodable", "encoding succeeds with %s, but decoding gives: %v", what, err).of(m)
	}
	v, err := zmodel.FromGo(m.D, got)
	if err != nil {
		return vio("altered", "encoding succeeds with %s, but decoded is no message: %v", what, err).of(m)
	}
	zmodel.Round(typ(m.D), want)
	if d := zmodel.Diff(typ(m.D), want, v, m.D.Name); d != "" {
		return vio("altered", "encoding succeeds with %s, but decoded is: %s", what, d).of(m)
	}
	if p := readPos(br); p != n {
		return vio("altered", "encoding succeeds with %s, but %d of %d bits are decoded", what, p, n).of(m)
	}
	return nil
}

// step is one operation on a bit stream.
type step struct {
	kind string
	v    uint64
	n    int
	b    []byte
}

// into appends what the operation writes.
func (s *step) into(b *zmodel.Bits, base int) {
	switch s.kind {
	case "bits", "unsafe":
		b.Put(s.v, s.n)
	case "bool":
		b.Put(s.v, 1)
	case "byte":
		b.Put(s.v, 8)
	case "block":
		for _, c := range s.b {
			b.Put(uint64(c), 8)
		}
	case "align":
		for (base+b.N)%s.n != 0 {
			b.Put(0, 1)
		}
	}
}

// far moves n bytes.
func far(n int, f func([]byte) (int, error)) error {
	if n == 0 {
		return nil
	}
	b := make([]byte, 4<<20)
	for n > 0 {
		k, err := f(b[:min(n, len(b))])
		if err != nil {
			return err
		}
		n -= k
	}
	return nil
}

func c12(r *Run) *Violation {
	simrt.Reset(0, 0)
	if r.S.P(12) {
		return r.offsetArrays()
	}
	kinds := []string{"bits", "bool", "byte", "block", "align", "unsafe"}
	var steps []step
	count, block := 24, 12
	switch {
	case r.S.P(3):
		count, block = 300, 300
	case r.S.P(3):
		block = 9000
	}
	// Streams of which the first part is not kept.
	base := 0
	if r.S.N(10000) == 9999 {
		base = 1<<(31+r.S.N(2)) - 8*r.S.N(200)
		r.count("far positions", 1)
	}
	for k := 1 + r.S.Small(count); k > 0; k-- {
		s := step{kind: kinds[r.S.N(len(kinds))]}
		switch s.kind {
		case "bits", "unsafe":
			s.n = r.S.N(65)
			s.v = r.S.U64()
			if s.kind == "unsafe" && s.n < 64 {
				s.v &= 1<<uint(s.n) - 1
			}
		case "bool":
			s.v = uint64(r.S.N(2))
		case "byte":
			s.v = r.S.U64() & 0xff
		case "block":
			i := r.S.Small(block)
			for x := r.S.U64(); i > 0; i-- {
				x = x*6364136223846793005 + 1442695040888963407
				s.b = append(s.b, byte(x>>56))
			}
		case "align":
			s.n = 1 + r.S.Small(255)
		}
		steps = append(steps, s)
	}
	var model zmodel.Bits
	var marks []int
	for _, s := range steps {
		s.into(&model, base)
		marks = append(marks, model.N)
	}
	r.count("operations", int64(len(steps)))
	r.Nontriv = model.N > 0
	var f Fault
	if r.S.P(50) {
		f = r.sinkFault(len(model.B))
	}
	sink := &Sink{F: f, Before: base / 8}
	w := zstream.NewWriter(sink)
	if err := guard(func() error {
		return far(base/8, func(b []byte) (int, error) { return w.Write(b) })
	}); err != nil || w.BitPosition() != int64(base) {
		return vio("position", "after %d bytes (%v) the position is %d", base/8, err, w.BitPosition())
	}
	failed := false
	var actual zmodel.Bits // what the stream says it has accepted
	for i, s := range steps {
		start := 0
		if i > 0 {
			start = marks[i-1]
		}
		var apos int64 = -1
		fired := sink.Fired
		begun := actual.N
		err := guard(func() (err error) {
			switch s.kind {
			case "bits":
				return w.WriteBits(s.v, uint8(s.n))
			case "unsafe":
				return w.WriteBitsUnsafe(s.v, uint8(s.n))
			case "bool":
				return w.WriteBool(s.v != 0)
			case "byte":
				return w.WriteByte(byte(s.v))
			case "block":
				_, err = w.Write(s.b)
				return err
			}
			apos, err = w.Align(uint8(s.n))
			return err
		})
		r.trace("%d: %s n=%d v=%d %d bytes: %v, position %d", i, s.kind, s.n, s.v, len(s.b), err, w.BitPosition())
		if isPanic(err) {
			return vio("panic", "%s(%d): %v", s.kind, s.n, err)
		}
		if (sink.Fired > fired) != (err != nil) {
			if err == nil {
				return vio("fault-hidden", "%s(%d) reports success although the destination failed", s.kind, s.n)
			}
			if !failed {
				return vio("error", "%s(%d) fails without a fault: %v", s.kind, s.n, err)
			}
		}
		if err != nil {
			failed = true
		}
		// Whatever happened: not more than the stream has and the writer can hold back.
		if p := w.BitPosition(); p > int64(base+len(sink.Got)*8+7) {
			return vio("ahead", "after %s(%d) the position is %d, but only %d bytes were accepted (%s)", s.kind, s.n, p, len(sink.Got), f)
		}
		if err != nil {
			// What was accepted of a failed operation is what its position says.
			s.into(&actual, base)
			p := int(w.BitPosition()) - base
			if p < begun || p > actual.N {
				return vio("position", "after %s(%d) at bit %d failed the position is %d", s.kind, s.n, begun, p)
			}
			var cut zmodel.Bits
			cut.Append(&actual, 0, p)
			actual = cut
			continue
		}
		s.into(&actual, base)
		if p := w.BitPosition() - int64(base); p != int64(actual.N) {
			return vio("position", "after %s(%d) at bit %d the position is %d, not %d", s.kind, s.n, begun, p, actual.N)
		}
		if failed {
			continue
		}
		if p := w.BitPosition() - int64(base); p != int64(marks[i]) {
			return vio("position", "after %s(%d) at bit %d the position is %d, not %d", s.kind, s.n, start, p, marks[i])
		}
		if s.kind == "align" && apos != int64(base+marks[i]) {
			return vio("align-position", "align(%d) at bit %d returns %d, not %d", s.n, start, apos, marks[i])
		}
	}
	fired := sink.Fired
	err := guard(w.Close)
	if isPanic(err) {
		return vio("panic", "close: %v", err)
	}
	if sink.Fired > fired && err == nil {
		return vio("fault-hidden", "close reports success although the destination failed")
	}
	if sink.Fired > 0 {
		r.count("fault "+f.Kind, 1)
	}
	for k := r.S.N(3); k > 0 && err != nil; k-- {
		// The caller closes it again.
		fired := sink.Fired
		err = guard(w.Close)
		if isPanic(err) {
			return vio("panic", "close: %v", err)
		}
		if sink.Fired > fired && err == nil {
			return vio("fault-hidden", "close reports success although the destination failed")
		}
		r.count("closed again", 1)
	}
	if err == nil && !bytes.Equal(sink.Got, actual.B) {
		return vio("content", "written are %x, not %x (%s)", sink.Got, actual.B, f)
	}
	// The reader over the same sequence.
	f = Fault{}
	if r.S.P(50) && len(model.B) > 0 {
		f = Fault{Kind: []string{"eof", "error", "transient"}[r.S.N(3)], At: r.S.N(len(model.B)), Err: errIO}
	}
	src := &Source{Data: model.B, F: f, Before: base / 8}
	if r.S.P(40) {
		src.Chunks = []int{1 + r.S.N(3), r.S.N(4)}
	}
	br := zstream.NewReader(src)
	if err := guard(func() error {
		return far(base/8, func(b []byte) (int, error) { return io.ReadFull(br, b) })
	}); err != nil || readPos(br) != base {
		return vio("position", "after reading %d bytes (%v) the position is %d", base/8, err, readPos(br))
	}
	failed = false
	for i, s := range steps {
		start := 0
		if i > 0 {
			start = marks[i-1]
		}
		var got uint64
		var apos int64 = -1
		part := false
		fired := src.Fired
		err := guard(func() (err error) {
			switch s.kind {
			case "bits", "unsafe":
				got, err = br.ReadBits(uint8(s.n))
			case "bool":
				var b bool
				b, err = br.ReadBool()
				if b {
					got = 1
				}
			case "byte":
				var b byte
				b, err = br.ReadByte()
				got = uint64(b)
			case "block":
				b := make([]byte, len(s.b))
				for k := 0; k < len(b) && err == nil; {
					var n int
					n, err = br.Read(b[k:])
					if n < 0 || n > len(b)-k {
						return fmt.Errorf("read %d", n)
					}
					k += n
					if k == len(b) {
						err = nil
					}
				}
				part = err == nil && !bytes.Equal(b, s.b)
			case "align":
				apos, err = br.Align(uint8(s.n))
			}
			return err
		})
		pos := readPos(br) - base
		r.trace("read %d: %s n=%d: %v, position %d", i, s.kind, s.n, err, pos)
		if isPanic(err) {
			return vio("panic", "read %s(%d): %v", s.kind, s.n, err)
		}
		if err == nil && marks[i] > 8*src.end() && f.Kind != "transient" && !failed {
			return vio("fault-hidden", "reading %s(%d) at bit %d succeeds although the source ends at byte %d", s.kind, s.n, start, src.end())
		}
		if err != nil && src.Fired == fired && !failed {
			return vio("error", "reading %s(%d) fails without a fault: %v", s.kind, s.n, err)
		}
		if err != nil {
			failed = true
		}
		if pos > src.Pos*8 {
			return vio("ahead", "after reading %s(%d) the position is %d, but only %d bytes were delivered (%s)", s.kind, s.n, pos, src.Pos, f)
		}
		if failed {
			continue
		}
		want := s.v
		if s.kind == "bits" && s.n < 64 {
			want &= 1<<uint(s.n) - 1
		}
		if (s.kind == "bits" || s.kind == "unsafe" || s.kind == "bool" || s.kind == "byte") && got != want || part {
			return vio("content", "reading %s(%d) at bit %d gives %d, not %d", s.kind, s.n, start, got, want)
		}
		if pos != marks[i] {
			return vio("position", "after reading %s(%d) at bit %d the position is %d, not %d", s.kind, s.n, start, pos, marks[i])
		}
		if s.kind == "align" && apos != int64(base+marks[i]) {
			return vio("align-position", "reader: align(%d) at bit %d returns %d, not %d", s.n, start, apos, marks[i])
		}
	}
	return nil
}

func c13(r *Run) *Violation {
	simrt.Reset(0, 0)
	m := r.messageOf(r.W.Roots, 30, false)
	o := m.Obj()
	what := ""
	if r.S.P(25) {
		what = r.mutate(m, o)
		r.trace("change: %s", what)
	}
	before := r.values(o)
	var first []byte
	for k := 1 + r.S.N(5); k > 0; k-- {
		kind := r.S.N(4)
		name := []string{"encoding", "measuring", "failed encoding", "Marshal"}[kind]
		var out []byte
		var err error
		switch kind {
		case 0:
			out, _, err = encode(o)
		case 1:
			p := r.S.Small(20)
			guard(func() error { _, err := o.ZserioBitSize(p); return err })
		case 2:
			s := &Sink{F: r.sinkFault(40)}
			w := zstream.NewWriter(s)
			guard(func() error {
				if err := o.MarshalZserio(w); err != nil {
					return err
				}
				return w.Close()
			})
			if s.Fired > 0 {
				r.count("fault "+s.F.Kind, 1)
			}
		case 3:
			err = guard(func() (err error) { out, err = zserio.Marshal(o); return })
		}
		r.count(name, 1)
		r.Nontriv = true
		if after := r.values(o); after != before {
			return vio("changed", "%s changes the object: %s", name, firstDiff(before, after)).of(m)
		}
		if out != nil && err == nil {
			if first != nil && !bytes.Equal(first, out) {
				return vio("other-bytes", "%s gives other bytes than before: %x, then %x", name, first, out).of(m)
			}
			first = out
		}
	}
	// Decoding leaves the bytes alone.
	enc := &zmodel.Enc{PackMode: r.S.N(4)}
	if err := enc.Encode(m.D, m.V); err != nil {
		panic(err)
	}
	in := enc.Out.B
	if r.S.N(2) == 1 {
		in = r.damage(in)
		if _, limited, _ := refDecode(m, in); limited {
			return nil
		}
	}
	keep := append([]byte{}, in...)
	simrt.Reset(50_000_000, 1<<30)
	o2 := fresh(m.D)
	if r.S.N(2) == 0 {
		guard(func() error { return zserio.Unmarshal(in, o2) })
	} else {
		guard(func() error { return o2.UnmarshalZserio(zstream.NewReader(bytes.NewReader(in))) })
	}
	encode(o2)
	if !bytes.Equal(in, keep) {
		return vio("input-changed", "decoding changes the input from %x to %x", keep, in).of(m)
	}
	r.count("decodings", 1)
	return nil
}

var _ = errors.Is
