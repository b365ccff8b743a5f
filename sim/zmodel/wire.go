package zmodel

import (
	"errors"
	"fmt"
	"math"
	"math/bits"
)

// Bits is a bit string.
type Bits struct {
	B []byte
	N int
}

// Put appends the lowest n bits of v.
func (s *Bits) Put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if s.N%8 == 0 {
			s.B = append(s.B, 0)
		}
		if v>>uint(i)&1 != 0 {
			s.B[s.N/8] |= 0x80 >> uint(s.N%8)
		}
		s.N++
	}
}

// At is one bit.
func (s *Bits) At(i int) int { return int(s.B[i/8]>>uint(7-i%8)) & 1 }

// Get is n bits from position i.
func (s *Bits) Get(i, n int) uint64 {
	var v uint64
	for k := 0; k < n; k++ {
		v = v<<1 | uint64(s.At(i+k))
	}
	return v
}

// Append appends bits [from,to) of o.
func (s *Bits) Append(o *Bits, from, to int) {
	for i := from; i < to; i++ {
		s.Put(uint64(o.At(i)), 1)
	}
}

// Enc is the reference encoder.
type Enc struct {
	Out Bits
	// PackMode decides about delta packing: 0 as zserio defines it, 1 never,
	// 2 whenever possible, 3 whenever possible with one spare bit.
	PackMode    int
	Plain       bool // ignore packing altogether
	Descriptors int  // packing descriptors written
	Aligned     int  // bits that alignment may have cost
	Elements    int
	Lengths     []Length // the lengths that are announced
}

// Length is where a length is stored.
type Length struct {
	At, End int  // bits
	Kind    Kind // KString, KBytes, KExtern, or else an array
}

// length writes a length.
func (e *Enc) length(k Kind, n uint64) {
	at := e.Out.N
	e.varu(n, 5)
	e.Lengths = append(e.Lengths, Length{at, e.Out.N, k})
}

// Errors of the reference codec.
var (
	ErrEnd      = errors.New("model: end of input")
	ErrRange    = errors.New("model: value out of range")
	ErrSelector = errors.New("model: no such member")
	ErrLimit    = errors.New("model: too many elements")
)

type ctx struct {
	kids    []*ctx
	started bool
	packed  bool
	max     int
	prev    uint64
	// Collected by init.
	n        int
	plain    int
	first    int
	possible bool
	last     uint64
	maxNeed  int
}

func newCtx(t *Type) *ctx { return &ctx{} }

// kid is the context of a part of a compound; the parts get their contexts when
// they are needed, types may contain themselves.
func (c *ctx) kid(d *Decl, i int) *ctx {
	if c.kids == nil {
		for k := 0; k <= len(d.AllFields()); k++ {
			c.kids = append(c.kids, &ctx{})
		}
	}
	return c.kids[i]
}

func (c *ctx) field(d *Decl, i int) *ctx { return c.kid(d, i+1) }
func (c *ctx) tag(d *Decl) *ctx          { return c.kid(d, 0) }

// asU is the value the delta is computed from.
func absDiff(a, b uint64) uint64 {
	if a > b {
		return a - b
	}
	return b - a
}

func (c *ctx) init(v uint64, size int) {
	c.n++
	c.plain += size
	if c.n == 1 {
		c.first = size
	} else {
		if c.n == 2 {
			c.possible = true
		}
		if d := bits.Len64(absDiff(v, c.last)); d > c.maxNeed {
			c.maxNeed = d
		}
		if c.maxNeed > 62 {
			c.possible = false
		}
	}
	c.last = v
}

func (e *Enc) initVal(t *Type, v *Val, env Env, c *ctx) {
	b := t.Base()
	if t.Packable() {
		n := b
		if b.Kind == KRef {
			n = b.Ref.Base.Base()
		}
		c.init(v.N, numSize(n, v.N, env))
		return
	}
	if !t.Compound() {
		return
	}
	d := b.Ref
	if d.Kind == DUnion {
		c.tag(d).init(uint64(v.Sel), varuSize(uint64(v.Sel), 5))
	}
	in := Env{D: d, V: v}
	for i, f := range d.AllFields() {
		if v.F[i] == nil || f.Array != nil {
			continue
		}
		e.initVal(f.Type, v.F[i], in, c.field(d, i))
	}
}

func varuSize(v uint64, maxBytes int) int {
	for n := 1; ; n++ {
		limit := 7 * n
		if n == maxBytes {
			limit = 7*n + 1
		}
		if n >= maxBytes || limit >= 64 || v < 1<<uint(limit) {
			return 8 * n
		}
	}
}

func variSize(v int64, maxBytes int) int {
	if v == math.MinInt64 {
		return 8
	}
	u := uint64(v)
	if v < 0 {
		u = uint64(-v)
	}
	for n := 1; ; n++ {
		limit := 7*n - 1
		if n == maxBytes {
			limit++
		}
		if n >= maxBytes || limit >= 64 || u < 1<<uint(limit) {
			return 8 * n
		}
	}
}

func maxBytes(t *Type) int {
	if t.Kind == KVarSize {
		return 5
	}
	switch t.Bits {
	case 16:
		return 2
	case 32:
		return 4
	case 64:
		return 8
	}
	return 9
}

// numSize is the plain size of a number.
func numSize(t *Type, v uint64, env Env) int {
	switch t.Kind {
	case KUint, KInt:
		return t.Bits
	case KDynUint, KDynInt:
		return int(env.Eval(t.Len))
	case KVarUint, KVarSize:
		return varuSize(v, maxBytes(t))
	case KVarInt:
		return variSize(int64(v), maxBytes(t))
	}
	panic("not a number")
}

// Fits tells if a number can be carried by its type.
func Fits(t *Type, v uint64, env Env) bool {
	r := *t
	if t.Kind == KDynUint || t.Kind == KDynInt {
		n := int(env.Eval(t.Len))
		if n < 1 || n > 64 {
			return false
		}
		r.Bits = n
		r.Kind = map[Kind]Kind{KDynUint: KUint, KDynInt: KInt}[t.Kind]
	}
	lo, hi := r.Range()
	if r.Signed() {
		return int64(v) >= lo && (int64(v) < 0 || uint64(v) <= hi)
	}
	return v <= hi
}

func (e *Enc) varu(v uint64, mb int) {
	n := varuSize(v, mb) / 8
	for i := 0; i < n; i++ {
		left := n - 1 - i
		if n == mb && i == n-1 {
			e.Out.Put(v, 8)
			return
		}
		sh := 7 * left
		if n == mb {
			sh++
		}
		var more uint64
		if left > 0 {
			more = 1
		}
		e.Out.Put(more, 1)
		e.Out.Put(v>>uint(sh), 7)
	}
}

func (e *Enc) vari(v int64, mb int) {
	if v == math.MinInt64 {
		e.Out.Put(0x80, 8)
		return
	}
	u, neg := uint64(v), uint64(0)
	if v < 0 {
		u, neg = uint64(-v), 1
	}
	n := variSize(v, mb) / 8
	for i := 0; i < n; i++ {
		left := n - 1 - i
		w := 7
		if i == 0 {
			e.Out.Put(neg, 1)
			w = 6
		}
		if n == mb && i == n-1 {
			if i == 0 {
				panic("one byte type")
			}
			e.Out.Put(u, 8)
			return
		}
		sh := 7 * left
		if n == mb {
			sh++
		}
		var more uint64
		if left > 0 {
			more = 1
		}
		e.Out.Put(more, 1)
		e.Out.Put(u>>uint(sh), w)
	}
}

func (e *Enc) num(t *Type, v uint64, env Env) error {
	if !Fits(t, v, env) {
		return fmt.Errorf("%w: %d", ErrRange, v)
	}
	switch t.Kind {
	case KUint, KInt:
		e.Out.Put(v, t.Bits)
	case KDynUint, KDynInt:
		e.Out.Put(v, int(env.Eval(t.Len)))
	case KVarUint, KVarSize:
		e.varu(v, maxBytes(t))
	case KVarInt:
		e.vari(int64(v), maxBytes(t))
	}
	return nil
}

// Encode appends the encoding of a message.
func (e *Enc) Encode(d *Decl, v *Val) error { return e.compound(d, v, nil) }

func (e *Enc) align(n int) {
	if n == 0 {
		return
	}
	e.Aligned += n - 1
	for e.Out.N%n != 0 {
		e.Out.Put(0, 1)
	}
}

// val writes a single value; c is its packing context or nil.
func (e *Enc) val(t *Type, v *Val, env Env, c *ctx) error {
	b := t.Base()
	if c != nil && t.Packable() {
		n := b
		if b.Kind == KRef {
			n = b.Ref.Base.Base()
		}
		return e.packed(n, v.N, env, c)
	}
	switch b.Kind {
	case KBool:
		e.Out.Put(v.N, 1)
	case KFloat:
		x := v.N
		if b.Bits == 16 {
			x = uint64(toHalf(math.Float32frombits(uint32(v.N))))
		}
		e.Out.Put(x, b.Bits)
	case KString, KBytes:
		e.length(b.Kind, uint64(len(v.S)))
		for _, c := range v.S {
			e.Out.Put(uint64(c), 8)
		}
	case KExtern:
		e.length(b.Kind, v.N)
		o := Bits{v.S, len(v.S) * 8}
		e.Out.Append(&o, 0, int(v.N))
	case KRef:
		switch b.Ref.Kind {
		case DEnum, DBitmask:
			return e.num(b.Ref.Base.Base(), v.N, env)
		}
		return e.compound(b.Ref, v, c)
	default:
		return e.num(b, v.N, env)
	}
	return nil
}

func (e *Enc) packed(t *Type, v uint64, env Env, c *ctx) error {
	if !c.started {
		c.started = true
		c.max = c.maxNeed
		switch e.PackMode {
		case 1:
			c.packed = false
		case 2:
			c.packed = c.possible
		case 3:
			c.packed = c.possible
			if c.max < 62 {
				c.max++
			}
		default:
			db := 0
			if c.max > 0 {
				db = c.max + 1
			}
			c.packed = c.possible && 7+c.first+(c.n-1)*db < 1+c.plain
		}
		e.Descriptors++
		if c.packed {
			e.Out.Put(1, 1)
			e.Out.Put(uint64(c.max), 6)
		} else {
			e.Out.Put(0, 1)
		}
		c.prev = v
		return e.num(t, v, env)
	}
	if !c.packed {
		return e.num(t, v, env)
	}
	if c.max > 0 {
		e.Out.Put(v-c.prev, c.max+1)
		c.prev = v
	}
	return nil
}

func (e *Enc) field(f *Field, v *Val, env Env, c *ctx, inPacked bool) error {
	if f.Cond != nil && env.Eval(f.Cond) == 0 {
		return nil
	}
	if !inPacked {
		e.align(f.Align)
	}
	if f.Optional {
		if v == nil {
			e.Out.Put(0, 1)
			return nil
		}
		e.Out.Put(1, 1)
	}
	if inPacked {
		e.align(f.Align)
	}
	if v == nil {
		return errors.New("model: missing field " + f.Name)
	}
	if f.Array == nil {
		return e.val(f.Type, v, env, c)
	}
	if f.Array.Len == nil {
		e.length(KRef, uint64(len(v.A)))
	} else if n := env.Eval(f.Array.Len); int(n) != len(v.A) {
		return fmt.Errorf("%w: %s has %d elements, not %d", ErrRange, f.Name, len(v.A), n)
	}
	var ac *ctx
	if (f.Array.Packed || inPacked) && !e.Plain && (f.Type.Packable() || f.Type.Compound()) && len(v.A) > 0 {
		ac = newCtx(f.Type)
		for k, x := range v.A {
			env.Index = k
			e.initVal(f.Type, x, env, ac)
		}
	}
	for k, x := range v.A {
		env.Index = k
		e.Elements++
		if err := e.val(f.Type, x, env, ac); err != nil {
			return err
		}
	}
	return nil
}

func (e *Enc) compound(d *Decl, v *Val, c *ctx) error {
	env := Env{D: d, V: v}
	sub := func(i int) *ctx {
		if c == nil {
			return nil
		}
		return c.field(d, i)
	}
	switch d.Kind {
	case DUnion:
		if v.Sel < 0 || v.Sel >= len(d.Fields) {
			return ErrSelector
		}
		if c != nil {
			if err := e.packed(T(KVarSize), uint64(v.Sel), env, c.tag(d)); err != nil {
				return err
			}
		} else {
			e.varu(uint64(v.Sel), 5)
		}
		return e.field(d.Fields[v.Sel], v.F[v.Sel], env, sub(v.Sel), c != nil)
	case DChoice:
		i, ok := d.Chosen(env.Eval(d.Selector))
		if !ok {
			return ErrSelector
		}
		if i < 0 {
			return nil
		}
		return e.field(d.AllFields()[i], v.F[i], env, sub(i), c != nil)
	}
	for i, f := range d.Fields {
		if err := e.field(f, v.F[i], env, sub(i), c != nil); err != nil {
			return err
		}
	}
	return nil
}

// Dec is the reference decoder.
type Dec struct {
	In       *Bits
	Pos      int
	End      int // bits that may be read
	Elements int // elements declared by the input so far
	Max      int // most elements to decode, 0 for no limit
	Objects  int
	Arrays   int
	Odd      bool // there are values of enums and bitmasks without a name
	Wild     bool // packed differences led to a value that is none of its type
}

// NewDec decodes a bit string from a position on.
func NewDec(in *Bits, pos int) *Dec { return &Dec{In: in, Pos: pos, End: in.N} }

func (d *Dec) get(n int) (uint64, error) {
	if n < 0 || d.Pos+n > d.End {
		d.Pos = d.End
		return 0, ErrEnd
	}
	v := d.In.Get(d.Pos, n)
	d.Pos += n
	return v, nil
}

// sext is the signed number in the low n bits.
func sext(v uint64, n int) uint64 {
	if n > 0 && n < 64 {
		return uint64(int64(v<<uint(64-n)) >> uint(64-n))
	}
	return v
}

func (d *Dec) varu(mb int) (uint64, error) {
	var v uint64
	for i := 0; i < mb; i++ {
		b, err := d.get(8)
		if err != nil {
			return 0, err
		}
		if i == mb-1 {
			return v<<8 | b, nil
		}
		v = v<<7 | b&0x7f
		if b&0x80 == 0 {
			break
		}
	}
	return v, nil
}

func (d *Dec) vari(mb int) (uint64, error) {
	b, err := d.get(8)
	if err != nil {
		return 0, err
	}
	if b == 0x80 && mb == 9 {
		m := int64(math.MinInt64)
		return uint64(m), nil
	}
	neg, more, v := b&0x80 != 0, b&0x40 != 0, b&0x3f
	for i := 1; more; i++ {
		if b, err = d.get(8); err != nil {
			return 0, err
		}
		if i == mb-1 {
			v = v<<8 | b
			break
		}
		v = v<<7 | b&0x7f
		more = b&0x80 != 0
	}
	if neg {
		v = -v
	}
	return v, nil
}

func (d *Dec) size() (int, error) {
	v, err := d.varu(5)
	if err == nil && v > 1<<31-1 {
		err = ErrRange
	}
	return int(v), err
}

func (d *Dec) num(t *Type, env Env) (uint64, error) {
	switch t.Kind {
	case KUint:
		return d.get(t.Bits)
	case KInt:
		v, err := d.get(t.Bits)
		return sext(v, t.Bits), err
	case KDynUint, KDynInt:
		n := int(env.Eval(t.Len))
		if n < 1 || n > 64 {
			return 0, ErrRange
		}
		v, err := d.get(n)
		if t.Kind == KDynInt {
			v = sext(v, n)
		}
		return v, err
	case KVarUint:
		return d.varu(maxBytes(t))
	case KVarSize:
		n, err := d.size()
		return uint64(n), err
	case KVarInt:
		return d.vari(maxBytes(t))
	}
	panic("not a number")
}

// Decode reads a message; args are the arguments of a parameterized type.
func (d *Dec) Decode(t *Decl, args []*Val) (*Val, error) { return d.compound(t, args, nil) }

func (d *Dec) val(t *Type, env Env, c *ctx) (*Val, error) {
	v, err := d.read(t, env, c)
	if b := t.Base(); err == nil && b.Kind == KRef {
		d.Odd = d.Odd || !b.Ref.Named(v.N)
	}
	return v, err
}

func (d *Dec) read(t *Type, env Env, c *ctx) (*Val, error) {
	d.Objects++
	b := t.Base()
	if c != nil && t.Packable() {
		n := b
		if b.Kind == KRef {
			n = b.Ref.Base.Base()
		}
		v, err := d.packed(n, env, c)
		return &Val{N: v}, err
	}
	v := &Val{}
	var err error
	switch b.Kind {
	case KBool:
		v.N, err = d.get(1)
	case KFloat:
		v.N, err = d.get(b.Bits)
		if b.Bits == 16 {
			v.N = uint64(math.Float32bits(fromHalf(uint16(v.N))))
		}
	case KString, KBytes:
		var n int
		if n, err = d.size(); err != nil {
			return nil, err
		}
		if n > (d.End-d.Pos)/8 {
			d.Pos = d.End
			return nil, ErrEnd
		}
		v.S = make([]byte, n)
		for i := range v.S {
			x, _ := d.get(8)
			v.S[i] = byte(x)
		}
	case KExtern:
		var n int
		if n, err = d.size(); err != nil {
			return nil, err
		}
		if n > d.End-d.Pos {
			d.Pos = d.End
			return nil, ErrEnd
		}
		var o Bits
		o.Append(d.In, d.Pos, d.Pos+n)
		d.Pos += n
		v.N, v.S = uint64(n), o.B
	case KRef:
		switch b.Ref.Kind {
		case DEnum, DBitmask:
			v.N, err = d.num(b.Ref.Base.Base(), env)
		default:
			return d.compound(b.Ref, Args(t, env), c)
		}
	default:
		v.N, err = d.num(b, env)
	}
	return v, err
}

func (d *Dec) packed(t *Type, env Env, c *ctx) (uint64, error) {
	if !c.started {
		p, err := d.get(1)
		if err != nil {
			return 0, err
		}
		c.packed = p != 0
		if c.packed {
			m, err := d.get(6)
			if err != nil {
				return 0, err
			}
			c.max = int(m)
		}
		c.started = true
		c.prev, err = d.num(t, env)
		return c.prev, err
	}
	if !c.packed {
		return d.num(t, env)
	}
	if c.max > 0 {
		v, err := d.get(c.max + 1)
		if err != nil {
			return 0, err
		}
		c.prev = t.stored(c.prev + sext(v, c.max+1))
	}
	if !Fits(t, c.prev, env) {
		d.Wild = true
	}
	return c.prev, nil
}

func (d *Dec) align(n int) error {
	if n == 0 {
		return nil
	}
	if m := d.Pos % n; m != 0 {
		if d.Pos+n-m > d.End {
			d.Pos = d.End
			return ErrEnd
		}
		d.Pos += n - m
	}
	return nil
}

func (d *Dec) field(f *Field, env Env, c *ctx, inPacked bool) (*Val, error) {
	if f.Cond != nil && env.Eval(f.Cond) == 0 {
		return nil, nil
	}
	if !inPacked {
		if err := d.align(f.Align); err != nil {
			return nil, err
		}
	}
	if f.Optional {
		p, err := d.get(1)
		if err != nil || p == 0 {
			return nil, err
		}
	}
	if inPacked {
		if err := d.align(f.Align); err != nil {
			return nil, err
		}
	}
	if f.Array == nil {
		return d.val(f.Type, env, c)
	}
	d.Arrays++
	n := 0
	if f.Array.Len != nil {
		n = int(env.Eval(f.Array.Len))
	} else {
		var err error
		if n, err = d.size(); err != nil {
			return nil, err
		}
	}
	if n < 0 {
		return nil, ErrRange
	}
	d.Elements += n
	var ac *ctx
	if (f.Array.Packed || inPacked) && (f.Type.Packable() || f.Type.Compound()) && n > 0 {
		ac = newCtx(f.Type)
	}
	v := &Val{}
	for i := 0; i < n; i++ {
		if d.Max > 0 && d.Objects > d.Max {
			return nil, ErrLimit
		}
		env.Index = i
		x, err := d.val(f.Type, env, ac)
		if err != nil {
			return nil, err
		}
		v.A = append(v.A, x)
	}
	return v, nil
}

func (d *Dec) compound(t *Decl, args []*Val, c *ctx) (*Val, error) {
	v := &Val{P: args, Sel: -1, F: make([]*Val, len(t.AllFields()))}
	env := Env{D: t, V: v}
	sub := func(i int) *ctx {
		if c == nil {
			return nil
		}
		return c.field(t, i)
	}
	var err error
	switch t.Kind {
	case DUnion:
		var sel uint64
		if c != nil {
			sel, err = d.packed(T(KVarSize), env, c.tag(t))
		} else {
			var n int
			n, err = d.size()
			sel = uint64(n)
		}
		if err != nil {
			return nil, err
		}
		if sel >= uint64(len(t.Fields)) {
			return nil, ErrSelector
		}
		v.Sel = int(sel)
		v.F[v.Sel], err = d.field(t.Fields[v.Sel], env, sub(v.Sel), c != nil)
		return v, err
	case DChoice:
		i, ok := t.Chosen(env.Eval(t.Selector))
		if !ok {
			return nil, ErrSelector
		}
		v.Sel = i
		if i >= 0 {
			v.F[i], err = d.field(t.AllFields()[i], env, sub(i), c != nil)
		}
		return v, err
	}
	for i, f := range t.Fields {
		if v.F[i], err = d.field(f, env, sub(i), c != nil); err != nil {
			return nil, err
		}
	}
	return v, nil
}

// toHalf rounds to half precision, ties to even.
func toHalf(f float32) uint16 {
	u := math.Float32bits(f)
	sign := uint16(u >> 16 & 0x8000)
	exp := int(u>>23&0xff) - 127
	man := u & 0x7fffff
	switch {
	case exp == 128 && man != 0:
		return sign | 0x7e00 | uint16(man>>13)
	case exp > 15:
		return sign | 0x7c00
	case exp >= -14:
		h := uint32(exp+15)<<10 | man>>13
		rest := man & 0x1fff
		if rest > 0x1000 || rest == 0x1000 && h&1 != 0 {
			h++
		}
		return sign | uint16(h)
	case exp >= -25:
		man |= 0x800000
		sh := uint(-exp - 14 + 13)
		h := man >> sh
		rest := man & (1<<sh - 1)
		half := uint32(1) << (sh - 1)
		if rest > half || rest == half && h&1 != 0 {
			h++
		}
		return sign | uint16(h)
	}
	return sign
}

func fromHalf(h uint16) float32 {
	sign := uint32(h&0x8000) << 16
	exp := int(h >> 10 & 0x1f)
	man := uint32(h & 0x3ff)
	switch {
	case exp == 31:
		return math.Float32frombits(sign | 0x7f800000 | man<<13)
	case exp == 0:
		f := float32(man) / (1 << 24)
		if sign != 0 {
			f = -f
		}
		return f
	}
	return math.Float32frombits(sign | uint32(exp-15+127)<<23 | man<<13)
}
