package zmodel

import (
	"math"
	"unicode/utf8"

	"vsim/choice"
)

// Gen makes values from decisions.
type Gen struct {
	S      *choice.Src
	Budget int  // elements left
	Big    bool // long strings and arrays are allowed
	Vast   bool // one array of numbers has more elements than 16 bits can count
	huge   bool // there is one of thousands already
	stack  []*Decl
}

// Message makes a valid message of a type without parameters.
func (g *Gen) Message(d *Decl) *Val { return g.compound(d, nil, nil) }

// Near makes a message that differs little from another one.
func (g *Gen) Near(d *Decl, v *Val) *Val { return g.compound(d, v.P, v) }

func (g *Gen) compound(d *Decl, args []*Val, prev *Val) *Val {
	v := &Val{P: args, Sel: -1, F: make([]*Val, len(d.AllFields()))}
	env := Env{D: d, V: v}
	g.stack = append(g.stack, d)
	defer func() { g.stack = g.stack[:len(g.stack)-1] }()
	pf := func(i int) *Val {
		if prev == nil {
			return nil
		}
		return prev.F[i]
	}
	switch d.Kind {
	case DUnion:
		if prev != nil && g.S.P(60) {
			v.Sel = prev.Sel
		} else {
			v.Sel = g.S.N(len(d.Fields))
		}
		v.F[v.Sel] = g.field(d.Fields[v.Sel], env, pf(v.Sel), true)
	case DChoice:
		i, ok := d.Chosen(env.Eval(d.Selector))
		if !ok {
			panic("no member for selector in " + d.Name)
		}
		v.Sel = i
		if i >= 0 {
			v.F[i] = g.field(d.AllFields()[i], env, pf(i), true)
		}
	default:
		for i, f := range d.Fields {
			v.F[i] = g.field(f, env, pf(i), false)
		}
	}
	return v
}

func (g *Gen) field(f *Field, env Env, prev *Val, must bool) *Val {
	if f.Cond != nil && env.Eval(f.Cond) == 0 {
		return nil
	}
	again := g.again(f)
	if f.Optional && !must {
		p := 50
		if prev != nil {
			p = 85
		}
		if again > 0 {
			p /= again
		}
		if again > 0 && g.Budget <= 0 {
			p = 0
		}
		if !g.S.P(p) {
			return nil
		}
	}
	if f.Array == nil {
		return g.val(f.Type, f.Max, env, prev)
	}
	n := 0
	if f.Array.Len != nil {
		n = int(env.Eval(f.Array.Len))
	} else {
		n = g.length(f)
		if again > 0 {
			n = min(n, g.Budget, 4-again)
		}
		n = max(n, 0)
	}
	v := &Val{}
	style := g.S.N(8)
	var last *Val
	for i := 0; i < n; i++ {
		env.Index = i
		var x *Val
		if f.Type.Packable() {
			x = &Val{N: g.element(f.Type.Base(), f.Max, env, style, i, last, v.A)}
		} else {
			p := last
			if style == 0 || f.Type.Compound() && style == 7 {
				p = nil
			}
			x = g.val(f.Type, f.Max, env, p)
		}
		v.A = append(v.A, x)
		last = x
		g.Budget--
	}
	return v
}

// again tells how often the compound of a field is already being made.
func (g *Gen) again(f *Field) int {
	n := 0
	if f.Type.Compound() {
		for _, d := range g.stack {
			if d == f.Type.Base().Ref {
				n++
			}
		}
	}
	if n > 0 {
		g.Budget--
	}
	return n
}

func (g *Gen) length(f *Field) int {
	if g.Budget <= 0 {
		return g.S.N(2)
	}
	limit := 6
	if f.Type.Packable() {
		limit = 24
	} else if f.Type.Compound() {
		limit = 8
	}
	n := g.S.Small(min(limit, g.Budget) + 1)
	if g.Vast && f.Type.Packable() {
		g.Vast = false
		return 1<<16 + g.S.N(1<<13) - 16
	}
	if g.Big && !f.Type.Compound() && g.S.P(3) {
		n = []int{127, 128, 129, 255, 256, 300}[g.S.N(6)]
		if g.S.P(15) && !g.huge {
			g.huge = true
			n = sizes[g.S.N(5)] + g.S.N(3) - 1
		}
	}
	return n
}

// element makes an element of an array of numbers; arrays follow a style so
// that delta packing meets all its cases.
func (g *Gen) element(t *Type, max uint64, env Env, style, i int, last *Val, all []*Val) uint64 {
	lo, hi := g.bounds(t, max, env)
	if t.Kind == KRef {
		if last != nil && style >= 3 && g.S.P(50) {
			return last.N
		}
		return g.item(t.Ref)
	}
	span := hi - lo // as distance
	signed := t.Signed()
	at := func(off uint64) uint64 {
		_ = signed
		return lo + off
	}
	pos := func(v uint64) uint64 { return v - lo }
	if last == nil {
		return g.number(t, max, env, nil)
	}
	p := pos(last.N)
	if p > span {
		return g.number(t, max, env, nil)
	}
	switch style {
	case 1: // constant
		return last.N
	case 2: // ramp
		step := uint64(1)
		if i >= 2 {
			step = all[i-1].N - all[i-2].N
		} else {
			step = g.S.U64() >> uint(1+g.S.N(63))
		}
		if span-p >= step {
			return at(p + step)
		}
		return last.N
	case 3: // alternating extremes
		if i%2 == 0 {
			return at(0)
		}
		return at(span)
	case 4: // small differences
		d := uint64(g.S.N(8))
		if g.S.N(2) == 0 {
			if p >= d {
				return at(p - d)
			}
		} else if span-p >= d {
			return at(p + d)
		}
		return last.N
	case 5: // differences at a power of two
		k := uint(g.S.N(64))
		if g.S.P(50) {
			k = uint(60 + g.S.N(4))
		}
		d := uint64(1)<<k - uint64(g.S.N(2))
		if g.S.N(2) == 0 {
			if p >= d {
				return at(p - d)
			}
			if span-p >= d {
				return at(p + d)
			}
		} else {
			if span-p >= d {
				return at(p + d)
			}
			if p >= d {
				return at(p - d)
			}
		}
		return last.N
	case 6: // mostly the same
		if g.S.P(70) {
			return last.N
		}
	}
	return g.number(t, max, env, nil)
}

// bounds of a number; for signed types as two's complement.
func (g *Gen) bounds(t *Type, max uint64, env Env) (uint64, uint64) {
	r := *t
	if t.Kind == KDynUint || t.Kind == KDynInt {
		r.Bits = int(env.Eval(t.Len))
		r.Kind = map[Kind]Kind{KDynUint: KUint, KDynInt: KInt}[t.Kind]
		if r.Bits < 1 || r.Bits > 64 {
			return 0, 0
		}
	}
	lo, hi := r.Range()
	if max&NonNegative != 0 {
		max &^= NonNegative
		lo = 0
	}
	if max != 0 && hi > max {
		hi = max
		if lo < 0 {
			lo = -int64(max)
		}
	}
	return uint64(lo), hi
}

func (g *Gen) number(t *Type, max uint64, env Env, prev *Val) uint64 {
	lo, hi := g.bounds(t, max, env)
	span := hi - lo
	zero := -lo // offset of zero
	var off uint64
	if prev != nil && prev.N-lo <= span {
		p := prev.N - lo
		switch g.S.N(4) {
		case 0:
			return prev.N
		case 1:
			d := uint64(g.S.N(4))
			if span-p >= d && p+d >= p {
				return prev.N + d
			}
			return prev.N
		case 2:
			d := uint64(1) << uint(g.S.N(64))
			if p >= d {
				return prev.N - d
			}
			return prev.N
		}
	}
	switch g.S.N(8) {
	case 0:
		off = zero
	case 1:
		off = zero + uint64(g.S.Small(16))
	case 2:
		off = span
	case 3:
		off = 0
	case 4, 5: // any bit length
		v := g.S.U64() >> uint(g.S.N(64))
		if lo != 0 && g.S.N(2) == 1 {
			off = zero - v
		} else {
			off = zero + v
		}
	case 6: // around a power of two
		v := uint64(1)<<uint(g.S.N(64)) + uint64(g.S.N(3)) - 1
		if lo != 0 && g.S.N(2) == 1 {
			off = zero - v
		} else {
			off = zero + v
		}
	default:
		off = g.S.U64()
	}
	if off > span {
		if span+1 == 0 {
			return lo + off
		}
		off %= span + 1
	}
	return lo + off
}

func (g *Gen) item(d *Decl) uint64 {
	if d.Kind == DEnum {
		return uint64(d.Items[g.S.N(len(d.Items))].Value)
	}
	var v uint64
	for _, it := range d.Items {
		if g.S.N(2) == 1 {
			v |= uint64(it.Value)
		}
	}
	return v
}

var runes = []rune("aZ0 ~\x00\x7f\u00e4\u00ff\u07ff\u0800\u20ac\ufffd\U0001f600")

// sizes are lengths at which implementations change their ways: limits of
// varsize, of buffers and of 16 bit numbers.
var sizes = []int{512, 1024, 4096, 8192, 1 << 14, 1 << 15, 1 << 16, 70000}

func (g *Gen) size() int {
	if g.Big && g.S.P(6) {
		if g.S.P(15) && !g.huge {
			g.huge = true
			return sizes[g.S.N(len(sizes))] + g.S.N(3) - 1
		}
		return []int{126, 127, 128, 129, 200, 255, 256, 600, 2100}[g.S.N(9)]
	}
	return g.S.Small(14)
}

func (g *Gen) val(t *Type, max uint64, env Env, prev *Val) *Val {
	b := t.Base()
	v := &Val{}
	switch b.Kind {
	case KBool:
		v.N = uint64(g.S.N(2))
	case KFloat:
		v.N = g.float(b.Bits)
	case KString:
		if prev != nil && g.S.P(30) {
			v.S = prev.S
			break
		}
		n := g.size()
		if n > 40 {
			v.S = fill(n, g.S.U64())
			if g.S.P(40) { // characters of several bytes
				b := make([]byte, 0, n)
				for _, x := range v.S {
					if b = utf8.AppendRune(b, runes[int(x)%len(runes)]); len(b) > n-4 {
						break
					}
				}
				for len(b) < n {
					b = append(b, 'x')
				}
				v.S = b[:n]
				break
			}
			for i := range v.S {
				v.S[i] = 'a' + v.S[i]%26
			}
			break
		}
		var rs []rune
		for i := 0; i < n; i++ {
			rs = append(rs, runes[g.S.N(len(runes))])
		}
		v.S = []byte(string(rs))
	case KBytes:
		n := g.size()
		v.S = fill(n, g.S.U64())
	case KExtern:
		n := g.size() * 8
		n += g.S.N(8)
		v.N = uint64(n)
		v.S = fill((n+7)/8, g.S.U64())
		if n%8 != 0 {
			v.S[len(v.S)-1] &= 0xff << uint(8-n%8)
		}
	case KRef:
		if b.Ref.Kind == DEnum || b.Ref.Kind == DBitmask {
			if prev != nil && g.S.P(40) {
				v.N = prev.N
			} else {
				v.N = g.item(b.Ref)
			}
			break
		}
		return g.compound(b.Ref, Args(t, env), prev)
	default:
		v.N = g.number(b, max, env, prev)
	}
	return v
}

// Args are the arguments for a field of a parameterized type.
// Args evaluates the arguments of a parameterized type.
func Args(t *Type, env Env) []*Val {
	if len(t.Args) == 0 {
		return nil
	}
	var args []*Val
	ps := t.Base().Ref.Params
	for i, a := range t.Args {
		if a.Op == "ref" && ps[i].Type.Compound() {
			if _, x, ok := env.find(a.Path); ok {
				args = append(args, x)
				continue
			}
		}
		args = append(args, &Val{N: ps[i].Type.stored(uint64(env.Eval(a)))})
	}
	return args
}

// stored is what is left of a number in the Go type that holds the type.
func (t *Type) stored(n uint64) uint64 {
	b := t.Base()
	if b.Kind == KRef && b.Ref.Base != nil {
		b = b.Ref.Base.Base()
	}
	bits := b.Bits
	switch b.Kind {
	case KUint, KInt, KVarUint, KVarInt:
	default:
		return n
	}
	if bits == 0 {
		return n
	}
	w := 8
	for w < bits {
		w *= 2
	}
	if b.Signed() {
		return sext(n, w)
	}
	if w < 64 {
		n &= 1<<uint(w) - 1
	}
	return n
}

func fill(n int, seed uint64) []byte {
	b := make([]byte, n)
	x := seed
	for i := range b {
		switch seed % 4 {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		default:
			x = x*6364136223846793005 + 1442695040888963407
			b[i] = byte(x >> 56)
		}
	}
	return b
}

func (g *Gen) float(bits int) uint64 {
	switch g.S.N(6) {
	case 0:
		return 0
	case 1:
		f := float64(g.S.N(64)) - 32
		if bits == 64 {
			return math.Float64bits(f / 4)
		}
		return uint64(math.Float32bits(float32(f) / 4))
	case 2:
		s := []float64{math.Inf(1), math.Inf(-1), math.Copysign(0, -1), math.NaN()}[g.S.N(4)]
		if bits == 64 {
			return math.Float64bits(s)
		}
		return uint64(math.Float32bits(float32(s)))
	}
	u := g.S.U64()
	switch bits {
	case 64:
		if f := math.Float64frombits(u); f != f {
			u = math.Float64bits(math.NaN())
		}
		return u
	case 32:
		u &= 0xffffffff
		if f := math.Float32frombits(uint32(u)); f != f {
			u = uint64(math.Float32bits(float32(math.NaN())))
		}
		return u
	}
	h := uint16(u)
	if g.S.N(3) == 0 {
		h &= 0x83ff // subnormal
	}
	if h&0x7c00 == 0x7c00 && h&0x3ff != 0 {
		h = 0x7e00
	}
	return uint64(math.Float32bits(fromHalf(h)))
}

// Half tells if a float32 survives a transfer as float16.
func Half(bits uint32) bool {
	f := math.Float32frombits(bits)
	return f != f || math.Float32bits(fromHalf(toHalf(f))) == bits
}
