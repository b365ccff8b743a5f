package zmodel

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Val is the value of a type.
type Val struct {
	N   uint64 // numbers (signed ones sign-extended), bools, bits of floats; bit size of externs
	S   []byte // strings, bytes, externs
	A   []*Val // elements, if it is the value of an array field
	F   []*Val // compounds: by AllFields, nil if absent
	P   []*Val // arguments of a parameterized compound
	Sel int    // unions and choices: index into AllFields, -1 if none
}

// Env evaluates expressions inside a compound.
type Env struct {
	D     *Decl
	V     *Val
	Index int // of the array element whose arguments are evaluated
}

func (e Env) find(path []string) (*Type, *Val, bool) {
	d, v := e.D, e.V
	var t *Type
	for i, n := range path {
		found := false
		for k, p := range d.Params {
			if p.Name == n && k < len(v.P) {
				t, v, found = p.Type, v.P[k], true
				break
			}
		}
		if !found {
			for k, f := range d.AllFields() {
				if f.Name == n && k < len(v.F) && v.F[k] != nil {
					t, v, found = f.Type, v.F[k], true
					break
				}
			}
		}
		if !found {
			return nil, nil, false
		}
		if i < len(path)-1 {
			b := t.Base()
			if b.Kind != KRef {
				return nil, nil, false
			}
			d = b.Ref
		}
	}
	return t, v, true
}

// Eval evaluates an expression; absent fields count as zero, as their memory
// does in Go.
func (e Env) Eval(x *Expr) int64 {
	b := func(v bool) int64 {
		if v {
			return 1
		}
		return 0
	}
	switch x.Op {
	case "num":
		return x.Num
	case "item":
		for _, it := range x.Enum.Items {
			if it.Name == x.Item {
				return it.Value
			}
		}
		return 0
	case "ref":
		if _, v, ok := e.find(x.Path); ok {
			return int64(v.N)
		}
		return 0
	case "lengthof":
		if _, v, ok := e.find(x.Path); ok {
			return int64(len(v.A))
		}
		return 0
	case "index":
		return int64(e.Index)
	case "const":
		return x.Num
	case "call":
		in, f := e.callee(x)
		if f == nil {
			return 0
		}
		return int64(f.Result.stored(uint64(in.Eval(f.Body))))
	case "!":
		return b(e.Eval(x.L) == 0)
	case "valueof":
		return e.Eval(x.L)
	case "isset":
		return b(e.Eval(x.L)&e.Eval(x.R) != 0)
	case "numbits":
		// The bits that are needed to tell as many values apart.
		n := uint64(e.Eval(x.L))
		if n <= 1 {
			return int64(n)
		}
		return int64(bits.Len64(n - 1))
	case "?":
		if e.Eval(x.Cond) != 0 {
			return e.Eval(x.L)
		}
		return e.Eval(x.R)
	case "at":
		if _, v, ok := e.find(x.Path); ok && int(x.Num) < len(v.A) {
			return int64(v.A[x.Num].N)
		}
		return 0
	}
	l := e.Eval(x.L)
	if x.Op == "&&" {
		return b(l != 0 && e.Eval(x.R) != 0)
	}
	if x.Op == "||" {
		return b(l != 0 || e.Eval(x.R) != 0)
	}
	r := e.Eval(x.R)
	less, greater := l < r, l > r
	unsigned := false
	for _, o := range []*Expr{x.L, x.R} {
		if bits, signed := e.width(o); bits == 64 && !signed {
			unsigned = true
			less, greater = uint64(l) < uint64(r), uint64(l) > uint64(r)
		}
	}
	switch x.Op {
	case "+":
		return e.wrap(x, l+r)
	case "-":
		return e.wrap(x, l-r)
	case "*":
		return e.wrap(x, l*r)
	case "/":
		if unsigned {
			return int64(uint64(l) / uint64(r))
		}
		return e.wrap(x, l/r)
	case "%":
		if unsigned {
			return int64(uint64(l) % uint64(r))
		}
		return e.wrap(x, l%r)
	case "&":
		return l & r
	case "|":
		return l | r
	case "^":
		return l ^ r
	case "<<":
		return e.wrap(x, l<<uint(r&63))
	case ">>":
		if unsigned {
			return int64(uint64(l) >> uint(r&63))
		}
		return l >> uint(r&63)
	case "<":
		return b(less)
	case "<=":
		return b(!greater)
	case ">":
		return b(greater)
	case ">=":
		return b(!less)
	case "==":
		return b(l == r)
	case "!=":
		return b(l != r)
	}
	panic("unknown operator " + x.Op)
}

// callee finds a function and the object it is called on.
func (e Env) callee(x *Expr) (Env, *Func) {
	in := e
	if n := len(x.Path) - 1; n > 0 {
		t, v, ok := e.find(x.Path[:n])
		if !ok {
			return e, nil
		}
		in = Env{D: t.Base().Ref, V: v}
	}
	for i := range in.D.Funcs {
		if in.D.Funcs[i].Name == x.Path[len(x.Path)-1] {
			return in, &in.D.Funcs[i]
		}
	}
	return e, nil
}

// wrap cuts a result to the width of the Go type the generated code computes in.
func (e Env) wrap(x *Expr, n int64) int64 {
	bits, signed := e.width(x)
	if bits == 0 || bits >= 64 {
		return n
	}
	m := n & (1<<uint(bits) - 1)
	if signed {
		m = int64(sext(uint64(n), bits))
	}
	if m != n {
		Wraps++
	}
	return m
}

// Wraps counts the results of expressions that did not fit their Go type.
var Wraps int64

// width of the Go type of an expression; 0 for untyped literals.
func (e Env) width(x *Expr) (bits int, signed bool) {
	switch x.Op {
	case "ref", "at":
		t := e.typeOf(x.Path)
		if t == nil {
			return 64, true
		}
		return t.width()
	case "num":
		return 0, false
	case "const":
		return x.Type.width()
	case "call":
		if _, f := e.callee(x); f != nil {
			return f.Result.width()
		}
		return 64, true
	case "numbits":
		if x.L.Op == "num" {
			return 0, false
		}
	case "valueof":
		return e.width(x.L)
	case "<<", ">>":
		return e.width(x.L)
	case "+", "-", "*", "/", "%", "&", "|", "^":
		lb, ls := e.width(x.L)
		rb, rs := e.width(x.R)
		if lb == 0 {
			return rb, rs
		}
		if rb == 0 {
			return lb, ls
		}
		return max(lb, rb), ls && rs
	}
	return 64, true
}

// width of the Go type that holds a type.
func (t *Type) width() (bits int, signed bool) {
	b := t.Base()
	if b.Kind == KRef && b.Ref.Base != nil {
		b = b.Ref.Base.Base()
	}
	switch b.Kind {
	case KUint, KInt, KVarUint, KVarInt:
		bits = 8
		for bits < b.Bits {
			bits *= 2
		}
		if b.Bits == 0 {
			bits = 64
		}
		return bits, b.Signed()
	case KVarSize:
		return 32, false
	}
	return 64, true
}

func (e Env) typeOf(path []string) *Type {
	d := e.D
	var t *Type
	for i, n := range path {
		t = nil
		for _, p := range d.Params {
			if p.Name == n {
				t = p.Type
			}
		}
		for _, f := range d.AllFields() {
			if t == nil && f.Name == n {
				t = f.Type
			}
		}
		if t == nil {
			return nil
		}
		if i < len(path)-1 {
			b := t.Base()
			if b.Kind != KRef || !t.Compound() {
				return nil
			}
			d = b.Ref
		}
	}
	return t
}

// Value of a label.
func (d *Decl) label(l Label) int64 {
	if l.Item == "" {
		return l.Num
	}
	name := l.Item
	if i := strings.LastIndex(name, "."); i >= 0 {
		name = name[i+1:]
	}
	t := d.selectorType()
	if t != nil && t.Kind == KRef {
		for _, it := range t.Ref.Items {
			if it.Name == name {
				return it.Value
			}
		}
	}
	panic("unknown label " + l.Item)
}

func (d *Decl) selectorType() *Type {
	if d.Selector.Op == "ref" && len(d.Selector.Path) == 1 {
		for _, p := range d.Params {
			if p.Name == d.Selector.Path[0] {
				return p.Type.Base()
			}
		}
	}
	return nil
}

// Chosen finds the field that the selector value picks: its index, and whether
// the selector value is valid at all.
func (d *Decl) Chosen(sel int64) (int, bool) {
	i := 0
	for _, c := range d.Cases {
		for _, l := range c.Labels {
			if d.label(l) == sel {
				if c.Field == nil {
					return -1, true
				}
				return i, true
			}
		}
		if c.Field != nil {
			i++
		}
	}
	if d.HasDefault {
		if d.Default == nil {
			return -1, true
		}
		return i, true
	}
	return -1, false
}

// Range of a number type.
func (t *Type) Range() (min int64, max uint64) {
	switch t.Kind {
	case KBool:
		return 0, 1
	case KUint:
		return 0, umax(t.Bits)
	case KInt:
		return -1 << (t.Bits - 1), umax(t.Bits - 1)
	case KVarSize:
		return 0, 1<<31 - 1
	case KVarUint:
		switch t.Bits {
		case 16:
			return 0, 1<<15 - 1
		case 32:
			return 0, 1<<29 - 1
		case 64:
			return 0, 1<<57 - 1
		}
		return 0, math.MaxUint64
	case KVarInt:
		switch t.Bits {
		case 16:
			return -(1<<14 - 1), 1<<14 - 1
		case 32:
			return -(1<<28 - 1), 1<<28 - 1
		case 64:
			return -(1<<56 - 1), 1<<56 - 1
		}
		return math.MinInt64, math.MaxInt64
	}
	return 0, 0
}

// Signed tells if numbers of the type are signed.
func (t *Type) Signed() bool { return t.Kind == KInt || t.Kind == KDynInt || t.Kind == KVarInt }

func umax(bits int) uint64 {
	if bits >= 64 {
		return math.MaxUint64
	}
	return 1<<uint(bits) - 1
}

// Diff compares two values of a type and describes the first difference.
func Diff(t *Type, a, b *Val, path string) string {
	t = t.Base()
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("%s: present %v, want %v", path, b != nil, a != nil)
	}
	if a == nil {
		return ""
	}
	switch t.Kind {
	case KString, KBytes:
		if !bytes.Equal(a.S, b.S) {
			return fmt.Sprintf("%s: %s, want %s", path, short(b.S), short(a.S))
		}
	case KExtern:
		if a.N != b.N || !bytes.Equal(a.S, b.S) {
			return fmt.Sprintf("%s: %d bits %s, want %d bits %s", path, b.N, short(b.S), a.N, short(a.S))
		}
	case KFloat:
		if a.N != b.N {
			if t.Bits == 64 {
				if math.IsNaN(math.Float64frombits(a.N)) && math.IsNaN(math.Float64frombits(b.N)) {
					return ""
				}
			} else if x, y := math.Float32frombits(uint32(a.N)), math.Float32frombits(uint32(b.N)); x != x && y != y {
				return ""
			}
			return fmt.Sprintf("%s: float bits %#x, want %#x", path, b.N, a.N)
		}
	case KRef:
		if t.Ref.Kind == DEnum || t.Ref.Kind == DBitmask {
			if a.N != b.N {
				return fmt.Sprintf("%s: %d, want %d", path, int64(b.N), int64(a.N))
			}
			return ""
		}
		return diffCompound(t.Ref, a, b, path)
	default:
		if a.N != b.N {
			return fmt.Sprintf("%s: %d, want %d", path, int64(b.N), int64(a.N))
		}
	}
	return ""
}

func short(b []byte) string {
	if len(b) > 16 {
		return fmt.Sprintf("%d bytes %x…", len(b), b[:16])
	}
	return fmt.Sprintf("%d bytes %x", len(b), b)
}

func diffCompound(d *Decl, a, b *Val, path string) string {
	for i, p := range d.Params {
		if i < len(a.P) && i < len(b.P) && !p.Type.Compound() && a.P[i].N != b.P[i].N {
			return fmt.Sprintf("%s.%s: %d, want %d", path, p.Name, int64(b.P[i].N), int64(a.P[i].N))
		}
	}
	if d.Kind != DStruct && a.Sel != b.Sel {
		return fmt.Sprintf("%s: member %d chosen, want %d", path, b.Sel, a.Sel)
	}
	for i, f := range d.AllFields() {
		x, y := a.F[i], b.F[i]
		p := path + "." + f.Name
		if f.Array == nil || x == nil || y == nil {
			if s := Diff(f.Type, x, y, p); s != "" {
				return s
			}
			continue
		}
		if len(x.A) != len(y.A) {
			return fmt.Sprintf("%s: %d elements, want %d", p, len(y.A), len(x.A))
		}
		for k := range x.A {
			if s := Diff(f.Type, x.A[k], y.A[k], fmt.Sprintf("%s[%d]", p, k)); s != "" {
				return s
			}
		}
	}
	return ""
}

// Text renders a value for people.
func Text(t *Type, v *Val) string {
	var b strings.Builder
	text(&b, t, v)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "…"
	}
	return s
}

func text(b *strings.Builder, t *Type, v *Val) {
	if v == nil {
		b.WriteString("-")
		return
	}
	t = t.Base()
	switch t.Kind {
	case KString:
		if len(v.S) > 40 {
			fmt.Fprintf(b, "%q…(%d)", v.S[:40], len(v.S))
		} else {
			fmt.Fprintf(b, "%q", v.S)
		}
	case KBytes:
		b.WriteString(short(v.S))
	case KExtern:
		fmt.Fprintf(b, "%d bits %s", v.N, short(v.S))
	case KFloat:
		fmt.Fprintf(b, "f%#x", v.N)
	case KRef:
		if t.Ref.Kind == DEnum || t.Ref.Kind == DBitmask {
			fmt.Fprintf(b, "%d", int64(v.N))
			return
		}
		b.WriteString("{")
		for i, p := range t.Ref.Params {
			if i < len(v.P) && !p.Type.Compound() {
				fmt.Fprintf(b, "(%s=%d) ", p.Name, int64(v.P[i].N))
			}
		}
		first := true
		for i, f := range t.Ref.AllFields() {
			if v.F[i] == nil {
				continue
			}
			if !first {
				b.WriteString(" ")
			}
			first = false
			b.WriteString(f.Name + ":")
			if f.Array != nil {
				b.WriteString("[")
				for k, e := range v.F[i].A {
					if k > 0 {
						b.WriteString(" ")
					}
					if k > 24 {
						fmt.Fprintf(b, "…%d", len(v.F[i].A))
						break
					}
					text(b, f.Type, e)
				}
				b.WriteString("]")
			} else {
				text(b, f.Type, v.F[i])
			}
		}
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "%d", int64(v.N))
	}
}

// Round rounds the float16 numbers in a message as their transfer does.
func Round(t *Type, v *Val) {
	if v == nil {
		return
	}
	b := t.Base()
	if b.Kind == KFloat && b.Bits == 16 {
		v.N = uint64(math.Float32bits(fromHalf(toHalf(math.Float32frombits(uint32(v.N))))))
	}
	if !t.Compound() {
		return
	}
	for i, f := range b.Ref.AllFields() {
		x := v.F[i]
		if x == nil {
			continue
		}
		if f.Array == nil {
			Round(f.Type, x)
			continue
		}
		for _, e := range x.A {
			Round(f.Type, e)
		}
	}
}
