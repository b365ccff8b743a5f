package zmodel

import (
	"fmt"

	"vsim/rng"
)

// Random makes a schema of one or two packages. Like Fixed it keeps to
// constructs the generator supports.
func Random(seed uint64, i int) *Schema {
	g := &rgen{r: rng.New(seed, 0x5c4e3a, uint64(i)), p: &Package{Name: fmt.Sprintf("zr.s%d", i)}}
	r := g.r
	main := g.p
	s := &Schema{Packages: []*Package{main}}
	if r.P(50) {
		// What comes first lives in a package of its own.
		g.p = &Package{Name: fmt.Sprintf("zr.b%d", i)}
		main.Imports = append(main.Imports, g.p)
		s.Packages = append(s.Packages, g.p)
	}
	for k := r.N(3); k > 0; k-- {
		c := Const{Name: g.name("KON_"), Type: []*Type{U(8), U(32), VU(16)}[r.N(3)], Num: int64(1 + r.N(5))}
		if r.P(60) {
			c.Text = g.spell(c.Num, 3)
		}
		g.consts = append(g.consts, c)
		g.p.Consts = append(g.p.Consts, c)
	}
	for k := 1 + r.N(2); k > 0; k-- {
		g.enums = append(g.enums, g.enum())
	}
	g.masks = append(g.masks, g.bitmask())
	g.subs = append(g.subs, g.add(&Decl{Kind: DSubtype, Name: g.name("Sub"), Base: g.builtin()}))
	if r.P(40) {
		g.subs = append(g.subs, g.add(&Decl{Kind: DSubtype, Name: g.name("SubE"), Base: R(g.enums[0])}))
	}
	leaf := g.structure(3, false)
	g.compounds = append(g.compounds, leaf)
	if r.P(60) {
		g.subs = append(g.subs, g.add(&Decl{Kind: DSubtype, Name: g.name("SubC"), Base: R(leaf)}))
	}
	if r.P(50) {
		g.templates()
	}
	if r.P(40) {
		g.params = append(g.params, g.paramStruct(), g.choice())
		g.p = main
	} else {
		g.p = main
		g.params = append(g.params, g.paramStruct(), g.choice())
	}
	if r.P(40) {
		g.enums = append(g.enums, g.enum())
	}
	if r.P(50) {
		g.params = append(g.params, g.choice())
	}
	if r.P(40) {
		g.params = append(g.params, g.itemChoice())
	}
	if r.P(40) {
		g.params = append(g.params, g.bigParams(leaf))
	}
	if g.tmpls == nil {
		g.templates()
	}
	if r.P(40) {
		g.subs = append(g.subs, g.add(&Decl{Kind: DSubtype, Name: g.name("SubP"), Base: g.builtin()}))
	}
	g.compounds = append(g.compounds, g.union(nil))
	g.compounds = append(g.compounds, g.structure(6, true))
	if r.P(50) {
		g.compounds = append(g.compounds, g.union(nil))
	}
	if r.P(30) {
		g.params = append(g.params, g.union([]Param{{"par", U(8), 6}}))
	}
	g.compounds = append(g.compounds, g.structure(7, true))
	g.compounds = append(g.compounds, g.structure(9, true))
	s.Roots = append(s.Roots, g.compounds...)
	return s
}

type rgen struct {
	r         *rng.R
	aligned   bool // align is allowed here
	p         *Package
	n         int
	consts    []Const
	enums     []*Decl
	masks     []*Decl
	subs      []*Decl
	compounds []*Decl // without parameters
	params    []*Decl // with parameters
	tmpls     []*tmpl
}

// tmpl is a template with the instances made of it so far; instances are
// shared, as their names have to be unique.
type tmpl struct {
	d     *Decl
	insts map[string]*Decl
	kind  int
}

// scope is what a struct has to offer to the fields that come later.
type scope struct {
	g     *rgen
	d     *Decl
	count string           // a small number
	bools string           // a bool
	items map[*Decl]string // enums and bitmasks
	objs  map[*Decl]string // structs
	arr   string           // an array
	fn    string           // a function that makes a small number
	nums  []string         // more small numbers
	list  string           // an array of small numbers
}

func (g *rgen) name(prefix string) string {
	g.n++
	return fmt.Sprintf("%s%c%d", prefix, 'A'+rune(g.r.N(26)), g.n)
}

func (g *rgen) add(d *Decl) *Decl {
	d.Pkg = g.p.Name
	g.p.Decls = append(g.p.Decls, d)
	return d
}

func (g *rgen) integer() *Type {
	r := g.r
	switch r.N(9) {
	case 0, 1:
		return U(8 << uint(r.N(4)))
	case 2:
		return I(8 << uint(r.N(4)))
	case 3, 4:
		return B(1 + r.N(64))
	case 5:
		return SI(2 + r.N(63))
	case 6:
		return VU([]int{16, 32, 64, 0}[r.N(4)])
	case 7:
		return VI([]int{16, 32, 64, 0}[r.N(4)])
	}
	return T(KVarSize)
}

func (g *rgen) builtin() *Type {
	r := g.r
	switch r.N(10) {
	case 0:
		return T(KBool)
	case 1:
		return F([]int{16, 32, 64}[r.N(3)])
	case 2:
		return T(KString)
	case 3:
		return T([]Kind{KBytes, KExtern}[r.N(2)])
	}
	return g.integer()
}

// named is a type whose name can be part of the name of an instance.
func (g *rgen) named() *Type {
	r := g.r
	switch r.N(8) {
	case 0:
		return T(KString)
	case 1:
		return U(8 << uint(r.N(4)))
	case 2:
		return I(8 << uint(r.N(4)))
	case 3:
		return []*Type{VU(32), VI(64), T(KVarSize), T(KBool), F(32), T(KBytes), T(KExtern)}[r.N(7)]
	case 4:
		return R(g.enums[r.N(len(g.enums))])
	case 5:
		return R(g.masks[r.N(len(g.masks))])
	}
	return R(g.compounds[r.N(len(g.compounds))])
}

func (g *rgen) enum() *Decl {
	r := g.r
	d := &Decl{Kind: DEnum, Name: g.name("En"), Base: []*Type{U(8), U(16), B(4 + r.N(20)), I(16), SI(5 + r.N(10)), VU(16), VU(0), VI(32), I(64)}[r.N(9)]}
	v := int64(r.N(2))
	if d.Base.Signed() && r.P(50) {
		v -= int64(r.N(5))
	}
	for k := 0; k < 2+r.N(4); k++ {
		auto := k > 0 && r.P(40) || v == 0 && r.P(50)
		if k > 0 {
			if auto {
				v++
			} else {
				v += 1 + int64(r.N(2))
			}
		}
		it := Item{Name: fmt.Sprintf("I%d", k), Value: v, Auto: auto}
		if !auto && r.P(30) {
			it.Text = g.spell(v, 2)
		}
		d.Items = append(d.Items, it)
	}
	return g.add(d)
}

func (g *rgen) bitmask() *Decl {
	r := g.r
	d := &Decl{Kind: DBitmask, Name: g.name("Mk"), Base: []*Type{U(8), U(32), B(4 + r.N(20)), VU(32)}[r.N(4)]}
	for k := 0; k < 2+r.N(3); k++ {
		it := Item{Name: fmt.Sprintf("M%d", k), Value: 1 << uint(k)}
		if r.P(30) {
			it.Text = g.spell(it.Value, 2)
		}
		d.Items = append(d.Items, it)
	}
	return g.add(d)
}

// value is a type of single values.
func (g *rgen) value(compounds bool) *Type {
	r := g.r
	switch {
	case compounds && len(g.compounds) > 0 && r.P(25):
		return R(g.compounds[r.N(len(g.compounds))])
	case len(g.enums) > 0 && r.P(11):
		return R(g.enums[r.N(len(g.enums))])
	case len(g.masks) > 0 && r.P(8):
		return R(g.masks[r.N(len(g.masks))])
	case len(g.subs) > 0 && r.P(12):
		return R(g.subs[r.N(len(g.subs))])
	case compounds && len(g.tmpls) > 0 && r.P(14):
		if t := g.tmpls[r.N(len(g.tmpls))]; t.kind == 0 {
			return R(g.instance(t, g.named(), g.named()))
		}
	}
	return g.builtin()
}

func (g *rgen) field(name string, compounds bool) *Field {
	r := g.r
	f := &Field{Name: name, Type: g.value(compounds)}
	if r.P(35) {
		f.Array = &Array{Packed: r.P(50)}
		if r.P(25) {
			f.Array.Len = g.constant()
		}
	}
	if g.aligned && r.P(10) {
		f.Align = aligns[r.N(len(aligns))]
	}
	return f
}

// constant is a small constant.
func (g *rgen) constant() *Expr {
	r := g.r
	if len(g.consts) > 0 && r.P(50) {
		c := ConstRef(g.consts[r.N(len(g.consts))])
		if r.P(30) {
			return Bin(c, "+", Num(1))
		}
		return c
	}
	return Num(int64(1 + r.N(4)))
}

// spell is a constant expression with a given value.
func (g *rgen) spell(n int64, depth int) string {
	r := g.r
	k := int64(1 + r.N(5))
	in := func(v int64) string { return g.spell(v, depth-1) }
	if depth == 0 {
		return g.literal(n)
	}
	switch r.N(17) {
	case 0:
		return fmt.Sprintf("(%s + %s)", in(n-k), in(k))
	case 1:
		return fmt.Sprintf("(%s - %s)", in(n+k), in(k))
	case 2:
		return fmt.Sprintf("(%s * %s / %s)", in(n), in(k), in(k))
	case 3:
		return fmt.Sprintf("((%s << %s) >> %s)", in(n), in(k), in(k))
	case 4:
		return fmt.Sprintf("(%s + %s * %s)", in(n-6), in(2), in(3))
	case 5:
		if n >= 0 {
			return fmt.Sprintf("(%s %% %s)", in(n+(n+k)*k), in(n+k))
		}
	case 6:
		if n >= 0 {
			return fmt.Sprintf("(%s | %s)", in(n&k), in(n&^k))
		}
	case 7:
		if n >= 0 {
			return fmt.Sprintf("(%s ^ %s)", in(n^k), in(k))
		}
	case 8:
		if n >= 0 {
			return fmt.Sprintf("(%s & %s)", in(n|k<<8), in(255|n))
		}
	case 9:
		if n > 0 && n < 30 {
			return fmt.Sprintf("numbits(%s)", in(int64(1)<<uint(n-1)+1))
		}
	case 10:
		if n > 0 && n < 30 {
			return fmt.Sprintf("numbits(%s)", in(int64(1)<<uint(n)))
		}
	case 11:
		return fmt.Sprintf("((%s > %s) ? %s : %s)", in(k+1), in(k), in(n), in(n+k))
	case 12:
		return fmt.Sprintf("((%s == %s && %s <= %s) ? %s : %s)", in(k+1), in(k+1), in(k+1), in(k), in(n-k), in(n))
	case 13:
		return fmt.Sprintf("((!(%s != %s) || %s >= %s) ? %s : %s)", in(k), in(k), in(k), in(k+1), in(n), in(n-1))
	case 14:
		if len(g.consts) > 0 {
			c := g.consts[r.N(len(g.consts))]
			return fmt.Sprintf("(%s + %s)", c.Name, in(n-c.Num))
		}
	}
	return g.literal(n)
}

func (g *rgen) literal(n int64) string {
	switch g.r.N(6) {
	case 0:
		if n >= 0 {
			return fmt.Sprintf("0x%x", n)
		}
	case 1:
		if n > 0 {
			return fmt.Sprintf("0%o", n)
		}
	case 2:
		if n >= 0 {
			return fmt.Sprintf("%bb", n)
		}
	}
	return fmt.Sprint(n)
}

func (g *rgen) structure(n int, compounds bool) *Decl {
	r := g.r
	d := &Decl{Kind: DStruct, Name: g.name("St")}
	s := &scope{g: g, d: d, items: map[*Decl]string{}, objs: map[*Decl]string{}}
	for k := 0; k < n; k++ {
		nm := s.fieldName()
		switch {
		case s.count == "" && r.P(35):
			s.needCount()
			continue
		case s.bools == "" && r.P(20):
			s.needBool()
			continue
		case s.fn == "" && s.count != "" && r.P(15):
			body := Bin(Ref(s.count), []string{"+", "*"}[r.N(2)], Num(int64(1+r.N(2))))
			switch r.N(4) {
			case 0:
				body = If(s.condition(), s.few(), body)
			case 1:
				body = s.few()
			}
			s.fn = fmt.Sprintf("calc%d", k)
			d.Funcs = append(d.Funcs, Func{s.fn, []*Type{U(8), U(16), U(32), VU(0)}[r.N(4)], body})
			continue
		case compounds && len(g.params) > 0 && r.P(25):
			s.paramField()
			continue
		case compounds && r.P(6):
			s.templateField()
			continue
		case s.count != "" && r.P(10):
			t := DB(Bin(s.few(), "+", Num(int64(1+r.N(9)))))
			d.Fields = append(d.Fields, &Field{Name: s.fieldName(), Type: t})
			continue
		case s.count != "" && r.P(20):
			t := DB(Bin(Ref(s.count), "+", Num(int64(1+r.N(20)))))
			if r.P(40) {
				t = DI(Bin(Bin(Ref(s.count), "*", Num(int64(1+r.N(6)))), "+", Num(2)))
			} else if r.P(20) && len(g.consts) > 0 {
				t = DB(Bin(Ref(s.count), "+", ConstRef(g.consts[r.N(len(g.consts))])))
			}
			f := &Field{Name: nm, Type: t}
			if r.P(40) {
				f.Array = &Array{Packed: r.P(50)}
			}
			d.Fields = append(d.Fields, f)
			continue
		}
		g.aligned = true
		f := g.field(nm, compounds)
		g.aligned = false
		switch {
		case f.Array != nil && s.count != "" && r.P(30):
			f.Array.Len = s.small()
		case r.P(30):
			f.Cond = s.condition()
		case r.P(20):
			f.Optional = true
		}
		f.Name = s.fieldName() // the expressions may have added fields
		d.Fields = append(d.Fields, f)
		s.note(f)
	}
	if r.P(25) {
		d.Fields = append(d.Fields, g.again("self", d))
	}
	if compounds && r.P(20) {
		// Two types that contain each other.
		if e := g.compounds[r.N(len(g.compounds))]; e.Pkg == g.p.Name && e.Kind == DStruct {
			d.Fields = append(d.Fields, &Field{Name: "other", Type: R(e), Array: &Array{Packed: r.P(50)}})
			e.Fields = append(e.Fields, g.again(fmt.Sprintf("back%d", len(e.Fields)), d))
		}
	}
	return g.add(d)
}

// again is a field of a type that contains the field.
func (g *rgen) again(name string, d *Decl) *Field {
	f := &Field{Name: name, Type: R(d)}
	if g.r.P(50) {
		f.Optional = true
	} else {
		f.Array = &Array{Packed: g.r.P(40)}
		f.Optional = g.r.P(20)
	}
	return f
}

// note remembers what later expressions can refer to.
func (s *scope) note(f *Field) {
	if f.Cond != nil || f.Optional {
		return
	}
	if f.Array != nil {
		s.arr = f.Name
		if k := f.Type.Kind; k == KUint || k == KInt || k == KVarUint || k == KVarInt {
			s.list = f.Name
		}
		return
	}
	if f.Type.Kind != KRef {
		return
	}
	switch d := f.Type.Ref; d.Kind {
	case DEnum, DBitmask:
		s.items[d] = f.Name
	case DStruct:
		s.objs[d] = f.Name
	}
}

func (s *scope) fieldName() string {
	return fmt.Sprintf("%c%d", 'a'+rune(s.g.r.N(26)), len(s.d.Fields))
}

func (s *scope) needCount() string {
	if s.count == "" {
		s.count = s.fieldName()
		s.d.Fields = append(s.d.Fields, &Field{Name: s.count, Type: []*Type{U(8), B(3), VU(16)}[s.g.r.N(3)], Max: uint64(3 + s.g.r.N(4))})
	}
	return s.count
}

func (s *scope) needBool() string {
	if s.bools == "" {
		s.bools = s.fieldName()
		s.d.Fields = append(s.d.Fields, &Field{Name: s.bools, Type: T(KBool)})
	}
	return s.bools
}

func (s *scope) needItem(d *Decl) string {
	if s.items[d] == "" {
		s.items[d] = s.fieldName()
		s.d.Fields = append(s.d.Fields, &Field{Name: s.items[d], Type: R(d)})
	}
	return s.items[d]
}

func (s *scope) needObj(d *Decl) string {
	if s.objs[d] == "" {
		s.objs[d] = s.fieldName()
		s.d.Fields = append(s.d.Fields, &Field{Name: s.objs[d], Type: R(d)})
	}
	return s.objs[d]
}

// small is an expression with a value that serves as the length of an array.
func (s *scope) small() *Expr {
	r := s.g.r
	switch r.N(9) {
	case 6, 7:
		return s.few()
	case 0:
		if s.fn != "" {
			return Call(s.fn)
		}
	case 1:
		return Bin(Ref(s.needCount()), "+", Num(int64(1+r.N(2))))
	case 2:
		return Bin(Ref(s.needCount()), "&", Num(int64(1+r.N(3))))
	}
	return Ref(s.needCount())
}

// number is a field with a small number.
func (s *scope) number() string {
	r := s.g.r
	if len(s.nums) == 0 || len(s.nums) < 4 && r.P(50) {
		t := []*Type{U(8), U(16), U(32), U(64), I(16), I(32), I(64), B(3), B(13), SI(7), VU(16), VU(32), VU(64), VI(32), VI(64)}[r.N(15)]
		n := s.fieldName()
		s.d.Fields = append(s.d.Fields, &Field{Name: n, Type: t, Max: NonNegative | uint64(2+r.N(8))})
		s.nums = append(s.nums, n)
	}
	return s.nums[r.N(len(s.nums))]
}

// sum is an expression over several types of numbers. It stays small.
func (s *scope) sum() *Expr {
	r := s.g.r
	switch r.N(12) {
	case 0:
		return Bin(Ref(s.number()), "%", Num(int64(2+r.N(3))))
	case 1:
		return Bin(Ref(s.number()), "/", Num(int64(2+r.N(3))))
	case 2:
		return Bin(Ref(s.number()), []string{"^", "|", "&"}[r.N(3)], Num(int64(1+r.N(3))))
	case 3:
		return Bin(Ref(s.number()), []string{"<<", ">>"}[r.N(2)], Num(int64(1+r.N(2))))
	case 4:
		return Un("numbits", Ref(s.number()))
	case 5:
		return Bin(Un("numbits", Num(int64(r.N(20)))), "+", Ref(s.number()))
	case 6, 7:
		return Bin(Ref(s.number()), "*", Ref(s.number()))
	case 8:
		return Bin(Bin(Ref(s.number()), "+", Num(int64(1+r.N(3)))), "*", Ref(s.number()))
	case 9:
		return Bin(Ref(s.number()), "+", Bin(Ref(s.number()), "*", Num(2)))
	case 10:
		if s.arr != "" {
			return Bin(LengthOf(s.arr), "+", Ref(s.number()))
		}
	}
	return Bin(Ref(s.number()), "+", Ref(s.number()))
}

// few is a sum of at most a few.
func (s *scope) few() *Expr { return Bin(s.sum(), "%", Num(int64(2+s.g.r.N(4)))) }

func (s *scope) condition() *Expr {
	r, g := s.g.r, s.g
	cmp := []string{">", "<", "==", "!=", ">=", "<="}[r.N(6)]
	switch r.N(13) {
	case 9, 10, 11:
		return Bin(s.sum(), cmp, Num(int64(r.N(9))))
	case 12:
		if s.list != "" {
			i := int64(r.N(2))
			return Bin(Bin(LengthOf(s.list), ">", Num(i)), "&&", Bin(At(i, s.list), cmp, Num(int64(r.N(9)))))
		}
	case 0, 1:
		return Ref(s.needBool())
	case 2:
		e := g.enums[r.N(len(g.enums))]
		it := e.Items[r.N(len(e.Items))]
		return Bin(Ref(s.needItem(e)), []string{"==", "!="}[r.N(2)], ItemOf(e, it.Name))
	case 3:
		m := g.masks[r.N(len(g.masks))]
		return IsSet(Ref(s.needItem(m)), m, m.Items[r.N(len(m.Items))].Name)
	case 4:
		if s.arr != "" {
			return Bin(LengthOf(s.arr), cmp, Num(int64(r.N(4))))
		}
	case 5:
		if s.fn != "" {
			return Bin(Call(s.fn), cmp, Num(int64(r.N(6))))
		}
	case 6:
		return Bin(Bin(Ref(s.needCount()), ">", Num(int64(r.N(3)))), []string{"&&", "||"}[r.N(2)], Un("!", Ref(s.needBool())))
	case 7:
		e := g.enums[r.N(len(g.enums))]
		return Bin(Un("valueof", Ref(s.needItem(e))), cmp, Num(e.Items[r.N(len(e.Items))].Value))
	}
	return Bin(Ref(s.needCount()), cmp, Num(int64(r.N(4))))
}

// args makes arguments for a parameterized type.
func (s *scope) args(d *Decl, array bool) []*Expr {
	r, g := s.g.r, s.g
	var as []*Expr
	for _, p := range d.Params {
		var a *Expr
		b := p.Type.Base()
		switch {
		case b.Kind == KBool:
			a = s.condition()
		case b.Kind == KRef && (b.Ref.Kind == DEnum || b.Ref.Kind == DBitmask):
			a = Ref(s.needItem(p.Type.Ref))
			if r.P(20) && b.Ref.Kind == DEnum && p.Type.Ref == b.Ref {
				a = ItemOf(b.Ref, b.Ref.Items[r.N(len(b.Ref.Items))].Name)
			}
		case b.Kind == KRef:
			a = Ref(s.needObj(b.Ref))
		default:
			switch {
			case array && r.P(30):
				a = Index()
			case r.P(15):
				a = g.constant()
			default:
				a = s.small()
			}
		}
		as = append(as, a)
	}
	return as
}

func (s *scope) paramField() {
	r, g := s.g.r, s.g
	d := g.params[r.N(len(g.params))]
	f := &Field{}
	if r.P(40) {
		f.Array = &Array{Packed: r.P(40)}
	}
	f.Type = R(d, s.args(d, f.Array != nil)...)
	if r.P(15) {
		f.Optional = true
	}
	f.Name = s.fieldName()
	s.d.Fields = append(s.d.Fields, f)
}

// templateField adds a field of an instance of a template with parameters.
func (s *scope) templateField() {
	r, g := s.g.r, s.g
	if len(g.tmpls) == 0 {
		return
	}
	t := g.tmpls[r.N(len(g.tmpls))]
	var d *Decl
	switch t.kind {
	case 0:
		d = g.instance(t, g.named(), g.named())
	case 1: // over a type with one number as parameter
		var ps []*Decl
		for _, p := range g.params {
			if len(p.Params) == 1 && p.Params[0].Type.Kind == KUint {
				ps = append(ps, p)
			}
		}
		if len(ps) == 0 {
			return
		}
		d = g.instance(t, R(ps[r.N(len(ps))]))
	case 2:
		d = g.instance(t, R(g.enums[r.N(len(g.enums))]))
	}
	f := &Field{}
	if r.P(40) {
		f.Array = &Array{Packed: r.P(50)}
	}
	f.Type = R(d, s.args(d, f.Array != nil)...)
	f.Name = s.fieldName()
	s.d.Fields = append(s.d.Fields, f)
}

func (g *rgen) instance(t *tmpl, args ...*Type) *Decl {
	args = args[:len(t.d.TParams)]
	key := ""
	for _, a := range args {
		key += "," + a.text()
	}
	d := t.insts[key]
	if d == nil {
		d = Instance(t.d, args...)
		t.insts[key] = d
	}
	return d
}

func (g *rgen) paramStruct() *Decl {
	r := g.r
	d := &Decl{Kind: DStruct, Name: g.name("Pa"), Params: []Param{{"par", U(8), 6}}}
	d.Fields = append(d.Fields,
		&Field{Name: "r0", Type: g.value(true), Cond: Bin(Ref("par"), ">", Num(int64(r.N(4))))},
		&Field{Name: "r1", Type: g.value(false), Array: &Array{Len: Ref("par"), Packed: r.P(50)}})
	if r.P(50) {
		d.Fields = append(d.Fields, g.field("r2", true))
	}
	if r.P(30) {
		d.Fields = append(d.Fields, &Field{Name: "r3", Type: DB(Bin(Ref("par"), "+", Num(int64(1+r.N(9))))), Array: &Array{Packed: r.P(60)}})
	}
	if len(g.params) > 0 && r.P(40) {
		if p := g.params[r.N(len(g.params))]; len(p.Params) == 1 && p.Params[0].Type.Kind == KUint {
			d.Fields = append(d.Fields, &Field{Name: "r4", Type: R(p, Ref("par"))})
		}
	}
	return g.add(d)
}

// bigParams has parameters of several kinds.
func (g *rgen) bigParams(leaf *Decl) *Decl {
	r := g.r
	d := &Decl{Kind: DStruct, Name: g.name("Pb")}
	for _, k := range []int{0, 1, 2, 3}[r.N(2):] {
		switch k {
		case 0:
			d.Params = append(d.Params, Param{"flag", T(KBool), 0})
			d.Fields = append(d.Fields, &Field{Name: "s0", Type: g.value(true), Cond: Ref("flag")})
		case 1:
			e := g.enums[r.N(len(g.enums))]
			d.Params = append(d.Params, Param{"item", R(e), 0})
			d.Fields = append(d.Fields, &Field{Name: "s1", Type: g.value(false), Cond: Bin(Ref("item"), "==", ItemOf(e, e.Items[0].Name))})
		case 2:
			// Fields of a parameter.
			d.Params = append(d.Params, Param{"obj", R(leaf), 0})
			c := Num(0)
			for _, f := range leaf.Fields {
				if f.Max != 0 && f.Array == nil {
					c = Ref("obj", f.Name)
				}
			}
			for _, f := range leaf.Funcs {
				if r.P(60) {
					c = Call("obj", f.Name)
				}
			}
			if c.Op == "num" {
				d.Params = d.Params[:len(d.Params)-1]
				continue
			}
			d.Fields = append(d.Fields, &Field{Name: "s2", Type: g.value(false), Array: &Array{Len: c, Packed: r.P(50)}})
		case 3:
			d.Params = append(d.Params, Param{"num", []*Type{U(16), U(32), B(5), VU(32), I(32)}[r.N(5)], 6})
			d.Fields = append(d.Fields, &Field{Name: "s3", Type: DB(Bin(Ref("num"), "+", Num(int64(1+r.N(9))))), Array: &Array{Packed: r.P(60)}})
		}
	}
	return g.add(d)
}

func (g *rgen) choice() *Decl {
	r := g.r
	d := &Decl{Kind: DChoice, Name: g.name("Ch"), Params: []Param{{"par", U(8), 6}}, Selector: Ref("par")}
	v := int64(0)
	for k := 0; k < 2+r.N(3); k++ {
		c := Case{Labels: num(v)}
		v++
		if r.P(30) {
			c.Labels = append(c.Labels, Label{Num: v})
			v++
		}
		if !r.P(12) {
			c.Field = g.caseField(fmt.Sprintf("c%d", k), true)
		}
		d.Cases = append(d.Cases, c)
	}
	d.HasDefault = true
	if r.P(70) {
		d.Default = g.caseField("dflt", true)
	}
	return g.add(d)
}

// caseField is a field of a choice; par is a number to refer to.
func (g *rgen) caseField(name string, par bool) *Field {
	r := g.r
	f := g.field(name, true)
	if !par {
		return f
	}
	switch r.N(6) {
	case 0:
		f.Array = &Array{Len: Ref("par"), Packed: r.P(50)}
	case 1:
		if len(g.params) > 0 {
			if p := g.params[r.N(len(g.params))]; len(p.Params) == 1 && p.Params[0].Type.Kind == KUint {
				f.Type = R(p, Ref("par"))
				f.Align = 0
				if f.Array != nil {
					f.Array.Len = nil
				}
			}
		}
	}
	return f
}

// itemChoice is a choice over an enum or bitmask.
func (g *rgen) itemChoice() *Decl {
	r := g.r
	e := g.enums[r.N(len(g.enums))]
	d := &Decl{Kind: DChoice, Name: g.name("Ci"), Selector: Ref("sel")}
	if r.P(25) {
		e = g.masks[0]
		d.HasDefault = true
	}
	d.Params = []Param{{"sel", R(e), 0}}
	for k, it := range e.Items {
		if k > 0 && r.P(20) {
			d.HasDefault = true
			continue
		}
		name := it.Name
		if r.P(30) {
			name = e.Name + "." + name
		}
		d.Cases = append(d.Cases, Case{[]Label{{Item: name}}, g.caseField(fmt.Sprintf("d%d", k), false)})
	}
	if d.HasDefault && r.P(60) {
		d.Default = g.caseField("other", false)
	}
	return g.add(d)
}

func (g *rgen) union(ps []Param) *Decl {
	d := &Decl{Kind: DUnion, Name: g.name("Un"), Params: ps}
	for k := 0; k < 2+g.r.N(4); k++ {
		d.Fields = append(d.Fields, g.caseField(fmt.Sprintf("u%d", k), len(ps) > 0))
	}
	if len(ps) == 0 && g.r.P(25) {
		d.Fields = append(d.Fields, &Field{Name: "us", Type: R(d), Array: &Array{Packed: g.r.P(40)}})
	}
	if len(ps) == 1 && ps[0].Type.Kind == KUint && g.r.P(40) {
		d.Funcs = []Func{{"tell", U(8), If(Bin(Ref(ps[0].Name), ">", Num(2)), Ref(ps[0].Name), Num(int64(g.r.N(4))))}}
		d.Fields = append(d.Fields, &Field{Name: "told", Type: g.value(false), Array: &Array{Len: Call("tell"), Packed: g.r.P(50)}},
			&Field{Name: "wide", Type: DB(Bin(Call("tell"), "+", Num(1)))})
	}
	return g.add(d)
}

func (g *rgen) templates() {
	r := g.r
	add := func(kind int, d *Decl) {
		g.tmpls = append(g.tmpls, &tmpl{g.add(d), map[string]*Decl{}, kind})
	}
	if r.P(60) {
		add(0, &Decl{Kind: DStruct, Name: g.name("Tm"), TParams: []string{"TT"}, Fields: []*Field{
			{Name: "t0", Type: TP("TT")}, {Name: "t1", Type: TP("TT"), Array: &Array{Packed: r.P(50)}}, g.field("t2", false)}})
	}
	if r.P(30) {
		add(0, &Decl{Kind: DStruct, Name: g.name("Tm"), TParams: []string{"TA", "TB"}, Fields: []*Field{
			{Name: "n", Type: B(3)}, {Name: "t0", Type: TP("TB"), Cond: Bin(Ref("n"), ">", Num(2))},
			{Name: "t1", Type: TP("TA"), Array: &Array{Packed: r.P(50), Len: Ref("n")}}, {Name: "t2", Type: TP("TB"), Optional: true}}})
	}
	if r.P(40) {
		add(1, &Decl{Kind: DStruct, Name: g.name("Tp"), TParams: []string{"TT"}, Params: []Param{{"par", U(8), 6}}, Fields: []*Field{
			{Name: "n", Type: B(2)}, {Name: "t0", Type: TP("TT", Ref("par"))}, {Name: "t1", Type: TP("TT", Ref("n")), Array: &Array{Packed: r.P(50)}}}})
	}
	if r.P(40) {
		add(2, &Decl{Kind: DChoice, Name: g.name("Tc"), TParams: []string{"TE"}, Params: []Param{{"sel", TP("TE"), 0}}, Selector: Ref("sel"), Cases: []Case{
			{[]Label{{Item: "I0"}}, g.caseField("t0", false)}, {[]Label{{Item: "I1"}}, &Field{Name: "t1", Type: TP("TE"), Array: &Array{Packed: r.P(50)}}}},
			HasDefault: true, Default: g.caseField("t2", false)})
	}
}

var aligns = []int{8, 16, 4, 32, 64, 3}

// Period is a number of bits after which every alignment in use repeats.
const Period = 128 * 3
