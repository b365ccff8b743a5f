// Package zsgen makes random schema sets for the generator world. They are
// mostly, but need not be, valid.
package zsgen

import (
	"fmt"
	"strings"

	"vsim/rng"
)

// File is one schema file, split at its top-level declarations.
type File struct {
	Path  string   `json:"path"`
	Head  string   `json:"head"`
	Decls []string `json:"decls"`
}

// Text is the content of the file.
func (f File) Text() string { return f.Head + strings.Join(f.Decls, "") }

type typ struct {
	pkg     int
	name    string
	kind    string // struct choice union enum bitmask subtype
	params  int    // number of uint8 parameters
	tparams int
	items   []string
	pack    bool // may be packed
}

type pkg struct {
	name    string
	imports []int
	types   []*typ
	consts  []string
	used    map[string]bool
	decls   []string
}

type gen struct {
	r    *rng.R
	pkgs []*pkg
	cur  int
	long bool
	coll bool
}

// Options of a random set.
type Options struct {
	Collide   bool // names that collide after the case conversion of file names
	Long      bool // long names
	MaxPkgs   int
	MaxTypes  int
	Templates bool
	Bulk      bool // one declaration is very large
}

var ints = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "varint", "varint16", "varint32", "varint64", "varuint", "varuint16", "varuint32", "varuint64", "varsize", "bit:1", "bit:3", "bit:7", "bit:12", "bit:33", "int:5", "int:17", "int:40"}
var scalars = []string{"string", "bool", "float16", "float32", "float64", "extern", "bytes"}

// Random makes a set of schema files below dir.
func Random(r *rng.R, dir string, o Options) []File {
	g := &gen{r: r, long: o.Long, coll: o.Collide}
	names := []string{"alpha", "beta.core", "beta.util", "gamma.x.y", "delta_one", "beta", "eps.types"}
	if o.Collide {
		names = append(names, "Beta.core", "beta.Util", "Alpha", "delta.one")
	}
	rng.Shuffle(r, names)
	np := 1 + r.N(o.MaxPkgs)
	for i := 0; i < np; i++ {
		p := &pkg{name: names[i], used: map[string]bool{}}
		for j := 0; j < i; j++ {
			if r.P(60) {
				p.imports = append(p.imports, j)
			}
		}
		g.pkgs = append(g.pkgs, p)
	}
	bulk := -1
	if o.Bulk {
		bulk = r.N(np)
	}
	for i := range g.pkgs {
		g.cur = i
		n := 1 + r.N(o.MaxTypes)
		at := r.N(n)
		for k := 0; k < n; k++ {
			if i == bulk && k == at {
				g.bulk()
			}
			g.decl(o)
		}
	}
	// packages may import each other
	if np > 1 && r.P(8) {
		i := r.N(np - 1)
		g.pkgs[i].imports = append(g.pkgs[i].imports, i+1+r.N(np-1-i))
	}
	var fs []File
	for _, p := range g.pkgs {
		h := "package " + p.name + ";\n\n"
		for _, i := range p.imports {
			h += "import " + g.pkgs[i].name + ".*;\n"
		}
		f := File{Path: dir + "/" + strings.ReplaceAll(p.name, ".", "/") + ".zs", Head: h, Decls: p.decls}
		if r.P(15) {
			f.Path = strings.TrimSuffix(f.Path, ".zs") + ".zserio"
		}
		fs = append(fs, f)
	}
	return fs
}

var nouns = []string{"Road", "Lane", "Tile", "Node", "Attr", "Pos", "Speed", "Route", "Layer", "Meta", "Geo", "Index", "Zone", "Block"}

var commonItems = []string{"NONE", "LOW", "HIGH", "FULL", "AUTO"}

func (g *gen) visibleConsts() []string {
	p := g.pkgs[g.cur]
	cs := append([]string(nil), p.consts...)
	for _, i := range p.imports {
		cs = append(cs, g.pkgs[i].consts...)
	}
	return cs
}

// bulk adds a declaration that is larger than the buffers of anything that
// reads or writes it in pieces.
func (g *gen) bulk() {
	r := g.r
	p := g.pkgs[g.cur]
	n := g.name()
	n = strings.ToUpper(n[:1]) + n[1:]
	var b strings.Builder
	switch r.N(4) {
	case 0: // a comment
		size := []int{500, 4000, 8000, 33000, 66000}[r.N(5)] + r.N(300)
		b.WriteString("/**\n")
		for i := 0; b.Len() < size; i++ {
			fmt.Fprintf(&b, " * Line %d of the description of %s, which has to say a lot.\n", i, n)
		}
		fmt.Fprintf(&b, " */\nstruct %s\n{\n    uint8 value;\n};\n\n", n)
	case 1:
		fmt.Fprintf(&b, "enum uint16 %s\n{\n", n)
		k := 100 + r.N(500)
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, "    ITEM_%d = %d%s\n", i, i*3, map[bool]string{true: ",", false: ""}[i < k-1])
		}
		b.WriteString("};\n\n")
	case 2:
		fmt.Fprintf(&b, "struct %s\n{\n", n)
		for i, k := 0, 40+r.N(200); i < k; i++ {
			fmt.Fprintf(&b, "    %s field%d%s;\n", ints[r.N(len(ints))], i, []string{"", "", "[]", " if field0 > 1"}[min(i, 1)*r.N(4)])
		}
		b.WriteString("};\n\n")
	default: // many files
		for i, k := 0, 20+r.N(60); i < k; i++ {
			p.decls = append(p.decls, fmt.Sprintf("struct %sPart%d\n{\n    uint8 value;\n};\n\n", n, i))
		}
		return
	}
	p.decls = append(p.decls, b.String())
}

// gadget adds a group of declarations whose names, scopes or template arguments
// are easily mixed up.
func (g *gen) gadget(o Options) {
	r := g.r
	p := g.pkgs[g.cur]
	put := func(f string, a ...any) { p.decls = append(p.decls, fmt.Sprintf(f, a...)+"\n\n") }
	name := func() string { n := g.name(); return strings.ToUpper(n[:1]) + n[1:] }
	// two enums with common item names, in random order and with other values
	enums := func() (string, string, []string) {
		items := append([]string(nil), commonItems...)
		rng.Shuffle(r, items)
		items = items[:2+r.N(3)]
		mk := func() string {
			n := name()
			its := append([]string(nil), items...)
			rng.Shuffle(r, its)
			s := "enum uint8 " + n + "\n{\n"
			v := 0
			for i, it := range its {
				s += "    " + it
				if r.P(60) {
					v += r.N(5)
					s += fmt.Sprintf(" = %d", v)
				}
				v++
				if i < len(its)-1 {
					s += ","
				}
				s += "\n"
			}
			put("%s", s+"};")
			return n
		}
		return mk(), mk(), items
	}
	switch k := r.N(9); {
	case k == 0 && o.Templates: // several instantiations of a choice over enums
		e, f, items := enums()
		c, s := name(), name()
		x := ""
		for i, it := range items {
			x += fmt.Sprintf("    case %s: %s value%d;\n", it, rng.Pick(r, ints...), i)
		}
		put("choice %s<E>(E kind) on kind\n{\n%s};", c, x)
		put("struct %s\n{\n    %s e;\n    %s<%s>(e) x;\n    %s f;\n    %s<%s>(f) y;\n};", s, e, c, e, f, c, f)
	case k == 1 && o.Templates: // one template, other arguments for the same parameter
		q, t, s := name(), name(), name()
		put("struct %s(uint8 n)\n{\n    uint8 values[n];\n};", q)
		put("struct %s<T>\n{\n    uint8 p;\n    uint8 q;\n    T(p) x;\n    T(q) y;\n    uint8 z[p] if q > 1;\n    T(%s) w;\n};", t, rng.Pick(r, "p + q", "3", "q + 1"))
		put("struct %s\n{\n    %s<%s> value;\n};", s, t, q)
	case k == 2 && o.Templates: // instantiations that differ in the width only
		t := name()
		put("struct %s<T>\n{\n    T value;\n    T list[];\n};", t)
		w1 := 1 + r.N(12)
		w2 := w1
		if r.P(40) {
			w2 = 1 + r.N(40)
		}
		put("struct %s\n{\n    %s<bit:%d> value;\n};", name(), t, w1)
		put("struct %s\n{\n    %s<bit:%d> value;\n};", name(), t, w2)
	case k == 3 && o.Templates && len(p.imports) > 0: // arguments with the same name from two packages
		b := g.pkgs[p.imports[r.N(len(p.imports))]]
		n := "Same" + rng.Pick(r, nouns...)
		if b.used[n] || p.used[n] {
			return
		}
		b.used[n], p.used[n] = true, true
		b.decls = append(b.decls, "struct "+n+"\n{\n    uint16 far;\n};\n\n")
		put("struct %s\n{\n    uint8 near;\n};", n)
		t := name()
		put("struct %s<T>\n{\n    T value;\n};", t)
		put("struct %s\n{\n    %s<%s> value;\n};", name(), t, n)
		if r.P(60) {
			put("struct %s\n{\n    %s other;\n    %s.%s third;\n};", name(), n, b.name, n)
		} else {
			put("struct %s\n{\n    %s<%s.%s> value;\n};", name(), t, b.name, n)
		}
	case k == 4: // conditions on items of enums with common names
		e, f, items := enums()
		c := rng.Pick(r, e+".", f+".", e+".", f+".", "") + rng.Pick(r, items...)
		put("struct %s\n{\n    %s e;\n    %s f;\n    uint8 x if e == %s;\n};", name(), e, f, c)
		d := name()
		put("const uint32 %s = %s.%s + 1;", d, f, rng.Pick(r, items...))
		p.consts = append(p.consts, d)
	case k == 5: // choices over enums
		e, f, items := enums()
		for _, x := range []string{e, f} {
			c := name()
			put("choice %s(%s kind) on kind\n{\n    case %s: uint8 a;\n    case %s: uint16 b;\n};", c, x, items[0], items[1])
			put("struct %s\n{\n    %s kind;\n    %s(kind) value;\n};", name(), x, c)
		}
	case k == 6 && len(p.imports) > 0: // the same constant name in two packages
		b := g.pkgs[p.imports[r.N(len(p.imports))]]
		n, m := "SAME_"+fmt.Sprint(r.N(3)), name()
		if b.used[n] || p.used[n] {
			return
		}
		b.used[n], p.used[n] = true, true
		b.decls = append(b.decls, fmt.Sprintf("const uint32 %s = %d;\n\nconst uint32 %sBase = %s + 1;\n\n", n, r.N(20), m, n))
		put("const uint32 %s = %d;", n, 20+r.N(20))
		put("const uint32 %s = %sBase * 2;", m, m)
		put("struct %s\n{\n    uint8 x[%s];\n    uint8 y[%s];\n    uint8 z[%sBase];\n};", name(), n, m, m)
	case k == 7: // values without expressions that others refer to
		e, f := name(), name()
		decls := []string{
			fmt.Sprintf("enum uint8 %s\n{\n    P_%d,\n    Q_%d,\n    R_%d = 9,\n    S_%d\n};\n\n", e, r.N(2), r.N(2), r.N(2), r.N(2)),
		}
		it := "Q_0"
		if strings.Contains(decls[0], "Q_1") {
			it = "Q_1"
		}
		q := rng.Pick(r, e+"."+it, it)
		decls = append(decls, fmt.Sprintf("enum uint8 %s\n{\n    X_A = %s,\n    X_B,\n    X_C = X_A + 20\n};\n\n", f, q))
		bm := name()
		decls = append(decls, fmt.Sprintf("bitmask uint16 %s\n{\n    FIRST,\n    SECOND = %d,\n    THIRD\n};\n\n", bm, 2<<r.N(5)))
		decls = append(decls, fmt.Sprintf("const uint32 %s = valueof(%s.%s);\n\n", name(), bm, rng.Pick(r, "FIRST", "SECOND", "THIRD")))
		rng.Shuffle(r, decls)
		p.decls = append(p.decls, decls...)
	default: // unions with parameters
		q, u := name(), name()
		put("struct %s(uint8 n)\n{\n    uint8 values[n];\n};", q)
		put("union %s(uint8 %s)\n{\n    %s(%s) a;\n    uint8 b;\n};", u, "count", q, "count")
		put("struct %s\n{\n    uint8 count;\n    %s(count) value;\n};", name(), u)
	}
}

func (g *gen) name() string {
	p := g.pkgs[g.cur]
	for {
		a, b := rng.Pick(g.r, nouns...), rng.Pick(g.r, nouns...)
		n := a + b
		if g.coll {
			switch g.r.N(8) {
			case 0:
				n = a + "_" + b
			case 1:
				n = strings.ToLower(a) + b
			case 2:
				n = strings.ToUpper(a) + "_" + strings.ToUpper(b)
			case 3:
				n = a + strings.ToLower(b)
			case 4:
				n = a + b + fmt.Sprint(1+g.r.N(3))
			case 5:
				n = a + "_" + b + "_" + fmt.Sprint(1+g.r.N(2))
			case 6:
				n = rng.Pick(g.r, "Pkg", "pkg", "PKG", "Pkg1") + rng.Pick(g.r, "", "", a)
			}
		}
		if g.long {
			for i := g.r.N(4); i > 0; i-- {
				n += rng.Pick(g.r, "Very", "Sophisticated", "Extended", "_descriptor", "Classification") + rng.Pick(g.r, nouns...)
			}
		}
		key := strings.ToUpper(n[:1]) + n[1:]
		if !p.used[key] {
			p.used[key] = true
			return n
		}
	}
}

func (g *gen) visible(want func(*typ) bool) []*typ {
	var out []*typ
	p := g.pkgs[g.cur]
	seen := map[string]bool{}
	add := func(ts []*typ) {
		for _, t := range ts {
			if want(t) && !seen[t.name] {
				seen[t.name] = true
				out = append(out, t)
			}
		}
	}
	add(p.types)
	for _, i := range p.imports {
		add(g.pkgs[i].types)
	}
	return out
}

func (g *gen) add(t *typ, text string) {
	p := g.pkgs[g.cur]
	t.pkg = g.cur
	p.types = append(p.types, t)
	p.decls = append(p.decls, text)
}

func (g *gen) comment() string {
	switch g.r.N(6) {
	case 0:
		return "/** A " + rng.Pick(g.r, nouns...) + ". */\n"
	case 1:
		return "// " + rng.Pick(g.r, nouns...) + "\n"
	}
	return ""
}

func (g *gen) decl(o Options) {
	r := g.r
	if r.P(15) {
		g.gadget(o)
		return
	}
	k := r.N(100)
	switch {
	case k < 12:
		g.enum()
	case k < 20:
		g.bitmask()
	case k < 28:
		g.konst()
	case k < 36:
		g.subtype()
	case k < 46:
		g.choice()
	case k < 54:
		g.union()
	case k < 62 && o.Templates:
		g.template()
	case k < 72 && o.Templates:
		g.instantiate()
	default:
		g.strukt()
	}
}

func (g *gen) enum() {
	t := &typ{name: g.name(), kind: "enum", pack: true}
	n := 1 + g.r.N(5)
	s := g.comment() + "enum " + rng.Pick(g.r, "uint8", "int8", "bit:4", "uint16", "varuint", "int32") + " " + t.name + "\n{\n"
	common := g.r.P(25)
	for i := 0; i < n; i++ {
		it := fmt.Sprintf("%s_%s_%d", strings.ToUpper(strings.ReplaceAll(t.name, "_", "")), "ITEM", i)
		if common {
			it = commonItems[i]
		}
		s += "    " + it
		if g.r.P(30) {
			e := fmt.Sprint(i*2 + 1)
			if cs := g.visibleConsts(); len(cs) > 0 && i == 0 && g.r.P(30) {
				e = rng.Pick(g.r, cs...)
			} else if es := g.visible(func(t *typ) bool { return t.kind == "enum" }); len(es) > 0 && i == 0 && g.r.P(30) {
				o := es[g.r.N(len(es))]
				e = o.name + "." + rng.Pick(g.r, o.items...)
			} else if i > 0 && g.r.P(30) {
				e = t.items[i-1] + " + 2"
			}
			s += " = " + e
		}
		t.items = append(t.items, it)
		s += ",\n"
	}
	g.add(t, strings.TrimSuffix(s, ",\n")+"\n};\n\n")
}

func (g *gen) bitmask() {
	t := &typ{name: g.name(), kind: "bitmask", pack: true}
	n := 1 + g.r.N(5)
	s := g.comment() + "bitmask " + rng.Pick(g.r, "uint8", "bit:6", "uint16", "varuint32") + " " + t.name + "\n{\n"
	for i := 0; i < n; i++ {
		s += fmt.Sprintf("    %s_FLAG_%d", strings.ToUpper(strings.ReplaceAll(t.name, "_", "")), i)
		s += ",\n"
	}
	g.add(t, strings.TrimSuffix(s, ",\n")+"\n};\n\n")
}

func (g *gen) konst() {
	p := g.pkgs[g.cur]
	n := g.name()
	e := fmt.Sprint(g.r.N(50))
	if cs := g.visibleConsts(); len(cs) > 0 && g.r.P(50) {
		e = rng.Pick(g.r, cs...) + " + " + e
	} else if es := g.visible(func(t *typ) bool { return t.kind == "enum" }); len(es) > 0 && g.r.P(30) {
		o := es[g.r.N(len(es))]
		e = o.name + "." + rng.Pick(g.r, o.items...)
	}
	p.decls = append(p.decls, fmt.Sprintf("const %s %s = %s;\n\n", rng.Pick(g.r, "uint32", "int32", "uint16"), n, e))
	p.consts = append(p.consts, n)
}

func (g *gen) subtype() {
	t := &typ{name: g.name(), kind: "subtype"}
	base := rng.Pick(g.r, ints...)
	if vs := g.visible(func(t *typ) bool { return t.tparams == 0 && t.params == 0 }); len(vs) > 0 && g.r.P(60) {
		b := vs[g.r.N(len(vs))]
		base = b.name
		t.pack = b.pack
	} else {
		t.pack = true
	}
	g.add(t, g.comment()+"subtype "+base+" "+t.name+";\n\n")
}

// ref is a reference to a type, with arguments from avail (names of integer fields).
func (g *gen) ref(avail []string, tp []string) (text string, packable bool) {
	r := g.r
	if len(tp) > 0 && r.P(40) {
		return rng.Pick(r, tp...), false
	}
	k := r.N(100)
	if k < 40 {
		return rng.Pick(r, ints...), true
	}
	if k < 60 {
		return rng.Pick(r, scalars...), false
	}
	vs := g.visible(func(t *typ) bool { return t.tparams == 0 && (t.params == 0 || len(avail) > 0) })
	if r.P(25) {
		if ts := g.visible(func(t *typ) bool { return t.tparams > 0 && (t.params == 0 || len(avail) > 0) }); len(ts) > 0 {
			t := ts[r.N(len(ts))]
			return t.name + g.targs(t) + g.args(t, avail), true
		}
	}
	if len(vs) == 0 {
		return rng.Pick(r, ints...), true
	}
	t := vs[r.N(len(vs))]
	return t.name + g.args(t, avail), t.pack
}

func (g *gen) targs(t *typ) string {
	var as []string
	for i := 0; i < t.tparams; i++ {
		c := rng.Pick(g.r, "uint8", "int32", "string", "varuint", "uint16", "uint8", "int32", "string", "bit:3", "bit:9", "int:11")
		if vs := g.visible(func(t *typ) bool {
			return t.tparams == 0 && t.params == 0 && (t.kind == "struct" || t.kind == "enum" || t.kind == "subtype" || t.kind == "union")
		}); len(vs) > 0 && g.r.P(50) {
			c = vs[g.r.N(len(vs))].name
		}
		as = append(as, c)
	}
	return "<" + strings.Join(as, ", ") + ">"
}

func (g *gen) args(t *typ, avail []string) string {
	if t.params == 0 {
		return ""
	}
	var as []string
	for i := 0; i < t.params; i++ {
		as = append(as, rng.Pick(g.r, avail...))
	}
	return "(" + strings.Join(as, ", ") + ")"
}

func (g *gen) params(n int) (string, []string) {
	if n == 0 {
		return "", nil
	}
	var ps, ns []string
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("param%d", i)
		ps = append(ps, "uint8 "+nm)
		ns = append(ns, nm)
	}
	return "(" + strings.Join(ps, ", ") + ")", ns
}

func (g *gen) fields(n int, avail []string, tp []string) (string, []string) {
	r := g.r
	s := ""
	u8 := avail // names usable as uint8 arguments
	p := g.pkgs[g.cur]
	for i := 0; i < n; i++ {
		fn := fmt.Sprintf("%s%d", rng.Pick(r, "field", "value", "item", "data"), i)
		if r.P(10) {
			s += fmt.Sprintf("    align(%d):\n", rng.Pick(r, 8, 16, 3))
		}
		if i == 0 && r.P(60) || r.P(15) {
			s += "    uint8 " + fn + ";\n"
			u8 = append(u8, fn)
			continue
		}
		t, packable := g.ref(u8, tp)
		opt := ""
		if r.P(12) {
			opt = "optional "
		}
		arr, pk := "", ""
		if r.P(30) {
			switch x := r.N(4); {
			case x == 0 && len(u8) > 0:
				arr = "[" + rng.Pick(r, u8...) + "]"
			case x == 1:
				arr = fmt.Sprintf("[%d]", 1+r.N(5))
			case x == 2 && len(p.consts) > 0:
				arr = "[" + rng.Pick(r, p.consts...) + "]"
			default:
				arr = "[]"
			}
			if packable && r.P(50) {
				pk = "packed "
			}
		}
		tail := ""
		if opt == "" && r.P(12) && len(u8) > 0 {
			tail = fmt.Sprintf(" if %s %s %d", rng.Pick(r, u8...), rng.Pick(r, ">", "==", "<", "!="), r.N(9))
		} else if arr == "" && opt == "" && strings.HasPrefix(t, "uint") && r.P(15) {
			tail = fmt.Sprintf(" = %d", r.N(100))
		}
		s += "    " + opt + pk + t + " " + fn + arr + tail + ";\n"
	}
	return s, u8
}

func (g *gen) functions(u8 []string) string {
	if len(u8) == 0 || !g.r.P(25) {
		return ""
	}
	return fmt.Sprintf("\n    function uint32 calc()\n    {\n        return %s %s %d;\n    }\n", rng.Pick(g.r, u8...), rng.Pick(g.r, "+", "*", "<<"), 1+g.r.N(4))
}

func (g *gen) strukt() {
	t := &typ{name: g.name(), kind: "struct", pack: true}
	if g.r.P(25) {
		t.params = 1 + g.r.N(2)
	}
	ps, av := g.params(t.params)
	fs, u8 := g.fields(1+g.r.N(6), av, nil)
	fs += g.again(t, "", u8)
	g.add(t, g.comment()+"struct "+t.name+ps+"\n{\n"+fs+g.functions(u8)+"};\n\n")
}

// again is a field of the type that it is in.
func (g *gen) again(t *typ, targs string, u8 []string) string {
	if !g.r.P(12) {
		return ""
	}
	n := t.name + targs + g.args(t, u8)
	return "    " + rng.Pick(g.r, "optional "+n+" again", n+" again[]", "packed "+n+" again[]", "optional packed "+n+" again[]") + ";\n"
}

func (g *gen) union() {
	t := &typ{name: g.name(), kind: "union", pack: true}
	s := g.comment() + "union " + t.name + "\n{\n"
	if g.r.P(10) {
		s += "    " + t.name + " again[];\n"
	}
	for i, n := 0, 1+g.r.N(4); i < n; i++ {
		ty, _ := g.ref(nil, nil)
		arr := ""
		if g.r.P(20) {
			arr = "[]"
		}
		s += fmt.Sprintf("    %s field%d%s;\n", ty, i, arr)
	}
	g.add(t, s+"};\n\n")
}

func (g *gen) cases(sel []string, tp []string, av []string) string {
	s := ""
	for _, c := range sel {
		if g.r.P(15) {
			s += "    case " + c + ": ;\n"
			continue
		}
		ty, _ := g.ref(av, tp)
		arr := ""
		if g.r.P(20) {
			arr = "[]"
		}
		s += fmt.Sprintf("    case %s: %s field%s%s;\n", c, ty, strings.ReplaceAll(strings.Title(strings.ToLower(c)), "_", ""), arr)
	}
	if g.r.P(50) {
		ty, _ := g.ref(av, tp)
		s += "    default: " + ty + " fieldDefault;\n"
	}
	return s
}

func (g *gen) choice() {
	t := &typ{name: g.name(), kind: "choice", pack: true, params: 1}
	ps, av := g.params(1)
	g.add(t, g.comment()+"choice "+t.name+ps+" on param0\n{\n"+g.cases([]string{"0", "1", "7"}[:1+g.r.N(3)], nil, av)+"};\n\n")
}

func (g *gen) template() {
	t := &typ{name: g.name(), kind: "struct", pack: true, tparams: 1 + g.r.N(2)}
	tp := []string{"T", "V"}[:t.tparams]
	if g.r.P(30) {
		t.kind, t.params = "choice", 1
		ps, av := g.params(1)
		g.add(t, g.comment()+"choice "+t.name+"<"+strings.Join(tp, ", ")+">"+ps+" on param0\n{\n"+g.cases([]string{"0", "1", "7"}[:1+g.r.N(3)], tp, av)+"};\n\n")
		return
	}
	if g.r.P(30) {
		t.params = 1
	}
	ps, av := g.params(t.params)
	fs, u8 := g.fields(1+g.r.N(5), av, tp)
	fs += g.again(t, "<"+strings.Join(tp, ", ")+">", u8)
	g.add(t, g.comment()+"struct "+t.name+"<"+strings.Join(tp, ", ")+">"+ps+"\n{\n"+fs+g.functions(u8)+"};\n\n")
}

func (g *gen) instantiate() {
	ts := g.visible(func(t *typ) bool { return t.tparams > 0 })
	if len(ts) == 0 {
		g.template()
		return
	}
	b := ts[g.r.N(len(ts))]
	args := g.targs(b)
	t := &typ{name: g.name(), kind: b.kind, pack: true, params: b.params}
	g.add(t, "instantiate "+b.name+args+" "+t.name+";\n\n")
}
