package zmodel

import "fmt"

// fld makes a field with options.
func fld(name string, t *Type, opts ...func(*Field)) *Field {
	f := &Field{Name: name, Type: t}
	for _, o := range opts {
		o(f)
	}
	return f
}

func opt(f *Field)                { f.Optional = true }
func arr(f *Field)                { f.Array = &Array{} }
func pack(f *Field)               { f.Array = &Array{Packed: true} }
func arrN(e *Expr) func(*Field)   { return func(f *Field) { f.Array = &Array{Len: e} } }
func packN(e *Expr) func(*Field)  { return func(f *Field) { f.Array = &Array{Len: e, Packed: true} } }
func iff(e *Expr) func(*Field)    { return func(f *Field) { f.Cond = e } }
func algn(n int) func(*Field)     { return func(f *Field) { f.Align = n } }
func maxv(n uint64) func(*Field)  { return func(f *Field) { f.Max = n } }
func items(its ...Item) []Item    { return its }
func it(n string, v int64) Item   { return Item{Name: n, Value: v} }
func auto(n string, v int64) Item { return Item{Name: n, Value: v, Auto: true} }
func num(ns ...int64) (ls []Label) {
	for _, n := range ns {
		ls = append(ls, Label{Num: n})
	}
	return
}

// Fixed is a schema that has every construct of the bit format.
func Fixed() *Schema {
	base := &Package{Name: "zx.base"}
	add := func(p *Package, d *Decl) *Decl {
		d.Pkg = p.Name
		p.Decls = append(p.Decls, d)
		return d
	}
	st := func(p *Package, name string, fs ...*Field) *Decl {
		return add(p, &Decl{Kind: DStruct, Name: name, Fields: fs})
	}
	base.Consts = []Const{{Name: "KLEN", Type: U(8), Num: 3}}
	subU16 := add(base, &Decl{Kind: DSubtype, Name: "SubU16", Base: U(16)})
	subB5 := add(base, &Decl{Kind: DSubtype, Name: "SubBit5", Base: B(5)})
	subSub := add(base, &Decl{Kind: DSubtype, Name: "SubSub", Base: R(subU16)})
	subStr := add(base, &Decl{Kind: DSubtype, Name: "SubStr", Base: T(KString)})
	col := add(base, &Decl{Kind: DEnum, Name: "Col", Base: U(8), Items: items(auto("RED", 0), it("GREEN", 5), auto("BLUE", 6))})
	tiny := add(base, &Decl{Kind: DEnum, Name: "Tiny", Base: B(3), Items: items(auto("A0", 0), auto("B0", 1), auto("C0", 2))})
	ve := add(base, &Decl{Kind: DEnum, Name: "VE", Base: VU(0), Items: items(auto("X0", 0), it("Y0", 300), it("Z0", 70000))})
	se := add(base, &Decl{Kind: DEnum, Name: "SE", Base: I(16), Items: items(it("NEG", -7), it("ZERO", 0), it("POS", 1000))})
	// Names that resemble each other, and many of them.
	add(base, &Decl{Kind: DEnum, Name: "Levels", Base: I(8), Items: items(it("LOW", -128), it("LOWER", -3), it("LOWEST", -1), it("LO", 1), it("LOW1", 2), it("Low_One", 127))})
	add(base, &Decl{Kind: DEnum, Name: "Wide64", Base: I(64), Items: items(it("BOTTOM", -1<<63+1), it("MINUS", -1), it("TOP", 1<<63-1))})
	many := &Decl{Kind: DEnum, Name: "Many", Base: U(16)}
	for i := 0; i < 300; i++ {
		many.Items = append(many.Items, it(fmt.Sprintf("ITEM_%d", i), int64(i*7%311)))
	}
	add(base, many)
	mask := add(base, &Decl{Kind: DBitmask, Name: "Mask", Base: U(8), Items: items(it("RR", 1), it("WW", 2), auto("XX", 4))})
	smask := add(base, &Decl{Kind: DBitmask, Name: "SMask", Base: B(4), Items: items(auto("PP", 1), auto("QQ", 2))})
	vmask := add(base, &Decl{Kind: DBitmask, Name: "VMask", Base: VU(32), Items: items(it("M1", 1), it("M2", 0x4000), it("M3", 0x8000000))})
	point := st(base, "Point", fld("x", I(32)), fld("y", I(32)))
	subPoint := add(base, &Decl{Kind: DSubtype, Name: "SubPoint", Base: R(point)})
	pair := add(base, &Decl{Kind: DStruct, Name: "Pair", TParams: []string{"TA", "TB"}, Fields: []*Field{
		fld("first", TP("TA")), fld("second", TP("TB"), arr),
	}})

	msg := &Package{Name: "zx.msg", Imports: []*Package{base}}
	prim := st(msg, "Prim",
		fld("a1", U(8)), fld("a2", U(16)), fld("a3", U(32)), fld("a4", U(64)),
		fld("b1", I(8)), fld("b2", I(16)), fld("b3", I(32)), fld("b4", I(64)),
		fld("c1", B(1)), fld("c7", B(7)), fld("c33", B(33)), fld("c64", B(64)),
		fld("d2", SI(2)), fld("d12", SI(12)), fld("d64", SI(64)),
		fld("e1", VU(16)), fld("e2", VU(32)), fld("e3", VU(64)), fld("e4", VU(0)), fld("e5", T(KVarSize)),
		fld("f1", VI(16)), fld("f2", VI(32)), fld("f3", VI(64)), fld("f4", VI(0)),
		fld("g1", T(KBool)), fld("h1", F(16)), fld("h2", F(32)), fld("h3", F(64)),
		fld("s1", T(KString)), fld("x1", T(KExtern)), fld("y1", T(KBytes)),
		fld("col", R(col)), fld("tiny", R(tiny)), fld("ve", R(ve)), fld("se", R(se)),
		fld("mm", R(mask)), fld("sm", R(smask)), fld("vm", R(vmask)),
		fld("su", R(subU16)), fld("sb", R(subB5)), fld("ss", R(subSub)), fld("st", R(subStr)), fld("sp", R(subPoint)))
	dyn := st(msg, "Dyn",
		fld("n", U(8), maxv(9)),
		fld("v", DB(Bin(Ref("n"), "+", Num(1)))),
		fld("w", DI(Bin(Ref("n"), "+", Num(1)))),
		fld("z", DB(Bin(Ref("n"), "+", Num(2))), arr),
		fld("zz", DI(Bin(Bin(Ref("n"), "*", Num(6)), "+", Num(2))), arr),
		fld("pz", DB(Bin(Bin(Ref("n"), "*", Num(7)), "+", Num(1))), pack),
		fld("k", U(8), arrN(Ref("n"))),
		fld("pk", U(16), packN(Ref("n"))),
		fld("s", T(KString), arrN(Num(3))))
	wide := st(msg, "DynWide",
		fld("n", U(16), maxv(62)), fld("k", U(32), maxv(62)), fld("m", U(64), maxv(62)),
		fld("v", DB(Bin(Ref("n"), "+", Num(1)))), fld("w", DI(Bin(Ref("k"), "+", Num(2)))), fld("x", DB(Bin(Ref("m"), "+", Num(1)))),
		fld("av", DB(Bin(Ref("n"), "+", Num(2))), arr), fld("aw", DI(Bin(Ref("k"), "+", Num(1))), pack), fld("ax", DB(Ref("m")), arrN(Num(2)), iff(Bin(Ref("m"), ">", Num(0)))))
	param := add(msg, &Decl{Kind: DStruct, Name: "Param", Params: []Param{{"p", U(8), 6}, {"q", T(KBool), 0}}, Fields: []*Field{
		fld("base", U(16), iff(Bin(Ref("p"), ">", Num(3)))),
		fld("nm", T(KString), iff(Ref("q"))),
		fld("rest", B(3), arrN(Ref("p"))),
	}})
	optd := st(msg, "Opt",
		fld("a", U(8), opt), fld("b", T(KString), opt), fld("c", R(point), opt), fld("d", R(col), opt),
		fld("e", U(16), opt, arr), fld("f", R(point), opt, arr),
		fld("g", U(8), algn(32)), fld("has", T(KBool)), fld("h", U(32), algn(8), opt),
		fld("i", U(8), iff(Ref("has"))), fld("j", T(KBytes), opt), fld("k", T(KExtern), opt),
		fld("l", R(subU16), opt), fld("m", R(point), iff(Bin(Bin(Ref("has"), "==", Ref("has")), "&&", Bin(Ref("g"), ">", Num(3))))),
		fld("n", B(3), algn(16), arr), fld("o", VI(32), opt), fld("pp", U(32), opt, pack), fld("q", R(mask), opt))
	align := st(msg, "Align",
		fld("pre", B(3)), fld("a8", B(5), algn(8)), fld("a4", B(1), algn(4)), fld("a64", U(8), algn(64)),
		fld("b1", T(KBool)), fld("a128", U(8), algn(128)), fld("tail", T(KString)))
	ch := add(msg, &Decl{Kind: DChoice, Name: "Ch", Params: []Param{{"sel", U(8), 9}}, Selector: Ref("sel"), Cases: []Case{
		{num(0), fld("a", U(8))}, {num(1, 2), fld("b", T(KString))}, {num(3), fld("c", R(point))},
		{num(4), fld("d", U(16), arr)}, {num(5), fld("e", U(32), pack)}, {num(6), nil}, {num(7), fld("f", B(7))},
	}, HasDefault: true, Default: fld("dflt", I(16))})
	che := add(msg, &Decl{Kind: DChoice, Name: "ChE", Params: []Param{{"sel", R(col), 0}}, Selector: Ref("sel"), Cases: []Case{
		{[]Label{{Item: "RED"}}, fld("a", U(8))}, {[]Label{{Item: "GREEN"}, {Item: "BLUE"}}, fld("b", T(KString))},
	}})
	un := add(msg, &Decl{Kind: DUnion, Name: "Un", Fields: []*Field{
		fld("a", U(8)), fld("b", T(KString)), fld("c", R(point)), fld("d", I(32), arr), fld("e", T(KBool)),
		fld("f", R(point), pack), fld("g", R(col)), fld("h", T(KBytes)), fld("i", B(5)),
	}})
	holder := st(msg, "Holder",
		fld("sel", U(8), maxv(9)), fld("ch", R(ch, Ref("sel"))), fld("col", R(col)), fld("che", R(che, Ref("col"))),
		fld("un", R(un)), fld("uns", R(un), arr),
		fld("cnt", B(3), maxv(5)),
		fld("par", R(param, Ref("cnt"), Bin(Ref("col"), "==", ItemOf(col, "RED")))),
		fld("pars", R(param, Ref("cnt"), Bin(Ref("cnt"), ">", Num(1))), arr))
	chs := add(msg, &Decl{Kind: DStruct, Name: "ChEl", Fields: []*Field{
		fld("s", U(8), maxv(9)), fld("c", R(ch, Ref("s")))}})
	packEl := st(msg, "PackEl",
		fld("a", U(8)), fld("b", I(16)), fld("s", T(KString)), fld("t", T(KBool)), fld("c", VI(32)),
		fld("col", R(col)), fld("m", R(mask)), fld("p", R(point)), fld("f", F(32)), fld("o", U(32), opt),
		fld("ar", U(16), arr), fld("sar", T(KString), arr), fld("par", R(point), arr), fld("bb", B(5)), fld("cc", SI(9)),
		fld("cond", U(8), iff(Bin(Ref("a"), ">", Num(10)))), fld("big", U(64)), fld("sig", I(64)), fld("al", B(9), algn(8)),
		fld("oal", U(8), algn(8), opt), fld("op", R(point), opt), fld("by", T(KBytes)), fld("ext", T(KExtern)),
		fld("fl", R(tiny), arrN(Num(3))), fld("su", R(subSub)), fld("bar", T(KBool), arr), fld("sp", R(subPoint)), fld("vs", T(KVarSize)),
		fld("dn", B(4), maxv(15)), fld("dv", DB(Bin(Ref("dn"), "+", Num(3)))))
	packUn := add(msg, &Decl{Kind: DUnion, Name: "PackUn", Fields: []*Field{
		fld("num", U(32)), fld("sig", VI(64)), fld("txt", T(KString)), fld("pt", R(point)), fld("arr", U(8), arr), fld("flag", T(KBool)),
	}})
	arrs := st(msg, "Arrs",
		fld("a", U(8), arr), fld("b", U(16), arrN(Num(4))), fld("c", SI(5), arr), fld("d", B(9), arr), fld("e", T(KBool), arr),
		fld("f", T(KString), arr), fld("g", F(16), arr), fld("h", F(32), arr), fld("i", F(64), arr),
		fld("j", VU(0), arr), fld("k", VI(0), arr), fld("l", VU(16), arr), fld("m", VI(16), arr), fld("n", VU(32), arr),
		fld("o", VI(32), arr), fld("p", VU(64), arr), fld("q", VI(64), arr), fld("r", T(KVarSize), arr),
		fld("s", R(col), arr), fld("s2", R(tiny), arr), fld("s3", R(ve), arr), fld("t", R(mask), arr), fld("u", R(point), arr),
		fld("v", T(KBytes), arr), fld("w", T(KExtern), arr), fld("x", R(un), arr), fld("y", R(subU16), arr), fld("z", R(subB5), arr),
		fld("aa", I(8), arr), fld("ab", I(16), arr), fld("ac", I(32), arr), fld("ad", I(64), arr), fld("ae", U(32), arr), fld("af", U(64), arr),
		fld("ag", B(64), arr), fld("ah", SI(64), arr), fld("ai", SI(33), arr), fld("aj", B(1), arr), fld("ak", R(subStr), arr), fld("al", R(subPoint), arr), fld("am", R(se), arr), fld("an", R(align), arr))
	parrs := st(msg, "PArrs",
		fld("a", U(8), pack), fld("b", U(16), packN(Num(4))), fld("c", SI(5), pack), fld("d", B(9), pack),
		fld("j", VU(0), pack), fld("k", VI(0), pack), fld("l", VU(16), pack), fld("m", VI(16), pack), fld("n", VU(32), pack),
		fld("o", VI(32), pack), fld("p", VU(64), pack), fld("q", VI(64), pack), fld("r", T(KVarSize), pack),
		fld("s", R(col), pack), fld("s2", R(tiny), pack), fld("s3", R(ve), pack), fld("s4", R(se), pack), fld("t", R(mask), pack), fld("u", R(point), pack),
		fld("y", R(subU16), pack), fld("z", R(subB5), pack),
		fld("aa", I(8), pack), fld("ab", I(16), pack), fld("ac", I(32), pack), fld("ad", I(64), pack), fld("ae", U(32), pack), fld("af", U(64), pack),
		fld("ag", B(64), pack), fld("ah", SI(64), pack))
	pcomp := st(msg, "PComp", fld("pre", B(5)), fld("els", R(packEl), pack), fld("mid", T(KBool)), fld("uns", R(packUn), pack), fld("chs", R(chs), pack), fld("sp", R(subPoint), pack))
	pother := st(msg, "POther",
		fld("e", T(KBool), pack), fld("f", T(KString), pack), fld("g", F(16), pack), fld("h", F(32), pack), fld("i", F(64), pack),
		fld("v", T(KBytes), pack), fld("w", T(KExtern), pack), fld("x", R(un), pack), fld("st", R(subStr), pack))
	ell := add(msg, &Decl{Kind: DStruct, Name: "Inner", Params: []Param{{"h", R(point), 0}}, Fields: []*Field{
		fld("v", U(8), iff(Bin(Ref("h", "x"), ">", Num(0)))), fld("w", U(8))}})
	comppar := st(msg, "CompPar", fld("head", R(point)), fld("one", R(ell, Ref("head"))), fld("many", R(ell, Ref("head")), arr))
	tm := add(msg, &Decl{Kind: DStruct, Name: "Tm", TParams: []string{"TT"}, Fields: []*Field{
		fld("v", TP("TT")), fld("ar", TP("TT"), arr), fld("par", TP("TT"), pack)}})
	inst := Instance(tm, I(32))
	inst.Name = "TmI32"
	msg.Instances = append(msg.Instances, inst)
	useT := st(msg, "UseT", fld("a", R(Instance(tm, U(8)))), fld("b", R(Instance(tm, R(point)))), fld("c", R(Instance(tm, T(KString)))),
		fld("d", R(Instance(pair, U(8), T(KString)))), fld("e", R(Instance(pair, B(5), R(point))), arr))
	empty := st(msg, "Empty")
	emptyHolder := st(msg, "EmptyHolder", fld("e", R(empty)), fld("n", B(2)), fld("o", R(empty), opt))
	nested := st(msg, "Nested",
		fld("hdr", B(11)), fld("pr", R(prim)), fld("opts", R(optd), arr), fld("dy", R(dyn)), fld("ho", R(holder)),
		fld("al", R(align), algn(8)), fld("els", R(packEl), pack), fld("tail", B(3)))
	tree := st(msg, "Tree", fld("v", I(16)), fld("s", T(KString)))
	tree.Fields = append(tree.Fields, fld("kids", R(tree), arr), fld("next", R(tree), opt), fld("more", R(tree), opt, pack), fld("tail", B(3)))
	leafs := add(msg, &Decl{Kind: DUnion, Name: "UTree", Fields: []*Field{fld("num", U(32)), fld("tr", R(tree))}})
	leafs.Fields = append(leafs.Fields, fld("us", R(leafs), arr), fld("pus", R(leafs), pack))
	trees := st(msg, "Trees", fld("a", R(tree), pack), fld("b", R(leafs), pack), fld("c", R(leafs), opt))
	return &Schema{Packages: []*Package{base, msg},
		Roots: []*Decl{prim, optd, dyn, holder, un, arrs, parrs, pcomp, packEl, pother, packUn, comppar, useT, align, chs, point, inst, emptyHolder, nested, wide, tree, leafs, trees}}
}
