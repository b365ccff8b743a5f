// Package zmodel describes zserio schemas as data and has what is needed to
// judge an implementation by them: the schema text, an independent encoder and
// decoder of the bit format, and a generator of values.
package zmodel

// Kind of a type.
type Kind int

// Kinds of types.
const (
	KBool Kind = iota
	KUint      // Bits bits; Std if it has a name like uint8
	KInt
	KDynUint // Len bits
	KDynInt
	KVarInt  // Bits is 16, 32, 64 or 0 for varint
	KVarUint // Bits is 16, 32, 64 or 0 for varuint
	KVarSize
	KFloat // Bits is 16, 32 or 64
	KString
	KBytes
	KExtern
	KRef   // Ref
	KParam // type parameter of a template, only in templates
)

// Type is the type of a field, parameter or element.
type Type struct {
	Kind Kind
	Bits int
	Std  bool
	Len  *Expr
	Ref  *Decl
	Args []*Expr // arguments of a parameterized compound
	Name string  // of a type parameter
}

// DKind is the kind of a declaration.
type DKind int

// Kinds of declarations.
const (
	DStruct DKind = iota
	DChoice
	DUnion
	DEnum
	DBitmask
	DSubtype
)

// Array describes the array-ness of a field.
type Array struct {
	Packed bool
	Len    *Expr // nil: length is in the stream
}

// Field of a compound.
type Field struct {
	Name     string
	Type     *Type
	Array    *Array
	Optional bool
	Cond     *Expr
	Align    int
	Max      uint64 // generated values do not exceed this, if it is not zero
	Init     string // initializer, no influence on the encoding
}

// NonNegative is a flag of Max: generated values are not negative either.
const NonNegative = 1 << 63

// Param of a compound.
type Param struct {
	Name string
	Type *Type
	Max  uint64
}

// Func is a function of a compound.
type Func struct {
	Name   string
	Result *Type
	Body   *Expr
}

// Case of a choice.
type Case struct {
	Labels []Label
	Field  *Field // may be nil
}

// Label of a case: a number, or an item of an enum or bitmask.
type Label struct {
	Num  int64
	Item string
}

// Item of an enum or bitmask.
type Item struct {
	Name  string
	Value int64
	Auto  bool   // no value in the schema text
	Text  string // the value in the schema text, if it is no number
}

// Decl is a declaration.
type Decl struct {
	Kind   DKind
	Pkg    string
	Name   string
	Params []Param
	Fields []*Field
	Funcs  []Func
	// Choice.
	Selector   *Expr
	Cases      []Case
	Default    *Field
	HasDefault bool
	// Enum, bitmask and subtype.
	Base  *Type
	Items []Item
	// Template: TParams in the template, the others in its instances.
	TParams  []string
	Template *Decl
	TArgs    []*Type
}

// Named tells if a value of an enum is one of its items, and a value of a
// bitmask a combination of them. Anything is for other types.
func (d *Decl) Named(n uint64) bool {
	var all uint64
	for _, i := range d.Items {
		all |= uint64(i.Value)
		if d.Kind == DEnum && uint64(i.Value) == n {
			return true
		}
	}
	return d.Kind != DEnum && (d.Kind != DBitmask || n&^all == 0)
}

// Package of a schema.
type Package struct {
	Name    string
	Imports []*Package
	Consts  []Const
	Decls   []*Decl
	// Instances are rendered as "instantiate" declarations.
	Instances []*Decl
}

// Const is a constant.
type Const struct {
	Name string
	Type *Type
	Num  int64
	Text string // in the schema text, if it is no number
}

// Schema is a set of packages.
type Schema struct {
	Packages []*Package
	Roots    []*Decl // types used as messages
}

// Expr is an expression.
type Expr struct {
	// "num", "ref", "item", "lengthof", "index", "call", "const", "valueof",
	// "isset", "numbits", "?", "at", "!" or an operator.
	Op   string
	Num  int64
	Path []string
	Enum *Decl
	Item string
	L, R *Expr
	Cond *Expr // of "?"
	Type *Type // of a constant
}

// Num is a literal.
func Num(n int64) *Expr { return &Expr{Op: "num", Num: n} }

// Ref is a field or parameter.
func Ref(path ...string) *Expr { return &Expr{Op: "ref", Path: path} }

// Bin is a binary operation.
func Bin(l *Expr, op string, r *Expr) *Expr { return &Expr{Op: op, L: l, R: r} }

// Call calls a function of the compound itself, or of a field.
func Call(path ...string) *Expr { return &Expr{Op: "call", Path: path} }

// LengthOf is the length of an array.
func LengthOf(path ...string) *Expr { return &Expr{Op: "lengthof", Path: path} }

// Index is the index of an array element.
func Index() *Expr { return &Expr{Op: "index"} }

// ConstRef is a constant.
func ConstRef(c Const) *Expr {
	return &Expr{Op: "const", Path: []string{c.Name}, Num: c.Num, Type: c.Type}
}

// Un is an operation with one operand.
func Un(op string, e *Expr) *Expr { return &Expr{Op: op, L: e} }

// IsSet tells if a bitmask has a bit.
func IsSet(e *Expr, d *Decl, item string) *Expr {
	return &Expr{Op: "isset", L: e, R: ItemOf(d, item)}
}

// If is a choice between two values. It has to be the body of a function.
func If(cond, l, r *Expr) *Expr { return &Expr{Op: "?", Cond: cond, L: l, R: r} }

// At is an element of an array.
func At(i int64, path ...string) *Expr { return &Expr{Op: "at", Num: i, Path: path} }

// ItemOf is an item of an enum.
func ItemOf(d *Decl, item string) *Expr { return &Expr{Op: "item", Enum: d, Item: item} }

// Base resolves subtypes.
func (t *Type) Base() *Type {
	for t.Kind == KRef && t.Ref.Kind == DSubtype {
		t = t.Ref.Base
	}
	return t
}

// Compound tells if the type is a struct, choice or union.
func (t *Type) Compound() bool {
	b := t.Base()
	return b.Kind == KRef && (b.Ref.Kind == DStruct || b.Ref.Kind == DChoice || b.Ref.Kind == DUnion)
}

// Packable tells if single values of the type are delta packed.
func (t *Type) Packable() bool {
	b := t.Base()
	switch b.Kind {
	case KUint, KInt, KDynUint, KDynInt, KVarInt, KVarUint, KVarSize:
		return true
	case KRef:
		return b.Ref.Kind == DEnum || b.Ref.Kind == DBitmask
	}
	return false
}

// U8 and the others are shorthands for types.
func U(bits int) *Type               { return &Type{Kind: KUint, Bits: bits, Std: true} }
func I(bits int) *Type               { return &Type{Kind: KInt, Bits: bits, Std: true} }
func B(bits int) *Type               { return &Type{Kind: KUint, Bits: bits} }
func SI(bits int) *Type              { return &Type{Kind: KInt, Bits: bits} }
func DB(e *Expr) *Type               { return &Type{Kind: KDynUint, Len: e} }
func DI(e *Expr) *Type               { return &Type{Kind: KDynInt, Len: e} }
func VI(bits int) *Type              { return &Type{Kind: KVarInt, Bits: bits} }
func VU(bits int) *Type              { return &Type{Kind: KVarUint, Bits: bits} }
func F(bits int) *Type               { return &Type{Kind: KFloat, Bits: bits} }
func T(k Kind) *Type                 { return &Type{Kind: k} }
func R(d *Decl, args ...*Expr) *Type { return &Type{Kind: KRef, Ref: d, Args: args} }
func TP(name string, args ...*Expr) *Type {
	return &Type{Kind: KParam, Name: name, Args: args}
}

// Instance instantiates a template.
func Instance(t *Decl, args ...*Type) *Decl {
	d := *t
	d.TParams = nil
	d.Template = t
	d.TArgs = args
	sub := func(x *Type) *Type {
		if x.Kind == KParam {
			for i, n := range t.TParams {
				if n == x.Name {
					if len(x.Args) > 0 {
						y := *args[i]
						y.Args = x.Args
						return &y
					}
					return args[i]
				}
			}
		}
		return x
	}
	d.Params = nil
	for _, p := range t.Params {
		p.Type = sub(p.Type)
		d.Params = append(d.Params, p)
	}
	subField := func(f *Field) *Field {
		if f == nil {
			return nil
		}
		g := *f
		g.Type = sub(f.Type)
		return &g
	}
	d.Fields = nil
	for _, f := range t.Fields {
		d.Fields = append(d.Fields, subField(f))
	}
	d.Cases = nil
	for _, c := range t.Cases {
		c.Field = subField(c.Field)
		d.Cases = append(d.Cases, c)
	}
	d.Default = subField(t.Default)
	return &d
}

// AllFields are the fields a compound can have, in the order of their packing
// contexts.
func (d *Decl) AllFields() []*Field {
	if d.Kind != DChoice {
		return d.Fields
	}
	var fs []*Field
	for _, c := range d.Cases {
		if c.Field != nil {
			fs = append(fs, c.Field)
		}
	}
	if d.Default != nil {
		fs = append(fs, d.Default)
	}
	return fs
}

// FullName is the name with the package.
func (d *Decl) FullName() string { return d.Pkg + "." + d.Name }

// HasPacked tells if a message of the type can have packed arrays.
func (d *Decl) HasPacked() bool { return d.hasPacked(map[*Decl]bool{}) }

func (d *Decl) hasPacked(seen map[*Decl]bool) bool {
	if seen[d] {
		return false
	}
	seen[d] = true
	for _, f := range d.AllFields() {
		if f.Array != nil && f.Array.Packed {
			return true
		}
		b := f.Type.Base()
		if b.Kind == KRef && f.Type.Compound() && b.Ref.hasPacked(seen) {
			return true
		}
	}
	return false
}
