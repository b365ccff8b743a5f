package zmodel

import (
	"fmt"
	"strings"
)

// Render makes the schema text of a package.
func (p *Package) Render() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s;\n\n", p.Name)
	for _, i := range p.Imports {
		fmt.Fprintf(&b, "import %s.*;\n", i.Name)
	}
	for _, c := range p.Consts {
		text := c.Text
		if text == "" {
			text = fmt.Sprint(c.Num)
		}
		fmt.Fprintf(&b, "const %s %s = %s;\n", c.Type.text(), c.Name, text)
	}
	for _, d := range p.Decls {
		d.render(&b)
	}
	for _, d := range p.Instances {
		fmt.Fprintf(&b, "instantiate %s %s;\n", R(&Decl{Name: d.Template.Name, Template: d.Template, TArgs: d.TArgs}).text(), d.Name)
	}
	return b.String()
}

func (t *Type) text() string {
	switch t.Kind {
	case KBool:
		return "bool"
	case KUint, KInt:
		n := map[Kind]string{KUint: "uint", KInt: "int"}[t.Kind]
		if t.Std {
			return fmt.Sprintf("%s%d", n, t.Bits)
		}
		return fmt.Sprintf("%s:%d", map[Kind]string{KUint: "bit", KInt: "int"}[t.Kind], t.Bits)
	case KDynUint:
		return "bit<" + t.Len.Text() + ">"
	case KDynInt:
		return "int<" + t.Len.Text() + ">"
	case KVarInt, KVarUint:
		n := map[Kind]string{KVarInt: "varint", KVarUint: "varuint"}[t.Kind]
		if t.Bits != 0 {
			n += fmt.Sprint(t.Bits)
		}
		return n
	case KVarSize:
		return "varsize"
	case KFloat:
		return fmt.Sprintf("float%d", t.Bits)
	case KString:
		return "string"
	case KBytes:
		return "bytes"
	case KExtern:
		return "extern"
	}
	var s string
	if t.Kind == KParam {
		s = t.Name
	} else {
		s = t.Ref.Name
	}
	if t.Kind == KRef && t.Ref.Template != nil && !t.Ref.instantiated() {
		var as []string
		for _, a := range t.Ref.TArgs {
			as = append(as, a.text())
		}
		s = t.Ref.Template.Name + "<" + strings.Join(as, ", ") + ">"
	}
	if len(t.Args) > 0 {
		var as []string
		for _, a := range t.Args {
			as = append(as, a.Text())
		}
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}

func (d *Decl) instantiated() bool { return d.Template != nil && d.Name != d.Template.Name }

// Text is the expression in schema syntax.
func (e *Expr) Text() string {
	switch e.Op {
	case "num":
		return fmt.Sprint(e.Num)
	case "ref":
		return strings.Join(e.Path, ".")
	case "item":
		return e.Enum.Name + "." + e.Item
	case "lengthof":
		return "lengthof(" + strings.Join(e.Path, ".") + ")"
	case "call":
		return strings.Join(e.Path, ".") + "()"
	case "index":
		return "@index"
	case "const":
		return e.Path[0]
	case "!":
		return "!" + e.L.Text()
	case "valueof", "numbits":
		return e.Op + "(" + e.L.Text() + ")"
	case "?":
		return e.Cond.Text() + " ? " + e.L.Text() + " : " + e.R.Text()
	case "at":
		return fmt.Sprintf("%s[%d]", strings.Join(e.Path, "."), e.Num)
	case "isset":
		return "isset(" + e.L.Text() + ", " + e.R.Text() + ")"
	}
	return "(" + e.L.Text() + " " + e.Op + " " + e.R.Text() + ")"
}

func (f *Field) render() string {
	var b strings.Builder
	if f.Align != 0 {
		fmt.Fprintf(&b, "    align(%d):\n", f.Align)
	}
	b.WriteString("    ")
	if f.Optional {
		b.WriteString("optional ")
	}
	if f.Array != nil && f.Array.Packed {
		b.WriteString("packed ")
	}
	b.WriteString(f.Type.text() + " " + f.Name)
	if f.Array != nil {
		b.WriteString("[")
		if f.Array.Len != nil {
			b.WriteString(f.Array.Len.Text())
		}
		b.WriteString("]")
	}
	if f.Init != "" {
		b.WriteString(" = " + f.Init)
	}
	if f.Cond != nil {
		b.WriteString(" if " + f.Cond.Text())
	}
	b.WriteString(";\n")
	return b.String()
}

func (d *Decl) render(b *strings.Builder) {
	head := func(kw string) {
		fmt.Fprintf(b, "%s %s", kw, d.Name)
		if len(d.TParams) > 0 {
			fmt.Fprintf(b, "<%s>", strings.Join(d.TParams, ", "))
		}
		if len(d.Params) > 0 {
			var ps []string
			for _, p := range d.Params {
				ps = append(ps, p.Type.text()+" "+p.Name)
			}
			fmt.Fprintf(b, "(%s)", strings.Join(ps, ", "))
		}
	}
	switch d.Kind {
	case DSubtype:
		fmt.Fprintf(b, "subtype %s %s;\n", d.Base.text(), d.Name)
	case DEnum, DBitmask:
		fmt.Fprintf(b, "%s %s %s\n{\n", map[DKind]string{DEnum: "enum", DBitmask: "bitmask"}[d.Kind], d.Base.text(), d.Name)
		for i, it := range d.Items {
			b.WriteString("    " + it.Name)
			if it.Text != "" {
				b.WriteString(" = " + it.Text)
			} else if !it.Auto {
				fmt.Fprintf(b, " = %d", it.Value)
			}
			if i < len(d.Items)-1 {
				b.WriteString(",")
			}
			b.WriteString("\n")
		}
		b.WriteString("};\n")
	case DStruct, DUnion:
		head(map[DKind]string{DStruct: "struct", DUnion: "union"}[d.Kind])
		b.WriteString("\n{\n")
		for _, f := range d.Fields {
			b.WriteString(f.render())
		}
		for _, f := range d.Funcs {
			fmt.Fprintf(b, "    function %s %s()\n    {\n        return %s;\n    }\n", f.Result.text(), f.Name, f.Body.Text())
		}
		b.WriteString("};\n")
	case DChoice:
		head("choice")
		fmt.Fprintf(b, " on %s\n{\n", d.Selector.Text())
		for _, c := range d.Cases {
			for _, l := range c.Labels {
				if l.Item != "" {
					fmt.Fprintf(b, "  case %s:\n", l.Item)
				} else {
					fmt.Fprintf(b, "  case %d:\n", l.Num)
				}
			}
			if c.Field != nil {
				b.WriteString(c.Field.render())
			} else {
				b.WriteString("    ;\n")
			}
		}
		if d.HasDefault {
			b.WriteString("  default:\n")
			if d.Default != nil {
				b.WriteString(d.Default.render())
			} else {
				b.WriteString("    ;\n")
			}
		}
		b.WriteString("};\n")
	}
}
