package zmodel

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

// GoName is the name of a field or parameter in generated code.
func GoName(n string) string { return strings.Title(n) }

// ToGo stores a message in an object of the generated type; p points to it.
func ToGo(d *Decl, v *Val, p any) { writer{}.compound(d, v, reflect.ValueOf(p).Elem(), 0) }

// ToGoBare does the same, but sets no type parameters of inner compounds, like
// an application that leaves them to the codec.
func ToGoBare(d *Decl, v *Val, p any) {
	writer{bare: true}.compound(d, v, reflect.ValueOf(p).Elem(), 0)
}

type writer struct{ bare bool }

func (w writer) compound(d *Decl, v *Val, o reflect.Value, depth int) {
	for i, pa := range d.Params {
		if i < len(v.P) && (depth == 0 || !w.bare) {
			w.val(pa.Type, v.P[i], o.FieldByName(GoName(pa.Name)), 0)
		}
	}
	if d.Kind == DUnion {
		o.FieldByName("UnionChoice").SetUint(uint64(v.Sel + 1))
	}
	for i, f := range d.AllFields() {
		x := v.F[i]
		if x == nil {
			continue
		}
		r := o.FieldByName(GoName(f.Name))
		if !r.IsValid() {
			panic("no field " + f.Name + " in generated type of " + d.FullName())
		}
		if f.Optional || f.Array == nil && f.Type.Compound() && r.Kind() == reflect.Pointer {
			n := reflect.New(r.Type().Elem())
			r.Set(n)
			r = n.Elem()
		}
		if f.Array == nil {
			w.val(f.Type, x, r, depth+1)
			continue
		}
		s := reflect.MakeSlice(r.Type(), len(x.A), len(x.A))
		for k, e := range x.A {
			w.val(f.Type, e, s.Index(k), depth+1)
		}
		r.Set(s)
	}
}

func (w writer) val(t *Type, v *Val, r reflect.Value, depth int) {
	b := t.Base()
	for r.Kind() == reflect.Pointer {
		if r.IsNil() {
			r.Set(reflect.New(r.Type().Elem()))
		}
		r = r.Elem()
	}
	switch b.Kind {
	case KBool:
		r.SetBool(v.N != 0)
	case KFloat:
		if b.Bits == 64 {
			r.SetFloat(math.Float64frombits(v.N))
		} else {
			r.SetFloat(float64(math.Float32frombits(uint32(v.N))))
		}
	case KString:
		r.SetString(string(v.S))
	case KBytes:
		r.FieldByName("Buffer").SetBytes(append([]byte{}, v.S...))
		setSize(r.FieldByName("ByteSize"), uint64(len(v.S)))
	case KExtern:
		r.FieldByName("Buffer").SetBytes(append([]byte{}, v.S...))
		setSize(r.FieldByName("BitSize"), v.N)
	case KRef:
		if b.Ref.Kind != DEnum && b.Ref.Kind != DBitmask {
			w.compound(b.Ref, v, r, depth)
			return
		}
		fallthrough
	default:
		setSize(r, v.N)
	}
}

func setSize(r reflect.Value, n uint64) {
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r.SetInt(int64(n))
		if uint64(r.Int()) != n {
			panic(fmt.Sprintf("%d does not fit %s", int64(n), r.Type()))
		}
	case reflect.Bool:
		r.SetBool(n != 0)
	default:
		r.SetUint(n)
		if r.Uint() != n {
			panic(fmt.Sprintf("%d does not fit %s", n, r.Type()))
		}
	}
}

// FromGo reads a message back; an error means that the object is none.
func FromGo(d *Decl, p any) (v *Val, err error) { return reader{}.from(d, p) }

// FromGoDerived does the same, but takes type parameters of inner compounds
// from the arguments in the schema and not from the object. That is what an
// encoder does: it hands the parameters down.
func FromGoDerived(d *Decl, p any) (v *Val, err error) { return reader{derive: true}.from(d, p) }

type reader struct{ derive bool }

func (rd reader) from(d *Decl, p any) (v *Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(notAValue)
			if !ok {
				panic(r)
			}
			v, err = nil, fmt.Errorf("%s", string(s))
		}
	}()
	return rd.fromCompound(d, reflect.ValueOf(p).Elem(), d.Name, nil), nil
}

type notAValue string

func (rd reader) fromCompound(d *Decl, o reflect.Value, path string, args []*Val) *Val {
	v := &Val{Sel: -1, F: make([]*Val, len(d.AllFields()))}
	for i, pa := range d.Params {
		if i < len(args) && (rd.derive || pa.Type.Compound()) {
			a := args[i]
			if !pa.Type.Compound() {
				a = &Val{N: wrapTo(a.N, o.FieldByName(GoName(pa.Name)).Kind())}
			}
			v.P = append(v.P, a)
			continue
		}
		v.P = append(v.P, rd.fromVal(pa.Type, o.FieldByName(GoName(pa.Name)), path+"."+pa.Name, nil))
	}
	env := Env{D: d, V: v}
	one := -2
	switch d.Kind {
	case DUnion:
		n := o.FieldByName("UnionChoice").Uint()
		if n == 0 || n > uint64(len(d.Fields)) {
			panic(notAValue(fmt.Sprintf("%s: union choice %d", path, n)))
		}
		v.Sel = int(n) - 1
		one = v.Sel
	case DChoice:
		i, ok := d.Chosen(env.Eval(d.Selector))
		if !ok {
			panic(notAValue(fmt.Sprintf("%s: selector %d", path, env.Eval(d.Selector))))
		}
		v.Sel = i
		one = i
	}
	for i, f := range d.AllFields() {
		if one != -2 && i != one {
			continue
		}
		if f.Cond != nil && env.Eval(f.Cond) == 0 {
			continue
		}
		r := o.FieldByName(GoName(f.Name))
		if f.Optional {
			if r.IsNil() {
				continue
			}
			r = r.Elem()
		}
		fp := path + "." + f.Name
		if f.Array == nil && f.Type.Compound() && r.Kind() == reflect.Pointer {
			if r.IsNil() {
				panic(notAValue(fp + " is not set"))
			}
			r = r.Elem()
		}
		if f.Array == nil {
			v.F[i] = rd.fromVal(f.Type, r, fp, Args(f.Type, env))
			continue
		}
		a := &Val{}
		for k := 0; k < r.Len(); k++ {
			env.Index = k
			a.A = append(a.A, rd.fromVal(f.Type, r.Index(k), fmt.Sprintf("%s[%d]", fp, k), Args(f.Type, env)))
		}
		v.F[i] = a
	}
	return v
}

func (rd reader) fromVal(t *Type, r reflect.Value, path string, args []*Val) *Val {
	b := t.Base()
	for r.Kind() == reflect.Pointer {
		if r.IsNil() {
			panic(notAValue(path + ": nil pointer"))
		}
		r = r.Elem()
	}
	v := &Val{}
	switch b.Kind {
	case KBool:
		if r.Bool() {
			v.N = 1
		}
	case KFloat:
		if b.Bits == 64 {
			v.N = math.Float64bits(r.Float())
		} else {
			v.N = uint64(math.Float32bits(float32(r.Float())))
		}
	case KString:
		v.S = []byte(r.String())
	case KBytes:
		v.S = append([]byte{}, r.FieldByName("Buffer").Bytes()...)
		if n := getNum(r.FieldByName("ByteSize")); n != uint64(len(v.S)) {
			panic(notAValue(fmt.Sprintf("%s: size %d of a buffer of %d", path, n, len(v.S))))
		}
	case KExtern:
		v.S = append([]byte{}, r.FieldByName("Buffer").Bytes()...)
		v.N = getNum(r.FieldByName("BitSize"))
		if v.N > uint64(len(v.S))*8 || (v.N+7)/8 != uint64(len(v.S)) {
			panic(notAValue(fmt.Sprintf("%s: %d bits in a buffer of %d", path, v.N, len(v.S))))
		}
		if k := v.N % 8; rd.derive && k != 0 {
			// Bits behind the last one mean nothing.
			v.S[len(v.S)-1] &= 0xff << (8 - k)
		}
	case KRef:
		if b.Ref.Kind != DEnum && b.Ref.Kind != DBitmask {
			return rd.fromCompound(b.Ref, r, path, args)
		}
		fallthrough
	default:
		v.N = getNum(r)
	}
	return v
}

// wrapTo converts a number like a Go conversion to the type does.
func wrapTo(n uint64, k reflect.Kind) uint64 {
	switch k {
	case reflect.Int8:
		return uint64(int64(int8(n)))
	case reflect.Int16:
		return uint64(int64(int16(n)))
	case reflect.Int32:
		return uint64(int64(int32(n)))
	case reflect.Uint8:
		return uint64(uint8(n))
	case reflect.Uint16:
		return uint64(uint16(n))
	case reflect.Uint32:
		return uint64(uint32(n))
	}
	return n
}

func getNum(r reflect.Value) uint64 {
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(r.Int())
	case reflect.Bool:
		if r.Bool() {
			return 1
		}
		return 0
	}
	return r.Uint()
}
