package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"

	"vsim/simrt"
	"vsim/zmodel"
)

// Codec is a generated type.
type Codec interface {
	zserio.Marshaler
	zserio.Unmarshaler
}

// Msg is a message and its type.
type Msg struct {
	D *zmodel.Decl
	V *zmodel.Val

	// Bare leaves the type parameters of inner compounds to the codec.
	Bare bool
}

func (m Msg) String() string {
	return m.D.FullName() + " " + zmodel.Text(&zmodel.Type{Kind: zmodel.KRef, Ref: m.D}, m.V)
}

func typ(d *zmodel.Decl) *zmodel.Type { return &zmodel.Type{Kind: zmodel.KRef, Ref: d} }

// Obj makes a new object with the message.
func (m Msg) Obj() Codec {
	o := registry[m.D.FullName()]()
	if m.Bare {
		zmodel.ToGoBare(m.D, m.V, o)
	} else {
		zmodel.ToGo(m.D, m.V, o)
	}
	return o
}

func fresh(d *zmodel.Decl) Codec { return registry[d.FullName()]() }

// message draws a message.
func (r *Run) message() Msg { return r.messageOf(r.W.Roots, 40, r.S.P(12)) }

func (r *Run) messageOf(roots []*zmodel.Decl, budget int, big bool) Msg {
	d := roots[r.S.N(len(roots))]
	g := &zmodel.Gen{S: r.S, Budget: budget, Big: big}
	if big && r.S.N(2500) == 2499 {
		g.Vast = true
	}
	return r.generate(d, g)
}

func (r *Run) generate(d *zmodel.Decl, g *zmodel.Gen) Msg {
	m := Msg{D: d, V: g.Message(d), Bare: r.S.P(40)}
	r.count("messages", 1)
	if r.tracing {
		r.trace("message %s", m)
	}
	return m
}

// panicked is an error made from a panic.
type panicked struct {
	v     any
	where string
}

func (p *panicked) Error() string { return fmt.Sprintf("panic: %v (%s)", p.v, p.where) }

// guard runs f and turns a panic into an error.
func guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = &panicked{p, where()}
		}
	}()
	return f()
}

func isPanic(err error) bool {
	var p *panicked
	return errors.As(err, &p)
}

// overrun tells if a panic is the simulator's own step or memory limit.
func overrun(err error) (steps, alloc bool) {
	var p *panicked
	if errors.As(err, &p) {
		_, steps = p.v.(simrt.StepPanic)
		_, alloc = p.v.(simrt.AllocPanic)
	}
	return
}

func where() string {
	pc := make([]uintptr, 30)
	n := runtime.Callers(3, pc)
	fs := runtime.CallersFrames(pc[:n])
	for {
		f, more := fs.Next()
		if strings.Contains(f.Function, "go-zserio") || strings.Contains(f.Function, "vgen/") {
			i := strings.LastIndex(f.Function, "/")
			return f.Function[i+1:]
		}
		if !more {
			return "?"
		}
	}
}

// encode encodes an object alone at the start of a stream.
func encode(o Codec) ([]byte, int, error) {
	var b bytes.Buffer
	w := zstream.NewWriter(&b)
	err := guard(func() error { return o.MarshalZserio(w) })
	if err != nil {
		return nil, 0, err
	}
	n := int(w.BitPosition())
	if err := guard(w.Close); err != nil {
		return nil, 0, err
	}
	return b.Bytes(), n, nil
}

// encodeAt encodes an object at a bit offset of a stream and returns its bits.
func encodeAt(o Codec, pos int) (*zmodel.Bits, error) {
	var b bytes.Buffer
	w := zstream.NewWriter(&b)
	for left := pos; left > 0; {
		k := min(left, 64)
		if err := w.WriteBits(0, uint8(k)); err != nil {
			return nil, err
		}
		left -= k
	}
	if err := guard(func() error { return o.MarshalZserio(w) }); err != nil {
		return nil, err
	}
	n := int(w.BitPosition())
	if err := guard(w.Close); err != nil {
		return nil, err
	}
	all := zmodel.Bits{B: b.Bytes(), N: n}
	if len(all.B)*8 < n {
		return nil, fmt.Errorf("position %d, but only %d bytes written", n, len(all.B))
	}
	out := &zmodel.Bits{}
	out.Append(&all, pos, n)
	return out, nil
}

func readPos(r *zstream.BitReader) int {
	n, err := r.Align(1)
	if err != nil {
		return -1
	}
	return int(n)
}

// decoded compares an object with the message it should hold.
func decoded(m Msg, o Codec) string {
	v, err := zmodel.FromGo(m.D, o)
	if err != nil {
		return "decoded object is no valid message: " + err.Error()
	}
	return zmodel.Diff(typ(m.D), m.V, v, m.D.Name)
}

// dump renders an object with everything in it.
func dump(o any) string {
	var b strings.Builder
	dumpVal(&b, reflect.ValueOf(o), nil)
	return b.String()
}

// values renders the values that the application has stored in an object. Type
// parameters of compounds are none: they are handed down by the codec.
func (r *Run) values(o any) string {
	var b strings.Builder
	dumpVal(&b, reflect.ValueOf(o), r.W.params())
	return b.String()
}

// params finds the fields of generated types that are type parameters.
func (w *World) params() map[reflect.Type]map[string]bool {
	if w.paramFields != nil {
		return w.paramFields
	}
	w.paramFields = map[reflect.Type]map[string]bool{}
	var walk func(d *zmodel.Decl, t reflect.Type)
	walk = func(d *zmodel.Decl, t reflect.Type) {
		if w.paramFields[t] != nil {
			return
		}
		w.paramFields[t] = map[string]bool{}
		for _, p := range d.Params {
			w.paramFields[t][zmodel.GoName(p.Name)] = true
		}
		for _, f := range d.AllFields() {
			b := f.Type.Base()
			if b.Kind != zmodel.KRef || !f.Type.Compound() {
				continue
			}
			sf, ok := t.FieldByName(zmodel.GoName(f.Name))
			if !ok {
				panic("no field " + f.Name + " in " + t.String())
			}
			ft := sf.Type
			for ft.Kind() == reflect.Pointer || ft.Kind() == reflect.Slice {
				ft = ft.Elem()
			}
			walk(b.Ref, ft)
		}
	}
	for _, d := range w.Roots {
		walk(d, reflect.TypeOf(fresh(d)).Elem())
	}
	return w.paramFields
}

func dumpVal(b *strings.Builder, v reflect.Value, skip map[reflect.Type]map[string]bool) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpVal(b, v.Elem(), skip)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if skip[v.Type()][v.Type().Field(i).Name] {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpVal(b, v.Field(i), skip)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpVal(b, v.Index(i), skip)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	default:
		fmt.Fprintf(b, "<%s>", v.Kind())
	}
}

// firstDiff cuts out where two dumps differ.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	c := func(s string) string { return s[max(0, min(i, len(s))-60):min(len(s), i+60)] }
	return fmt.Sprintf("…%s… became …%s…", c(a), c(b))
}

func vio(rule, f string, a ...any) *Violation {
	return &Violation{Rule: rule, Detail: fmt.Sprintf(f, a...)}
}

// typed names the type in a key, so that findings can be told apart.
func (v *Violation) of(m Msg) *Violation {
	if v != nil {
		v.Key = m.D.FullName()
		v.Detail += " [" + m.D.FullName() + "]"
	}
	return v
}
