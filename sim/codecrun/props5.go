package main

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"vsim/simrt"
	"vsim/zmodel"
)

// EnumAPI is what the generated code offers for an enum besides encoding.
type EnumAPI struct {
	D       *zmodel.Decl
	New     func() Codec
	Values  func() any
	Strings func() []string
	Parse   func(string) (any, error)
}

// text is a fmt.Stringer from somewhere else.
type text string

func (t text) String() string { return string(t) }

func (e *EnumAPI) of(v *Violation) *Violation {
	if v != nil {
		v.Key = e.D.FullName()
		v.Detail += " [" + e.D.FullName() + "]"
	}
	return v
}

func enumNum(v reflect.Value) int64 {
	if v.CanInt() {
		return v.Int()
	}
	return int64(v.Uint())
}

// make is a new value of the enum.
func (e *EnumAPI) make(n int64) Codec {
	o := e.New()
	v := reflect.ValueOf(o).Elem()
	if v.CanInt() {
		v.SetInt(n)
	} else {
		v.SetUint(uint64(n))
	}
	return o
}

func (e *EnumAPI) item(n int64) (string, bool) {
	for _, i := range e.D.Items {
		if i.Value == n {
			return i.Name, true
		}
	}
	return "", false
}

func (e *EnumAPI) named(s string) (int64, bool) {
	for _, i := range e.D.Items {
		if i.Name == s {
			return i.Value, true
		}
	}
	return 0, false
}

// An enumOp is one use of an enum; what it needs has been drawn before.
type enumOp struct {
	e    *EnumAPI
	kind int
	n    int64  // value
	s    string // text
	how  int
	v    *Violation
}

var enumKinds = []string{"values", "strings", "parse", "text", "database value", "scan"}

func (o *enumOp) String() string {
	return fmt.Sprintf("%s of %s, value %d, text %q, variant %d", enumKinds[o.kind], o.e.D.FullName(), o.n, o.s, o.how)
}

func (r *Run) enumOp(es []*EnumAPI) *enumOp {
	o := &enumOp{e: es[r.S.N(len(es))], kind: r.S.N(len(enumKinds)), how: r.S.N(6)}
	it := o.e.D.Items[r.S.N(len(o.e.D.Items))]
	o.n, o.s = it.Value, it.Name
	if r.S.P(25) {
		v := reflect.ValueOf(o.e.make(it.Value)).Elem()
		d := int64(r.S.N(7)) - 3
		if v.CanInt() {
			v.SetInt(v.Int() + d)
		} else {
			v.SetUint(v.Uint() + uint64(d))
		}
		o.n = enumNum(v)
	}
	if o.kind < 2 && o.how < 4 {
		r.count("change of a list handed out", 1)
	}
	if _, ok := o.e.item(o.n); !ok && o.kind > 2 {
		r.count("change to a value without a name", 1)
	}
	if r.S.P(35) {
		if o.kind == 2 || o.kind == 5 {
			r.count("damage of a name", 1)
		}
		switch r.S.N(8) {
		case 0:
			o.s = ""
		case 1:
			o.s = strings.ToLower(o.s)
		case 2:
			o.s += " "
		case 3:
			o.s = " " + o.s
		case 4:
			o.s = o.s[:len(o.s)-1]
		case 5:
			o.s += "1"
		case 6:
			o.s = fmt.Sprint(o.n)
		case 7:
			o.s = fmt.Sprintf("unknown(%d)", o.n)
		}
	}
	return o
}

func (o *enumOp) run() {
	if err := guard(func() error { o.v = o.judge(); return nil }); err != nil {
		if isPanic(err) {
			o.v = vio("panic", "%s: %v", o, err)
		}
	}
	o.e.of(o.v)
}

func (o *enumOp) judge() *Violation {
	e := o.e
	switch o.kind {
	case 0:
		l := reflect.ValueOf(e.Values())
		var got, want []int64
		for i := 0; i < l.Len(); i++ {
			got = append(got, enumNum(l.Index(i)))
		}
		for _, i := range e.D.Items {
			want = append(want, i.Value)
		}
		byNum(got)
		byNum(want)
		if !reflect.DeepEqual(got, want) {
			return vio("values", "the list of values is %v, the schema has %v", got, want)
		}
		// The list belongs to the caller.
		switch n := l.Len(); o.how {
		case 0:
			for i := 0; i < n; i++ {
				l.Index(i).SetZero()
			}
		case 1:
			for i := 0; i < n/2; i++ {
				a, b := l.Index(i).Interface(), l.Index(n-1-i).Interface()
				l.Index(i).Set(reflect.ValueOf(b))
				l.Index(n - 1 - i).Set(reflect.ValueOf(a))
			}
		case 2: // remove the first one, in place
			reflect.Copy(l, l.Slice(1, n))
			l.Index(n - 1).SetZero()
		case 3:
			reflect.Append(l.Slice(0, n/2), l.Index(n-1))
		}
	case 1:
		l := e.Strings()
		got := append([]string(nil), l...)
		var want []string
		for _, i := range e.D.Items {
			want = append(want, i.Name)
		}
		sort.Strings(got)
		sort.Strings(want)
		if !reflect.DeepEqual(got, want) {
			return vio("values", "the list of names is %q, the schema has %q", got, want)
		}
		switch o.how {
		case 0:
			clear(l)
		case 1:
			sort.Sort(sort.Reverse(sort.StringSlice(l)))
		case 2:
			copy(l, l[1:])
		case 3:
			_ = append(l[:len(l)/2], "x")
		}
	case 2:
		v, err := e.Parse(o.s)
		want, ok := e.named(o.s)
		switch {
		case ok && err != nil:
			return vio("refused", "the name %q is refused: %v", o.s, err)
		case !ok && err == nil:
			return vio("accepted", "%q is no name, and is taken for %d", o.s, enumNum(reflect.ValueOf(v)))
		case ok && enumNum(reflect.ValueOf(v)) != want:
			return vio("differs", "the name %q gives %d instead of %d", o.s, enumNum(reflect.ValueOf(v)), want)
		}
	case 3:
		s, ok := e.make(o.n).(fmt.Stringer)
		if !ok {
			return nil
		}
		return o.name(s.String(), "text")
	case 4:
		d, ok := e.make(o.n).(driver.Valuer)
		if !ok {
			return nil
		}
		v, err := d.Value()
		want, named := e.item(o.n)
		if !named {
			// May be refused.
			if s, ok := v.(string); ok && err == nil {
				return o.name(s, "database value")
			}
			return nil
		}
		if err != nil {
			return vio("refused", "there is no database value for %s: %v", want, err)
		}
		if !driver.IsValue(v) {
			return vio("differs", "the database value for %s is a %T", want, v)
		}
		t := e.make(0)
		b, isBytes := v.([]byte)
		if isBytes {
			v = append([]byte(nil), b...)
		} else if s, ok := v.(string); ok && o.how%2 == 0 {
			v = []byte(s)
		}
		if err := t.(sql.Scanner).Scan(v); err != nil {
			return vio("refused", "the database value %v is refused: %v", v, err)
		}
		if got := enumNum(reflect.ValueOf(t).Elem()); got != o.n {
			return vio("differs", "the database value %v gives %d instead of %d", v, got, o.n)
		}
	case 5:
		t := e.make(o.n)
		sc, ok := t.(sql.Scanner)
		if !ok {
			return nil
		}
		var src any
		want, named := e.named(o.s)
		switch o.how {
		case 0:
			src = o.s
		case 1:
			src = []byte(o.s)
		case 2:
			src = text(o.s)
		case 3:
			src, named = int64(o.n), false
		case 4:
			src, named = 1.5, false
		case 5:
			src, named = true, false
		}
		err := sc.Scan(src)
		got := enumNum(reflect.ValueOf(t).Elem())
		switch {
		case o.how > 2 && err == nil:
			// Other types are not promised to be refused.
		case named && err != nil:
			return vio("refused", "the database value %q (%T) is refused: %v", o.s, src, err)
		case named && got != want:
			return vio("differs", "the database value %q (%T) gives %d instead of %d", o.s, src, got, want)
		case !named && err == nil:
			return vio("accepted", "the database value %q (%T) is no name, and is taken for %d", o.s, src, got)
		case err != nil && got != o.n:
			return vio("altered", "a database value that is refused (%v) changes the variable from %d to %d", src, o.n, got)
		}
		if b, ok := src.([]byte); ok {
			if string(b) != o.s {
				return vio("altered", "the bytes of the database driver are changed from %q to %q", o.s, b)
			}
			// The driver uses its buffer again.
			for i := range b {
				b[i] = '#'
			}
			if enumNum(reflect.ValueOf(t).Elem()) != got {
				return vio("altered", "the value changes with the buffer of the database driver")
			}
		}
	}
	return nil
}

// name judges the text for the value.
func (o *enumOp) name(s, what string) *Violation {
	want, named := o.e.item(o.n)
	if named && s != want {
		return vio("differs", "the %s of %s is %q", what, want, s)
	}
	if _, is := o.e.named(s); is && !named {
		return vio("differs", "the %s of %d, which has no name, is %q", what, o.n, s)
	}
	return nil
}

func byNum(l []int64) { sort.Slice(l, func(i, j int) bool { return l[i] < l[j] }) }

// c15 uses enums, one after another and at the same time.
func c15(r *Run) *Violation {
	all := enums(r.W.Schemas)
	if len(all) == 0 {
		return nil
	}
	es := []*EnumAPI{all[r.S.N(len(all))]}
	if r.S.P(40) {
		es = append(es, all[r.S.N(len(all))])
	}
	var fs []func()
	var ops []*enumOp
	n := 1 + r.S.N(4)
	for i := 0; i < n; i++ {
		var mine []*enumOp
		for k := 2 + r.S.N(8); k > 0; k-- {
			o := r.enumOp(es)
			mine = append(mine, o)
			r.trace("task %d: %s", i, o)
			r.count(enumKinds[o.kind], 1)
		}
		ops = append(ops, mine...)
		fs = append(fs, func() {
			for _, o := range mine {
				o.run()
			}
		})
	}
	plan := r.plan(40)
	simrt.Reset(5_000_000, 0)
	races := raceErrors()
	res := simrt.Run(plan, fs...)
	simrt.Reset(0, 0)
	r.count("switches", int64(res.Switches))
	r.count("operations", int64(len(ops)))
	r.Extra = res.Hash
	r.Nontriv = true
	for i, p := range res.Panics {
		if p != nil {
			return vio("stuck", "task %d does not end: %v", i, p)
		}
	}
	for _, o := range ops {
		if o.v != nil {
			return o.v
		}
	}
	if k := raceErrors() - races; k > 0 {
		return vio("race", "%d data races between %d tasks, see the report of the race detector", k, n)
	}
	// What is left behind.
	for _, e := range es {
		for k := 0; k < 4; k++ {
			for _, it := range e.D.Items {
				o := &enumOp{e: e, kind: k, n: it.Value, s: it.Name, how: 5}
				if o.run(); o.v != nil {
					o.v.Detail = "afterwards: " + o.v.Detail
					return o.v
				}
			}
		}
	}
	return nil
}

func enums(ss []*zmodel.Schema) []*EnumAPI {
	var out []*EnumAPI
	for _, s := range ss {
		for _, p := range s.Packages {
			for _, d := range p.Decls {
				if e := enumTable[d.FullName()]; e != nil {
					e.D = d
					out = append(out, e)
				}
			}
		}
	}
	return out
}
