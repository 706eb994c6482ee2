//go:build go1.22

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type Named int
type named int
type Any interface{}

// errors used as parameter values
type errVal struct{ s string }

func (e *errVal) Error() string { return e.s }

// a value of pool (number i+1)
type pv struct {
	v   any
	ty  string
	cls int
}

var int1, int2 = 5, 5
var nm1 = Named(3)
var slc = []int{1, 2}
var dataPool = []pv{
	{nil, "nil", 1}, {0, "int", 1}, {5, "int", 2}, {slc, "[]int", 1}, {[]int(nil), "[]int", 2}, {"x", "string", 1},
	{7, "int", 3}, {"", "string", 2}, {int64(0), "int64", 1}, {int64(5), "int64", 2},
	{(*int)(nil), "*int", 1}, {&int1, "*int", 2}, {&int2, "*int", 3}, {[]int{}, "[]int", 3},
	{recVal{}, "recVal", 1}, {recVal{1, "q"}, "recVal", 2}, {Named(0), "Named", 1}, {Named(3), "Named", 2},
	{0.0, "float64", 1}, {math.Copysign(0, -1), "float64", 1}, {math.NaN(), "float64", 2}, {1.5, "float64", 3},
	{&errVal{"ea"}, "errs", 1}, {&errVal{"eb"}, "errs", 2}, {false, "bool", 1}, {true, "bool", 2},
	{(*Named)(nil), "*Named", 1}, {&nm1, "*Named", 2}, {(func())(nil), "func", 1}, {(*errVal)(nil), "errs", 3},
}

func cmpable(v any) bool { return v == nil || reflect.TypeOf(v).Comparable() }

// the number of a value: same type and indistinguishable
func valID(v any) int {
	for i, p := range dataPool {
		if reflect.TypeOf(v) != reflect.TypeOf(p.v) {
			continue
		}
		switch x := v.(type) {
		case float64:
			if math.Float64bits(x) == math.Float64bits(p.v.(float64)) {
				return i + 1
			}
		case []int:
			y := p.v.([]int)
			if (x == nil) == (y == nil) && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0]) {
				return i + 1
			}
		case func():
			if x == nil {
				return i + 1
			}
		default:
			if v == p.v {
				return i + 1
			}
		}
	}
	return 0
}

func poolTable() []any {
	out := []any{}
	for _, p := range dataPool {
		f, isf := p.v.(float64)
		out = append(out, M{"ty": p.ty, "cls": p.cls, "cmp": cmpable(p.v), "nan": isf && math.IsNaN(f)})
	}
	return out
}

var zeroTable = mkZero()

func mkZero() M {
	zt := M{}
	for _, z := range []struct {
		t string
		v any
	}{{"int", 0}, {"int64", int64(0)}, {"string", ""}, {"any", nil}, {"error", nil}, {"*int", (*int)(nil)}, {"[]int", []int(nil)}, {"recVal", recVal{}},
		{"Named", Named(0)}, {"float64", 0.0}, {"bool", false}, {"*Named", (*Named)(nil)}, {"func", (func())(nil)}, {"other", nil}} {
		zt[z.t] = valID(z.v)
	}
	return zt
}

func tyName(t reflect.Type) string {
	switch {
	case t.Kind() == reflect.Interface && t.NumMethod() == 0:
		return "any"
	case t == reflect.TypeOf((*error)(nil)).Elem():
		return "error"
	case t.Kind() == reflect.Func:
		return "func"
	}
	s := strings.ReplaceAll(t.String(), "main.", "")
	if _, ok := zeroTable[s]; !ok {
		return "other"
	}
	return s
}

// shape of a struct type
func shapeOf(t reflect.Type) []any {
	if t.Kind() != reflect.Struct {
		return []any{M{"name": "", "exp": true, "kind": "nostruct", "ty": "", "sub": []any{}}}
	}
	out := []any{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		m := M{"name": f.Name, "exp": f.IsExported(), "kind": "leaf", "ty": tyName(f.Type), "sub": []any{}}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			m["kind"], m["sub"] = "emb", shapeOf(f.Type)
		} else if f.Anonymous && f.Type.Kind() == reflect.Pointer && f.Type.Elem().Kind() == reflect.Struct {
			m["kind"] = "embptr"
		}
		out = append(out, m)
	}
	return out
}

type leaf struct {
	path []int // 0-based
	name string
	ty   string
}

func leavesOf(t reflect.Type, pre []int) (out []leaf) {
	if t.Kind() != reflect.Struct {
		return nil
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		p := append(append([]int{}, pre...), i)
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			out = append(out, leavesOf(f.Type, p)...)
		} else if !(f.Anonymous && f.Type.Kind() == reflect.Pointer && f.Type.Elem().Kind() == reflect.Struct) {
			out = append(out, leaf{p, f.Name, tyName(f.Type)})
		}
	}
	return
}

// functions of the package for one struct type
type typ struct {
	name     string
	rt       reflect.Type
	leaves   []leaf
	suitable func() bool
	newS     func(b error, txt string, d reflect.Value, modes ...ewd.PreviousDataTreatment) error
	addS     func(b error, d reflect.Value, modes ...ewd.PreviousDataTreatment) error
	newP     func(b error, txt string, m ewd.PreviousDataTreatment, z ewd.MissingDataTreatment, ps ...any) error
	newM     func(b error, txt string, m ewd.PreviousDataTreatment, z ewd.MissingDataTreatment, p ewd.ParamMap) error
	addP     func(b error, m ewd.PreviousDataTreatment, z ewd.MissingDataTreatment, ps ...any) error
	addM     func(b error, m ewd.PreviousDataTreatment, z ewd.MissingDataTreatment, p ewd.ParamMap) error
	del      func(b error, n string, z ewd.MissingDataTreatment) error
	as       func(b error, z ewd.MissingDataTreatment) (error, bool)
	hasData  func(b error) bool
	get      func(b error, z ewd.MissingDataTreatment) any
	method   func(b error) (any, bool)
	find     func(b error) error
	box      func(b error) error
	inc      func(b error) error
	unboxT   func(b error) (error, bool)
	eof2     func(b error) error
	all      func(n []string)
	one      func(n string)
}

// noNil keeps nil interfaces nil
func noNil[T any](e ewd.ErrorWithData[T]) error {
	if e == nil {
		return nil
	}
	return e
}

// an error with data that opts in to being made incomparable
type boxAny struct{ ewd.ErrorWithData_any }

func (e *boxAny) Is(t error) bool      { return error(e) == ewd.UnboxError(t) }
func (e *boxAny) CanMakeIncomparable() {}
func (e *boxAny) Unwrap() error        { return errors.Unwrap(e.ErrorWithData_any) }

type boxT[T any] struct{ ewd.ErrorWithData[T] }

func (e *boxT[T]) Is(t error) bool      { return error(e) == ewd.UnboxError(t) }
func (e *boxT[T]) CanMakeIncomparable() {}
func (e *boxT[T]) Unwrap() error        { return errors.Unwrap(e.ErrorWithData) }

type boxPlain struct{ s string }

func (e *boxPlain) Error() string        { return e.s }
func (e *boxPlain) Is(t error) bool      { return error(e) == ewd.UnboxError(t) }
func (e *boxPlain) CanMakeIncomparable() {}

type valErr struct{ n int }

func (e valErr) Error() string { return fmt.Sprintf("t%d;", e.n) }

func reg[T any](name string) *typ {
	rt := reflect.TypeOf((*T)(nil)).Elem()
	return &typ{name: name, rt: rt, leaves: leavesOf(rt, nil),
		suitable: func() bool { return ewd.StructSuitableForErrorsWithData[T]() == nil },
		newS: func(b error, txt string, d reflect.Value, modes ...ewd.PreviousDataTreatment) error {
			return noNil(ewd.NewErrorWithData_struct(b, txt, d.Interface().(*T), modes...))
		},
		addS: func(b error, d reflect.Value, modes ...ewd.PreviousDataTreatment) error {
			return noNil(ewd.AddDataToError_struct(b, d.Interface().(*T), modes...))
		},
		newP: func(b error, txt string, m ewd.PreviousDataTreatment, z ewd.MissingDataTreatment, ps ...any) error {
			return noNil(ewd.NewErrorWithData_params[T](b, txt, m, z, ps...))
		},
		newM: func(b error, txt string, m ewd.PreviousDataTreatment, z ewd.MissingDataTreatment, p ewd.ParamMap) error {
			return noNil(ewd.NewErrorWithData_map[T](b, txt, m, z, p))
		},
		addP: func(b error, m ewd.PreviousDataTreatment, z ewd.MissingDataTreatment, ps ...any) error {
			return noNil(ewd.AddDataToError_params[T](b, m, z, ps...))
		},
		addM: func(b error, m ewd.PreviousDataTreatment, z ewd.MissingDataTreatment, p ewd.ParamMap) error {
			return noNil(ewd.AddDataToError_map[T](b, m, z, p))
		},
		del: func(b error, n string, z ewd.MissingDataTreatment) error {
			return noNil(ewd.DeleteParameterFromError[T](b, n, z))
		},
		as: func(b error, z ewd.MissingDataTreatment) (error, bool) {
			e, ok := ewd.AsErrorWithData[T](b, z)
			return noNil(e), ok
		},
		hasData: func(b error) bool { return ewd.HasData[T](b) },
		get:     func(b error, z ewd.MissingDataTreatment) any { return ewd.GetData_struct[T](b, z) },
		method: func(b error) (any, bool) {
			x, ok := b.(ewd.ErrorWithData[T])
			if !ok {
				return nil, false
			}
			return x.GetData_struct(), true
		},
		find: func(b error) error {
			var x ewd.ErrorWithData[T]
			if !errors.As(b, &x) {
				return nil
			}
			return x
		},
		box: func(b error) error { return &boxT[T]{b.(ewd.ErrorWithData[T])} },
		inc: func(b error) error { return ewd.MakeErrorIncomparable_struct[T](b.(*boxT[T])) },
		unboxT: func(b error) (error, bool) {
			x, ok := b.(interface {
				ewd.ErrorWithData[T]
				ewd.IncomparableMaker
			})
			if !ok {
				return nil, false
			}
			return ewd.UnboxError_struct[T](x), true
		},
		eof2: func(b error) error {
			x, _ := b.(ewd.ErrorWithData[T])
			errorTransform.UnexpectEOF2(&x)
			return noNil(x)
		},
		all: func(n []string) { ewd.CheckParametersForStruct_all[T](n) },
		one: func(n string) { ewd.CheckParameterForStruct[T](n) },
	}
}

type subPair struct {
	a, b string
	f    func()
}

func pair[T1, T2 any](a, b string) subPair {
	return subPair{a, b, func() { ewd.CheckIsSubtype[T1, T2]() }}
}

func typByName(n string) *typ {
	for _, t := range dataTypes {
		if t.name == n {
			return t
		}
	}
	panic("no type " + n)
}

// values of all leaves of a struct value
func structVals(t *typ, v any) []any {
	rv := reflect.ValueOf(v)
	out := []any{}
	for _, l := range t.leaves {
		f := rv.FieldByIndex(l.path)
		id := 0
		if f.CanInterface() {
			id = valID(f.Interface())
		}
		out = append(out, M{"p": path1(l.path), "v": id})
	}
	return out
}
func path1(p []int) []int {
	q := []int{}
	for _, i := range p {
		q = append(q, i+1)
	}
	return q
}

// mkop describes the creation of an error
type mkop struct {
	How    string
	T      string
	Base   int
	Txt    string
	ID     int
	Mode   string
	Nmode  int
	Miss   string
	Ps     [][2]any // name, value number
	Sv     []int    // value numbers of the leaves
	Name   string
	Odd    bool
	Badkey bool
	Subs   []int
	Cls    int
	keep   bool // keep the inputs and change them later
	param  string
}

// live list of errors
type dchain struct {
	ep    *zz.Ep
	errs  []error
	st    []string
	kind  []string
	cls   []int
	types M
	mu    sync.Mutex
	msgs  map[string]int
	muts  []func()
	names []string
	eof   int
	unexp int
}

func newData(ep *zz.Ep) *dchain {
	c := &dchain{ep: ep, types: M{"T0": []any{}}, msgs: map[string]int{}, names: []string{"A", "B", "C", "D"}}
	ep.Set("pool", poolTable())
	ep.Set("zero", zeroTable)
	ep.Set("types", c.types)
	return c
}
func (c *dchain) use(t *typ) { c.types[t.name] = shapeOf(t.rt) }
func (c *dchain) get(k int) error {
	if k == 0 {
		return nil
	}
	return c.errs[k-1]
}

// number of an error, 0 for nil, -1 for one not seen before
func (c *dchain) num(e error) int {
	if e == nil {
		return 0
	}
	for i, x := range c.errs {
		if reflect.TypeOf(x) != reflect.TypeOf(e) {
			continue
		}
		if reflect.TypeOf(x).Comparable() {
			if x == e {
				return i + 1
			}
		} else if ewd.UnboxError(x) == ewd.UnboxError(e) {
			return i + 1
		}
	}
	return -1
}

var modeOf = map[string]ewd.PreviousDataTreatment{"prefer": ewd.PreferPreviousData, "replace": ewd.ReplacePreviousData, "assert": ewd.AssertDataIsNotReplaced, "unset": {}}
var missOf = map[string]ewd.MissingDataTreatment{"zero": ewd.MissingDataAsZero, "ensure": ewd.EnsureDataIsPresent}

// do performs o on the real code
func (c *dchain) do(o mkop) (e error, out string) {
	base := c.get(o.Base)
	txt := ""
	switch o.Txt {
	case "plain":
		txt = fmt.Sprintf("t%d;", o.ID)
	case "par":
		txt = fmt.Sprintf("t%d;%s", o.ID, o.param)
	}
	out = "ok"
	mode, miss := modeOf[o.Mode], missOf[o.Miss]
	args := []any{}
	pm := ewd.ParamMap{}
	for _, p := range o.Ps {
		v := dataPool[p[1].(int)-1].v
		args = append(args, p[0], v)
		pm[p[0].(string)] = v
	}
	if o.Odd {
		args = append(args, "A")
	}
	if o.Badkey {
		args = append(args, 5, 7)
	}
	modes := []ewd.PreviousDataTreatment{}
	for i := 0; i < o.Nmode; i++ {
		modes = append(modes, mode)
	}
	var t *typ
	var sv reflect.Value
	if o.T != "" {
		t = typByName(o.T)
		sv = reflect.New(t.rt)
		for i, v := range o.Sv {
			f := sv.Elem().FieldByIndex(t.leaves[i].path)
			if f.CanSet() && v > 0 && dataPool[v-1].v != nil {
				f.Set(reflect.ValueOf(dataPool[v-1].v))
			}
		}
	}
	isNil := false
	p := zz.Outcome(func() {
		switch o.How {
		case "plain":
			e = errors.New(fmt.Sprintf("t%d;", o.ID))
		case "val":
			e = valErr{o.ID}
		case "boxable":
			e = &boxPlain{fmt.Sprintf("t%d;", o.ID)}
		case "wrap":
			e = fmt.Errorf(fmt.Sprintf("t%d;%%w", o.ID), base)
		case "join":
			es := []error{}
			for _, s := range o.Subs {
				es = append(es, c.get(s))
			}
			e = errors.Join(es...)
		case "boxewd":
			if o.Cls == 2 {
				e = typByName(c.st[o.Base-1]).box(base)
			} else {
				e = &boxAny{base.(ewd.ErrorWithData_any)}
			}
		case "inc":
			switch o.Cls {
			case 0:
				e = ewd.MakeErrorIncomparable(base.(ewd.IncomparableMaker))
			case 1:
				e = ewd.MakeErrorIncomparable_any(base.(interface {
					ewd.ErrorWithData_any
					ewd.IncomparableMaker
				}))
			case 2:
				e = typByName(c.st[o.Base-1]).inc(base)
			}
		case "struct":
			e = t.newS(base, txt, sv, modes...)
		case "add_struct":
			e = t.addS(base, sv, modes...)
		case "map":
			e = t.newM(base, txt, mode, miss, pm)
		case "params":
			e = t.newP(base, txt, mode, miss, args...)
		case "add_map":
			e = t.addM(base, mode, miss, pm)
		case "add_params":
			e = t.addP(base, mode, miss, args...)
		case "any_map":
			e = ewd.NewErrorWithData_any_map(base, txt, mode, pm)
		case "any_params":
			e = ewd.NewErrorWithData_any_params(base, txt, mode, args...)
		case "add_any_map":
			if x := ewd.AddDataToError_any_map(base, mode, pm); x != nil {
				e = x
			}
		case "add_any_params":
			if x := ewd.AddDataToError_any_params(base, mode, args...); x != nil {
				e = x
			}
		case "del":
			e = t.del(base, o.Name, miss)
		case "del_any":
			if x := ewd.DeleteParameterFromError_any(base, o.Name); x != nil {
				e = x
			}
		case "as":
			var ok bool
			e, ok = t.as(base, miss)
			if !ok {
				if e == nil {
					out = "nilfail"
				} else {
					out = "fail"
				}
			}
		case "eof":
			x := base
			errorTransform.UnexpectEOF(&x)
			e = x
		case "eof2":
			e = t.eof2(base)
		default:
			panic("unknown operation " + o.How)
		}
		isNil = e == nil
	})
	if p != "ok" {
		return nil, "panic"
	}
	if out == "ok" && isNil {
		out = "nil"
	}
	if o.keep {
		c.mu.Lock()
		c.muts = append(c.muts, func() {
			for k := range pm {
				delete(pm, k)
			}
			pm["A"], pm["Zz"] = "changed", 1
			for i := range args {
				args[i] = "changed"
			}
			if sv.IsValid() {
				sv.Elem().Set(reflect.Zero(sv.Elem().Type()))
			}
		})
		c.mu.Unlock()
	}
	return
}

// record logs an operation whose result is known
func (c *dchain) record(o mkop, e error, out string) {
	m := M{"how": o.How, "T": o.T, "st": o.T, "base": o.Base, "txt": o.Txt, "id": o.ID, "mode": o.Mode, "nmode": o.Nmode, "miss": o.Miss, "ps": []any{}, "sv": []any{},
		"name": o.Name, "odd": o.Odd, "badkey": o.Badkey, "subs": append([]int{}, o.Subs...), "cls": o.Cls, "eof": c.eof, "unexp": c.unexp}
	if o.T == "" {
		m["T"] = "T0"
	} else {
		c.use(typByName(o.T))
	}
	ps := []any{}
	for _, p := range o.Ps {
		ps = append(ps, []any{p[0], p[1]})
	}
	m["ps"] = ps
	if o.T != "" {
		t := typByName(o.T)
		sv := []any{}
		for i, v := range o.Sv {
			sv = append(sv, M{"p": path1(t.leaves[i].path), "v": v})
		}
		m["sv"] = sv
	}
	m["unw"], m["same"] = 0, 0
	if e != nil {
		m["unw"] = c.num(errors.Unwrap(e))
		if n := c.num(e); n > 0 {
			m["same"] = n
		}
	}
	if out == "ok" && !((o.How == "eof" || o.How == "eof2") && m["same"] != 0) {
		c.errs = append(c.errs, e)
		st, kind := o.T, "ewd"
		switch o.How {
		case "plain", "val", "boxable", "wrap", "join":
			st, kind = "", o.How
		case "boxewd":
			st = ""
			if o.Cls == 2 {
				st = c.st[o.Base-1]
			}
		case "inc":
			st, kind = "", "inc"
			if o.Cls == 2 {
				st = c.st[o.Base-1]
			}
		}
		c.st, c.kind, c.cls = append(c.st, st), append(c.kind, kind), append(c.cls, o.Cls)
		if o.How != "boxewd" && o.How != "inc" {
			c.cls[len(c.cls)-1] = 0
		}
	}
	m["out"] = out
	m["obs"] = c.obs()
	c.ep.Log("mk", m)
}
func (c *dchain) mk(o mkop) string {
	e, out := c.do(o)
	c.record(o, e, out)
	return out
}

var tokRe = regexp.MustCompile(`^t(\d+);`)

func tokens(s string) []int {
	out := []int{}
	for s != "" {
		if s[0] == '\n' {
			out = append(out, 0)
			s = s[1:]
			continue
		}
		m := tokRe.FindStringSubmatch(s)
		if m == nil {
			return append(out, -1)
		}
		n, _ := strconv.Atoi(m[1])
		out = append(out, n)
		s = s[len(m[0]):]
	}
	return out
}

func idPairs(m map[string]any) []any {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []any{}
	for _, k := range ks {
		out = append(out, []any{k, valID(m[k])})
	}
	return out
}

// obs: data and messages of all errors
func (c *dchain) obs() []any {
	out := []any{}
	for i, e := range c.errs {
		s := e.Error()
		h, ok := c.msgs[s]
		if !ok {
			h = len(c.msgs) + 1
			c.msgs[s] = h
		}
		m := ewd.GetData_map(e)
		o := M{"k": i + 1, "d": idPairs(m), "tok": tokens(s), "mh": h}
		out = append(out, o)
	}
	return out
}

// query asks everything about error k
func (c *dchain) query(k int, t *typ) M {
	e := c.get(k)
	m := M{"k": k, "T": t.name}
	get := []any{}
	for _, n := range c.names {
		v, p := ewd.GetParameter(e, n)
		x := M{"n": n, "h": ewd.HasParameter(e, n), "p": p, "v": valID(v), "m": false}
		if d, ok := e.(ewd.ErrorWithData_any); ok {
			v2, p2 := d.GetParameter(n)
			x["m"], x["h2"], x["p2"], x["v2"] = true, d.HasParameter(n), p2, valID(v2)
		}
		get = append(get, x)
	}
	m["get"] = get
	if d, ok := e.(ewd.ErrorWithData_any); ok {
		m["d2"] = idPairs(d.GetData_map())
	} else {
		m["d2"] = idPairs(ewd.GetData_map(e))
	}
	m["d"] = idPairs(ewd.GetData_map(e))
	hd := "panic"
	zz.Outcome(func() { hd = fmt.Sprint(t.hasData(e)) })
	m["hd"] = hd
	for _, z := range []string{"zero", "ensure"} {
		var v any
		out := zz.Outcome(func() { v = t.get(e, missOf[z]) })
		r := M{"out": "panic", "v": []any{}}
		if out == "ok" {
			r = M{"out": "ok", "v": structVals(t, v)}
		}
		m[z] = r
	}
	r := M{"out": "none", "v": []any{}}
	var v any
	var has bool
	if out := zz.Outcome(func() { v, has = t.method(e) }); out != "ok" {
		r = M{"out": "panic", "v": []any{}}
	} else if has {
		r = M{"out": "ok", "v": structVals(t, v)}
	}
	m["meth"] = r
	m["find"] = c.num(t.find(e))
	var any1 ewd.ErrorWithData_any
	m["findany"] = 0
	if errors.As(e, &any1) {
		m["findany"] = c.num(any1)
	}
	var ve valErr
	m["findval"] = 0
	if errors.As(e, &ve) {
		m["findval"] = c.num(ve)
	}
	is := []int{}
	for i := range c.errs {
		if errors.Is(e, c.errs[i]) {
			is = append(is, i+1)
		}
	}
	if errors.Is(e, nil) {
		is = append(is, 0)
	}
	m["is"] = is
	m["unw"] = 0
	if e != nil {
		m["unw"] = c.num(errors.Unwrap(e))
	}
	m["unbox"] = 0
	m["unbox2"] = -2
	if e != nil {
		m["unbox"] = c.num(ewd.UnboxError(e))
		if x, ok := e.(interface {
			ewd.ErrorWithData_any
			ewd.IncomparableMaker
		}); ok {
			m["unbox2"] = c.num(ewd.UnboxError_any(x))
		}
		if x, ok := t.unboxT(e); ok {
			m["unbox2"] = c.num(x)
		}
	}
	return m
}
func (c *dchain) ask(k int, t *typ) {
	c.use(t)
	c.ep.Log("ask", c.query(k, t))
}

func (c *dchain) shape(rng *rand.Rand, t *typ) {
	c.use(t)
	m := M{"T": t.name, "suit": t.suitable()}
	seen := map[string]bool{}
	names := []string{}
	for _, l := range t.leaves {
		if !seen[l.name] {
			seen[l.name] = true
			names = append(names, l.name)
		}
	}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	switch rng.Intn(6) {
	case 0:
		if len(names) > 0 {
			names = names[1:]
		}
	case 1:
		names = append(names, "Q")
	case 2:
		if len(names) > 0 {
			names = append(names, names[0])
		}
	case 3:
		if len(names) > 1 {
			names[0] = names[1]
		}
	case 4:
		if len(names) > 0 {
			names[0] = "Q"
		}
	}
	m["names"] = append([]string{}, names...)
	m["all"] = zz.Outcome(func() { t.all(names) }) == "ok"
	n := zz.Pick(rng, append([]string{"A", "B", "Q", "a", "SA", ""}, names...))
	m["name"] = n
	m["one"] = zz.Outcome(func() { t.one(n) }) == "ok"
	subs := []any{}
	for _, p := range subtypePairs {
		if p.a == t.name {
			c.use(typByName(p.b))
			subs = append(subs, M{"U": p.b, "ok": zz.Outcome(p.f) == "ok"})
		}
	}
	m["subs"] = subs
	c.ep.Log("shape", m)
}

// mutate changes everything that was handed in or out
func (c *dchain) mutate() {
	for _, f := range c.muts {
		f()
	}
	c.muts = nil
	for _, e := range c.errs {
		ms := []map[string]any{ewd.GetData_map(e)}
		if x, ok := e.(ewd.ErrorWithData_any); ok {
			ms = append(ms, x.GetData_map())
		}
		for _, m := range ms {
			for k := range m {
				m[k] = "changed"
			}
			delete(m, "A")
			m["Zz"] = 3
		}
	}
	c.ep.Log("mutate", M{"obs": c.obs()})
}

// ---- random histories

func fits(v int, ty string) bool {
	p := dataPool[v-1]
	switch {
	case p.ty == "nil":
		return ty == "any" || ty == "error" || strings.HasPrefix(ty, "*") || ty == "[]int" || ty == "func"
	case ty == "any":
		return true
	case ty == "error":
		return p.ty == "errs"
	}
	return p.ty == ty
}
func rndVal(rng *rand.Rand, ty string) int {
	for n := 0; n < 400; n++ {
		if v := 1 + rng.Intn(len(dataPool)); ty == "" || fits(v, ty) {
			return v
		}
	}
	return 1
}

// rndSv: values for all leaves (a nil of a nilable field is the zero value of the field)
func rndSv(rng *rand.Rand, t *typ) []int {
	out := []int{}
	for _, l := range t.leaves {
		v := rndVal(rng, l.ty)
		if l.ty == "other" {
			v = 1
		}
		if dataPool[v-1].v == nil {
			v = zeroTable[l.ty].(int)
		}
		if rng.Intn(4) == 0 {
			v = zeroTable[l.ty].(int)
		}
		f := reflect.New(t.rt).Elem().FieldByIndex(l.path)
		if !f.CanSet() {
			v = zeroTable[l.ty].(int)
		}
		out = append(out, v)
	}
	return out
}

var moreNames = []string{"A", "B", "C", "D", "A", "B", "C", "D", "Named", "Err", "Any", "F", "a", "!m", "", "x y"}

func rndPs(rng *rand.Rand, t *typ, n int) [][2]any {
	out := [][2]any{}
	if t != nil && rng.Intn(3) > 0 {
		for _, l := range t.leaves {
			if rng.Intn(6) > 0 {
				ty := l.ty
				if rng.Intn(8) == 0 {
					ty = ""
				}
				out = append(out, [2]any{l.name, rndVal(rng, ty)})
			}
		}
	}
	for i := rng.Intn(n + 1); i > 0; i-- {
		ty := ""
		if rng.Intn(2) == 0 {
			ty = "int"
		}
		out = append(out, [2]any{zz.Pick(rng, moreNames), rndVal(rng, ty)})
	}
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// choice of types for one episode: related ones, so that data fits now and then
func rndTypes(rng *rand.Rand, n int) []*typ {
	out := []*typ{}
	for len(out) < n {
		t := zz.Pick(rng, dataTypes)
		if !t.suitable() && rng.Intn(4) > 0 {
			continue
		}
		out = append(out, t)
	}
	return out
}

func (c *dchain) rndOp(rng *rand.Rand, ts []*typ, w map[string]int) mkop {
	tot := 0
	keys := []string{}
	for k, v := range w {
		keys = append(keys, k)
		tot += v
	}
	sort.Strings(keys)
	r := rng.Intn(tot)
	how := ""
	for _, k := range keys {
		if r < w[k] {
			how = k
			break
		}
		r -= w[k]
	}
	n := len(c.errs)
	o := mkop{How: how, ID: n + 1, Miss: zz.Pick(rng, []string{"zero", "ensure"}), Mode: zz.Pick(rng, []string{"prefer", "prefer", "replace", "replace", "assert", "assert", "assert"})}
	if rng.Intn(60) == 0 {
		o.Mode = "unset"
	}
	if n > 0 && rng.Intn(8) > 0 {
		o.Base = n - rng.Intn(min(n, 3))
		if rng.Intn(4) == 0 {
			o.Base = 1 + rng.Intn(n)
		}
	}
	ofKind := func(f func(i int) bool) int {
		p := []int{}
		for i := range c.errs {
			if f(i) {
				p = append(p, i+1)
			}
		}
		if len(p) == 0 {
			return 0
		}
		return zz.Pick(rng, p)
	}
	t := zz.Pick(rng, ts)
	switch how {
	case "plain", "boxable":
		o.Base = 0
		return o
	case "val":
		o.Base = 0
		o.Cls = 1 + rng.Intn(2)
		o.ID = 100 + o.Cls
		return o
	case "wrap":
		if o.Base == 0 {
			o.How = "plain"
		}
		return o
	case "join":
		if n == 0 {
			o.How = "plain"
			return o
		}
		for i := 1 + rng.Intn(3); i > 0; i-- {
			o.Subs = append(o.Subs, 1+rng.Intn(n))
		}
		o.Base = 0
		return o
	case "boxewd":
		if o.Base = ofKind(func(i int) bool { return c.kind[i] == "ewd" && c.cls[i] == 0 }); o.Base == 0 {
			o.How = "boxable"
			return o
		}
		o.Cls = 1
		if c.st[o.Base-1] != "" && rng.Intn(2) == 0 {
			o.Cls = 2
		}
		return o
	case "inc":
		if o.Base = ofKind(func(i int) bool { return c.kind[i] == "boxable" || c.cls[i] > 0 || c.kind[i] == "inc" }); o.Base == 0 {
			o.How = "boxable"
			return o
		}
		if c.kind[o.Base-1] == "ewd" { // boxed error with data
			o.Cls = rng.Intn(c.cls[o.Base-1] + 1)
		}
		return o
	case "eof":
		return o
	case "eof2":
		if rng.Intn(12) == 0 {
			o.Base, o.T = 0, t.name
			return o
		}
		if o.Base = ofKind(func(i int) bool { return (c.kind[i] == "ewd") && c.st[i] != "" }); o.Base == 0 {
			o.How = "plain"
			return o
		}
		o.T = c.st[o.Base-1]
		return o
	}
	if !strings.Contains(how, "any") {
		o.T = t.name
	} else {
		t = nil
	}
	switch how {
	case "struct", "map", "params", "any_map", "any_params":
		o.Txt = zz.Pick(rng, []string{"", "plain", "plain"})
		if rng.Intn(4) == 0 {
			o.Txt = "par"
			o.param = zz.Pick(rng, []string{"%{A}", "%v{B}$v{A}", "%{!m}", "${!m}", "%!A{x%{A}}", "%!m>0{y${C}}", "${C}%+v{D}", "%w", "$w"})
			if o.Base == 0 {
				o.param = strings.NewReplacer("%w", "", "$w", "").Replace(o.param)
			}
		}
		if o.Base == 0 && o.Txt == "" && rng.Intn(6) > 0 {
			o.Txt = "plain"
		}
	}
	switch how {
	case "struct", "add_struct":
		o.Nmode = zz.Pick(rng, []int{0, 1, 1, 1, 1, 1, 1, 2})
		o.Sv = rndSv(rng, t)
		o.Miss = "ensure"
	case "del", "del_any":
		o.Name = zz.Pick(rng, moreNames)
	case "as":
	default:
		o.Ps = rndPs(rng, t, 2)
		if strings.HasSuffix(how, "params") {
			o.Odd = rng.Intn(40) == 0
			o.Badkey = rng.Intn(40) == 0
		}
		if strings.Contains(how, "any") {
			o.Miss = "ensure"
		}
	}
	if strings.HasSuffix(how, "map") { // no duplicate names
		seen := map[string]bool{}
		ps := [][2]any{}
		for _, p := range o.Ps {
			if !seen[p[0].(string)] {
				seen[p[0].(string)] = true
				ps = append(ps, p)
			}
		}
		o.Ps = ps
	}
	return o
}

func (c *dchain) sentinels() {
	for _, e := range []error{io.EOF, io.ErrUnexpectedEOF} {
		n := len(c.errs) + 1
		c.errs = append(c.errs, e)
		c.st, c.kind, c.cls = append(c.st, ""), append(c.kind, "plain"), append(c.cls, 0)
		c.ep.Log("mk", M{"how": "plain", "T": "T0", "st": "", "base": 0, "txt": "", "id": n, "mode": "replace", "nmode": 0, "miss": "ensure", "ps": []any{}, "sv": []any{}, "name": "",
			"odd": false, "badkey": false, "subs": []int{}, "cls": -1, "eof": 0, "unexp": 0, "unw": 0, "same": 0, "out": "ok", "obs": c.obs()})
	}
	c.eof, c.unexp = 1, 2
}

// history generated from the specification
func replayData(c *dchain, raw json.RawMessage) {
	var ops []struct {
		How, T, St, Txt, Mode, Miss, Name string
		Base, Id, Nmode, Cls              int
		Ps                                [][]any
		Sv, Subs                          []int
		Odd, Badkey                       bool
	}
	if err := json.Unmarshal(raw, &ops); err != nil {
		panic(err)
	}
	for _, o := range ops {
		x := mkop{How: o.How, T: o.St, Base: o.Base, Txt: o.Txt, ID: o.Id, Mode: o.Mode, Nmode: o.Nmode, Miss: o.Miss, Sv: o.Sv, Name: o.Name, Odd: o.Odd, Badkey: o.Badkey, Subs: o.Subs, Cls: o.Cls}
		for _, p := range o.Ps {
			x.Ps = append(x.Ps, [2]any{p[0], int(p[1].(float64))})
		}
		if x.Base > len(c.errs) {
			return
		}
		c.mk(x)
	}
	for k := 0; k <= len(c.errs); k++ {
		c.ask(k, typByName([]string{"T0", "SA", "SAB"}[k%3]))
	}
}

var weights = map[string]map[string]int{
	"W04": {"plain": 2, "wrap": 4, "struct": 4, "add_struct": 3, "map": 4, "params": 4, "add_map": 4, "add_params": 4, "any_map": 2, "any_params": 2, "add_any_map": 3, "add_any_params": 3, "del": 4, "del_any": 4, "as": 4, "eof": 2, "eof2": 2, "inc": 1, "boxewd": 1, "join": 1},
	"W05": {"plain": 1, "struct": 10, "add_struct": 4, "map": 5, "params": 4, "add_map": 3, "add_params": 2, "del": 3, "as": 6},
	"W06": {"plain": 2, "wrap": 2, "struct": 3, "add_struct": 3, "map": 4, "params": 4, "add_map": 4, "add_params": 4, "any_map": 4, "any_params": 3, "add_any_map": 3, "add_any_params": 3, "del": 4, "del_any": 4, "as": 4},
	"W07": {"plain": 4, "val": 3, "boxable": 3, "wrap": 5, "join": 4, "boxewd": 3, "inc": 5, "struct": 2, "add_struct": 1, "map": 2, "params": 2, "add_map": 2, "add_params": 2, "any_map": 2, "any_params": 2, "add_any_map": 2, "add_any_params": 2, "del": 3, "del_any": 3, "as": 5, "eof": 2},
	"W08": {"plain": 1, "val": 1, "wrap": 5, "join": 3, "boxewd": 1, "inc": 1, "struct": 3, "add_struct": 2, "map": 3, "params": 2, "any_map": 2, "any_params": 2, "add_any_map": 2, "add_any_params": 2, "del": 2, "del_any": 2, "as": 3, "eof": 8, "eof2": 8},
}

func dataSuite(id string) func(r *zz.Run) {
	return func(r *zz.Run) {
		if r.In != "" {
			for i, raw := range zz.ReadBehaviours(r.In) {
				raw := raw
				r.Episode(fmt.Sprintf("gen%d", i), func(ep *zz.Ep) { replayData(newData(ep), raw) })
			}
		}
		if id == "W06" { // first, while no struct type was looked up yet
			r.Repeat("conc", r.Scale(60, 800), func(ep *zz.Ep, i int) { concData(ep, i) })
		}
		n := r.Scale(500, 6000)
		r.Repeat("rand", n, func(ep *zz.Ep, i int) {
			rng := ep.Rng
			c := newData(ep)
			ts := rndTypes(rng, 1+rng.Intn(3))
			if rng.Intn(3) > 0 || id == "W07" || id == "W08" {
				c.sentinels()
			}
			steps := 4 + rng.Intn(7)
			for s := 0; s < steps; s++ {
				o := c.rndOp(rng, ts, weights[id])
				o.keep = id == "W06"
				if id == "W08" && o.Base > 0 && rng.Intn(3) == 0 {
					switch o.How {
					case "wrap", "struct", "map", "params", "any_map", "any_params":
						o.Base = 1 + rng.Intn(6)/5
					}
				}
				c.mk(o)
				if id == "W06" && rng.Intn(3) == 0 {
					c.mutate()
				}
				if rng.Intn(3) == 0 {
					c.ask(rng.Intn(len(c.errs)+1), zz.Pick(rng, ts))
				}
			}
			if id == "W05" {
				for _, t := range ts {
					c.shape(rng, t)
				}
			}
			for k := 0; k <= len(c.errs); k++ {
				if rng.Intn(2) == 0 || id == "W05" {
					c.ask(k, zz.Pick(rng, ts))
				}
			}
		})
		if id == "W05" {
			for i, t := range dataTypes {
				t := t
				r.Repeat(fmt.Sprintf("type%d", i), r.Scale(4, 40), func(ep *zz.Ep, _ int) {
					c := newData(ep)
					c.shape(ep.Rng, t)
					c.mk(mkop{How: "struct", T: t.name, Txt: "plain", ID: 1, Sv: rndSv(ep.Rng, t), Mode: "replace", Miss: "ensure"})
					c.mk(mkop{How: "params", T: t.name, Txt: "plain", ID: 2, Ps: rndPs(ep.Rng, t, 0), Mode: "replace", Miss: zz.Pick(ep.Rng, []string{"zero", "ensure"})})
					c.mk(mkop{How: "any_params", Txt: "plain", ID: 3, Ps: rndPs(ep.Rng, t, 0), Mode: "replace", Miss: "ensure"})
					for k := 0; k <= len(c.errs); k++ {
						c.ask(k, t)
					}
					c.shape(ep.Rng, t)
				})
			}
		}
	}
}

// concData: several goroutines read the same errors and build on them
func concData(ep *zz.Ep, i int) {
	rng := ep.Rng
	c := newData(ep)
	ts := []*typ{}
	for j := 0; j < 6; j++ {
		ts = append(ts, dataTypes[(6*i+j)%len(dataTypes)])
	}
	for s := 0; s < 5; s++ {
		c.mk(c.rndOp(rng, []*typ{typByName("SAB"), typByName("SA")}, weights["W06"]))
	}
	type res struct {
		o   mkop
		e   error
		out string
		q   M
		t   *typ
	}
	const G = 6
	var all [G][]res
	var wg sync.WaitGroup
	start := make(chan struct{})
	n := len(c.errs)
	for g := 0; g < G; g++ {
		var ops []res
		for s := 0; s < 4; s++ {
			if rng.Intn(2) == 0 {
				o := c.rndOp(rng, ts, weights["W06"])
				o.ID = 200 + 10*g + s
				ops = append(ops, res{o: o})
			} else {
				ops = append(ops, res{t: ts[(g+s)%len(ts)], o: mkop{Base: rng.Intn(n + 1)}})
			}
		}
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := range ops {
				x := &ops[i]
				if x.t != nil {
					x.q = c.query(x.o.Base, x.t)
					_ = x.t.suitable()
				} else {
					x.e, x.out = c.do(x.o)
					if x.e != nil {
						_ = x.e.Error()
					}
				}
				for k := 1; k <= n; k++ {
					_ = c.errs[k-1].Error()
					if v, ok := c.errs[k-1].(ewd.ErrorWithData_any); ok {
						_ = v.ValidateError_Final()
						_ = v.ValidateSyntax()
					}
				}
			}
			all[g] = ops
		}()
	}
	close(start)
	wg.Wait()
	for g := 0; g < G; g++ {
		for _, x := range all[g] {
			if x.t != nil {
				c.use(x.t)
				ep.Log("ask", x.q)
			} else {
				c.record(x.o, x.e, x.out)
			}
		}
	}
}
