//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// call runs f and logs its outcome
func call(ep *zz.Ep, op string, ev M, f func() any) {
	ev["res"] = 0
	if _, ok := ev["kept"]; !ok {
		ev["kept"] = true
	}
	var res any
	ev["out"] = zz.Outcome(func() { res = f() })
	if ev["out"] == "ok" {
		ev["res"] = res
	}
	if k, ok := ev["kept"].(func() bool); ok {
		ev["kept"] = k()
	}
	ep.Log(op, ev)
}

func sl(x []int) M {
	v := x
	if v == nil {
		v = []int{}
	}
	return M{"nil": x == nil, "v": append([]int{}, v...)}
}

func nn(x []int) []int { return append([]int{}, x...) }

func same(a, b []int) bool { return reflect.DeepEqual(a, b) }

func normalizers(f string, nf int) []func(int) int {
	fun := func(x int) int {
		switch f {
		case "abs":
			if x < 0 {
				return -x
			}
			return x
		case "mod3":
			return ((x % 3) + 3) % 3
		case "const":
			return 0
		}
		return x
	}
	var out []func(int) int
	for i := 0; i < nf; i++ {
		out = append(out, fun)
	}
	return out
}

func listCalls(ep *zz.Ep, x, y []int) {
	cx, cy := append([]int(nil), x...), append([]int(nil), y...)
	if x != nil && cx == nil {
		cx = []int{}
	}
	if y != nil && cy == nil {
		cy = []int{}
	}
	kept := func() bool { return same(x, cx) && same(y, cy) }
	call(ep, "CompareSlices", M{"x": sl(x), "y": sl(y), "kept": kept}, func() any { return utils.CompareSlices(x, y) })
	call(ep, "AssertSliceEquals", M{"x": sl(x), "y": sl(y), "kept": kept}, func() any { utils.AssertSliceEquals(x, y...); return true })
	for _, f := range []string{"none", "abs", "mod3", "const"} {
		nf := 1
		if f == "none" {
			nf = 0
		}
		call(ep, "Concat", M{"f": f, "nf": nf, "x": nn(x), "y": nn(y), "kept": kept}, func() any {
			r := utils.ConcatenateListsWithoutDuplicates(x, y, normalizers(f, nf)...)
			out := nn(r)
			for i := range r { // the result is a new list
				r[i] = -999
			}
			for i := range r[:cap(r)] {
				r[:cap(r)][i] = -999
			}
			return out
		})
		for _, a := range []int{0, 1, -1, 2} {
			call(ep, "ElementInList", M{"f": f, "nf": nf, "a": a, "x": nn(x), "kept": kept}, func() any {
				return utils.ElementInList(a, x, normalizers(f, nf)...)
			})
		}
	}
	call(ep, "Concat", M{"f": "abs", "nf": 2, "x": nn(x), "y": nn(y)}, func() any {
		return utils.ConcatenateListsWithoutDuplicates(x, y, normalizers("abs", 2)...)
	})
	call(ep, "ElementInList", M{"f": "abs", "nf": 2, "a": 1, "x": nn(x)}, func() any { return utils.ElementInList(1, x, normalizers("abs", 2)...) })
}

func enumLists(alpha []int, max int) [][]int {
	out := [][]int{nil, {}}
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			out = append(out, append([]int{}, p...))
		}
		if len(p) < max {
			for _, a := range alpha {
				rec(append(append([]int{}, p...), a))
			}
		}
	}
	rec(nil)
	return out
}

// ---- maps

type anyVal struct{ kind, n int }

func (a anyVal) val() any {
	switch a.kind {
	case 0:
		return a.n
	case 1:
		return int8(a.n)
	case 2:
		return fmt.Sprint(a.n)
	case 3:
		return nil
	}
	return [2]int{a.n, 0}
}
func (a anyVal) name() string {
	if a.kind == 3 {
		return "nil"
	}
	return fmt.Sprintf("%d:%d", a.kind, a.n)
}

func mapOf[V any](m map[string]V, nm func(V) any) M {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	v := []any{}
	for _, k := range ks {
		v = append(v, []any{k, nm(m[k])})
	}
	return M{"nil": m == nil, "v": v}
}

func mapCalls(ep *zz.Ep, x, y map[string]anyVal) {
	conv := func(m map[string]anyVal) map[string]any {
		if m == nil {
			return nil
		}
		r := map[string]any{}
		for k, v := range m {
			r[k] = v.val()
		}
		return r
	}
	nums := func(m map[string]anyVal) map[string]int {
		if m == nil {
			return nil
		}
		r := map[string]int{}
		for k, v := range m {
			r[k] = v.n
		}
		return r
	}
	ax, ay, nx, ny := conv(x), conv(y), nums(x), nums(y)
	px, py := mapOf(x, func(v anyVal) any { return v.name() }), mapOf(y, func(v anyVal) any { return v.name() })
	call(ep, "CompareParamMaps", M{"x": px, "y": py, "kept": func() bool { return reflect.DeepEqual(ax, conv(x)) && reflect.DeepEqual(ay, conv(y)) }},
		func() any { return utils.CompareParamMaps(ax, ay) })
	qx, qy := mapOf(nx, func(v int) any { return v }), mapOf(ny, func(v int) any { return v })
	call(ep, "CompareMaps", M{"x": qx, "y": qy, "kept": func() bool { return reflect.DeepEqual(nx, nums(x)) && reflect.DeepEqual(ny, nums(y)) }},
		func() any { return utils.CompareMaps(nx, ny) })
}

func randMap(rng *rand.Rand, kinds int) map[string]anyVal {
	if rng.Intn(8) == 0 {
		return nil
	}
	m := map[string]anyVal{}
	for i := rng.Intn(4); i > 0; i-- {
		m[zz.Pick(rng, []string{"a", "b", "c", ""})] = anyVal{rng.Intn(kinds), rng.Intn(2)}
	}
	return m
}

// ---- struct types

type fieldDesc struct {
	name, kind string
	anon       bool
	sub        []fieldDesc
}

func (f fieldDesc) rec() M {
	return M{"name": f.name, "kind": f.kind, "anon": f.anon, "sub": recs(f.sub)}
}
func recs(fs []fieldDesc) []M {
	out := []M{}
	for _, f := range fs {
		out = append(out, f.rec())
	}
	return out
}
func structOf(fs []fieldDesc) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		var t reflect.Type
		switch f.kind {
		case "struct":
			t = structOf(f.sub)
		case "ptr":
			t = reflect.PointerTo(structOf(f.sub))
		case "ptrint":
			t = reflect.TypeOf((*int)(nil))
		case "slice":
			t = reflect.TypeOf([]int{})
		default:
			t = reflect.TypeOf(0)
		}
		sf = append(sf, reflect.StructField{Name: f.name, Type: t, Anonymous: f.anon})
	}
	return reflect.StructOf(sf)
}
func randFields(rng *rand.Rand, depth int) []fieldDesc {
	var out []fieldDesc
	n := rng.Intn(4)
	for i := 0; i < n; i++ {
		f := fieldDesc{name: string(rune('A'+i)) + string(rune('a'+rng.Intn(3))), kind: zz.Pick(rng, []string{"int", "struct", "ptr", "ptrint", "slice", "struct"})}
		f.anon = rng.Intn(3) > 0
		if f.kind == "struct" || f.kind == "ptr" {
			if depth == 0 {
				f.kind = "int"
			} else {
				f.sub = randFields(rng, depth-1)
			}
		}
		if f.kind != "struct" && f.kind != "ptr" {
			f.anon = f.anon && rng.Intn(3) == 0 && f.kind == "int"
		}
		out = append(out, f)
	}
	return out
}

func fieldsRes(t reflect.Type) any {
	fs, ptr := utils.AllFields(t)
	out := []M{}
	for _, f := range fs {
		out = append(out, M{"name": f.Name, "index": nn(f.Index), "anon": f.Anonymous})
	}
	return M{"fields": out, "ptr": ptr}
}

type Inner struct{ A, B int }
type Cyclic struct {
	X int
	*Cyclic
	Inner
}
type Deep struct {
	Cyclic
	P *Inner
	Inner2
	Y Inner
}
type Inner2 struct {
	Inner
	MyInt
	c int
	error
}
type MyInt int

func fd(name, kind string, anon bool, sub ...fieldDesc) fieldDesc { return fieldDesc{name, kind, anon, sub} }

var (
	dInner  = []fieldDesc{fd("A", "int", false), fd("B", "int", false)}
	dCyclic = []fieldDesc{fd("X", "int", false), fd("Cyclic", "ptr", true), fd("Inner", "struct", true, dInner...)}
	dInner2 = []fieldDesc{fd("Inner", "struct", true, dInner...), fd("MyInt", "int", true), fd("c", "int", false), fd("error", "iface", true)}
	dDeep   = []fieldDesc{fd("Cyclic", "struct", true, dCyclic...), fd("P", "ptr", false), fd("Inner2", "struct", true, dInner2...), fd("Y", "struct", false, dInner...)}
)

// ---- type names

type typeDesc struct {
	k, name string
	len     int
	of      []typeDesc
	t       reflect.Type
}

func (t typeDesc) rec() M {
	of := []M{}
	for _, x := range t.of {
		of = append(of, x.rec())
	}
	return M{"k": t.k, "name": t.name, "len": t.len, "of": of}
}
func randType(rng *rand.Rand, depth int) typeDesc {
	base := []typeDesc{
		{k: "int", name: "int", t: reflect.TypeOf(0)}, {k: "struct", name: "Inner", t: reflect.TypeOf(Inner{})}, {k: "int", name: "MyInt", t: reflect.TypeOf(MyInt(0))},
		{k: "interface", name: "error", t: reflect.TypeOf((*error)(nil)).Elem()}, {k: "interface", name: "", t: reflect.TypeOf((*any)(nil)).Elem()},
		{k: "struct", name: "", t: reflect.TypeOf(struct{ A int }{})}, {k: "func", name: "", t: reflect.TypeOf(func() {})}, {k: "func", name: "NamedFn", t: reflect.TypeOf(NamedFn(nil))},
		{k: "slice", name: "NamedSl", t: reflect.TypeOf(NamedSl(nil))}, {k: "uint8", name: "uint8", t: reflect.TypeOf(byte(0))}, {k: "string", name: "string", t: reflect.TypeOf("")},
	}
	if depth == 0 || rng.Intn(4) == 0 {
		return zz.Pick(rng, base)
	}
	in := randType(rng, depth-1)
	switch rng.Intn(5) {
	case 0:
		return typeDesc{k: "ptr", of: []typeDesc{in}, t: reflect.PointerTo(in.t)}
	case 1:
		n := rng.Intn(12)
		return typeDesc{k: "array", len: n, of: []typeDesc{in}, t: reflect.ArrayOf(n, in.t)}
	case 2:
		return typeDesc{k: "slice", of: []typeDesc{in}, t: reflect.SliceOf(in.t)}
	case 3:
		return typeDesc{k: "map", of: []typeDesc{in}, t: reflect.MapOf(reflect.TypeOf(0), in.t)}
	}
	return typeDesc{k: "chan", of: []typeDesc{in}, t: reflect.ChanOf(reflect.BothDir, in.t)}
}

type NamedFn func()
type NamedSl []int

func generic[T any](ep *zz.Ep, d typeDesc) {
	call(ep, "NameOfType", M{"x": d.rec()}, func() any { return utils.NameOfType[T]() })
	call(ep, "TypeName", M{"x": d.rec()}, func() any { return utils.GetReflectName(utils.TypeOfType[T]()) })
	call(ep, "TypeNilable", M{"x": d.rec()}, func() any { return utils.IsTypeNilable[T]() })
}

// ---- methods

type E struct{ n int }

func (e *E) Error() string { return "E" }

type S struct{ n int }

func (s *S) String() string { return "S" }

type Meth struct{ v int }

func (m Meth) Val() int                          { return m.v }
func (m *Meth) Set(x int)                        { m.v = x }
func (m Meth) Mix(a int, b any, c error) (string, error) { return fmt.Sprint(a, b, c == nil), nil }
func (m Meth) Fail() *E                          { return nil }
func (m *Meth) Any() any                         { return m.v }
func (m Meth) Vari(a ...int) int                 { return len(a) }
func (m Meth) Str(s fmt.Stringer) *S             { return nil }

func typeByName(n string) reflect.Type {
	switch n {
	case "int":
		return reflect.TypeOf(0)
	case "string":
		return reflect.TypeOf("")
	case "any":
		return reflect.TypeOf((*any)(nil)).Elem()
	case "error":
		return reflect.TypeOf((*error)(nil)).Elem()
	case "Stringer":
		return reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
	case "*E":
		return reflect.TypeOf((*E)(nil))
	case "*S":
		return reflect.TypeOf((*S)(nil))
	}
	panic("no such type")
}

var methVal = []M{
	{"name": "Val", "ins": []string{}, "outs": []string{"int"}}, {"name": "Mix", "ins": []string{"int", "any", "error"}, "outs": []string{"string", "error"}},
	{"name": "Fail", "ins": []string{}, "outs": []string{"*E"}}, {"name": "Str", "ins": []string{"Stringer"}, "outs": []string{"*S"}},
}
var methPtr = append(append([]M{}, methVal...), M{"name": "Set", "ins": []string{"int"}, "outs": []string{}}, M{"name": "Any", "ins": []string{}, "outs": []string{"any"}})

// ---- panics

type strer struct{ s string }

func (s strer) String() string { return s.s }

func suiteI05(r *zz.Run) {
	lists := enumLists([]int{-1, 0, 1, 3}, 2)
	for i, x := range lists {
		r.Episode(fmt.Sprintf("lists-%d", i), func(ep *zz.Ep) {
			for _, y := range lists {
				listCalls(ep, x, y)
			}
		})
	}
	r.Repeat("lists", r.Scale(30, 600), func(ep *zz.Ep, i int) {
		mk := func() []int {
			n := ep.Rng.Intn(12)
			out := make([]int, n, n+ep.Rng.Intn(3))
			for k := range out {
				out[k] = ep.Rng.Intn(9) - 4
			}
			return out
		}
		for j := 0; j < 5; j++ {
			x := mk()
			y := mk()
			if ep.Rng.Intn(2) == 0 { // nearly equal
				y = append([]int{}, x...)
				if len(y) > 0 && ep.Rng.Intn(2) == 0 {
					y[ep.Rng.Intn(len(y))]++
				}
			}
			if ep.Rng.Intn(4) == 0 && len(x) > 2 { // overlapping
				y = x[1:]
			}
			listCalls(ep, x, y)
		}
	})
	r.Repeat("maps", r.Scale(60, 600), func(ep *zz.Ep, i int) {
		for j := 0; j < 20; j++ {
			x := randMap(ep.Rng, 5)
			y := randMap(ep.Rng, 5)
			if ep.Rng.Intn(2) == 0 && x != nil {
				y = map[string]anyVal{}
				for k, v := range x {
					y[k] = v
				}
				switch ep.Rng.Intn(4) {
				case 0:
					y["a"] = anyVal{ep.Rng.Intn(5), ep.Rng.Intn(2)}
				case 1:
					delete(y, "a")
				case 2:
					delete(y, "b")
					y["z"] = anyVal{3, 0}
				}
			}
			mapCalls(ep, x, y)
		}
	})
	r.Repeat("alias", r.Scale(40, 400), func(ep *zz.Ep, i int) {
		back := [][]int{make([]int, 6), make([]int, 6), make([]int, 1)}
		mk := func() ([]int, M) {
			switch ep.Rng.Intn(12) {
			case 0:
				return nil, M{"nil": true, "arr": 0, "off": 0, "cap": 0}
			case 1:
				return []int{}, M{"nil": false, "arr": -1, "off": 0, "cap": 0}
			}
			a := ep.Rng.Intn(len(back))
			n := len(back[a])
			off := ep.Rng.Intn(n + 1)
			c := n - off
			if ep.Rng.Intn(4) == 0 {
				c = ep.Rng.Intn(c + 1)
			}
			l := ep.Rng.Intn(c + 1)
			return back[a][off : off+l : off+c], M{"nil": false, "arr": a, "off": off, "cap": c}
		}
		for j := 0; j < 25; j++ {
			x, dx := mk()
			y, dy := mk()
			call(ep, "Alias", M{"x": dx, "y": dy}, func() any { return testutils.CheckSliceAlias(x, y) })
		}
	})
	r.Repeat("words", r.Scale(60, 600), func(ep *zz.Ep, i int) {
		for j := 0; j < 10; j++ {
			b := zz.RandLimbs(ep.Rng, 4)
			var w [4]uint64
			for k := 0; k < 4; k++ {
				w[k] = new(big.Int).Rsh(b, uint(64*k)).Uint64()
			}
			hexw := func(w [4]uint64) []string {
				return []string{zz.HexU64(w[0]), zz.HexU64(w[1]), zz.HexU64(w[2]), zz.HexU64(w[3])}
			}
			w0 := w
			call(ep, "FromWords", M{"x": hexw(w), "kept": func() bool { return w == w0 }}, func() any { return zz.Hex(utils.UIntarrayToInt(&w)) })
			x := zz.RandLimbs(ep.Rng, 1+ep.Rng.Intn(6))
			switch ep.Rng.Intn(8) {
			case 0:
				x.Neg(x)
			case 1:
				x.Lsh(big.NewInt(1), uint(ep.Rng.Intn(260)))
			case 2:
				x.Sub(new(big.Int).Lsh(big.NewInt(1), uint(250+ep.Rng.Intn(10))), big.NewInt(int64(ep.Rng.Intn(3))))
			}
			x0 := new(big.Int).Set(x)
			call(ep, "ToWords", M{"x": zz.Hex(x), "kept": func() bool { return x.Cmp(x0) == 0 }}, func() any { return hexw(utils.BigIntToUIntArray(x)) })
			y := new(big.Int).Set(x)
			if ep.Rng.Intn(2) == 0 {
				y.Xor(y, new(big.Int).Lsh(big.NewInt(1), uint(ep.Rng.Intn(260))))
			}
			call(ep, "SameInt", M{"x": zz.Hex(x), "y": zz.Hex(y)}, func() any { return utils.IsEqualAsBigInt(bigC{x}, bigC{y}) })
		}
	})
	ioData := func(ep *zz.Ep, n, want int, buf []byte) {
		call(ep, "ReadData", M{"n": n, "want": want, "buf": zz.Codes(buf)}, func() any {
			d := errorconsts.NewIntermediateReadErrorData(n, want, buf)
			return M{"partial": d.PartialRead, "n": d.BytesRead, "buf": zz.Codes(d.ActuallyRead), "io": d.IoError}
		})
		call(ep, "WriteData", M{"n": n, "want": want}, func() any {
			d := errorconsts.NewIntermediateWriteErrorData(n, want)
			return M{"partial": d.PartialWrite, "n": d.BytesWritten, "io": d.IoError}
		})
		call(ep, "NoAttempt", M{"n": n}, func() any {
			x, y := errorconsts.NoReadAttempt, errorconsts.NoWriteAttempt
			return x.PartialRead || x.IoError || x.BytesRead != 0 || x.ActuallyRead != nil || y.PartialWrite || y.IoError || y.BytesWritten != 0
		})
	}
	r.Episode("iodata", func(ep *zz.Ep) {
		for n := 0; n < 6; n++ {
			for want := n; want < 6; want++ {
				buf := make([]byte, n)
				ep.Rng.Read(buf)
				ioData(ep, n, want, buf)
			}
		}
		for i := 0; i < 20; i++ {
			want := ep.Rng.Intn(1 << 30)
			ioData(ep, ep.Rng.Intn(want+1), want, nil)
		}
	})
	r.Episode("intstrings", func(ep *zz.Ep) {
		for _, s := range []string{"", "0", "-0", "+0", "-", "+", "00", "017", "018", "0x", "0x1", "0X1F", "0xg", "0b", "0b101", "0B2", "0o17", "0O8", "0_1", "0__1", "_1", "1_", "1__0", "1_0",
			"0x_1", "0x1_", "-0x_ff", "+12", "--1", " 1", "1 ", "1.0", "1e3", "0b_1", "0_x1", "x1", "abc", "0xABCDEFabcdef_0123", strings.Repeat("9", 90), "-" + strings.Repeat("9", 90),
			common.BaseFieldSize_string, common.GroupOrder_string, common.CurveOrder_string, "0x" + strings.Repeat("f", 70), "08", "09", "0_8", "0o", "0o_7", "1x", "0x1p4", "\x00", "1\n"} {
			call(ep, "IntString", M{"x": zz.Codes([]byte(s))}, func() any { return zz.Hex(utils.InitIntFromString(s)) })
		}
	})
	r.Repeat("intstring", r.Scale(40, 800), func(ep *zz.Ep, i int) {
		for j := 0; j < 20; j++ {
			n := ep.Rng.Intn(7)
			var b []byte
			if ep.Rng.Intn(2) == 0 {
				b = append(b, "-+"[ep.Rng.Intn(2)])
			}
			if ep.Rng.Intn(2) == 0 {
				b = append(b, zz.Pick(ep.Rng, []string{"0x", "0b", "0o", "0", "0X", "0B", "0O"})...)
			}
			for k := 0; k < n; k++ {
				b = append(b, "01789afF_x"[ep.Rng.Intn(10-ep.Rng.Intn(8))])
			}
			s := string(b)
			call(ep, "IntString", M{"x": zz.Codes(b)}, func() any { return zz.Hex(utils.InitIntFromString(s)) })
		}
	})
	r.Episode("fields", func(ep *zz.Ep) {
		call(ep, "AllFields", M{"kind": "struct", "x": recs(dInner)}, func() any { return fieldsRes(reflect.TypeOf(Inner{})) })
		call(ep, "AllFields", M{"kind": "struct", "x": recs(dCyclic)}, func() any { return fieldsRes(reflect.TypeOf(Cyclic{})) })
		call(ep, "AllFields", M{"kind": "struct", "x": recs(dInner2)}, func() any { return fieldsRes(reflect.TypeOf(Inner2{})) })
		call(ep, "AllFields", M{"kind": "struct", "x": recs(dDeep)}, func() any { return fieldsRes(reflect.TypeOf(Deep{})) })
		call(ep, "AllFields", M{"kind": "struct", "x": recs(nil)}, func() any { return fieldsRes(reflect.TypeOf(struct{}{})) })
		for _, v := range []any{1, "", []Inner{}, &Inner{}, map[int]int{}} {
			call(ep, "AllFields", M{"kind": "other", "x": recs(nil)}, func() any { return fieldsRes(reflect.TypeOf(v)) })
		}
	})
	r.Repeat("fields", r.Scale(150, 2000), func(ep *zz.Ep, i int) {
		fs := randFields(ep.Rng, 3)
		t := structOf(fs)
		call(ep, "AllFields", M{"kind": "struct", "x": recs(fs)}, func() any { return fieldsRes(t) })
		call(ep, "AllFields", M{"kind": "struct", "x": recs(fs)}, func() any { return fieldsRes(t) })
	})
	r.Repeat("types", r.Scale(60, 600), func(ep *zz.Ep, i int) {
		for j := 0; j < 10; j++ {
			d := randType(ep.Rng, 3)
			call(ep, "TypeName", M{"x": d.rec()}, func() any { return utils.GetReflectName(d.t) })
			call(ep, "Nilable", M{"x": d.rec()}, func() any { return utils.IsNilable(d.t) })
		}
	})
	r.Episode("generictypes", func(ep *zz.Ep) {
		in := typeDesc{k: "int", name: "int"}
		er := typeDesc{k: "interface", name: "error"}
		generic[int](ep, in)
		generic[error](ep, er)
		generic[any](ep, typeDesc{k: "interface"})
		generic[*error](ep, typeDesc{k: "ptr", of: []typeDesc{er}})
		generic[[]any](ep, typeDesc{k: "slice", of: []typeDesc{{k: "interface"}}})
		generic[[3]*int](ep, typeDesc{k: "array", len: 3, of: []typeDesc{{k: "ptr", of: []typeDesc{in}}}})
		generic[Inner](ep, typeDesc{k: "struct", name: "Inner"})
		generic[map[int]int](ep, typeDesc{k: "map"})
		generic[func()](ep, typeDesc{k: "func"})
		generic[chan int](ep, typeDesc{k: "chan"})
		generic[NamedFn](ep, typeDesc{k: "func", name: "NamedFn"})
		generic[NamedSl](ep, typeDesc{k: "slice", name: "NamedSl"})
		generic[bool](ep, typeDesc{k: "bool", name: "bool"})
		generic[[2]error](ep, typeDesc{k: "array", len: 2, of: []typeDesc{er}})
	})
	names := []string{"int", "string", "any", "error", "Stringer", "*E", "*S"}
	r.Repeat("methods", r.Scale(60, 600), func(ep *zz.Ep, i int) {
		for j := 0; j < 12; j++ {
			ms, t := methVal, reflect.TypeOf(Meth{})
			if ep.Rng.Intn(2) == 0 {
				ms, t = methPtr, reflect.TypeOf(&Meth{})
			}
			name := zz.Pick(ep.Rng, []string{"Val", "Set", "Mix", "Fail", "Any", "Str", "Nope", "val"})
			var ins, outs []string
			for _, m := range methPtr { // start from the true signature
				if m["name"] == name {
					ins = append(ins, m["ins"].([]string)...)
					outs = append(outs, m["outs"].([]string)...)
				}
			}
			for k := range ins {
				if ep.Rng.Intn(3) == 0 {
					ins[k] = zz.Pick(ep.Rng, names)
				}
			}
			for k := range outs {
				if ep.Rng.Intn(2) == 0 {
					outs[k] = zz.Pick(ep.Rng, names)
				}
			}
			if ep.Rng.Intn(6) == 0 {
				ins = append(ins, "int")
			}
			if ep.Rng.Intn(6) == 0 {
				outs = append(outs, "any")
			}
			if ep.Rng.Intn(6) == 0 && len(ins) > 0 {
				ins = ins[:len(ins)-1]
			}
			var ti, to []reflect.Type
			for _, n := range ins {
				ti = append(ti, typeByName(n))
			}
			for _, n := range outs {
				to = append(to, typeByName(n))
			}
			call(ep, "Method", M{"x": ms, "name": name, "ins": append([]string{}, ins...), "outs": append([]string{}, outs...)}, func() any {
				good, why := utils.DoesMethodExist(t, name, ti, to)
				if good != (why == "") {
					return "reason does not fit"
				}
				return good
			})
		}
	})
	r.Episode("assert", func(ep *zz.Ep) {
		for _, c := range []bool{true, false} {
			for nf := 0; nf <= 3; nf++ {
				given := errors.New("given")
				args := []any{given, 1, 2}[:nf]
				ev := M{"a": c, "nf": nf, "kept": true}
				p, v := zz.Try(func() { testutils.Assert(c, args...) })
				ev["out"], ev["res"] = "ok", "none"
				if p {
					ev["out"] = "panic"
					switch {
					case v == any(given):
						ev["res"] = "given"
					case nf > 1:
						ev["res"] = "usage"
					default:
						ev["res"] = "default"
					}
				}
				ep.Log("Assert", ev)
			}
		}
	})
	r.Episode("checkpanic", func(ep *zz.Ep) {
		for _, kind := range []string{"none", "string", "error", "stringer", "int", "errptr"} {
			for _, refl := range []bool{false, true} {
				for nargs := 0; nargs <= 2; nargs++ {
					for _, two := range []bool{false, true} {
						for _, variadic := range []bool{false, true} {
							text := "boom"
							if refl {
								text = "reflect: boom"
							}
							var v any
							switch kind {
							case "string":
								v = text
							case "error":
								v = errors.New(text)
							case "stringer":
								v = strer{text}
							case "int":
								v = 7
							case "errptr":
								v = [1]int{3}
							}
							seen := []string{}
							do := func() {
								if v != nil {
									panic(v)
								}
							}
							note := func(x any) {
								if x == nil {
									seen = append(seen, "nil")
								} else {
									seen = append(seen, fmt.Sprint(x))
								}
							}
							var fun any
							args := []any{}
							want := []string{}
							for k := 0; k < nargs; k++ {
								args = append(args, fmt.Sprint(k))
								want = append(want, fmt.Sprint(k))
							}
							switch {
							case variadic:
								fun = func(a ...any) {
									for _, x := range a {
										note(x)
									}
									do()
								}
							case nargs == 0:
								fun = do
							case nargs == 1:
								fun = func(a any) { note(a); do() }
								if kind == "int" || kind == "none" {
									args[0], want[0] = nil, "nil"
								}
							case nargs == 2:
								fun = func(a any, b string) string { note(a); note(b); do(); return "" }
							}
							call(ep, "CheckPanic", M{"misuse": false, "kind": kind, "reflect": refl, "args": want}, func() any {
								var did bool
								var val any
								if two {
									did, val = testutils.CheckPanic2(fun, args...)
								} else {
									did = testutils.CheckPanic(fun, args...)
									val = v
								}
								got := kind
								if val != v {
									got = "other"
								}
								return M{"did": did, "val": got, "seen": append([]string{}, seen...)}
							})
						}
					}
				}
			}
		}
		mis := func(f any, args ...any) {
			call(ep, "CheckPanic", M{"misuse": true, "kind": "none", "reflect": false, "args": []string{}}, func() any { testutils.CheckPanic(f, args...); return 0 })
			call(ep, "CheckPanic", M{"misuse": true, "kind": "none", "reflect": false, "args": []string{}}, func() any { testutils.CheckPanic2(f, args...); return 0 })
		}
		mis(3)
		mis("x", 1)
		mis(func() {}, 1)
		mis(func(int) {})
		mis(func(int) {}, nil)
		mis(func(string, [2]int) {}, "", nil)
		mis(func(...any) {}, nil)
		mis(func(int) {}, "wrong type")
	})
	r.Episode("fixnil", func(ep *zz.Ep) {
		run := func(fun any, params []string, args []any) {
			names := []string{}
			var in []reflect.Value
			for _, a := range args {
				if a == nil {
					names = append(names, "nil")
				} else {
					names = append(names, "set")
				}
				in = append(in, reflect.ValueOf(a))
			}
			call(ep, "FixNil", M{"notfun": reflect.TypeOf(fun).Kind() != reflect.Func, "params": params, "args": names}, func() any {
				out := common.CallFunction_FixNil(reflect.ValueOf(fun), in)
				return out[0].Interface()
			})
		}
		nm := func(xs ...any) []string {
			out := []string{}
			for _, x := range xs {
				s := "set"
				if x == nil || (utils.IsNilable(reflect.TypeOf(x)) && reflect.ValueOf(x).IsNil()) {
					s = "nil"
				}
				out = append(out, s)
			}
			return out
		}
		f1 := func(a any, b *int, c []int, d map[int]int, e func(), f chan int, g error) []string { return nm(a, b, c, d, e, f, g) }
		full := []any{1, new(int), []int{}, map[int]int{}, func() {}, make(chan int), errors.New("x")}
		ps := []string{"interface", "ptr", "slice", "map", "func", "chan", "interface"}
		for mask := 0; mask < 128; mask++ {
			args := append([]any{}, full...)
			for k := range args {
				if mask&(1<<k) != 0 {
					args[k] = nil
				}
			}
			run(f1, ps, args)
		}
		f2 := func(a int, b string, c [2]int, d Inner) []string { return nm(a, b, c, d) }
		full2 := []any{1, "", [2]int{}, Inner{}}
		for k := -1; k < 4; k++ {
			args := append([]any{}, full2...)
			if k >= 0 {
				args[k] = nil
			}
			run(f2, []string{"int", "string", "array", "struct"}, args)
		}
		run(func() []string { return []string{} }, []string{}, nil)
		run(17, []string{}, nil)
		run("f", []string{"int"}, []any{nil})
	})
	r.Episode("misc", func(ep *zz.Ep) {
		m := &Meth{5}
		cm := func(want []string, missing, variadic bool, recv any, name string, args ...any) {
			call(ep, "CallMethod", M{"x": append([]string{}, want...), "missing": missing, "variadic": variadic}, func() any {
				out := []string{}
				for _, o := range testutils.CallMethodByName(recv, name, args...) {
					out = append(out, fmt.Sprint(o))
				}
				return out
			})
		}
		cm([]string{"5"}, false, false, m, "Val")
		cm([]string{}, false, false, m, "Set", 9)
		cm([]string{"9"}, false, false, *m, "Val")
		cm([]string{"9"}, false, false, m, "Any")
		cm([]string{"3xfalse", "<nil>"}, false, false, m, "Mix", 3, "x", errors.New("q"))
		cm(nil, true, false, m, "Nope")
		cm(nil, true, false, *m, "Set", 3)
		cm(nil, true, false, Meth{}, "val")
		cm(nil, false, true, m, "Vari", 1)
		cl := func(missing bool, f func() (bool, bool)) {
			call(ep, "Clone", M{"missing": missing}, func() any { s, d := f(); return M{"same": s, "distinct": d} })
		}
		cl(false, func() (bool, bool) { x := &clExact{4}; y := common.Clone(x); return *x == *y, x != y })
		cl(false, func() (bool, bool) { x := &clAny{4}; y := common.Clone(x); return *x == *y, x != y })
		cl(false, func() (bool, bool) { x := &clIface{4}; y := common.Clone(x); return *x == *y, x != y })
		cl(true, func() (bool, bool) { common.Clone(&Inner{}); return true, true })
		cl(true, func() (bool, bool) { common.Clone(&clArg{}); return true, true })
		cl(true, func() (bool, bool) { common.Clone(&clTwo{}); return true, true })
		cl(true, func() (bool, bool) { common.Clone(&clWrong{}); return true, true })
		bind := func(want []string, f func(note func(...any))) {
			call(ep, "Bind", M{"x": want}, func() any {
				out := []string{}
				f(func(xs ...any) {
					for _, x := range xs {
						out = append(out, fmt.Sprint(x))
					}
				})
				return out
			})
		}
		bind([]string{"1", "a"}, func(note func(...any)) { utils.Bind2(func(a int, b string) { note(a, b) }, "a")(1) })
		bind([]string{"1", "a", "2"}, func(note func(...any)) { utils.Bind23(func(a int, b string, c int) { note(a, b, c) }, "a", 2)(1) })
		bind([]string{"1", "a", "2", "b"}, func(note func(...any)) {
			utils.Bind234(func(a int, b string, c int, d string) { note(a, b, c, d) }, "a", 2, "b")(1)
		})
		bind([]string{"1", "a", "2", "b", "3"}, func(note func(...any)) {
			utils.Bind2345(func(a int, b string, c int, d string, e int) { note(a, b, c, d, e) }, "a", 2, "b", 3)(1)
		})
		bind([]string{"1", "7", "2", "7"}, func(note func(...any)) { // reusable, bound values fixed when binding
			v := 7
			f := utils.Bind2(func(a int, b int) { note(a, b) }, v)
			v = 8
			f(1)
			f(2)
		})
		call(ep, "AddressOfCopy", M{"x": []int{4, 4, 9}}, func() any {
			x := 4
			p, q := utils.AddressOfCopy(x), utils.AddressOfCopy(x)
			x = 9
			a := *p
			*p = 3
			return []int{a, *q, x}
		})
		call(ep, "Identity", M{"x": []int{3, 1}}, func() any { return utils.Identity([]int{3, 1}) })
	})
}

type bigC struct{ x *big.Int }

func (b bigC) ToBigInt() *big.Int { return b.x }

type clExact struct{ v int }

func (c *clExact) Clone() *clExact { d := *c; return &d }

type clAny struct{ v int }

func (c *clAny) Clone() any { d := *c; return &d }

type clI interface{ Clone() clI }
type clIface struct{ v int }

func (c *clIface) Clone() clI { d := *c; return &d }

type clArg struct{}

func (c *clArg) Clone(int) *clArg { return c }

type clTwo struct{}

func (c *clTwo) Clone() (*clTwo, error) { return c, nil }

type clWrong struct{}

func (c *clWrong) Clone() int { return 0 }
