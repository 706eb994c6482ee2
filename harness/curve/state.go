//go:build go1.22

package main

import (
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"unsafe"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type M = zz.M
type FE = fe.FieldElement
type obj = cp.CurvePointPtrInterface

var trusted, untrusted = common.TrustedInput, common.UntrustedInput

func mkFE(v *big.Int, alt bool) FE {
	var x FE
	x.SetBigInt(mod(v))
	if alt {
		x.RerandomizeRepresentation(1)
	}
	return x
}
func hexFE(x FE) string { return zz.Hex(x.ToBigInt()) }

// point types the package does not know: they reach it through the interface only
type fxf struct{ *cp.Point_xtw_full }
type fxs struct{ *cp.Point_xtw_subgroup }
type faf struct{ *cp.Point_axtw_full }
type fas struct{ *cp.Point_axtw_subgroup }
type fef struct{ *cp.Point_efgh_full }
type fes struct{ *cp.Point_efgh_subgroup }

// the same with nothing but what the interfaces demand
type plainFin struct{ cp.CurvePointPtrInterface }
type plainInf struct {
	cp.CurvePointPtrInterface
	cp.CurvePointPtrInterfaceDistinguishInfinity
}

func (p plainFin) SetAffineTwoTorsion() {
	p.CurvePointPtrInterface.(interface{ SetAffineTwoTorsion() }).SetAffineTwoTorsion()
}
func (p plainInf) SetAffineTwoTorsion() {
	p.CurvePointPtrInterface.(interface{ SetAffineTwoTorsion() }).SetAffineTwoTorsion()
}
func (p plainInf) SetE1() { p.CurvePointPtrInterface.(interface{ SetE1() }).SetE1() }
func (p plainInf) SetE2() { p.CurvePointPtrInterface.(interface{ SetE2() }).SetE2() }

var together bool // episodes run at the same time: what is global stays as it is
var bare bool     // which of the two wrap uses; chosen per episode

var typeNames = []string{"xf", "xs", "af", "as", "ef", "es"}
var fullNames = []string{"xf", "af", "ef"}
var subNames = []string{"xs", "as", "es"}
var foreignNames = []string{"Xf", "Xs", "Af", "As", "Ef", "Es"}
var allNames = append(append([]string{}, typeNames...), foreignNames...)

func isSub(t string) bool     { return t[1] == 's' }
func canInf(t string) bool    { return t[1] == 'f' && t[0]|32 != 'a' }
func lower(t string) string   { return strings.ToLower(t) }
func isForeign(t string) bool { return t[0] < 'a' }

func newObj(t string) obj {
	switch t {
	case "xf":
		return &cp.Point_xtw_full{}
	case "xs":
		return &cp.Point_xtw_subgroup{}
	case "af":
		return &cp.Point_axtw_full{}
	case "as":
		return &cp.Point_axtw_subgroup{}
	case "ef":
		return &cp.Point_efgh_full{}
	case "es":
		return &cp.Point_efgh_subgroup{}
	}
	return wrap(newObj(lower(t)))
}

func wrap(o obj) obj {
	if bare {
		if t := typeOf(o); t == "xf" || t == "ef" {
			return plainInf{o, o.(cp.CurvePointPtrInterfaceDistinguishInfinity)}
		}
		return plainFin{o}
	}
	switch o := o.(type) {
	case *cp.Point_xtw_full:
		return fxf{o}
	case *cp.Point_xtw_subgroup:
		return fxs{o}
	case *cp.Point_axtw_full:
		return faf{o}
	case *cp.Point_axtw_subgroup:
		return fas{o}
	case *cp.Point_efgh_full:
		return fef{o}
	case *cp.Point_efgh_subgroup:
		return fes{o}
	}
	return o
}

func typeOf(o any) string {
	switch o.(type) {
	case *cp.Point_xtw_full:
		return "xf"
	case *cp.Point_xtw_subgroup:
		return "xs"
	case *cp.Point_axtw_full:
		return "af"
	case *cp.Point_axtw_subgroup:
		return "as"
	case *cp.Point_efgh_full:
		return "ef"
	case *cp.Point_efgh_subgroup:
		return "es"
	}
	return "?"
}

// ---- making objects that hold a given point in various internal representations

// canonical object of the plain type t
func canonical(t string, v pv) obj {
	o := newObj(t)
	if v.k == "nap" {
		return o
	}
	if v.k == "E1" || v.k == "E2" {
		e := o.(interface {
			SetE1()
			SetE2()
		})
		if v.k == "E1" {
			e.SetE1()
		} else {
			e.SetE2()
		}
		return o
	}
	x, y := mkFE(v.x, false), mkFE(v.y, false)
	a, _ := cp.CurvePointFromXYAffine_full(&x, &y, trusted)
	if isSub(t) {
		o.SetFromSubgroupPoint(&a, trusted)
	} else {
		o.SetFrom(&a)
	}
	return o
}

// a subgroup point held as the other of the two internal representatives (extended affine)
func flipped(rng *rand.Rand) (pv, obj) {
	for {
		v := randSub(rng)
		if sign(v.y) < 0 {
			x, y := mkFE(neg(v.x), false), mkFE(neg(v.y), false)
			a, _ := cp.CurvePointFromXYTimesSignY_subgroup(&x, &y, trusted)
			return v, &a
		}
	}
}

const nStyles = 6

// unreduce gives the coordinates that o holds the other internal representation that field elements with small
// representation have (zero above all). The point does not change.
func unreduce(rng *rand.Rand, o any) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch {
		case v.Type() == reflect.TypeOf(FE{}):
			if v.CanAddr() && rng.Intn(4) > 0 {
				(*FE)(unsafe.Pointer(v.UnsafeAddr())).RerandomizeRepresentation(1)
			}
		case v.Kind() == reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case v.Kind() == reflect.Pointer, v.Kind() == reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		}
	}
	walk(reflect.ValueOf(o))
}

// object of type t holding v; style selects the history of the object
func mkObj(rng *rand.Rand, t string, v pv, style int) obj {
	o := mkObj1(rng, t, v, style)
	if rng.Intn(3) == 0 {
		unreduce(rng, o)
	}
	return o
}

func mkObj1(rng *rand.Rand, t string, v pv, style int) obj {
	if isForeign(t) {
		return wrap(mkObj(rng, lower(t), v, style))
	}
	if v.k == "nap" {
		return mkNaP(rng, t, style)
	}
	switch style % nStyles {
	case 0:
		return canonical(t, v)
	case 1, 2: // sum of two points: projective, with whatever coordinates the sum leaves
		r := randSub(rng)
		rest := padd(v, pneg(r))
		via := zz.Pick(rng, []string{"x", "e"}) + t[1:]
		a, b := canonical(via, rest), canonical(zz.Pick(rng, []string{"x", "a", "e"})+t[1:], r)
		s := newObj(zz.Pick(rng, []string{"x", "e"}) + t[1:])
		if t[0] != 'a' && rng.Intn(2) == 0 {
			s = newObj(t)
		}
		if rng.Intn(2) == 0 {
			a, b = b, a
		}
		s.Add(a, b)
		o := newObj(t)
		if typeOf(s) == t {
			return s
		}
		o.SetFrom(s)
		return o
	case 3, 4: // a representative shifted by the affine order two point, where the type works modulo it
		if !isSub(t) {
			o := canonical(t, pneg(v))
			o.NegEq()
			return o
		}
		rv, r := flipped(rng)
		rest := padd(v, pneg(rv))
		s := newObj(zz.Pick(rng, []string{"xs", "es"}))
		s.Add(canonical("xs", rest), r)
		if style%nStyles == 4 {
			s.NegEq()
			s.Neg(s)
		}
		o := newObj(t)
		o.SetFrom(s)
		return o
	default: // normalized for Y
		x := mkObj(rng, "x"+t[1:], v, 1+rng.Intn(3))
		x.(interface{ NormalizeForY() bool }).NormalizeForY()
		o := newObj(t)
		if typeOf(x) == t {
			return x
		}
		o.SetFrom(x)
		return o
	}
}

func mkNaP(rng *rand.Rand, t string, style int) obj {
	o := newObj(t)
	some := func() obj {
		if isSub(t) {
			return canonical(zz.Pick(rng, subNames), randSub(rng))
		}
		return canonical(zz.Pick(rng, []string{"xf", "xs", "af", "as", "ef", "es"}), randSub(rng))
	}
	switch style % nStyles {
	case 1:
		o.Add(newObj(t), some())
	case 2:
		o.Add(some(), newObj(zz.Pick(rng, []string{"x", "a", "e"})+t[1:]))
	case 3:
		zz.Try(func() { o.XY_affine() })
	case 4:
		if t[0] == 'e' {
			x := newObj("x" + t[1:])
			x.Add(newObj("x"+t[1:]), some())
			o.SetFrom(x)
		} else {
			o.Endo(newObj(t))
		}
	case 5:
		o.Double(newObj(zz.Pick(rng, []string{"x", "a", "e"}) + t[1:]))
	}
	return o
}

// ---- the recorded bank of objects
type bank struct {
	ep    *zz.Ep
	rng   *rand.Rand
	types []string
	o     []obj
	mode  string
	calls []any
	loud  bool
	probe string
	hs    map[string]cp.NaPErrorHandler
}

var firstHandler = cp.GetNaPErrorHandler()

func newBank(ep *zz.Ep, types ...string) *bank {
	b := &bank{ep: ep, rng: ep.Rng, mode: "default", hs: map[string]cp.NaPErrorHandler{"default": firstHandler}}
	lt := []string{}
	fo := []int{}
	if b := ep.Rng.Intn(2) == 0; !together {
		bare = b
	}
	for i, t := range types {
		b.types = append(b.types, t)
		b.o = append(b.o, newObj(t))
		lt = append(lt, lower(t))
		if isForeign(t) {
			fo = append(fo, i+1)
		}
	}
	ep.Set("types", lt)
	ep.Set("foreign", fo)
	for _, m := range []string{"false", "true", "panic"} {
		m := m
		b.hs[m] = func(reason string, comparison bool, points ...cp.CurvePointPtrInterfaceBaseRead) bool {
			if reason == "zz probe" {
				b.probe = m
				return false
			}
			if !b.loud {
				return m == "true"
			}
			n := 0
			for _, p := range points {
				if p != nil {
					n++
				}
			}
			b.calls = append(b.calls, M{"c": comparison, "n": n})
			if m == "panic" {
				panic("zz: handler panics")
			}
			return m == "true"
		}
	}
	cp.SetNaPErrorHandler(firstHandler)
	return b
}

func (b *bank) done() { cp.SetNaPErrorHandler(firstHandler) }

func (b *bank) name(h cp.NaPErrorHandler) string {
	b.probe = "default"
	if h == nil {
		return "nil"
	}
	h("zz probe", false)
	return b.probe
}

func (b *bank) handler(m string) {
	if together {
		return
	}
	old := cp.SetNaPErrorHandler(b.hs[m])
	now := cp.GetNaPErrorHandler()
	b.ep.Log("Handler", M{"set": m, "old": b.name(old), "now": b.name(now)})
	b.mode = m
}

func rawOf(o obj) []string {
	c := o.Clone()
	return []string{hexFE(c.X_decaf_projective()), hexFE(c.Y_decaf_projective()), hexFE(c.T_decaf_projective()), hexFE(c.Z_decaf_projective())}
}

func (b *bank) raws() []any {
	r := make([]any, len(b.o))
	for i, o := range b.o {
		r[i] = rawOf(o)
	}
	return r
}

// run f (which uses the code under test) as one recorded call
func (b *bank) do(op string, m M, f func(m M)) string {
	b.calls = []any{}
	b.loud = true
	out := zz.Outcome(func() { f(m) })
	b.loud = false
	m["out"] = out
	m["calls"] = b.calls
	m["raw"] = b.raws()
	b.ep.Log(op, m)
	return out
}

func (b *bank) set(z int, v pv, style int) {
	b.o[z-1] = mkObj(b.rng, b.types[z-1], v, style)
	b.ep.Log("mk", M{"z": z, "v": v.log(), "style": style, "raw": b.raws()})
}

func (b *bank) at(i int) obj { return b.o[i-1] }

// one moving operation; after a refused one the receiver is made anew from v
func (b *bank) move(op string, z, x, y int, v pv) string {
	r := b.at(z)
	out := b.do(op, M{"z": z, "x": x, "y": y}, func(M) {
		switch op {
		case "Add":
			r.Add(b.at(x), b.at(y))
		case "Sub":
			r.Sub(b.at(x), b.at(y))
		case "AddEq":
			r.AddEq(b.at(x))
		case "SubEq":
			r.SubEq(b.at(x))
		case "Neg":
			r.Neg(b.at(x))
		case "Double":
			r.Double(b.at(x))
		case "Endo":
			r.Endo(b.at(x))
		case "SetFrom":
			r.SetFrom(b.at(x))
		case "NegEq":
			r.NegEq()
		case "DoubleEq":
			r.DoubleEq()
		case "EndoEq":
			r.EndoEq()
		case "SetNeutral":
			r.SetNeutral()
		case "SetAffineTwoTorsion":
			r.(interface{ SetAffineTwoTorsion() }).SetAffineTwoTorsion()
		case "SetE1":
			r.(interface{ SetE1() }).SetE1()
		case "SetE2":
			r.(interface{ SetE2() }).SetE2()
		default:
			panic("harness: " + op)
		}
	})
	if out == "panic" {
		b.set(z, v, b.rng.Intn(nStyles))
	}
	return out
}

func (b *bank) setSub(z, x int, tr bool) {
	b.do("SetFromSubgroupPoint", M{"z": z, "x": x, "tr": tr, "res": false}, func(m M) {
		m["res"] = b.at(z).SetFromSubgroupPoint(b.at(x), trustOf(tr))
	})
}

func trustOf(tr bool) common.IsInputTrusted {
	if tr {
		return trusted
	}
	return untrusted
}

func (b *bank) clone(z, x int) {
	var c obj
	b.do("Clone", M{"z": z, "x": x, "ty": "?", "fresh": false}, func(m M) {
		c = b.at(x).Clone()
		m["ty"] = typeOf(c)
		m["fresh"] = c != b.at(x)
		if c != nil {
			if isForeign(b.types[z-1]) {
				c = wrap(c)
			}
			b.o[z-1] = c
		}
	})
}

var queries = []string{"IsNeutralElement", "IsNaP", "IsAtInfinity", "IsInSubgroup", "IsE1", "IsE2", "Validate", "CanRepresentInfinity", "CanOnlyRepresentSubgroup"}

func (b *bank) ask(q string, x, y int, def bool) {
	o := b.at(x)
	if q == "IsE1" || q == "IsE2" {
		if _, ok := o.(cp.CurvePointPtrInterfaceDistinguishInfinity); !ok {
			return
		}
	}
	if q == "Validate" {
		if _, ok := o.(interface{ Validate() bool }); !ok {
			return
		}
	}
	b.do("Is", M{"q": q, "x": x, "y": y, "def": def, "res": false}, func(m M) {
		var r bool
		switch q {
		case "IsNeutralElement":
			r = o.IsNeutralElement()
		case "IsNaP":
			r = o.IsNaP()
		case "IsAtInfinity":
			r = o.IsAtInfinity()
		case "IsInSubgroup":
			r = o.IsInSubgroup()
		case "IsE1":
			r = o.(cp.CurvePointPtrInterfaceDistinguishInfinity).IsE1()
		case "IsE2":
			r = o.(cp.CurvePointPtrInterfaceDistinguishInfinity).IsE2()
		case "Validate":
			r = o.(interface{ Validate() bool }).Validate()
		case "CanRepresentInfinity":
			r = o.CanRepresentInfinity()
		case "CanOnlyRepresentSubgroup":
			r = o.CanOnlyRepresentSubgroup()
		case "IsEqual":
			r = o.IsEqual(b.at(y))
		}
		m["res"] = r
	})
}

var getters = []string{"X_affine", "Y_affine", "T_affine", "XY_affine", "XYT_affine", "XYZ_projective", "XYTZ_projective", "X,Y,Z_projective", "X,Y,T,Z_projective", "decaf_projective", "decaf_affine"}

func (b *bank) coo(f string, x int) {
	o := b.at(x)
	ext, isExt := o.(cp.CurvePointPtrInterfaceCooReadExtended)
	if !isExt && (f == "T_affine" || f == "XYT_affine" || f == "XYTZ_projective" || f == "X,Y,T,Z_projective") {
		return
	}
	read := func() []string {
		switch f {
		case "X_affine":
			return []string{hexFE(o.X_affine())}
		case "Y_affine":
			return []string{hexFE(o.Y_affine())}
		case "T_affine":
			return []string{hexFE(ext.T_affine())}
		case "XY_affine":
			x, y := o.XY_affine()
			return []string{hexFE(x), hexFE(y)}
		case "XYT_affine":
			x, y, t := ext.XYT_affine()
			return []string{hexFE(x), hexFE(y), hexFE(t)}
		case "XYZ_projective":
			x, y, z := o.XYZ_projective()
			return []string{hexFE(x), hexFE(y), hexFE(z)}
		case "XYTZ_projective":
			x, y, t, z := ext.XYTZ_projective()
			return []string{hexFE(x), hexFE(y), hexFE(t), hexFE(z)}
		case "X,Y,Z_projective":
			return []string{hexFE(o.X_projective()), hexFE(o.Y_projective()), hexFE(o.Z_projective())}
		case "X,Y,T,Z_projective":
			return []string{hexFE(o.X_projective()), hexFE(o.Y_projective()), hexFE(ext.T_projective()), hexFE(o.Z_projective())}
		case "decaf_projective":
			return []string{hexFE(o.X_decaf_projective()), hexFE(o.Y_decaf_projective()), hexFE(o.T_decaf_projective()), hexFE(o.Z_decaf_projective())}
		case "decaf_affine":
			return []string{hexFE(o.X_decaf_affine()), hexFE(o.Y_decaf_affine()), hexFE(o.T_decaf_affine())}
		}
		panic("harness: getter " + f)
	}
	b.do("Coo", M{"f": f, "x": x, "c": []string{}, "again": []string{}}, func(m M) {
		m["c"] = read()
		m["again"] = read()
	})
}

func (b *bank) normalize(f string, x int) {
	o := b.at(x)
	if f == "Z" {
		if n, ok := o.(cp.NormalizerForZ); ok {
			b.do("Norm", M{"f": f, "x": x, "res": false}, func(m M) { m["res"] = n.NormalizeForZ() })
		}
	} else if n, ok := o.(cp.NormalizerForY); ok {
		b.do("Norm", M{"f": f, "x": x, "res": false}, func(m M) { m["res"] = n.NormalizeForY() })
	}
}

func (b *bank) mapFE(x int) {
	b.do("Map", M{"x": x, "res": "0"}, func(m M) { m["res"] = hexFE(cp.MapToFieldElement(b.at(x))) })
}
