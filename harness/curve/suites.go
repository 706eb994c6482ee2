//go:build go1.22

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"sync"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

func main() {
	zz.Main(map[string]func(*zz.Run){
		"G01": suiteG01, "G02": suiteG02, "G03": suiteG03, "G03S": suiteG03S, "G04": suiteG04, "G05": suiteG05, "G06": suiteG06, "G07": suiteG07, "G08": suiteG08, "G09": suiteG09,
		"P01pt": suiteP01pt,
	})
}

// the points of interest around a subgroup point s that type t can hold
func kinds(t string, s pv, r pv) []pv {
	k := []pv{pN, s, pneg(s), padd(s, s), r}
	if isSub(t) {
		return k
	}
	for _, tor := range []pv{pA, pE1, pE2} {
		k = append(k, tor, padd(s, tor), padd(pneg(s), tor))
	}
	var q []pv
	for _, p := range k {
		if canInf(t) || p.k == "aff" {
			q = append(q, p)
		}
	}
	return q
}

var dest = []pv{pN}

func (b *bank) any(z int) pv {
	if isSub(b.types[z-1]) {
		return randSub(b.rng)
	}
	return randFull(b.rng)
}

// pairs of points of interest: binary operations and aliases, in one pair of types
func pairEpisode(ep *zz.Ep, t1, t2 string, f func(b *bank)) {
	recv := zz.Pick(ep.Rng, allNames)
	b := newBank(ep, t1, t2, recv)
	defer b.done()
	s := randSub(ep.Rng)
	b.set(3, b.any(3), 0)
	for _, p := range kinds(t1, s, randSub(ep.Rng)) {
		b.set(1, p, ep.Rng.Intn(nStyles))
		for _, q := range kinds(t2, s, randSub(ep.Rng)) {
			b.set(2, q, ep.Rng.Intn(nStyles))
			f(b)
		}
	}
}

func suiteG01(r *zz.Run) {
	for _, t1 := range typeNames {
		for _, t2 := range typeNames {
			for j := 0; j < r.Scale(1, 4); j++ {
				r.Episode(fmt.Sprintf("pairs-%s-%s-%d", t1, t2, j), func(ep *zz.Ep) {
					pairEpisode(ep, t1, t2, func(b *bank) {
						b.move("Add", 3, 1, 2, b.any(3))
						b.move("Sub", 3, 1, 2, b.any(3))
					})
				})
			}
			for _, recv := range typeNames { // every triple of types, some points
				r.Episode(fmt.Sprintf("triples-%s-%s-%s", t1, t2, recv), func(ep *zz.Ep) {
					b := newBank(ep, t1, t2, recv)
					defer b.done()
					b.set(3, b.any(3), 1)
					s := randSub(ep.Rng)
					for i := 0; i < r.Scale(3, 12); i++ {
						b.set(1, zz.Pick(ep.Rng, kinds(t1, s, randSub(ep.Rng))), ep.Rng.Intn(nStyles))
						b.set(2, zz.Pick(ep.Rng, kinds(t2, s, randSub(ep.Rng))), ep.Rng.Intn(nStyles))
						b.move("Add", 3, 1, 2, b.any(3))
						b.move("Sub", 3, 1, 2, b.any(3))
					}
				})
			}
		}
	}
	for _, t1 := range allNames { // types the package does not know
		for _, t2 := range allNames {
			if !isForeign(t1) && !isForeign(t2) {
				continue
			}
			r.Episode(fmt.Sprintf("foreign-%s-%s", t1, t2), func(ep *zz.Ep) {
				recv := zz.Pick(ep.Rng, typeNames)
				b := newBank(ep, t1, t2, recv)
				defer b.done()
				b.set(3, b.any(3), 1)
				s := randSub(ep.Rng)
				for i := 0; i < r.Scale(2, 20); i++ {
					b.set(1, zz.Pick(ep.Rng, kinds(t1, s, randSub(ep.Rng))), ep.Rng.Intn(nStyles))
					b.set(2, zz.Pick(ep.Rng, kinds(t2, s, randSub(ep.Rng))), ep.Rng.Intn(nStyles))
					b.move("Add", 3, 1, 2, b.any(3))
					b.move("Sub", 3, 1, 2, b.any(3))
					b.move(zz.Pick(ep.Rng, []string{"AddEq", "SubEq"}), 1, 2, 0, b.any(1))
				}
			})
		}
	}
	for _, t1 := range typeNames { // in place and aliased
		for _, t2 := range typeNames {
			r.Episode(fmt.Sprintf("inplace-%s-%s", t1, t2), func(ep *zz.Ep) {
				b := newBank(ep, t1, t2)
				defer b.done()
				s := randSub(ep.Rng)
				for i, p := range kinds(t1, s, randSub(ep.Rng)) {
					for j, q := range kinds(t2, s, randSub(ep.Rng)) {
						b.set(1, p, ep.Rng.Intn(nStyles))
						b.set(2, q, ep.Rng.Intn(nStyles))
						type al struct {
							op      string
							z, x, y int
						}
						als := []al{{"AddEq", 1, 2, 0}, {"SubEq", 1, 2, 0}, {"Add", 1, 1, 2}, {"Add", 1, 2, 1}, {"Sub", 1, 1, 2}, {"Sub", 1, 2, 1}}
						a := als[(i+j)%len(als)]
						b.move(a.op, a.z, a.x, a.y, b.any(a.z))
						if !r.Thorough() {
							continue
						}
						for _, a := range als {
							b.set(1, p, ep.Rng.Intn(nStyles))
							b.move(a.op, a.z, a.x, a.y, b.any(a.z))
						}
					}
				}
			})
		}
	}
	for _, t1 := range allNames { // one operand
		for _, t2 := range allNames {
			if isForeign(t1) && isForeign(t2) && !r.Thorough() {
				continue
			}
			r.Episode(fmt.Sprintf("unary-%s-%s", t1, t2), func(ep *zz.Ep) {
				b := newBank(ep, t1, t2)
				defer b.done()
				s := randSub(ep.Rng)
				b.set(1, b.any(1), 1)
				for _, q := range kinds(t2, s, randSub(ep.Rng)) {
					b.set(2, q, ep.Rng.Intn(nStyles))
					b.move("Neg", 1, 2, 0, b.any(1))
					b.move("Double", 1, 2, 0, b.any(1))
					if t1 == t2 {
						for _, a := range []string{"NegEq", "DoubleEq"} {
							b.set(2, q, ep.Rng.Intn(nStyles))
							b.move(a, 2, 0, 0, b.any(2))
						}
						for _, a := range []string{"Neg", "Double", "Add", "Sub", "AddEq", "SubEq"} {
							b.set(2, q, ep.Rng.Intn(nStyles))
							b.move(a, 2, 2, 2, b.any(2))
						}
						b.set(2, q, ep.Rng.Intn(nStyles))
						b.move("Add", 1, 2, 2, b.any(1))
						b.move("Sub", 1, 2, 2, b.any(1))
						b.move("SetNeutral", 1, 0, 0, pN)
						if !isSub(t1) {
							b.move("SetAffineTwoTorsion", 1, 0, 0, pN)
						}
						if canInf(t1) {
							b.move("SetE1", 1, 0, 0, pN)
							b.move("SetE2", 1, 0, 0, pN)
						}
					}
				}
			})
		}
	}
	walks(r)
}

type genOp struct {
	Op      string `json:"op"`
	Z, X, Y int
	K       int
	S       int
	M       string
}
type genHist struct {
	Types []string `json:"types"`
	Ops   []genOp  `json:"ops"`
}

// histories generated from the specification
func walks(r *zz.Run) {
	if r.In == "" {
		return
	}
	for n, raw := range zz.ReadBehaviours(r.In) {
		r.Episode(fmt.Sprintf("walk-%d", n), func(ep *zz.Ep) {
			var h genHist
			if err := json.Unmarshal(raw, &h); err != nil {
				panic(err)
			}
			b := newBank(ep, h.Types...)
			defer b.done()
			s := randSub(ep.Rng)
			pool := func(z, k int) pv {
				ks := kinds(b.types[z-1], s, randSub(ep.Rng))
				if k < 0 {
					return pNaP
				}
				return ks[k%len(ks)]
			}
			for _, o := range h.Ops {
				switch o.Op {
				case "mk":
					b.set(o.Z, pool(o.Z, o.K), o.S)
				case "Handler":
					b.handler(o.M)
				case "Clone":
					b.clone(o.Z, o.X)
				case "SetFromSubgroupPoint":
					b.setSub(o.Z, o.X, false)
				case "IsEqual":
					b.ask("IsEqual", o.X, o.Y, false)
				case "Is":
					b.ask(queries[o.K%len(queries)], o.X, 0, false)
				case "Coo":
					b.coo(getters[o.K%len(getters)], o.X)
				case "Norm":
					b.normalize([]string{"Z", "Y"}[o.K%2], o.X)
				default:
					b.move(o.Op, o.Z, o.X, o.Y, pool(o.Z, o.K))
				}
			}
		})
	}
}

func suiteG02(r *zz.Run) {
	for _, t := range allNames {
		for j := 0; j < r.Scale(2, 6); j++ {
			r.Episode(fmt.Sprintf("classify-%s-%d", t, j), func(ep *zz.Ep) {
				b := newBank(ep, t)
				defer b.done()
				s := randSub(ep.Rng)
				for _, p := range append(kinds(t, s, randSub(ep.Rng)), b.any(1), b.any(1)) {
					for style := 0; style < nStyles; style++ {
						b.set(1, p, style)
						for _, q := range queries {
							b.ask(q, 1, 0, style == 0 && j == 0)
						}
						b.ask("IsEqual", 1, 1, false)
					}
				}
			})
		}
	}
	for _, t1 := range allNames {
		for _, t2 := range allNames {
			if isForeign(t1) && isForeign(t2) && !r.Thorough() {
				continue
			}
			for j := 0; j < r.Scale(1, 4); j++ {
				r.Episode(fmt.Sprintf("equal-%s-%s-%d", t1, t2, j), func(ep *zz.Ep) {
					b := newBank(ep, t1, t2)
					defer b.done()
					s := randSub(ep.Rng)
					for _, p := range kinds(t1, s, randSub(ep.Rng)) {
						for _, q := range kinds(t2, s, randSub(ep.Rng)) {
							if j > 0 || ep.Rng.Intn(2) == 0 || p.same(q) {
								b.set(1, p, ep.Rng.Intn(nStyles))
								b.set(2, q, ep.Rng.Intn(nStyles))
							} else if p.k == "aff" && q.k == "aff" { // same representation history
								st := ep.Rng.Intn(nStyles)
								b.set(1, p, st)
								b.set(2, q, st)
							} else {
								b.set(1, p, 0)
								b.set(2, q, 0)
							}
							b.ask("IsEqual", 1, 2, false)
							if ep.Rng.Intn(2) == 0 {
								b.ask("IsEqual", 2, 1, false)
								b.ask("IsEqual", 1, 2, false)
							}
						}
					}
				})
			}
		}
	}
	r.Repeat("nearby", r.Scale(60, 600), func(ep *zz.Ep, i int) { // points sharing one coordinate, in projective form
		t1, t2 := zz.Pick(ep.Rng, fullNames), zz.Pick(ep.Rng, typeNames)
		b := newBank(ep, t1, t2)
		defer b.done()
		q := randSub(ep.Rng)
		for _, p := range []pv{q, pneg(q), padd(q, pA), padd(pneg(q), pA), randFull(ep.Rng)} {
			b.set(1, p, ep.Rng.Intn(nStyles))
			b.set(2, q, ep.Rng.Intn(nStyles))
			b.ask("IsEqual", 1, 2, false)
			b.ask("IsEqual", 2, 1, false)
		}
	})
	walks(r)
}

func suiteG03(r *zz.Run) {
	modes := []string{"default", "false", "true", "panic"}
	for _, t := range allNames {
		for _, m := range modes {
			r.Episode(fmt.Sprintf("query-%s-%s", t, m), func(ep *zz.Ep) {
				b := newBank(ep, t)
				defer b.done()
				b.handler(m)
				for style := 0; style < nStyles; style++ {
					b.set(1, pNaP, style)
					for _, q := range queries {
						b.ask(q, 1, 0, false)
					}
					b.ask("IsEqual", 1, 1, false)
					b.normalize("Z", 1)
					b.set(1, pNaP, style)
					b.normalize("Y", 1)
					b.set(1, pNaP, style)
					b.mapFE(1)
					for _, g := range getters {
						b.set(1, pNaP, style)
						b.coo(g, 1)
					}
				}
			})
		}
	}
	for _, t1 := range allNames {
		for _, t2 := range allNames {
			if isForeign(t1) && isForeign(t2) && !r.Thorough() {
				continue
			}
			r.Episode(fmt.Sprintf("compare-%s-%s", t1, t2), func(ep *zz.Ep) {
				b := newBank(ep, t1, t2)
				defer b.done()
				for i, m := range []string{"false", "true", "panic", "default"} {
					b.handler(m)
					ps := []pv{pNaP, b.any(1), pN}
					qs := []pv{pNaP, b.any(2), pN}
					for _, p := range ps {
						for _, q := range qs {
							if p.k != "nap" && q.k != "nap" {
								continue
							}
							b.set(1, p, ep.Rng.Intn(nStyles))
							b.set(2, q, ep.Rng.Intn(nStyles))
							b.ask("IsEqual", 1, 2, false)
							if i%2 == 0 || r.Thorough() {
								b.ask("IsEqual", 2, 1, false)
							}
						}
					}
				}
			})
			r.Episode(fmt.Sprintf("move-%s-%s", t1, t2), func(ep *zz.Ep) {
				recv := zz.Pick(ep.Rng, allNames)
				b := newBank(ep, t1, t2, recv)
				defer b.done()
				for _, m := range []string{"false", "true"} {
					b.handler(m)
					for style := 0; style < nStyles; style++ {
						b.set(3, b.any(3), 1)
						b.set(1, pNaP, style)
						b.set(2, zz.Pick(ep.Rng, append(kinds(t2, randSub(ep.Rng), randSub(ep.Rng)), pNaP)), ep.Rng.Intn(nStyles))
						b.move("Add", 3, 1, 2, b.any(3))
						b.move("Sub", 3, 1, 2, b.any(3))
						b.move("Add", 3, 2, 1, b.any(3))
						b.move("Sub", 3, 2, 1, b.any(3))
						for _, op := range []string{"Neg", "Double", "Endo", "SetFrom"} {
							b.set(3, b.any(3), 1)
							b.move(op, 3, 1, 0, b.any(3))
						}
						b.set(2, b.any(2), ep.Rng.Intn(nStyles))
						b.setSub(2, 1, false)
						for _, op := range []string{"AddEq", "SubEq"} {
							b.set(2, b.any(2), ep.Rng.Intn(nStyles))
							b.move(op, 2, 1, 0, b.any(2))
							b.set(1, pNaP, style)
							b.set(2, b.any(2), ep.Rng.Intn(nStyles))
							b.move(op, 1, 2, 0, b.any(1))
							b.set(1, pNaP, style)
						}
						for _, op := range []string{"NegEq", "DoubleEq", "EndoEq"} {
							b.set(1, pNaP, style)
							b.move(op, 1, 0, 0, b.any(1))
						}
						for _, a := range []string{"Neg", "Double", "Endo", "Add", "Sub", "AddEq", "SubEq"} {
							b.set(1, pNaP, style)
							b.move(a, 1, 1, 1, b.any(1))
						}
					}
				}
			})
		}
	}
	walks(r)
}

func suiteG03S(r *zz.Run) {
	r.Repeat("swaps", r.Scale(8, 60), func(ep *zz.Ep, i int) {
		b := newBank(ep, "xf")
		defer b.done()
		n, k := 2+ep.Rng.Intn(6), 1+ep.Rng.Intn(40)
		swaps := make([][2]int, n*k)
		var cur sync.Mutex
		probe := -1
		mk := func(id int) cp.NaPErrorHandler {
			return func(string, bool, ...cp.CurvePointPtrInterfaceBaseRead) bool { probe = id; return false }
		}
		ask := func(h cp.NaPErrorHandler) int {
			cur.Lock()
			defer cur.Unlock()
			probe = -1
			h("zz probe", false)
			return probe
		}
		cp.SetNaPErrorHandler(mk(0))
		olds := make([]cp.NaPErrorHandler, n*k)
		start := make(chan bool)
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for j := 0; j < k; j++ {
					id := g*k + j
					olds[id] = cp.SetNaPErrorHandler(mk(id + 1))
					if j%3 == 0 {
						_ = cp.GetNaPErrorHandler()
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for id := range olds {
			swaps[id] = [2]int{id + 1, ask(olds[id])}
		}
		ep.Log("Swaps", M{"swaps": swaps, "final": ask(cp.GetNaPErrorHandler())})
	})
}

// ---- constructors

type namedErr struct {
	name string
	err  error
}

var ctorErrs = []namedErr{
	{"XNotInSubgroup", be.ErrXNotInSubgroup}, {"XNotOnCurve", be.ErrXNotOnCurve}, {"YNotOnCurve", be.ErrYNotOnCurve},
	{"NotInSubgroup", be.ErrNotInSubgroup}, {"NotOnCurve", be.ErrNotOnCurve}, {"WrongSignY", be.ErrWrongSignY},
	{"InvalidZeroSignX", be.ErrInvalidZeroSignX}, {"InvalidSign", be.ErrInvalidSign},
	{"CannotDeserializeNaP", be.ErrCannotDeserializeNaP}, {"CannotDeserializeXYAllZero", be.ErrCannotDeserializeXYAllZero},
}

func errNames(err error) []string {
	r := []string{}
	for _, s := range ctorErrs {
		if errors.Is(err, s.err) {
			r = append(r, s.name)
		}
	}
	sort.Strings(r)
	return r
}

func errFields(m M, err error, params ...string) {
	m["errs"] = errNames(err)
	d := errorsWithData.GetData_map(err)
	data := M{}
	for _, p := range params {
		switch x := d[p].(type) {
		case cp.FieldElement:
			data[p] = hexFE(x)
		case int:
			data[p] = zz.HexI64(int64(x))
		default:
			data[p] = fmt.Sprintf("%T", x)
		}
	}
	m["data"] = data
	fine := len(d) == len(params) && len(err.Error()) > 0
	if v, ok := err.(interface{ ValidateError_Final() error }); ok && v.ValidateError_Final() != nil {
		fine = false
		m["why"] = zz.Clip(v.ValidateError_Final().Error())
	}
	m["fine"] = fine
}

var ctors = []string{"XYAffine_full", "XYAffine_subgroup", "XAndSignY_full", "XAndSignY_subgroup", "YAndSignX_full", "YAndSignX_subgroup", "XTimesSignY_subgroup", "XYTimesSignY_subgroup", "YXTimesSignY_subgroup"}

// integers beyond 32 bits do not survive TLC; the specification needs the exact value only as the BigNat sb
func small(s int) int {
	if s < -9 || s > 9 {
		return 99
	}
	return s
}

func construct(ep *zz.Ep, f string, a, c *big.Int, s int, tr bool) {
	x, y := mkFE(a, ep.Rng.Intn(2) == 0), mkFE(c, ep.Rng.Intn(2) == 0)
	x0, y0 := hexFE(x), hexFE(y)
	m := M{"f": f, "a": zz.Hex(mod(a)), "b": zz.Hex(mod(c)), "s": small(s), "sb": zz.HexI64(int64(s)), "tr": tr, "wit": "0", "isnil": true, "errs": []string{}, "data": M{}, "fine": true, "pt": []string{"0", "0", "0", "0"}}
	switch f {
	case "XAndSignY_full", "XAndSignY_subgroup":
		if w := yFor(mod(a)); w != nil {
			m["wit"] = zz.Hex(w)
		}
	case "YAndSignX_full", "YAndSignX_subgroup":
		if w := xFor(mod(a)); w != nil {
			m["wit"] = zz.Hex(w)
		}
	}
	t := trustOf(tr)
	var full cp.Point_axtw_full
	var sub cp.Point_axtw_subgroup
	var pt obj = &sub
	res := func(err error, isnil bool, params ...string) {
		m["isnil"] = isnil
		if !isnil {
			errFields(m, err, params...)
		}
	}
	m["out"] = zz.Outcome(func() {
		switch f {
		case "XYAffine_full":
			p, err := cp.CurvePointFromXYAffine_full(&x, &y, t)
			full, pt = p, &full
			res(err, err == nil, "X", "Y")
		case "XYAffine_subgroup":
			p, err := cp.CurvePointFromXYAffine_subgroup(&x, &y, t)
			sub = p
			res(err, err == nil, "X", "Y")
		case "XAndSignY_full":
			p, err := cp.CurvePointFromXAndSignY_full(&x, s, t)
			full, pt = p, &full
			res(err, err == nil, "X", "SignY")
		case "XAndSignY_subgroup":
			p, err := cp.CurvePointFromXAndSignY_subgroup(&x, s, t)
			sub = p
			res(err, err == nil, "X", "SignY")
		case "YAndSignX_full":
			p, err := cp.CurvePointFromYAndSignX_full(&x, s, t)
			full, pt = p, &full
			res(err, err == nil, "Y", "SignX")
		case "YAndSignX_subgroup":
			p, err := cp.CurvePointFromYAndSignX_subgroup(&x, s, t)
			sub = p
			res(err, err == nil, "Y", "SignX")
		case "XTimesSignY_subgroup":
			p, err := cp.CurvePointFromXTimesSignY_subgroup(&x, t)
			sub = p
			res(err, err == nil, "X")
		case "XYTimesSignY_subgroup":
			p, err := cp.CurvePointFromXYTimesSignY_subgroup(&x, &y, t)
			sub = p
			res(err, err == nil, "XSignY", "YSignY")
		case "YXTimesSignY_subgroup":
			p, err := cp.CurvePointFromYXTimesSignY_subgroup(&y, &x, t)
			sub = p
			res(err, err == nil, "XSignY", "YSignY")
		}
	})
	if m["out"] == "ok" && m["isnil"] == true {
		m["pt"] = rawOf(pt)
	}
	ep.Log("Ctor", m)
	ep.Log("Fine", M{"fine": hexFE(x) == x0 && hexFE(y) == y0, "what": "arguments unchanged"})
}

// is the call valid, so that trusted input may be announced?
func validCtor(f string, a, c *big.Int, s int) bool {
	a, c = mod(a), mod(c)
	on := func(x, y *big.Int) bool {
		return sum(mul(cA, x, x), mul(y, y)).Cmp(sum(one, mul(cD, x, x, y, y))) == 0
	}
	char1 := func(x *big.Int) bool { return chi(sum(one, neg(mul(cA, x, x)))) == 1 }
	ws := func(v *big.Int) *big.Int {
		if sign(v) != s {
			return neg(v)
		}
		return v
	}
	switch f {
	case "XYAffine_full":
		return on(a, c)
	case "XYAffine_subgroup":
		return on(a, c) && inSub(aff(a, c))
	case "XAndSignY_full", "XAndSignY_subgroup":
		w := yFor(a)
		if w == nil || (s != 1 && s != -1) {
			return false
		}
		return f == "XAndSignY_full" || inSub(aff(a, ws(w)))
	case "YAndSignX_full", "YAndSignX_subgroup":
		w := xFor(a)
		if w == nil || s < -1 || s > 1 || (s == 0 && w.Sign() != 0) {
			return false
		}
		return f == "YAndSignX_full" || inSub(aff(ws(w), a))
	case "XTimesSignY_subgroup":
		return yFor(a) != nil && char1(a)
	default:
		return sign(c) == 1 && on(a, c) && char1(a)
	}
}

func ctorAll(ep *zz.Ep, f string, a, c *big.Int, s int) {
	construct(ep, f, a, c, s, false)
	if validCtor(f, a, c, s) {
		construct(ep, f, a, c, s, true)
	}
}

func suiteG04(r *zz.Run) {
	yInf := inv(cR) // Y coordinate associated with the points at infinity
	special := []*big.Int{zero, one, big.NewInt(-1), big.NewInt(2), big.NewInt(-2), new(big.Int).Rsh(P, 1), new(big.Int).Add(new(big.Int).Rsh(P, 1), one), cR, neg(cR), yInf, neg(yInf), cA, cD, inv(cD), inv(cA)}
	for _, f := range ctors {
		r.Episode("special-"+f, func(ep *zz.Ep) {
			newBank(ep).done()
			for _, a := range special {
				for _, c := range special {
					for s := -3; s <= 3; s++ {
						if (f[1] == 'A' && f[0] != 'X' || f[1] == 'A' && f[0] == 'X') && c != special[0] {
							break
						}
						if f[1] != 'A' && s != 0 {
							continue
						}
						ctorAll(ep, f, a, c, s)
					}
				}
			}
		})
		r.Repeat("classes-"+f, r.Scale(20, 200), func(ep *zz.Ep, i int) {
			newBank(ep).done()
			s := randSub(ep.Rng)
			full := randFull(ep.Rng)
			pts := []pv{s, pneg(s), padd(s, pA), padd(pneg(s), pA), full, padd(full, pA), pN, pA}
			// points in the cosets of the points at infinity (affine unless s is special)
			pts = append(pts, padd(s, pE1), padd(s, pE2), padd(pneg(s), pE1))
			for _, p := range pts {
				for _, sg := range []int{1, -1, 0} {
					switch f[:4] {
					case "XAnd":
						ctorAll(ep, f, p.x, zero, sg)
					case "YAnd":
						ctorAll(ep, f, p.y, zero, sg)
					case "XTim":
						if sg == 1 {
							ctorAll(ep, f, p.x, zero, 0)
							ctorAll(ep, f, neg(p.x), zero, 0)
						}
					default:
						if sg == 0 {
							ctorAll(ep, f, p.x, p.y, 0)
							ctorAll(ep, f, p.y, p.x, 0)
							ctorAll(ep, f, p.x, full.y, 0)
						}
					}
				}
			}
			for k := 0; k < 6; k++ { // arbitrary coordinates, on and off the curve, on the twist
				ctorAll(ep, f, zz.RandBig(ep.Rng, P), zz.RandBig(ep.Rng, P), zz.Pick(ep.Rng, []int{1, -1, 0, 2, -2, 7, -1 << 62}))
				ctorAll(ep, f, big.NewInt(int64(ep.Rng.Intn(40)-20)), big.NewInt(int64(ep.Rng.Intn(40)-20)), zz.Pick(ep.Rng, []int{1, -1}))
			}
		})
	}
}

// ---- coordinates and normalization

func suiteG05(r *zz.Run) {
	for _, t := range allNames {
		for j := 0; j < r.Scale(1, 6); j++ {
			r.Episode(fmt.Sprintf("coo-%s-%d", t, j), func(ep *zz.Ep) {
				b := newBank(ep, t)
				defer b.done()
				s := randSub(ep.Rng)
				for _, p := range append(kinds(t, s, randSub(ep.Rng)), b.any(1)) {
					for style := 0; style < nStyles; style++ {
						for _, g := range getters {
							b.set(1, p, style)
							b.coo(g, 1)
						}
						for i := 0; i < 4; i++ { // one after the other
							b.coo(zz.Pick(ep.Rng, getters), 1)
						}
						for _, f := range []string{"Z", "Y"} {
							b.set(1, p, style)
							b.normalize(f, 1)
							b.normalize(f, 1)
							b.coo(zz.Pick(ep.Rng, getters), 1)
							b.normalize("Z", 1)
						}
						b.set(1, p, style)
						b.mapFE(1)
					}
				}
			})
		}
	}
	for _, t := range typeNames {
		for n := 0; n <= 4; n++ { // every pattern of normalizable / not normalizable entries
			pats := 1
			for i := 0; i < n; i++ {
				pats *= 4
			}
			for pat := 0; pat < pats; pat++ {
				if n == 4 && !r.Thorough() && pat%5 != 0 {
					continue
				}
				r.Episode(fmt.Sprintf("batch-%s-%d-%d", t, n, pat), func(ep *zz.Ep) {
					q := pat
					batchEpisode(ep, t, n, func(i int) int { k := q % 4; q /= 4; return k })
				})
			}
		}
		r.Repeat("batch-"+t, r.Scale(6, 60), func(ep *zz.Ep, i int) {
			n := 5 + ep.Rng.Intn(12)
			bias := ep.Rng.Intn(5)
			batchEpisode(ep, t, n, func(int) int {
				if ep.Rng.Intn(4) < bias {
					return 0
				}
				return ep.Rng.Intn(4)
			})
		})
	}
	walks(r)
}

func batchEpisode(ep *zz.Ep, t string, n int, kind func(i int) int) {
	if n == 0 {
		n = 0
	}
	types := make([]string, n)
	for i := range types {
		types[i] = t
	}
	vals := make([]pv, n)
	styles := make([]int, n)
	objs := make([]obj, n)
	b := newBank(ep, types...)
	defer b.done()
	shared := randSub(ep.Rng)
	for i := range vals {
		switch kind(i) {
		case 0:
			vals[i] = shared
			if ep.Rng.Intn(3) > 0 {
				vals[i] = padd(randSub(ep.Rng), zz.Pick(ep.Rng, []pv{pN, pA, pE1}))
			}
			if isSub(t) && !inSub(vals[i]) {
				vals[i] = padd(shared, shared)
			}
		case 1:
			vals[i] = pNaP
		case 2:
			vals[i] = zz.Pick(ep.Rng, []pv{pE1, pE2})
			if !canInf(t) {
				vals[i] = pN
			}
		default:
			vals[i] = zz.Pick(ep.Rng, []pv{pN, pA})
			if isSub(t) {
				vals[i] = pN
			}
		}
		styles[i] = ep.Rng.Intn(nStyles)
		if vals[i].k == "nap" && ep.Rng.Intn(3) == 0 {
			styles[i] = 0
		}
	}
	f := zz.Pick(ep.Rng, []string{"Z", "Y"})
	b.handler(zz.Pick(ep.Rng, []string{"false", "true"}))
	for i := range vals {
		objs[i] = mkObj(ep.Rng, t, vals[i], styles[i])
	}
	var slice cp.CurvePointSlice
	ptr := func(i int) obj { return nil }
	switch t {
	case "xf":
		s := fill[cp.Point_xtw_full](objs)
		slice, ptr = cp.AsCurvePointSlice[cp.Point_xtw_full](s), func(i int) obj { return &s[i] }
	case "xs":
		s := fill[cp.Point_xtw_subgroup](objs)
		slice, ptr = cp.AsCurvePointSlice[cp.Point_xtw_subgroup](s), func(i int) obj { return &s[i] }
	case "af":
		s := fill[cp.Point_axtw_full](objs)
		slice, ptr = cp.AsCurvePointSlice[cp.Point_axtw_full](s), func(i int) obj { return &s[i] }
	case "as":
		s := fill[cp.Point_axtw_subgroup](objs)
		slice, ptr = cp.AsCurvePointSlice[cp.Point_axtw_subgroup](s), func(i int) obj { return &s[i] }
	case "ef":
		s := fill[cp.Point_efgh_full](objs)
		slice, ptr = cp.AsCurvePointSlice[cp.Point_efgh_full](s), func(i int) obj { return &s[i] }
	case "es":
		s := fill[cp.Point_efgh_subgroup](objs)
		slice, ptr = cp.AsCurvePointSlice[cp.Point_efgh_subgroup](s), func(i int) obj { return &s[i] }
	}
	xs := make([]int, n)
	fine := slice.Len() == n
	gen := cp.GenericPointSlice{}
	for i := range vals {
		b.o[i] = ptr(i)
		xs[i] = i + 1
		fine = fine && slice.GetByIndex(i) == ptr(i)
		gen = append(gen, ptr(i))
	}
	ptrs := cp.AsCurvePointPtrSlice([]obj(gen))
	fine = fine && gen.Len() == n && ptrs.Len() == n
	for i := range vals {
		fine = fine && gen.GetByIndex(i) == ptr(i) && ptrs.GetByIndex(i) == ptr(i) && ptrs.GetByIndexTyped(i) == ptr(i)
	}
	ep.Log("Fine", M{"fine": fine, "what": "slice views"})
	for i := range vals {
		b.ep.Log("mk", M{"z": i + 1, "v": vals[i].log(), "style": styles[i], "raw": b.raws()[:i+1]})
	}
	run := func(g func() []int) {
		b.do("Batch", M{"f": f, "xs": xs, "idx": []int{}, "isnil": false}, func(m M) {
			r := g()
			m["isnil"] = r == nil
			if r != nil {
				m["idx"] = r
			}
		})
	}
	for k := 0; k < 2; k++ {
		if f == "Z" {
			if n, ok := slice.(cp.BatchNormalizerForZ); ok {
				run(n.BatchNormalizeForZ)
			}
		} else if n, ok := slice.(cp.BatchNormalizerForY); ok {
			run(n.BatchNormalizeForY)
		}
		if f == "Z" {
			f = "Y"
		} else {
			f = "Z"
		}
	}
}

func fill[T any, PT interface {
	*T
	obj
}](objs []obj) []T {
	s := make([]T, len(objs))
	for i, o := range objs {
		s[i] = *(o.(PT))
	}
	return s
}

// ---- conversions
func suiteG06(r *zz.Run) {
	for _, t1 := range allNames {
		for _, t2 := range allNames {
			if isForeign(t1) && isForeign(t2) && !r.Thorough() {
				continue
			}
			for j := 0; j < r.Scale(1, 5); j++ {
				r.Episode(fmt.Sprintf("convert-%s-%s-%d", t1, t2, j), func(ep *zz.Ep) {
					b := newBank(ep, t1, t2, t2)
					defer b.done()
					if ep.Rng.Intn(2) == 0 {
						b.handler("false")
					}
					s := randSub(ep.Rng)
					b.set(1, b.any(1), 1)
					b.set(3, b.any(3), 2)
					pts := append(kinds(t2, s, randSub(ep.Rng)), pNaP)
					if !isSub(t2) {
						pts = append(pts, randFull(ep.Rng), randFull(ep.Rng))
					}
					for _, p := range pts {
						for style := 0; style < nStyles; style += 1 + ep.Rng.Intn(3) {
							b.set(2, p, style)
							b.move("SetFrom", 1, 2, 0, b.any(1))
							b.set(1, b.any(1), ep.Rng.Intn(nStyles))
							b.setSub(1, 2, false)
							if inSub(p) {
								b.set(1, b.any(1), ep.Rng.Intn(nStyles))
								b.setSub(1, 2, true)
							}
							b.set(1, b.any(1), ep.Rng.Intn(nStyles))
							b.clone(3, 2)
							b.move("NegEq", 3, 0, 0, b.any(3)) // the clone is independent of the original
							b.clone(3, 2)
							b.move("DoubleEq", 2, 0, 0, b.any(2))
							if t1 == t2 {
								b.set(1, p, style)
								b.move("SetFrom", 1, 1, 0, b.any(1))
								b.setSub(1, 1, false)
							}
						}
					}
				})
			}
		}
	}
	r.Episode("nilpointers", func(ep *zz.Ep) {
		newBank(ep).done()
		chk := func(what string, want bool, f func() bool) {
			ok := false
			p, _ := zz.Try(func() { ok = f() == want })
			ep.Log("Fine", M{"fine": !p && ok, "what": what})
		}
		chk("zero xf", true, (&cp.Point_xtw_full{}).CanRepresentInfinity)
		chk("zero ef", true, (&cp.Point_efgh_full{}).CanRepresentInfinity)
		chk("zero af", false, (&cp.Point_axtw_full{}).CanRepresentInfinity)
		chk("zero xs", false, (&cp.Point_xtw_subgroup{}).CanRepresentInfinity)
		chk("zero es", false, (&cp.Point_efgh_subgroup{}).CanRepresentInfinity)
		chk("zero as", false, (&cp.Point_axtw_subgroup{}).CanRepresentInfinity)
	})
	walks(r)
}

func suiteG07(r *zz.Run) {
	for _, t1 := range allNames {
		for _, t2 := range allNames {
			if isForeign(t1) && isForeign(t2) && !r.Thorough() {
				continue
			}
			for j := 0; j < r.Scale(1, 4); j++ {
				r.Episode(fmt.Sprintf("endo-%s-%s-%d", t1, t2, j), func(ep *zz.Ep) {
					b := newBank(ep, t1, t2)
					defer b.done()
					s := randSub(ep.Rng)
					b.set(1, b.any(1), 1)
					for _, q := range append(kinds(t2, s, randSub(ep.Rng)), b.any(2)) {
						for style := 0; style < nStyles; style++ {
							b.set(2, q, style)
							b.move("Endo", 1, 2, 0, b.any(1))
							if t1 == t2 {
								b.move("EndoEq", 2, 0, 0, b.any(2))
								b.move("EndoEq", 2, 0, 0, b.any(2))
								b.set(2, q, style)
								b.move("Endo", 2, 2, 0, b.any(2))
							}
						}
					}
				})
			}
		}
	}
	r.Repeat("eigenvalue", r.Scale(4, 20), func(ep *zz.Ep, i int) {
		t := zz.Pick(ep.Rng, subNames)
		b := newBank(ep, t)
		defer b.done()
		b.set(1, randSub(ep.Rng), 0)
		b.do("Eigen", M{"x": 1}, func(m M) { m["lam"] = zz.Hex(common.EndomorphismEigenvalue_Int) })
		b.move("EndoEq", 1, 0, 0, pN)
	})
	walks(r)
}
