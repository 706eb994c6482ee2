//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// Further algorithms for operations of the wide machine, by operation and name.  A program that is compiled into the
// package adds the ones that are not exported.
type altImpl func(z, x, y, e *U256)

var alts = map[string]map[string]altImpl{
	"RedA": {"Reduce": func(z, x, y, e *U256) { z.Reduce() }, "Reduce_fa": func(z, x, y, e *U256) { z.Reduce_fa() }},
	"FromM": {"FromMontgomery": func(z, x, y, e *U256) { z.FromMontgomeryRepresentation_fc(x) },
		"ToNonMontgomery": func(z, x, y, e *U256) { t := x.ToNonMontgomery_fc(); *z = t }},
	"MulM": {"exported": func(z, x, y, e *U256) { z.MulMontgomery_c(x, y) }},
	"ExpM": {"exported": func(z, x, y, e *U256) { z.ModularExponentiationMontgomery_fa(x, e) }},
}
var altLimb func(x *U256, y uint64) (low uint64, high U256)
var altModulus func(m U256) (re [5]uint64, mmu0, mmu1 [4]uint64, back U256)
var altOrder = map[string]func(v *big.Int) int{}
var altReduced func(x *U256) bool

func (m *wide) alt(op string, zi, xi, yi int, exp *big.Int) {
	var names []string
	for n := range alts[op] {
		names = append(names, n)
	}
	sort.Strings(names)
	start := m.u[zi-1]
	for _, n := range names {
		m.u[zi-1] = start
		m.log("Reset", M{"z": zi, "v": hex256(start)})
		if modEq[op] {
			xi = zi
		}
		if !m.admissible(op, xi, yi) {
			return
		}
		ev := M{"z": zi, "x": xi, "alg": n}
		if modTwo[op] {
			ev["y"] = yi
		}
		var w U256
		if exp != nil {
			w = u256(exp)
			ev["v"] = hex256(w)
		}
		alts[op][n](&m.u[zi-1], &m.u[xi-1], &m.u[yi-1], &w)
		if exp != nil && hex256(w) != ev["v"] {
			ev["v"] = "exponent changed"
		}
		m.log(op, ev)
	}
}

func limbs(xs ...uint64) string {
	v := new(big.Int)
	for i := len(xs) - 1; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(xs[i]))
	}
	return zz.Hex(v)
}

func (m *wide) modulus(v *big.Int) {
	if altModulus == nil {
		return
	}
	ev := M{"v": zz.Hex(v)}
	ev["out"] = zz.Outcome(func() {
		re, a, b, back := altModulus(u256(v))
		ev["re"], ev["lo"], ev["hi"], ev["back"] = limbs(re[:]...), limbs(a[:]...), limbs(b[:]...), hex256(back)
	})
	m.log("Modulus", ev)
}

// a source that delivers crafted words first
type words struct {
	ws []uint64
	s  rand.Source64
}

func (w *words) Seed(int64)   {}
func (w *words) Int63() int64 { return int64(w.Uint64() >> 1) }
func (w *words) Uint64() uint64 {
	if len(w.ws) > 0 {
		x := w.ws[0]
		w.ws = w.ws[1:]
		return x
	}
	return w.s.Uint64()
}

type sampler struct {
	nonzero bool
	ref     bool // type of the element
	f       func(rnd *rand.Rand) *big.Int
}

var samplers = map[string]sampler{
	"Create": {false, false, func(r *rand.Rand) *big.Int {
		x := fe.CreateRandomFieldElement_Unsafe[fe.FieldElement](r)
		return x.ToBigInt()
	}},
	"CreateNonZero": {true, false, func(r *rand.Rand) *big.Int {
		x := fe.CreateRandomNonZeroFieldElement_Unsafe[fe.FieldElement](r)
		return x.ToBigInt()
	}},
	"Set":        {false, false, func(r *rand.Rand) *big.Int { var x fe.FieldElement; x.SetRandomUnsafe(r); return x.ToBigInt() }},
	"SetNonZero": {true, false, func(r *rand.Rand) *big.Int { var x fe.FieldElement; x.SetRandomUnsafeNonZero(r); return x.ToBigInt() }},
}

func (m *wide) sample(name string, s sampler, crafted []uint64, seed int64) {
	mk := func() *rand.Rand {
		return rand.New(&words{append([]uint64{}, crafted...), rand.NewSource(seed).(rand.Source64)})
	}
	r1, r2 := mk(), mk()
	ev := M{"fn": name, "nonzero": s.nonzero}
	ev["out"] = zz.Outcome(func() {
		ev["val"] = zz.Hex(s.f(r1))
		ev["again"] = zz.Hex(s.f(r2))
		ev["more"] = zz.Hex(s.f(r1))
	})
	ev["same"] = ev["val"] == ev["again"]
	// the other type of field elements must give the same value and use as much randomness
	ev["peer"] = true
	for n, o := range samplers {
		if n == name+"Ref" {
			r3, r4 := mk(), mk()
			a := o.f(r3)
			s.f(r4)
			ev["peer"] = zz.Hex(a) == ev["val"] && r3.Uint64() == r4.Uint64()
		}
	}
	m.log("Sample", ev)
}

func suiteF10(r *zz.Run) {
	ops := []string{"RedA", "RedFB", "MulM", "AddB", "AddCc", "FromM"}
	all := func(m *wide, ep *zz.Ep, z, x, y int) {
		for _, op := range ops {
			m.alt(op, z, x, y, nil)
		}
		for _, i := range []int{x, y} {
			if altReduced != nil {
				m.log("Below", M{"x": i, "got": altReduced(&m.u[i-1])})
			}
			if altLimb != nil {
				w := zz.RandLimbs(ep.Rng, 1).Uint64()
				lo, hi := altLimb(&m.u[i-1], w)
				m.log("MulL", M{"x": i, "v": zz.HexU64(w), "ret": limbs(lo, hi[0], hi[1], hi[2], hi[3]), "out": "ok"})
			}
		}
	}
	for i, a := range edgeRaw {
		for j, b := range edgeRaw {
			if !r.Thorough() && (i+2*j)%4 != int(r.Seed)&3 && i != j {
				continue
			}
			r.Episode(fmt.Sprintf("pair-%d-%d", i, j), func(ep *zz.Ep) {
				all(startWide(ep, a, b, a), ep, 3, 1, 2)
			})
		}
	}
	r.Repeat("border", r.Scale(800, 12000), func(ep *zz.Ep, i int) {
		a := rand256(ep.Rng)
		t := zz.Pick(ep.Rng, []*big.Int{R, P, P2, C, big.NewInt(0), new(big.Int).Add(P2, P), new(big.Int).Add(R, P), new(big.Int).Add(R, P2)})
		b := new(big.Int).Sub(t, a)
		if ep.Rng.Intn(2) == 0 {
			b = new(big.Int).Sub(a, t)
		}
		b = add(b, int64(ep.Rng.Intn(7)-3))
		if ep.Rng.Intn(3) == 0 {
			b.Add(b, new(big.Int).Lsh(big.NewInt(1), uint(64*ep.Rng.Intn(4))))
		}
		b.Mod(b, R)
		m := startWide(ep, a, b, zz.Pick(ep.Rng, []*big.Int{a, b, P, P2}))
		all(m, ep, 3, 1, 2)
		all(m, ep, 1+ep.Rng.Intn(3), 1+ep.Rng.Intn(3), 1+ep.Rng.Intn(3))
	})
	r.Repeat("exp", r.Scale(200, 4000), func(ep *zz.Ep, i int) {
		m := startWide(ep, rand256(ep.Rng), zz.Pick(ep.Rng, []*big.Int{big.NewInt(0), P, P2, C, add(C, -1), add(R, -1)}), rand256(ep.Rng))
		for k := 0; k < 3; k++ {
			e := expEdges(ep.Rng)
			if ep.Rng.Intn(3) == 0 { // short exponents, where the width of the window changes
				e = zz.RandBig(ep.Rng, new(big.Int).Lsh(big.NewInt(1), uint(1+ep.Rng.Intn(90))))
			}
			m.alt("ExpM", 1+ep.Rng.Intn(3), 1+ep.Rng.Intn(3), 1, e)
		}
	})
	r.Repeat("modulus", r.Scale(300, 6000), func(ep *zz.Ep, i int) {
		m := startWide(ep, P)
		m.modulus(P)
		for k := 0; k < 6; k++ {
			switch ep.Rng.Intn(6) {
			case 0:
				m.modulus(new(big.Int).Lsh(big.NewInt(1), uint(ep.Rng.Intn(256))))
			case 1:
				v := new(big.Int).Lsh(big.NewInt(1), uint(192+ep.Rng.Intn(64)))
				v.Add(v, big.NewInt(int64(ep.Rng.Intn(5)-2)))
				m.modulus(v)
			case 2:
				m.modulus(zz.RandLimbs(ep.Rng, 4))
			case 3:
				m.modulus(zz.RandLimbs(ep.Rng, 3))
			case 4:
				v := new(big.Int).Lsh(big.NewInt(1), uint(193+ep.Rng.Intn(64)))
				v.Sub(v, big.NewInt(1))
				m.modulus(v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(ep.Rng.Intn(193)))))
			default:
				m.modulus(rand256(ep.Rng))
			}
		}
	})
	r.Repeat("order", r.Scale(60, 600), func(ep *zz.Ep, i int) {
		m := startWide(ep, P)
		var ns []string
		for n := range altOrder {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		odd := new(big.Int).Rsh(add(P, -1), 32)
		g := new(big.Int).Exp(big.NewInt(5), odd, P) // 5 is no square
		for k := i % 33; k <= 32; k += 1 + ep.Rng.Intn(9) {
			e := new(big.Int).SetUint64(ep.Rng.Uint64()>>33<<1 | 1)
			v := new(big.Int).Exp(g, e.Lsh(e, uint(32-k)), P)
			for _, n := range ns {
				ev := M{"v": zz.Hex(v), "alg": n, "ret": -2}
				ev["out"] = zz.Outcome(func() { ev["ret"] = altOrder[n](v) })
				m.log("Order", ev)
			}
		}
		for _, n := range ns {
			ev := M{"v": "0", "alg": n, "ret": -2}
			ev["out"] = zz.Outcome(func() { ev["ret"] = altOrder[n](big.NewInt(0)) })
			m.log("Order", ev)
		}
	})
	r.Repeat("sample", r.Scale(150, 3000), func(ep *zz.Ep, i int) {
		m := startWide(ep, P)
		var ns []string
		for n := range samplers {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		// how math/big consumes the words is not fixed: zeros first, all ones, or nothing special
		var ws []uint64
		for k := ep.Rng.Intn(3) * (1 + ep.Rng.Intn(40)); k > 0; k-- {
			switch i % 3 {
			case 0:
				ws = append(ws, 0)
			case 1:
				ws = append(ws, ^uint64(0))
			default:
				ws = append(ws, ep.Rng.Uint64())
			}
		}
		seed := ep.Rng.Int63()
		for _, n := range ns {
			m.sample(n, samplers[n], ws, seed)
		}
	})
}
