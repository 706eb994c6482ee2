//go:build go1.22

package main

import (
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// Arithmetic used to announce which point an object is meant to hold; the specification judges the announcements.

func hx(s string) *big.Int { return zz.FromHex(s) }

var P = hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
var cA = mod(big.NewInt(-5))
var cD = hx("6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7")
var cR, _ = new(big.Int).SetString("37446463827641770816307242315180085052603635617490163568005256780843403514038", 10)
var zero, one = big.NewInt(0), big.NewInt(1)

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, P) }
func mul(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
		r.Mod(r, P)
	}
	return r
}
func sum(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return r.Mod(r, P)
}
func neg(x *big.Int) *big.Int { return mod(new(big.Int).Neg(x)) }
func inv(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, P) }
func sqrt(x *big.Int) *big.Int {
	return new(big.Int).ModSqrt(mod(x), P)
}
func sign(x *big.Int) int {
	if x.Sign() == 0 {
		return 0
	}
	if new(big.Int).Lsh(x, 1).Cmp(P) < 0 {
		return 1
	}
	return -1
}

type pv struct {
	k    string
	x, y *big.Int
}

func aff(x, y *big.Int) pv { return pv{"aff", mod(x), mod(y)} }

var pN = aff(zero, one)
var pA = aff(zero, big.NewInt(-1))
var pE1 = pv{"E1", zero, zero}
var pE2 = pv{"E2", zero, zero}
var pNaP = pv{"nap", zero, zero}

func (p pv) log() M { return M{"k": p.k, "x": zz.Hex(p.x), "y": zz.Hex(p.y)} }
func (p pv) same(q pv) bool {
	return p.k == q.k && p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0
}

func (p pv) proj() [4]*big.Int {
	switch p.k {
	case "E1":
		return [4]*big.Int{cR, zero, one, zero}
	case "E2":
		return [4]*big.Int{neg(cR), zero, one, zero}
	}
	return [4]*big.Int{p.x, p.y, mul(p.x, p.y), one}
}

func padd(p, q pv) pv {
	if p.k == "nap" || q.k == "nap" {
		return pNaP
	}
	a, b := p.proj(), q.proj()
	e := sum(mul(a[0], b[1]), mul(a[1], b[0]))
	f := sum(mul(a[3], b[3]), neg(mul(cD, a[2], b[2])))
	g := sum(mul(a[3], b[3]), mul(cD, a[2], b[2]))
	h := sum(mul(a[1], b[1]), neg(mul(cA, a[0], b[0])))
	if mul(e, f).Sign() == 0 && mul(g, h).Sign() == 0 {
		e = sum(mul(a[3], b[2]), mul(a[2], b[3]))
		g = sum(mul(a[1], b[1]), mul(cA, a[0], b[0]))
		f = sum(mul(a[1], b[0]), neg(mul(a[0], b[1])))
		h = sum(mul(a[3], b[2]), neg(mul(a[2], b[3])))
	}
	x, y, t, z := mul(e, f), mul(g, h), mul(e, h), mul(f, g)
	if z.Sign() != 0 {
		i := inv(z)
		return aff(mul(x, i), mul(y, i))
	}
	if x.Cmp(mul(cR, t)) == 0 {
		return pE1
	}
	return pE2
}

func pneg(p pv) pv {
	if p.k == "aff" {
		return aff(neg(p.x), p.y)
	}
	return p
}

// y with (x,y) on the curve, or nil
func yFor(x *big.Int) *big.Int {
	x2 := mul(x, x)
	return sqrt(mul(sum(one, neg(mul(cA, x2))), inv(sum(one, neg(mul(cD, x2))))))
}

func xFor(y *big.Int) *big.Int {
	y2 := mul(y, y)
	den := sum(mul(cD, y2), neg(cA))
	if den.Sign() == 0 {
		return nil
	}
	return sqrt(mul(sum(y2, neg(one)), inv(den)))
}

func chi(x *big.Int) int { return big.Jacobi(mod(x), P) }

func inSub(p pv) bool {
	if p.k != "aff" {
		return false
	}
	if chi(sum(one, neg(mul(cA, p.x, p.x)))) != 1 {
		return false
	}
	return chi(mul(sum(one, neg(p.y)), sum(one, neg(mul(cR, p.y))))) <= 0
}

func randFull(rng *rand.Rand) pv {
	for {
		x := zz.RandBig(rng, P)
		if rng.Intn(4) == 0 {
			x = mod(zz.RandLimbs(rng, 1+rng.Intn(4)))
		}
		if y := yFor(x); y != nil && x.Sign() != 0 {
			if rng.Intn(2) == 0 {
				y = neg(y)
			}
			return aff(x, y)
		}
	}
}

func randSub(rng *rand.Rand) pv {
	p := randFull(rng)
	p = padd(p, p)
	if rng.Intn(2) == 0 {
		p = padd(p, p)
	}
	return p
}
