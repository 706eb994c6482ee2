//go:build go1.22

package main

import (
	"fmt"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// a reduced basis of the lattice of (u,v) with u + v*lambda = 0 mod p
var b1 = [2]*big.Int{mustDec("113482231691339203864511368254957623327"), mustDec("10741319382058138887739339959866629956")}
var b2 = [2]*big.Int{mustDec("-21482638764116277775478679919733259912"), mustDec("113482231691339203864511368254957623327")}

func mustDec(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return x
}

var lambda = exponents.EndomorphismEigenvalue_Int

// the exponent represented by (u,v)
func fromUV(u, v *big.Int) *big.Int {
	t := new(big.Int).Mul(v, lambda)
	t.Add(t, u)
	return t.Mod(t, P)
}

func glvEvent(ep *zz.Ep, t *big.Int) {
	e := mk(t)
	before := zz.Hex(t)
	g := exponents.GLV_representation(e)
	u, v := g.U.ToBigInt(), g.V.ToBigInt()
	ep.Log("GLV", M{"t": before, "u": zz.Hex(u), "v": zz.Hex(v), "after": zz.Hex(e.ToBigInt_Full()),
		"su": g.U.Sign(), "sv": g.V.Sign()})
}

func suiteE02(r *zz.Run) {
	put := func(name string, ts []*big.Int) {
		for i := 0; i < len(ts); i += 50 {
			j := i + 50
			if j > len(ts) {
				j = len(ts)
			}
			r.Episode(fmt.Sprintf("%s-%d", name, i), func(ep *zz.Ep) {
				for _, t := range ts[i:j] {
					glvEvent(ep, t)
					t2 := new(big.Int).Add(t, P)
					if t2.Cmp(P2) < 0 {
						glvEvent(ep, t2)
					}
				}
			})
		}
	}
	put("edge", edgeVals)
	// grid over the fundamental cell of the lattice: (i/n) b1 + (j/n) b2 with small displacements
	n := int64(r.Scale(24, 80))
	var ts []*big.Int
	for i := int64(0); i <= n; i++ {
		for j := int64(0); j <= n; j++ {
			u := new(big.Int)
			v := new(big.Int)
			for k, out := range []*big.Int{u, v} {
				t1 := new(big.Int).Mul(b1[k], big.NewInt(i))
				t2 := new(big.Int).Mul(b2[k], big.NewInt(j))
				t1.Add(t1, t2)
				out.Div(t1, big.NewInt(n))
			}
			for _, d := range [][2]int64{{0, 0}, {1, 0}, {-1, 1}} {
				ts = append(ts, fromUV(add(u, d[0]), add(v, d[1])))
			}
		}
	}
	put("grid", ts)
	// corners and edges of the infinity-norm Voronoi cell: vectors with |u| or |v| at the bound, and near it
	bound := mustDec("62111775536698671376125354107412126641")
	ts = nil
	for _, d := range []int64{-2, -1, 0, 1, 2} {
		for _, s := range []int64{1, -1} {
			c := new(big.Int).Mul(add(bound, d), big.NewInt(s))
			for k := int64(-20); k <= 20; k++ {
				w := new(big.Int).Mul(bound, big.NewInt(k))
				w.Div(w, big.NewInt(20))
				ts = append(ts, fromUV(c, w), fromUV(w, c))
			}
		}
	}
	// bisectors in the infinity norm between neighbours of the origin
	sum := [2]*big.Int{new(big.Int).Add(b1[0], b2[0]), new(big.Int).Add(b1[1], b2[1])}
	for _, b := range [][2]*big.Int{b1, b2, sum} {
		for s := int64(-30); s <= 30; s++ {
			for coord := 0; coord < 2; coord++ {
				h := new(big.Int).Rsh(b[coord], 1)
				o := new(big.Int).Mul(bound, big.NewInt(s))
				o.Div(o, big.NewInt(30))
				for d := int64(-1); d <= 2; d++ {
					if coord == 0 {
						ts = append(ts, fromUV(add(h, d), o))
					} else {
						ts = append(ts, fromUV(o, add(h, d)))
					}
				}
			}
		}
	}
	put("border", ts)
	r.Repeat("rand", r.Scale(300, 6000), func(ep *zz.Ep, i int) {
		for k := 0; k < 10; k++ {
			if k%2 == 0 {
				glvEvent(ep, randVal(ep.Rng))
			} else {
				u := zz.RandBig(ep.Rng, new(big.Int).Lsh(bound, 1))
				v := zz.RandBig(ep.Rng, new(big.Int).Lsh(bound, 1))
				glvEvent(ep, fromUV(u.Sub(u, bound), v.Sub(v, bound)))
			}
		}
	})
}
