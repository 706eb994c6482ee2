//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// Parts of the package that are not exported; filled by a program compiled into the package.
type formula struct {
	letters string
	op      string
	safe    bool
	call    func(z, x, y any, n *big.Int)
}

var formulas = map[string]formula{}
var torsion func(p any, k string) bool
var flip func(p any) bool
var rerandom, sample func(p any, rnd *rand.Rand) bool
var sampleNaP func(p any, rnd *rand.Rand, index int) bool

var fullOf = map[byte]string{'t': "xf", 'a': "af", 's': "ef"}

// inner runs an internal operation on register z; f reports whether the type provides it
func (b *bank) inner(op string, z int, m M, f func(o any) bool) string {
	m["z"], m["x"] = z, z
	m["before"] = rawOf(b.at(z))
	m["has"] = false
	return b.do(op, m, func(m M) { m["has"] = f(b.at(z)) })
}

// formula on registers x, y; the receiver is a fresh object, one with an old value, or one of the operands
func (b *bank) formula(name string, x, y, recv int, n *big.Int) {
	f := formulas[name]
	obs := []obj{b.at(x).Clone().(obj), b.at(y).Clone().(obj)}
	if len(f.letters) < 3 || x == y && b.rng.Intn(2) == 0 {
		obs[1] = obs[0]
	}
	zt := fullOf[f.letters[0]]
	z := newObj(zt)
	switch {
	case recv == 1:
		z = mkObj(b.rng, zt, randFull(b.rng), b.rng.Intn(nStyles))
	case recv == 2 && zt == typeOf(obs[0]):
		z = obs[0]
	case recv == 3 && zt == typeOf(obs[1]):
		z = obs[1]
	}
	nb := new(big.Int).Abs(n)
	m := M{"f": f.op, "name": name, "safe": f.safe, "x": x, "y": y, "n": zz.Hex(nb), "neg": n.Sign() < 0, "c": []string{"0", "0", "0", "0"}, "kept": true}
	b.do("Formula", m, func(m M) {
		raw := []any{rawOf(obs[0]), rawOf(obs[1])}
		f.call(z, obs[0], obs[1], n)
		m["c"] = rawOf(z)
		for i := range obs {
			if obs[i] != z && fmt.Sprint(rawOf(obs[i])) != fmt.Sprint(raw[i]) {
				m["kept"] = false
			}
		}
	})
}

func suiteG09(r *zz.Run) {
	types := []string{"xf", "xs", "af", "as", "ef", "es"}
	// sampling: also the two exported functions
	r.Repeat("sample", r.Scale(40, 400), func(ep *zz.Ep, i int) {
		b := newBank(ep, types...)
		defer b.done()
		seed := ep.Rng.Int63()
		for k := 0; k < 2; k++ {
			rnd := rand.New(rand.NewSource(seed))
			b.inner("Sampled", 1, M{"n": k}, func(any) bool {
				p := cp.MakeRandomPointUnsafe_xtw_full(rnd)
				b.o[0] = &p
				return true
			})
			b.inner("Sampled", 2, M{"n": k}, func(any) bool {
				p := cp.MakeRandomPointUnsafe_xtw_subgroup(rnd)
				b.o[1] = &p
				return true
			})
		}
		if sample == nil {
			return
		}
		for k := 0; k < 2; k++ {
			for z := 1; z <= 6; z++ {
				b.inner("Sampled", z, M{"n": 0}, func(o any) bool { return sample(o, ep.Rng) })
				b.ask("Validate", z, z, false)
				b.ask("IsInSubgroup", z, z, false)
			}
			for z := 1; z <= 6; z++ {
				b.inner("SampledNaP", z, M{"n": 0}, func(o any) bool { return sampleNaP(o, ep.Rng, i*6+z+k) })
				b.ask("IsNaP", z, z, false)
			}
		}
	})
	if sample == nil {
		return
	}
	r.Repeat("torsion", r.Scale(40, 500), func(ep *zz.Ep, i int) {
		full := []string{"xf", "af", "ef"}
		b := newBank(ep, full...)
		defer b.done()
		s, rr := randSub(ep.Rng), randFull(ep.Rng)
		for z, t := range full {
			for _, v := range kinds(t, s, rr) {
				b.set(z+1, v, ep.Rng.Intn(nStyles))
				for _, k := range zz.Pick(ep.Rng, [][]string{{"A", "E1", "E2"}, {"E1", "A", "E1"}, {"E2", "E2", "A"}, {"E1", "E2", "A"}, {"A", "A", "E2"}}) {
					out := b.inner("Torsion", z+1, M{"k": k}, func(o any) bool { return torsion(o, k) })
					if out == "panic" {
						b.set(z+1, v, ep.Rng.Intn(nStyles))
					}
				}
			}
		}
	})
	r.Repeat("redo", r.Scale(40, 500), func(ep *zz.Ep, i int) {
		b := newBank(ep, types...)
		defer b.done()
		s := randSub(ep.Rng)
		for z, t := range types {
			for _, v := range kinds(t, s, b.any(z+1)) {
				b.set(z+1, v, ep.Rng.Intn(nStyles))
				for k := 0; k < 3; k++ {
					b.inner("Rerandomize", z+1, M{}, func(o any) bool { return rerandom(o, ep.Rng) })
				}
				b.inner("Flip", z+1, M{}, func(o any) bool { return flip(o) })
				b.inner("Rerandomize", z+1, M{}, func(o any) bool { return rerandom(o, ep.Rng) })
				b.ask(zz.Pick(ep.Rng, []string{"IsNeutralElement", "Validate", "IsInSubgroup"}), z+1, z+1, false)
			}
		}
	})
	var names []string
	for n := range formulas {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		f := formulas[name]
		xt := fullOf[f.letters[1]]
		yt := xt
		if len(f.letters) > 2 {
			yt = fullOf[f.letters[2]]
		}
		r.Repeat("formula-"+name, r.Scale(2, 20), func(ep *zz.Ep, i int) {
			b := newBank(ep, xt, yt)
			defer b.done()
			s, rr := randSub(ep.Rng), randFull(ep.Rng)
			for _, v := range kinds(xt, s, rr) {
				b.set(1, v, ep.Rng.Intn(nStyles))
				if len(f.letters) == 2 {
					n := big.NewInt(int64(ep.Rng.Intn(70) - 35))
					if f.op == "Times" {
						b.set(1, zz.Pick(ep.Rng, []pv{s, randSub(ep.Rng)}), ep.Rng.Intn(nStyles))
						if ep.Rng.Intn(2) == 0 {
							n = zz.RandBig(ep.Rng, new(big.Int).Lsh(big.NewInt(1), uint(ep.Rng.Intn(60))))
							n.Sub(n, big.NewInt(int64(ep.Rng.Intn(100))))
						}
					}
					for recv := 0; recv < 3; recv++ {
						b.formula(name, 1, 1, recv, n)
					}
					continue
				}
				for _, w := range kinds(yt, s, rr) {
					b.set(2, w, ep.Rng.Intn(nStyles))
					b.formula(name, 1, 2, ep.Rng.Intn(4), new(big.Int))
				}
				if xt == yt {
					b.formula(name, 1, 1, ep.Rng.Intn(4), new(big.Int))
				}
			}
		})
	}
}
