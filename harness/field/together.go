//go:build go1.22

package main

import (
	"math/big"
	"math/rand"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// ---- the same, at the same time

func suiteP01fe(r *zz.Run) {
	one := mkVal(big.NewInt(1), false)
	rng := rand.New(rand.NewSource(r.Seed))
	sharedFE = []FE{fe.FieldElementZero, one, fe.FieldElementMinusOne, mkVal(big.NewInt(5), false), randFE(rng), randFE(rng)}
	for i := range sharedFE {
		sharedFE[i].Normalize()
	}
	r.Together(r.Scale(600, 9000), 6, suiteF01, suiteF02, suiteF03, suiteF04, suiteF08fe, suiteShared)
}

// own registers 1..3, then the shared ones
func suiteShared(r *zz.Run) {
	r.Repeat("shared", r.Scale(200, 2000), func(ep *zz.Ep, i int) {
		regs := startFE(ep, []FE{randFE(ep.Rng), randFE(ep.Rng), randFE(ep.Rng)})
		n := 3 + len(sharedFE)
		any := func() int { return 1 + ep.Rng.Intn(n) }
		for k := 0; k < 12; k++ {
			switch ep.Rng.Intn(8) {
			case 0:
				viewFE(ep, regs, any())
			case 1:
				cmpFE(ep, regs, any(), any(), k)
			case 2:
				applyFE(ep, regs, opRec{Op: "Sqrt", Z: 1 + ep.Rng.Intn(3), X: any()})
			case 3:
				applyFE(ep, regs, opRec{Op: zz.Pick(ep.Rng, []string{"ProdMany", "SumMany"}), Z: 1 + ep.Rng.Intn(3), Args: []int{any(), any(), any()}})
			case 4:
				applyFE(ep, regs, opRec{Op: "Exp", Z: 1 + ep.Rng.Intn(3), X: any(), V: zz.Hex(zz.RandLimbs(ep.Rng, 4))})
			default:
				o := randArith(ep.Rng, 3)
				if o.X > 0 {
					o.X = any()
				}
				if o.Y > 0 {
					o.Y = any()
				}
				applyFE(ep, regs, o)
			}
		}
	})
}

func suiteP01ser(r *zz.Run)  { r.Together(r.Scale(180, 3000), 6, suiteF05) }
func suiteP01wide(r *zz.Run) { r.Together(r.Scale(450, 6000), 6, suiteF06, suiteF07, suiteF08) }
