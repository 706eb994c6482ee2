//go:build go1.22

package main

import (
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// points the package publishes, by the type that holds them
var published = map[string][]struct {
	v pv
	o obj
}{
	"xf": {{pN, &cp.NeutralElement_xtw_full}, {pA, &cp.AffineOrderTwoPoint_xtw}, {pE1, &cp.InfinitePoint1_xtw}, {pE2, &cp.InfinitePoint2_xtw}},
	"xs": {{pN, &cp.NeutralElement_xtw_subgroup}},
	"af": {{pN, &cp.NeutralElement_axtw_full}, {pA, &cp.AffineOrderTwoPoint_axtw}},
	"as": {{pN, &cp.NeutralElement_axtw_subgroup}},
	"ef": {{pN, &cp.NeutralElement_efgh_full}, {pA, &cp.AffineOrderTwoPoint_efgh}, {pE1, &cp.InfinitePoint1_efgh}, {pE2, &cp.InfinitePoint2_efgh}},
	"es": {{pN, &cp.NeutralElement_efgh_subgroup}},
}

// Histories of points run at the same time. The published points are operands of many of them.
func suiteP01pt(r *zz.Run) {
	together = true
	bare = r.Seed%2 == 0
	defer func() { together = false }()
	r.Together(r.Scale(300, 4200), 6, suiteG01, suiteG02, suiteG04, suiteG05, suiteG06, suiteG07, suitePublished)
}

func suitePublished(r *zz.Run) {
	r.Repeat("published", r.Scale(60, 600), func(ep *zz.Ep, i int) {
		t := typeNames[i%6]
		u := zz.Pick(ep.Rng, typeNames)
		if isSub(u) != isSub(t) {
			u = u[:1] + t[1:]
		}
		b := newBank(ep, t, u, zz.Pick(ep.Rng, []string{"x", "e"})+t[1:])
		defer b.done()
		for k := 0; k < 4; k++ {
			p := zz.Pick(ep.Rng, published[t])
			b.o[0] = p.o
			b.ep.Log("mk", M{"z": 1, "v": p.v.log(), "style": 0, "raw": b.raws()})
			v := b.any(2)
			b.set(2, v, ep.Rng.Intn(nStyles))
			b.move("Add", 3, 1, 2, b.any(3))
			b.move("Sub", 3, 2, 1, b.any(3))
			b.move("AddEq", 3, 1, 0, b.any(3))
			b.move(zz.Pick(ep.Rng, []string{"Neg", "Double", "Endo", "SetFrom"}), 3, 1, 0, b.any(3))
			b.clone(3, 1)
			b.set(3, b.any(3), 0)
		}
	})
}
