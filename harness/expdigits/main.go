//go:build go1.22

package main

import (
	"fmt"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type M = zz.M

func add(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }

func suiteE03(r *zz.Run) {
	lim := new(big.Int).Lsh(big.NewInt(1), 128)
	rec := func(ep *zz.Ep, x *big.Int, w uint) {
		ds := exponents.ZZDecompose(x, w)
		var lst []any = []any{}
		for _, d := range ds {
			lst = append(lst, M{"pos": int(d.Pos), "c": zz.Hex(new(big.Int).Mul(new(big.Int).SetUint64(uint64(d.Coeff)), big.NewInt(int64(d.Sign))))})
		}
		ep.Log("Recode", M{"x": zz.Hex(x), "w": int(w), "digits": lst})
	}
	maxw := uint(8)
	// all integers of few bits, shifted
	for w := uint(1); w <= maxw; w++ {
		r.Episode(fmt.Sprintf("small-%d", w), func(ep *zz.Ep) {
			for i := int64(-70); i <= 300; i++ {
				rec(ep, big.NewInt(i), w)
			}
		})
		r.Episode(fmt.Sprintf("top-%d", w), func(ep *zz.Ep) {
			for i := int64(1); i <= 260; i++ {
				x := add(lim, -i)
				rec(ep, x, w)
				rec(ep, new(big.Int).Neg(x), w)
			}
			for k := uint(0); k <= 127; k++ {
				x := new(big.Int).Lsh(big.NewInt(1), k)
				rec(ep, x, w)
				rec(ep, add(x, -1), w)
				rec(ep, new(big.Int).Sub(lim, x), w)
				rec(ep, new(big.Int).Neg(add(x, 1)), w)
			}
		})
	}
	r.Repeat("rand", r.Scale(300, 5000), func(ep *zz.Ep, i int) {
		for k := 0; k < 10; k++ {
			x := zz.RandLimbs(ep.Rng, 2)
			if ep.Rng.Intn(3) == 0 { // long runs
				x = new(big.Int).Lsh(big.NewInt(1), uint(ep.Rng.Intn(129)))
				x.Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(ep.Rng.Intn(128))))
				x.Abs(x)
				x.Mod(x, lim)
			}
			if ep.Rng.Intn(2) == 0 {
				x.Neg(x)
			}
			rec(ep, x, uint(1+ep.Rng.Intn(int(maxw))))
		}
	})
}

func main() {
	zz.Main(map[string]func(*zz.Run){"E03": suiteE03})
}
