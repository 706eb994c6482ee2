//go:build go1.22

package main

import (
	"math/big"
	"math/rand"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
)

func addAlt(op, name string, f altImpl) {
	if alts[op] == nil {
		alts[op] = map[string]altImpl{}
	}
	alts[op][name] = f
}

func init() {
	for n, f := range fe.ZZRedA {
		f := f
		addAlt("RedA", n, func(z, x, y, e *U256) { f(z) })
	}
	for n, f := range fe.ZZRedFB {
		f := f
		addAlt("RedFB", n, func(z, x, y, e *U256) { f(z) })
	}
	for n, f := range fe.ZZMulM {
		f := f
		addAlt("MulM", n, func(z, x, y, e *U256) { f(z, x, y) })
	}
	for n, f := range fe.ZZAddC {
		f := f
		addAlt("AddB", n, func(z, x, y, e *U256) { f(z, x, y) })
		addAlt("AddCc", n, func(z, x, y, e *U256) { f(z, x, y) })
	}
	for n, f := range fe.ZZExpM {
		f := f
		addAlt("ExpM", n, func(z, x, y, e *U256) { f(z, x, e) })
	}
	altLimb = fe.ZZMulLimb
	altModulus = fe.ZZModulus
	altReduced = fe.ZZFullyReduced
	altOrder["montgomery"] = func(v *big.Int) int { var x fe.FieldElement; x.SetBigInt(v); return fe.ZZOrderOfRoot(&x) }
	altOrder["reference"] = func(v *big.Int) int { var x fe.ZZRef; x.SetBigInt(v); return fe.ZZOrderOfRootRef(&x) }
	samplers["CreateRef"] = sampler{false, true, func(r *rand.Rand) *big.Int { x := fe.CreateRandomFieldElement_Unsafe[fe.ZZRef](r); return x.ToBigInt() }}
	samplers["CreateNonZeroRef"] = sampler{true, true, func(r *rand.Rand) *big.Int {
		x := fe.CreateRandomNonZeroFieldElement_Unsafe[fe.ZZRef](r)
		return x.ToBigInt()
	}}
	samplers["SetRef"] = sampler{false, true, func(r *rand.Rand) *big.Int { var x fe.ZZRef; x.SetRandomUnsafe(r); return x.ToBigInt() }}
}
