//go:build go1.22

package fieldElements

// Variants of algorithms that are not exported; grouped by the contract they implement.
var (
	ZZRedA = map[string]func(z *Uint256){
		"barret":     (*Uint256).reduce_fa_barret,
		"loop":       (*Uint256).reduce_fa_loop,
		"optimistic": (*Uint256).reduce_fa_optimistic,
	}
	ZZRedFB = map[string]func(z *Uint256){
		"exact":      (*Uint256).reduce_fb_exact,
		"optimistic": (*Uint256).reduce_fb_optimistic,
	}
	ZZMulM = map[string]func(z, x, y *Uint256){
		"slow":     (*Uint256).mulMontgomerySlow_c,
		"unrolled": (*Uint256).mulMontgomery_Unrolled_c,
	}
	ZZAddC = map[string]func(z, x, y *Uint256){
		"b_c": (*Uint256).addAndReduce_b_c,
	}
	ZZExpM = map[string]func(z, x, e *Uint256){
		"square and multiply": (*Uint256).modularExponentiationSquareAndMultiplyMontgomery_fa,
		"sliding window":      (*Uint256).modularExponentiationSlidingWindowMontgomery_fa,
	}
)

func ZZFullyReduced(x *Uint256) bool { return x.is_fully_reduced() }

func ZZMulLimb(x *Uint256, y uint64) (uint64, Uint256) { return mul_four_one_64(x, y) }

func ZZModulus(m Uint256) (re [5]uint64, mmu0, mmu1 [4]uint64, back Uint256) {
	var z modulus
	z.FromUint256(m)
	return z.re, z.mmu0, z.mmu1, z.ToUint256()
}

func ZZOrderOfRoot(z *bsFieldElement_MontgomeryNonUnique) int { return sqrtAlg_OrderAsDyadicRootOfUnity(z) }

func ZZOrderOfRootRef(z *bsFieldElement_BigInt) int { return sqrtAlg_OrderAsDyadicRootOfUnity(z) }

func ZZRoot(i int) bsFieldElement_MontgomeryNonUnique { return sqrtPrecomp_PrimitiveDyadicRoots[i] }

// ZZRef is the reference implementation of field elements.
type ZZRef = bsFieldElement_BigInt
