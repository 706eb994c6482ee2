//go:build go1.22

package curvePoints

import (
	"math/big"
	"math/rand"
)

// ZZTorsion adds a point of order two, where the type of p provides that.
func ZZTorsion(p any, k string) bool {
	t, ok := p.(torsionAdder)
	if ok {
		switch k {
		case "A":
			t.torsionAddA()
		case "E1":
			t.torsionAddE1()
		case "E2":
			t.torsionAddE2()
		}
	}
	return ok
}

func ZZFlip(p any) bool {
	t, ok := p.(curvePointPtrInterfaceDecaf)
	if ok && t.HasDecaf() {
		t.flipDecaf()
		return true
	}
	return false
}

func ZZRerandomize(p any, rnd *rand.Rand) bool {
	t, ok := p.(rerandomizeable)
	if ok {
		t.rerandomizeRepresentation(rnd)
	}
	return ok
}

func ZZSample(p any, rnd *rand.Rand) bool {
	t, ok := p.(testSampleable)
	if ok {
		t.sampleRandomUnsafe(rnd)
	}
	return ok
}

func ZZSampleNaP(p any, rnd *rand.Rand, index int) bool {
	t, ok := p.(sampleableNaP)
	if ok {
		t.sampleNaP(rnd, index)
	}
	return ok
}

func zzt(p any) *point_xtw_base  { return &p.(*Point_xtw_full).point_xtw_base }
func zza(p any) *point_axtw_base { return &p.(*Point_axtw_full).point_axtw_base }
func zzs(p any) *point_efgh_base { return &p.(*Point_efgh_full).point_efgh_base }

// ZZFormula is an internal formula: letters of receiver and operands (t, a, s), what it computes, whether it promises to
// deal with exceptional cases, and the call.
type ZZFormula struct {
	Letters string
	Op      string
	Safe    bool
	Call    func(z, x, y any, n *big.Int)
}

var ZZFormulas = map[string]ZZFormula{
	"neg_tt": {"tt", "Neg", true, func(z, x, y any, n *big.Int) { zzt(z).neg_tt(zzt(x)) }},
	"neg_aa": {"aa", "Neg", true, func(z, x, y any, n *big.Int) { zza(z).neg_aa(zza(x)) }},
	"neg_ss": {"ss", "Neg", true, func(z, x, y any, n *big.Int) { zzs(z).neg_ss(zzs(x)) }},
	"neg_ta": {"ta", "Neg", true, func(z, x, y any, n *big.Int) { zzt(z).neg_ta(zza(x)) }},

	"add_ttt":      {"ttt", "Add", false, func(z, x, y any, n *big.Int) { zzt(z).add_ttt(zzt(x), zzt(y)) }},
	"add_safe_ttt": {"ttt", "Add", true, func(z, x, y any, n *big.Int) { zzt(z).add_safe_ttt(zzt(x), zzt(y)) }},
	"sub_ttt":      {"ttt", "Sub", false, func(z, x, y any, n *big.Int) { zzt(z).sub_ttt(zzt(x), zzt(y)) }},
	"sub_safe_ttt": {"ttt", "Sub", true, func(z, x, y any, n *big.Int) { zzt(z).sub_safe_ttt(zzt(x), zzt(y)) }},
	"add_stt":      {"stt", "Add", false, func(z, x, y any, n *big.Int) { zzs(z).add_stt(zzt(x), zzt(y)) }},
	"add_safe_stt": {"stt", "Add", true, func(z, x, y any, n *big.Int) { zzs(z).add_safe_stt(zzt(x), zzt(y)) }},
	"sub_stt":      {"stt", "Sub", false, func(z, x, y any, n *big.Int) { zzs(z).sub_stt(zzt(x), zzt(y)) }},
	"sub_safe_stt": {"stt", "Sub", true, func(z, x, y any, n *big.Int) { zzs(z).sub_safe_stt(zzt(x), zzt(y)) }},
	"add_tta":      {"tta", "Add", false, func(z, x, y any, n *big.Int) { zzt(z).add_tta(zzt(x), zza(y)) }},
	"sub_tta":      {"tta", "Sub", false, func(z, x, y any, n *big.Int) { zzt(z).sub_tta(zzt(x), zza(y)) }},
	"sub_tat":      {"tat", "Sub", false, func(z, x, y any, n *big.Int) { zzt(z).sub_tat(zza(x), zzt(y)) }},
	"add_sta":      {"sta", "Add", false, func(z, x, y any, n *big.Int) { zzs(z).add_sta(zzt(x), zza(y)) }},
	"sub_sta":      {"sta", "Sub", false, func(z, x, y any, n *big.Int) { zzs(z).sub_sta(zzt(x), zza(y)) }},
	"sub_sat":      {"sat", "Sub", false, func(z, x, y any, n *big.Int) { zzs(z).sub_sat(zza(x), zzt(y)) }},
	"add_taa":      {"taa", "Add", false, func(z, x, y any, n *big.Int) { zzt(z).add_taa(zza(x), zza(y)) }},
	"sub_taa":      {"taa", "Sub", false, func(z, x, y any, n *big.Int) { zzt(z).sub_taa(zza(x), zza(y)) }},
	"add_saa":      {"saa", "Add", false, func(z, x, y any, n *big.Int) { zzs(z).add_saa(zza(x), zza(y)) }},
	"sub_saa":      {"saa", "Sub", false, func(z, x, y any, n *big.Int) { zzs(z).sub_saa(zza(x), zza(y)) }},
	"addNaive_ttt": {"ttt", "Add", false, func(z, x, y any, n *big.Int) { zzt(z).addNaive_ttt(zzt(x), zzt(y)) }},

	"double_st": {"st", "Double", true, func(z, x, y any, n *big.Int) { zzs(z).double_st(zzt(x)) }},
	"double_sa": {"sa", "Double", true, func(z, x, y any, n *big.Int) { zzs(z).double_sa(zza(x)) }},
	"double_ss": {"ss", "Double", true, func(z, x, y any, n *big.Int) { zzs(z).double_ss(zzs(x)) }},

	"endo_st": {"st", "Endo", false, func(z, x, y any, n *big.Int) { zzs(z).computeEndomorphism_st(zzt(x)) }},
	"endo_sa": {"sa", "Endo", false, func(z, x, y any, n *big.Int) { zzs(z).computeEndomorphism_sa(zza(x)) }},
	"endo_ss": {"ss", "Endo", false, func(z, x, y any, n *big.Int) { zzs(z).computeEndomorphism_ss(zzs(x)) }},

	"exp_naive_xx": {"tt", "Times", false, func(z, x, y any, n *big.Int) { zzt(z).exp_naive_xx(zzt(x), n) }},
}
