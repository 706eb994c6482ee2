//go:build go1.22

// Published constants of all packages, read again after work that uses them as operands.
package main

import (
	"bytes"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type M = zz.M

func main() { zz.Main(map[string]func(*zz.Run){"C03": suiteC03}) }

const low = 1<<64 - 1

func lit(s string) string {
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		return "bad"
	}
	return zz.Hex(v)
}

func words[T uint8 | uint16 | uint32 | uint64](w []T, bits uint) string {
	v := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		v.Lsh(v, bits)
		v.Add(v, new(big.Int).SetUint64(uint64(w[i])))
	}
	return zz.Hex(v)
}

func fh(x *fe.FieldElement) string { y := *x; return zz.Hex(y.ToBigInt()) }

type point interface {
	cp.CurvePointPtrInterface
	XYTZ_projective() (fe.FieldElement, fe.FieldElement, fe.FieldElement, fe.FieldElement)
}

var fields = map[string]*fe.FieldElement{"zero": &fe.FieldElementZero, "one": &fe.FieldElementOne, "minus one": &fe.FieldElementMinusOne, "two": &fe.FieldElementTwo,
	"root": &fe.DyadicRootOfUnity_fe, "d": &cp.CurveParameterD_fe, "a": &cp.CurveParameterA_fe}

type named struct {
	kind string
	p    point
}

var points = []named{
	{"N", &cp.NeutralElement_xtw_full}, {"N", &cp.NeutralElement_xtw_subgroup}, {"N", &cp.NeutralElement_axtw_full}, {"N", &cp.NeutralElement_axtw_subgroup},
	{"N", &cp.NeutralElement_efgh_full}, {"N", &cp.NeutralElement_efgh_subgroup},
	{"A", &cp.AffineOrderTwoPoint_xtw}, {"A", &cp.AffineOrderTwoPoint_axtw}, {"A", &cp.AffineOrderTwoPoint_efgh},
	{"E1", &cp.InfinitePoint1_xtw}, {"E1", &cp.InfinitePoint1_efgh}, {"E2", &cp.InfinitePoint2_xtw}, {"E2", &cp.InfinitePoint2_efgh},
	{"G", &cp.SubgroupGenerator_xtw_subgroup},
}

func report(ep *zz.Ep, again bool) {
	ep.Log("Constants", M{
		"p": zz.Hex(common.BaseFieldSize_Int), "pstr": lit(common.BaseFieldSize_string), "pbits": common.BaseFieldBitLength, "pbytes": common.BaseFieldByteLength,
		"plow": zz.HexU64(common.BaseFieldSize & low), "phigh": zz.HexU64(common.BaseFieldSize >> 192), "puntyped": common.BaseFieldSize == common.BaseFieldSize_untyped,
		"n": zz.Hex(common.GroupOrder_Int), "nstr": lit(common.GroupOrder_string), "nlow": zz.HexU64(common.GroupOrder & low), "nhigh": zz.HexU64(common.GroupOrder >> 192),
		"h": zz.Hex(common.Cofactor_Int), "hstr": lit(common.Cofactor_string), "hnum": common.Cofactor,
		"c": zz.Hex(common.CurveOrder_Int), "cstr": lit(common.CurveOrder_string), "clow": zz.HexU64(common.CurveOrder & low), "chigh": zz.HexU64(common.CurveOrder >> 192),
		"x": zz.Hex(common.CurveExponent_Int), "xstr": lit(common.CurveExponent_string), "xlow": zz.HexU64(common.CurveExponent & low), "xhigh": zz.HexU64(common.CurveExponent >> 192),
		"l": zz.Hex(common.EndomorphismEigenvalue_Int), "lstr": lit(common.EndomorphismEigenvalue_string), "llow": zz.HexU64(common.EndomorphismEigenvalue & low), "lhigh": zz.HexU64(common.EndomorphismEigenvalue >> 192),
		"pow":  []string{zz.Hex(common.One_Int), zz.Hex(common.Two_Int), zz.Hex(common.TwoTo32_Int), zz.Hex(common.TwoTo64_Int), zz.Hex(common.TwoTo128_Int), zz.Hex(common.TwoTo256_Int), zz.Hex(common.TwoTo512_Int), zz.Hex(common.MinusOne_Int)},
		"tests": !again,
	})
	odd := fe.BaseFieldMultiplicateOddOrder_uint256
	v := M{}
	for k, x := range fields {
		v[k] = fh(x)
	}
	ep.Log("Field", M{
		"p": []string{zz.Hex(fe.BaseFieldSize_Int), lit(fe.BaseFieldSize_string), words(fe.BaseFieldSize_8[:], 8), words(fe.BaseFieldSize_16[:], 16), words(fe.BaseFieldSize_32[:], 32), words(fe.BaseFieldSize_64[:], 64)},
		"bits": []int{fe.BaseFieldBitLength, fe.BaseFieldByteLength}, "same": fe.BaseFieldSize_untyped == common.BaseFieldSize,
		"adic": fe.BaseField2Adicity, "odd": words(odd[:], 64), "oddlow": zz.HexU64(fe.BaseFieldMultiplicativeOddOrder & low), "oddhigh": zz.HexU64(fe.BaseFieldMultiplicativeOddOrder >> 192),
		"rootstr": lit(fe.DyadicRootOfUnity_string), "rootlow": zz.HexU64(fe.DyadicRootOfUnity_untyped & low), "roothigh": zz.HexU64(fe.DyadicRootOfUnity_untyped >> 192), "v": v})
	pts := []M{}
	for _, n := range points {
		x, y, t, z := n.p.Clone().(point).XYTZ_projective()
		pts = append(pts, M{"kind": n.kind, "c": []string{fh(&x), fh(&y), fh(&t), fh(&z)}})
	}
	ep.Log("Curve", M{
		"p": []string{zz.Hex(cp.BaseFieldSize_Int), lit(cp.BaseFieldSize_string), words(cp.BaseFieldSize_32[:], 32), words(cp.BaseFieldSize_64[:], 64)},
		"bits": []int{cp.BaseFieldBitLength, cp.BaseFieldByteLength}, "same": cp.BaseFieldSize_untyped == common.BaseFieldSize && cp.GroupOrder == common.GroupOrder && cp.CurveOrder == common.CurveOrder && cp.Cofactor == common.Cofactor,
		"n": zz.Hex(cp.GroupOrder_Int), "l": zz.Hex(cp.EndomorphismEigenvalue_Int),
		"a": []string{zz.Hex(cp.CurveParameterA_Int), lit(cp.CurveParameterA_string), zz.HexI64(cp.CurveParameterA)}, "afe": fh(&cp.CurveParameterA_fe),
		"d": []string{zz.Hex(cp.CurveParameterD_Int), lit(cp.CurveParameterD_string), fh(&cp.CurveParameterD_fe)}, "dlow": zz.HexU64(cp.CurveParameterD & low), "dhigh": zz.HexU64(cp.CurveParameterD >> 192),
		"pts": pts, "tests": !again})
	ep.Log("Exponents", M{"n": zz.Hex(exponents.GroupOrder_Int), "c": zz.Hex(exponents.CurveOrder_Int), "x": zz.Hex(exponents.CurveExponent_Int), "l": zz.Hex(exponents.EndomorphismEigenvalue_Int),
		"same": exponents.GroupOrder == common.GroupOrder && exponents.CurveOrder == common.CurveOrder && exponents.CurveExponent == common.CurveExponent && exponents.EndomorphismEigenvalue == common.EndomorphismEigenvalue})
}

// uses of the constants as operands, as sources of copies and for output; nothing here may change a constant
var uses = map[string]func(ep *zz.Ep){
	"field": func(ep *zz.Ep) {
		var z fe.FieldElement
		for _, x := range fields {
			for _, y := range fields {
				z.Add(x, y)
				z.Sub(x, y)
				z.Mul(x, y)
				zz.Outcome(func() { z.Divide(x, y) })
				zz.Outcome(func() { z.Inv(x) })
				z.Square(x)
				z.Double(x)
				z.Neg(x)
				z.SquareRoot(x)
				z.AddEq(x)
				z.MulEq(y)
				z.SubEq(x)
				z.IsEqual(x)
				x.IsEqual(y)
				x.CmpAbs(y)
				z.Exp(x, &fe.BaseFieldMultiplicateOddOrder_uint256)
				z.SummationMany(x, y, x)
				z.MultiplyMany(x, y, y)
			}
			x.Sign()
			x.Jacobi()
			x.IsZero()
			x.IsOne()
			x.ToUint64()
			x.ToInt64()
			_ = x.String()
			var u fe.Uint256
			x.ToUint256(&u)
			z.SetUint256(&u)
			var buf [32]byte
			x.ToBytes(buf[:])
			z.SetBytes(buf[:])
			var w bytes.Buffer
			x.Serialize(&w, common.BigEndian)
			z.Deserialize(&w, common.BigEndian)
			z.AddInt64(x, -3)
			z.MulUint64(x, 1<<63)
			z = *x
			z.NegEq()
			z.MulEqFive()
			z.RerandomizeRepresentation(ep.Rng.Uint64())
			z.Normalize()
			v := x.ToBigInt()
			v.Add(v, common.One_Int)
			v.SetUint64(77)
		}
		sl := []fe.FieldElement{fe.FieldElementOne, fe.FieldElementTwo, fe.FieldElementMinusOne, fe.DyadicRootOfUnity_fe}
		fe.MultiInvertEqSlice(sl)
	},
	"points": func(ep *zz.Ep) {
		recv := func() []cp.CurvePointPtrInterface {
			return []cp.CurvePointPtrInterface{new(cp.Point_xtw_full), new(cp.Point_xtw_subgroup), new(cp.Point_axtw_full), new(cp.Point_axtw_subgroup), new(cp.Point_efgh_full), new(cp.Point_efgh_subgroup)}
		}
		for _, m := range points {
			for _, r := range recv() {
				zz.Outcome(func() { r.SetFrom(m.p) })
				r.SetFromSubgroupPoint(m.p, common.UntrustedInput)
				for _, f := range []func(){func() { r.Neg(m.p) }, func() { r.Double(m.p) }, func() { r.Endo(m.p) }, func() { r.AddEq(m.p) }, func() { r.SubEq(m.p) }} {
					zz.Outcome(func() { r.SetNeutral(); f(); r.DoubleEq(); r.NegEq(); r.EndoEq() })
				}
				k := points[ep.Rng.Intn(len(points))]
				zz.Outcome(func() { r.Add(m.p, k.p) })
				zz.Outcome(func() { r.Sub(k.p, m.p) })
				zz.Outcome(func() { m.p.IsEqual(r) })
				zz.Outcome(func() { r.IsEqual(m.p) })
			}
			for _, k := range points {
				m.p.IsEqual(k.p)
			}
			m.p.IsInSubgroup()
			m.p.IsNeutralElement()
			m.p.IsAtInfinity()
			m.p.IsNaP()
			for _, f := range []func(){func() { m.p.XY_affine() }, func() { m.p.XYZ_projective() }, func() { m.p.X_affine() }, func() { m.p.Y_affine() }, func() { m.p.X_decaf_affine() },
				func() { m.p.T_decaf_projective() }, func() { _ = m.p.String() }} {
				zz.Outcome(f)
			}
			c := m.p.Clone()
			zz.Outcome(func() { c.DoubleEq(); c.AddEq(&cp.SubgroupGenerator_xtw_subgroup); c.NegEq() })
			x, y, t, z := m.p.XYTZ_projective()
			x.AddEq(&fe.FieldElementOne)
			y.SetZero()
			t.DoubleEq()
			z.NegEq()
			for _, s := range []pointserializer.CurvePointSerializer{pointserializer.BanderwagonShort, pointserializer.BanderwagonLong} {
				var w bytes.Buffer
				zz.Outcome(func() {
					if _, err := s.SerializeCurvePoint(&w, m.p); err == nil {
						var q cp.Point_axtw_subgroup
						s.(pointserializer.CurvePointDeserializer).DeserializeCurvePoint(&w, common.UntrustedInput, &q)
						q.DoubleEq()
					}
				})
			}
		}
		vals := []cp.Point_xtw_full{cp.NeutralElement_xtw_full, cp.AffineOrderTwoPoint_xtw, cp.NeutralElement_xtw_full}
		zz.Outcome(func() { cp.CurvePointSlice_xtw_full(vals).BatchNormalizeForZ() })
		vals[0].SetFrom(&cp.SubgroupGenerator_xtw_subgroup)
	},
	"integers": func(ep *zz.Ep) {
		ints := []*big.Int{common.BaseFieldSize_Int, common.GroupOrder_Int, common.Cofactor_Int, common.CurveOrder_Int, common.CurveExponent_Int, common.EndomorphismEigenvalue_Int,
			common.One_Int, common.Two_Int, common.TwoTo256_Int, common.TwoTo512_Int, common.MinusOne_Int, cp.CurveParameterA_Int, cp.CurveParameterD_Int}
		for _, v := range ints {
			var x fe.FieldElement
			x.SetBigInt(v)
			x.NegEq()
			var e, f exponents.Exponent
			e.SetBigInt(v)
			f.SetBigInt(common.EndomorphismEigenvalue_Int)
			f.Add(&e, &f)
			f.Mul(&e, &f)
			f.Sub(&e, &f)
			f.Neg(&e)
			g := e.ModuloP253()
			for _, x := range []*exponents.Exponent{&e, &f, &g} {
				w := x.ToBigInt_Full()
				w.Add(w, common.One_Int)
				w = x.ToBigInt_Subgroup()
				w.SetUint64(9)
				exponents.GLV_representation(x)
				x.IsZero_Full()
				x.IsOne_Subgroup()
				_ = x.String()
			}
			if v.Sign() >= 0 && v.BitLen() <= 256 {
				u := fe.BigIntToUInt256(v)
				w := u.ToBigInt()
				w.Neg(w)
				u.Add(&u, &fe.BaseFieldMultiplicateOddOrder_uint256)
			}
		}
	},
}

func suiteC03(r *zz.Run) {
	r.Episode("constants", func(ep *zz.Ep) { report(ep, false) })
	for _, k := range []string{"field", "points", "integers"} {
		r.Repeat(k, r.Scale(2, 12), func(ep *zz.Ep, i int) {
			ep.Log("Use", M{"what": k})
			uses[k](ep)
			report(ep, true)
		})
	}
	r.Repeat("all", r.Scale(1, 12), func(ep *zz.Ep, i int) {
		for _, k := range []string{"field", "points", "integers"} {
			ep.Log("Use", M{"what": k})
			uses[k](ep)
		}
		report(ep, true)
	})
}
