//go:build go1.22

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type M = zz.M

func hx(s string) *big.Int { return zz.FromHex(s) }

var P = hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
var P2 = new(big.Int).Lsh(P, 1)
var R = new(big.Int).Lsh(big.NewInt(1), 256)
var C = new(big.Int).Sub(R, P)
var Rinv = new(big.Int).ModInverse(R, P)

func add(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }
func mod(x *big.Int) *big.Int          { return new(big.Int).Mod(x, P) }

// a word pattern in [0, 2^256-p), biased to the ends of the ranges and to special limbs
func randWord(rng *rand.Rand) *big.Int {
	switch rng.Intn(6) {
	case 0:
		return zz.Pick(rng, edgeWords)
	case 1, 2:
		w := zz.RandLimbs(rng, 4)
		return w.Mod(w, C)
	case 3: // near k*p/j or k*2^256/j
		j := int64(1 + rng.Intn(8))
		k := int64(rng.Intn(9))
		b := zz.Pick(rng, []*big.Int{P, R, C})
		w := new(big.Int).Mul(b, big.NewInt(k))
		w.Div(w, big.NewInt(j))
		w.Add(w, big.NewInt(int64(rng.Intn(7)-3)))
		return w.Mod(w, C)
	default:
		return zz.RandBig(rng, C)
	}
}

func inRange(xs []*big.Int, lim *big.Int) (r []*big.Int) {
	seen := map[string]bool{}
	for _, x := range xs {
		if x.Sign() >= 0 && x.Cmp(lim) < 0 && !seen[x.String()] {
			seen[x.String()] = true
			r = append(r, x)
		}
	}
	return
}

// edge values below 2^256
func rawEdges() (r []*big.Int) {
	for _, b := range []*big.Int{big.NewInt(0), P, P2, C, R, new(big.Int).Rsh(P, 1), new(big.Int).Lsh(big.NewInt(1), 255)} {
		for d := int64(-2); d <= 2; d++ {
			r = append(r, add(b, d))
		}
	}
	for _, k := range []uint{1, 2, 32, 63, 64, 127, 128, 191, 192, 253, 254} {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		r = append(r, x, add(x, -1), new(big.Int).Sub(R, x), new(big.Int).Sub(P, x), new(big.Int).Add(P, x), new(big.Int).Sub(C, x))
	}
	one := new(big.Int).Mod(R, P)
	for _, m := range []int64{1, 2, 3, 5, -1, -2, -5} {
		x := new(big.Int).Mul(one, big.NewInt(m))
		x.Mod(x, P)
		r = append(r, x, new(big.Int).Add(x, P))
	}
	// limbs of p with one limb moved by one
	for k := uint(0); k < 4; k++ {
		d := new(big.Int).Lsh(big.NewInt(1), 64*k)
		r = append(r, new(big.Int).Add(P, d), new(big.Int).Sub(P, d), new(big.Int).Sub(P2, d))
		m := new(big.Int).Mod(P, d)
		r = append(r, m, new(big.Int).Sub(P, m))
	}
	return
}

var edgeRaw = inRange(rawEdges(), R)
var edgeWords = inRange(rawEdges(), C)

// value of an element whose internal words are (congruent to) w
func valOfWord(w *big.Int) *big.Int {
	v := new(big.Int).Mul(w, Rinv)
	return v.Mod(v, P)
}

// an element with value v; alt asks for the other internal representation, where there is one
func mkVal(v *big.Int, alt bool) FE {
	var x FE
	x.SetBigInt(v)
	if alt {
		x.RerandomizeRepresentation(1)
	}
	return x
}

func mkWord(w *big.Int) FE { return mkVal(valOfWord(w), w.Cmp(P) >= 0) }

// a random element
func randFE(rng *rand.Rand) FE {
	switch rng.Intn(8) {
	case 0: // small or large value rather than word
		v := big.NewInt(int64(rng.Intn(9) - 4))
		return mkVal(mod(v), rng.Intn(2) == 0)
	case 1:
		v := mod(zz.RandLimbs(rng, 1+rng.Intn(4)))
		if rng.Intn(2) == 0 {
			v = mod(v.Neg(v))
		}
		return mkVal(v, rng.Intn(2) == 0)
	case 2:
		v := new(big.Int).Rsh(P, 1)
		return mkVal(add(v, int64(rng.Intn(5)-2)), rng.Intn(2) == 0)
	default:
		return mkWord(randWord(rng))
	}
}

func valOf(x FE) string { return zz.Hex(x.ToBigInt()) }

// normalized elements that many episodes use at the same time; they come after an episode's own and are never written
var sharedFE []FE

func at(regs []FE, i int) *FE {
	if i > len(regs) {
		return &sharedFE[i-len(regs)-1]
	}
	return &regs[i-1]
}

func snapFE(regs []FE) []string {
	r := make([]string, len(regs)+len(sharedFE))
	for i := range r {
		r[i] = zz.Hex(at(regs, i+1).ToBigInt())
	}
	return r
}

type opRec struct {
	Op   string `json:"op"`
	Z    int    `json:"z"`
	X    int    `json:"x"`
	Y    int    `json:"y"`
	V    string `json:"v"`
	K    int    `json:"-"` // variant of the method
	Lo   int    `json:"-"`
	Hi   int    `json:"-"`
	Args []int  `json:"-"`
	Seed uint64 `json:"-"`
}

func startFE(ep *zz.Ep, regs []FE) []FE {
	rr := append([]FE(nil), regs...)
	ep.Set("init", snapFE(rr))
	return rr
}

func u256(v *big.Int) fe.Uint256 {
	var r fe.Uint256
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64()
	}
	return r
}

func hex256(x fe.Uint256) string {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(x[i]))
	}
	return zz.Hex(v)
}

func isI64(v *big.Int) bool { return v.IsInt64() }

func applyFE(ep *zz.Ep, regs []FE, o opRec) {
	ev := M{}
	var z, x, y *FE
	if o.Z > 0 {
		z = at(regs, o.Z)
		ev["z"] = o.Z
	}
	if o.X > 0 {
		x = at(regs, o.X)
		ev["x"] = o.X
	}
	if o.Y > 0 {
		y = at(regs, o.Y)
		ev["y"] = o.Y
	}
	var v *big.Int
	if o.V != "" {
		v = hx(o.V)
		ev["v"] = o.V
	}
	if o.Args != nil {
		ev["args"] = o.Args
	} else if o.Lo > 0 {
		ev["lo"], ev["hi"] = o.Lo, o.Hi
	}
	ptrs := func() (r []*FE) {
		for _, a := range o.Args {
			r = append(r, at(regs, a))
		}
		return
	}
	eq := o.Z == o.X && o.K%2 == 1 // use the -Eq form of the method
	var f func()
	switch o.Op {
	case "Add":
		f = func() { z.Add(x, y) }
		if eq {
			f = func() { z.AddEq(y) }
		}
	case "Sub":
		f = func() { z.Sub(x, y) }
		if eq {
			f = func() { z.SubEq(y) }
		}
	case "Mul":
		f = func() { z.Mul(x, y) }
		if eq {
			f = func() { z.MulEq(y) }
		}
	case "Div":
		f = func() { z.Divide(x, y) }
		if eq {
			f = func() { z.DivideEq(y) }
		}
	case "Square":
		f = func() { z.Square(x) }
		if eq {
			f = func() { z.SquareEq() }
		}
	case "Double":
		f = func() { z.Double(x) }
		if eq {
			f = func() { z.DoubleEq() }
		}
	case "Five":
		f = func() { z.MulFive(x) }
		if eq {
			f = func() { z.MulEqFive() }
		}
	case "Neg":
		f = func() { z.Neg(x) }
		if eq {
			f = func() { z.NegEq() }
		}
	case "Inv":
		f = func() { z.Inv(x) }
		if eq {
			f = func() { z.InvEq() }
		}
	case "Copy":
		f = func() { *z = *x }
	case "AddC", "SubC", "MulC", "DivC":
		if isI64(v) && (v.Sign() < 0 || o.K%2 == 0) {
			i := v.Int64()
			ev["m"] = "int64"
			switch o.Op {
			case "AddC":
				f = func() { z.AddInt64(x, i) }
			case "SubC":
				f = func() { z.SubInt64(x, i) }
			case "MulC":
				f = func() { z.MulInt64(x, i) }
			default:
				f = func() { z.DivideInt64(x, i) }
			}
		} else {
			u := v.Uint64()
			ev["m"] = "uint64"
			switch o.Op {
			case "AddC":
				f = func() { z.AddUint64(x, u) }
			case "SubC":
				f = func() { z.SubUint64(x, u) }
			case "MulC":
				f = func() { z.MulUint64(x, u) }
			default:
				f = func() { z.DivideUint64(x, u) }
			}
		}
	case "Set":
		kinds := []string{"big", "string"}
		if v.Sign() >= 0 && v.Cmp(R) < 0 {
			kinds = append(kinds, "uint256", "uint256")
		}
		if v.IsUint64() {
			kinds = append(kinds, "uint64", "uint64", "uint64")
		}
		if v.IsInt64() {
			kinds = append(kinds, "int64", "int64", "int64")
		}
		m := kinds[o.K%len(kinds)]
		ev["m"] = m
		switch m {
		case "big":
			f = func() { z.SetBigInt(v); ev["v"] = zz.Hex(v) } // the argument must not change
		case "string":
			f = func() { *z = fe.InitFieldElementFromString[FE](fmt.Sprintf("%#x", v)) }
			if o.K%3 == 0 {
				f = func() { *z = fe.InitFieldElementFromString[FE](v.String()) }
			}
		case "uint256":
			w := u256(v)
			f = func() { z.SetUint256(&w); ev["v"] = hex256(w) }
		case "uint64":
			f = func() { z.SetUint64(v.Uint64()) }
		case "int64":
			f = func() { z.SetInt64(v.Int64()) }
		}
	case "Zero":
		f = func() { z.SetZero() }
	case "One":
		f = func() { z.SetOne() }
	case "Norm":
		f = func() { z.Normalize() }
	case "Rerand":
		f = func() { z.RerandomizeRepresentation(o.Seed) }
	case "Exp":
		w := u256(v)
		f = func() { z.Exp(x, &w); ev["v"] = hex256(w) }
	case "ProdSlice":
		f = func() { prodSlice(z, regs[o.Lo-1:o.Hi]) }
	case "SumSlice":
		f = func() { sumSlice(z, regs[o.Lo-1:o.Hi]) }
	case "ProdMany":
		f = func() { prodMany(z, ptrs()) }
	case "SumMany":
		f = func() { sumMany(z, ptrs()) }
	case "Sqrt":
		ok := z.SquareRoot(x)
		ev["ok"] = ok
		ev["post"] = snapFE(regs)
		ep.Log("Sqrt", ev)
		return
	case "BatchInv", "BatchInvSkip":
		var failed, fine bool
		var zs []int
		if o.Args != nil {
			failed, zs, fine = batchPtrs(o.Op == "BatchInvSkip", ptrs())
		} else {
			failed, zs, fine = batchSlice(o.Op == "BatchInvSkip", regs[o.Lo-1:o.Hi])
		}
		ev["err"], ev["zeros"], ev["fine"] = failed, zs, fine
		ev["post"] = snapFE(regs)
		ep.Log(o.Op, ev)
		return
	default:
		panic("bad op " + o.Op)
	}
	ev["out"] = zz.Outcome(f)
	ev["post"] = snapFE(regs)
	ep.Log(o.Op, ev)
}

func viewFE(ep *zz.Ep, regs []FE, xi int) {
	x := at(regs, xi)
	fine := true
	chk := func(b bool) {
		if !b {
			fine = false
		}
	}
	errs := func(err error) {
		chk(errors.Is(err, fe.ErrCannotRepresentFieldElement))
		p, ok := errorsWithData.GetParameter(err, "FieldElement")
		chk(ok)
		if ok {
			e, isfe := p.(FE)
			chk(isfe)
			if isfe {
				chk(valOf(e) == valOf(*x))
			}
		}
		chk(wellFormed(err))
	}
	got := M{}
	got["sign"] = x.Sign()
	got["jac"] = x.Jacobi()
	got["isz"] = x.IsZero()
	got["is1"] = x.IsOne()
	got["big"] = zz.Hex(x.ToBigInt())
	var w fe.Uint256
	x.ToUint256(&w)
	got["u256"] = hex256(w)
	got["dec"] = x.String()
	chk(fmt.Sprint(*x) == x.String() && fmt.Sprintf("%d", x) == x.String())
	got["hex"] = fmt.Sprintf("%x", *x)
	got["u64"] = "error"
	if u, err := x.ToUint64(); err == nil {
		got["u64"] = zz.HexU64(u)
	} else {
		errs(err)
	}
	got["i64"] = "error"
	if i, err := x.ToInt64(); err == nil {
		got["i64"] = zz.HexI64(i)
	} else {
		errs(err)
	}
	ep.Log("View", M{"x": xi, "got": got, "fine": fine, "post": snapFE(regs)})
}

func cmpFE(ep *zz.Ep, regs []FE, xi, yi int, k int) {
	x, y := at(regs, xi), at(regs, yi)
	got := M{}
	order := func(f ...func()) { // the observers may change representations: vary the order
		for i := range f {
			f[(i+k)%len(f)]()
		}
	}
	order(
		func() { xc, yc := *x, *y; got["eq"] = xc.IsEqual(&yc) },
		func() { got["eq2"] = y.IsEqual(x) },
		func() { got["eq256"] = fe.IsEqualAsUint256(x, y) },
		func() { got["abs"], got["exact"] = x.CmpAbs(y) },
	)
	ep.Log("Compare", M{"x": xi, "y": yi, "got": got, "post": snapFE(regs)})
}

func raw(x FE) [32]byte {
	var b [32]byte
	x.ToBytes(b[:])
	return b
}

func repFE(ep *zz.Ep, regs []FE, xi, yi int, seed uint64) {
	x, y := regs[xi-1], regs[yi-1]
	// raw bytes preserve the representation
	bx := raw(x)
	var x2 FE
	x2.SetBytes(bx[:])
	bytesOK := x2.BytesLength() == 32 && raw(x2) == bx && valOf(x2) == valOf(x)
	xr, yr := x, y
	xr.RerandomizeRepresentation(seed)
	yr.RerandomizeRepresentation(seed)
	rer := raw(xr) == raw(yr)
	x.Normalize()
	y.Normalize()
	ep.Log("Rep", M{"x": xi, "y": yi, "norm": raw(x) == raw(y), "rerand": rer, "bytes": bytesOK, "post": snapFE(regs)})
}

func randV(rng *rand.Rand) *big.Int {
	switch rng.Intn(5) {
	case 0:
		return big.NewInt(int64(zz.RandLimbs(rng, 1).Uint64()))
	case 1:
		return zz.RandLimbs(rng, 1)
	default:
		return new(big.Int).SetInt64(int64(rng.Intn(11) - 5))
	}
}

func randSet(rng *rand.Rand) *big.Int {
	switch rng.Intn(6) {
	case 0:
		return big.NewInt(int64(zz.RandLimbs(rng, 1).Uint64()))
	case 1:
		return zz.Pick(rng, edgeRaw)
	case 2:
		return zz.RandLimbs(rng, 4)
	case 3:
		v := zz.RandLimbs(rng, 8)
		return v.Neg(v)
	case 4: // multiples of p and neighbours, both signs
		v := new(big.Int).Mul(P, big.NewInt(int64(rng.Intn(11)-5)))
		return v.Add(v, big.NewInt(int64(rng.Intn(3)-1)))
	default:
		return zz.RandLimbs(rng, 1)
	}
}

func randArith(rng *rand.Rand, n int) opRec {
	o := opRec{Z: 1 + rng.Intn(n), X: 1 + rng.Intn(n), Y: 1 + rng.Intn(n), K: rng.Intn(12)}
	if rng.Intn(4) == 0 {
		o.X = o.Z
	}
	switch rng.Intn(16) {
	case 0, 1:
		o.Op = "Add"
	case 2, 3:
		o.Op = "Sub"
	case 4, 5:
		o.Op = "Mul"
	case 6:
		o.Op = "Div"
	case 7, 8, 9:
		o.Op = zz.Pick(rng, []string{"Square", "Double", "Five", "Neg", "Inv", "Copy"})
		o.Y = 0
	case 10, 11:
		o.Op = zz.Pick(rng, []string{"AddC", "SubC", "MulC", "DivC"})
		o.Y = 0
		o.V = zz.Hex(randV(rng))
	case 12:
		o.Op = zz.Pick(rng, []string{"Zero", "One"})
		o.X, o.Y = 0, 0
	case 13:
		o.Op = "Set"
		o.X, o.Y = 0, 0
		o.V = zz.Hex(randSet(rng))
	default:
		o.Op = zz.Pick(rng, []string{"Norm", "Rerand"})
		o.X, o.Y = 0, 0
		o.Seed = rng.Uint64()
	}
	return o
}

func suiteF01(r *zz.Run) {
	seven := mkVal(big.NewInt(7), false)
	for i, a := range edgeWords {
		for j, b := range edgeWords {
			if !r.Thorough() && (i+2*j)%4 != int(r.Seed)&3 && i != j {
				continue
			}
			r.Episode(fmt.Sprintf("pair-%d-%d", i, j), func(ep *zz.Ep) {
				fa, fb := mkWord(a), mkWord(b)
				regs := startFE(ep, []FE{fa, fb, seven})
				for _, op := range []string{"Add", "Sub", "Mul"} {
					applyFE(ep, regs, opRec{Op: op, Z: 3, X: 1, Y: 2})
				}
				if j == i {
					for _, op := range []string{"Square", "Double", "Five", "Neg", "Inv"} {
						for k := 0; k < 2; k++ {
							applyFE(ep, regs, opRec{Op: op, Z: 3, X: 1, K: k})
							applyFE(ep, regs, opRec{Op: "Copy", Z: 2, X: 1})
							applyFE(ep, regs, opRec{Op: op, Z: 2, X: 2, K: k})
						}
					}
					for _, op := range []string{"Add", "Sub", "Mul", "Div"} {
						for k := 0; k < 2; k++ {
							applyFE(ep, regs, opRec{Op: op, Z: 3, X: 1, Y: 1, K: k})
							applyFE(ep, regs, opRec{Op: "Copy", Z: 2, X: 1})
							applyFE(ep, regs, opRec{Op: op, Z: 2, X: 2, Y: 2, K: k})
						}
					}
					for _, v := range []string{"0", "1", "-1", "5", "7fffffffffffffff", "-8000000000000000", "ffffffffffffffff", "8000000000000000"} {
						for _, op := range []string{"AddC", "SubC", "MulC", "DivC"} {
							applyFE(ep, regs, opRec{Op: op, Z: 3, X: 1, V: v})
							applyFE(ep, regs, opRec{Op: op, Z: 3, X: 1, V: v, K: 1})
						}
					}
				}
			})
		}
	}
	r.Repeat("rand", r.Scale(2500, 40000), func(ep *zz.Ep, i int) {
		regs := startFE(ep, []FE{randFE(ep.Rng), randFE(ep.Rng), randFE(ep.Rng)})
		for k := 0; k < 14; k++ {
			applyFE(ep, regs, randArith(ep.Rng, 3))
		}
	})
	// sums and differences close to the borders of the ranges
	r.Repeat("border", r.Scale(1500, 20000), func(ep *zz.Ep, i int) {
		a := randWord(ep.Rng)
		t := zz.Pick(ep.Rng, []*big.Int{R, P, P2, C, big.NewInt(0), new(big.Int).Add(P2, P)})
		b := new(big.Int).Sub(t, a)
		if ep.Rng.Intn(2) == 0 {
			b = new(big.Int).Sub(a, t)
		}
		b = add(b, int64(ep.Rng.Intn(7)-3))
		if ep.Rng.Intn(3) == 0 {
			b.Add(b, new(big.Int).Lsh(big.NewInt(1), uint(64*ep.Rng.Intn(4))))
		}
		b.Mod(b, C)
		regs := startFE(ep, []FE{mkWord(a), mkWord(b), seven})
		for _, op := range []string{"Add", "Sub", "Mul"} {
			applyFE(ep, regs, opRec{Op: op, Z: 3, X: 1, Y: 2})
			applyFE(ep, regs, opRec{Op: op, Z: 3, X: 2, Y: 1})
		}
		applyFE(ep, regs, opRec{Op: "Neg", Z: 3, X: 1})
		applyFE(ep, regs, opRec{Op: "Double", Z: 3, X: 2})
		applyFE(ep, regs, opRec{Op: "Five", Z: 2, X: 2, K: 1})
	})
	genFE(r)
}

func genFE(r *zz.Run) {
	if r.In == "" {
		return
	}
	for i, rawb := range zz.ReadBehaviours(r.In) {
		var ops []opRec
		if err := json.Unmarshal(rawb, &ops); err != nil {
			panic(err)
		}
		r.Episode(fmt.Sprintf("gen-%d", i), func(ep *zz.Ep) {
			regs := startFE(ep, []FE{randFE(ep.Rng), randFE(ep.Rng)})
			for _, o := range ops {
				o.K = ep.Rng.Intn(2)
				o.Seed = ep.Rng.Uint64()
				applyFE(ep, regs, o)
			}
		})
	}
}

// ---- square roots

func suiteF02(r *zz.Run) {
	q := add(P, -1)
	q.Rsh(q, 32)
	g := new(big.Int).Exp(big.NewInt(7), q, P) // order 2^32
	check := func(ep *zz.Ep, vals []*big.Int) {
		regs := startFE(ep, []FE{mkVal(big.NewInt(3), false), mkVal(big.NewInt(5), false)})
		for _, v := range vals {
			applyFE(ep, regs, opRec{Op: "Set", Z: 1, V: zz.Hex(v), K: 0})
			if ep.Rng.Intn(3) == 0 {
				applyFE(ep, regs, opRec{Op: "Rerand", Z: 1, Seed: 1})
			}
			viewJac(ep, regs, 1)
			applyFE(ep, regs, opRec{Op: "Sqrt", Z: 2, X: 1})
			if ep.Rng.Intn(3) == 0 {
				applyFE(ep, regs, opRec{Op: "Sqrt", Z: 1, X: 1})
			}
		}
	}
	dy := func(k uint64) *big.Int { return new(big.Int).Exp(g, new(big.Int).SetUint64(k), P) }
	for b := uint(0); b < 4; b++ {
		for c := uint64(0); c < 256; c += 16 {
			r.Episode(fmt.Sprintf("block-%d-%d", b, c), func(ep *zz.Ep) {
				var vals []*big.Int
				for v := c; v < c+16; v++ {
					vals = append(vals, dy(v<<(8*b)))
					h := new(big.Int).Exp(zz.RandBig(ep.Rng, P), new(big.Int).Lsh(big.NewInt(1), 32), P)
					vals = append(vals, mod(h.Mul(h, dy(v<<(8*b)|uint64(ep.Rng.Uint32())&^(0xff<<(8*b))))))
				}
				check(ep, vals)
			})
		}
	}
	for k := uint(0); k <= 32; k++ {
		r.Episode(fmt.Sprintf("order-%d", k), func(ep *zz.Ep) {
			x := uint64(1) << k
			check(ep, []*big.Int{dy(x), dy(x - 1), dy(x + 1), dy(1<<32 - x), dy(3 * x), mod(new(big.Int).Neg(dy(x)))})
		})
	}
	r.Episode("edges", func(ep *zz.Ep) {
		var vals []*big.Int
		for _, w := range edgeWords {
			vals = append(vals, valOfWord(w), mod(w))
		}
		check(ep, vals)
	})
	r.Repeat("rand", r.Scale(400, 8000), func(ep *zz.Ep, i int) {
		var vals []*big.Int
		for k := 0; k < 8; k++ {
			x := randFE(ep.Rng)
			v := x.ToBigInt()
			switch ep.Rng.Intn(3) {
			case 0:
				v = mod(v.Mul(v, v))
			case 1:
				v = mod(v.Mul(v, dy(uint64(ep.Rng.Uint32()))))
			}
			vals = append(vals, v)
		}
		check(ep, vals)
	})
}

func viewJac(ep *zz.Ep, regs []FE, xi int) {
	viewFE(ep, regs, xi)
}

// ---- comparison and conversion

func suiteF03(r *zz.Run) {
	both := func(v *big.Int) []FE { return []FE{mkVal(v, false), mkVal(v, true)} }
	var small []*big.Int
	for d := int64(-3); d <= 3; d++ {
		small = append(small, mod(big.NewInt(d)))
		small = append(small, add(new(big.Int).Rsh(P, 1), d))
		for _, k := range []uint{63, 64, 128, 192} {
			x := add(new(big.Int).Lsh(big.NewInt(1), k), d)
			small = append(small, mod(x), mod(x.Neg(x)))
		}
	}
	for _, w := range edgeWords {
		small = append(small, valOfWord(w))
	}
	for i, v := range small {
		r.Episode(fmt.Sprintf("val-%d", i), func(ep *zz.Ep) {
			regs := startFE(ep, append(append(both(v), both(mod(new(big.Int).Neg(v)))...), both(mod(add(v, 1)))...))
			for k := range regs {
				viewFE(ep, regs, k+1)
			}
			for a := range regs {
				for b := range regs {
					cmpFE(ep, regs, a+1, b+1, a+b)
					repFE(ep, regs, a+1, b+1, ep.Rng.Uint64())
					for k := range regs { // IsEqual may have normalized: put the representations back
						regs[k].RerandomizeRepresentation(uint64(k))
					}
				}
			}
			for k := range regs {
				applyFE(ep, regs, opRec{Op: "Norm", Z: k + 1})
				viewFE(ep, regs, k+1)
			}
		})
	}
	// elements whose words agree in the leading limbs
	r.Repeat("near", r.Scale(800, 15000), func(ep *zz.Ep, i int) {
		a := randWord(ep.Rng)
		b := new(big.Int).Set(a)
		switch ep.Rng.Intn(3) {
		case 0:
			b = new(big.Int).Sub(P, a)
		case 1:
			b = new(big.Int).Sub(P2, a)
		}
		if ep.Rng.Intn(2) == 0 {
			b.Add(b, P)
		}
		d := new(big.Int).Lsh(big.NewInt(int64(ep.Rng.Intn(5)-2)), uint(64*ep.Rng.Intn(4)))
		b.Add(b, d)
		b.Mod(b, C)
		regs := startFE(ep, []FE{mkWord(a), mkWord(b), randFE(ep.Rng)})
		for k := 0; k < 4; k++ {
			cmpFE(ep, regs, 1, 2, k)
			repFE(ep, regs, 1, 2, ep.Rng.Uint64())
			cmpFE(ep, regs, 1+ep.Rng.Intn(3), 1+ep.Rng.Intn(3), k)
			applyFE(ep, regs, opRec{Op: "Rerand", Z: 1 + ep.Rng.Intn(3), Seed: ep.Rng.Uint64()})
		}
	})
	r.Repeat("hist", r.Scale(800, 15000), func(ep *zz.Ep, i int) {
		regs := startFE(ep, []FE{randFE(ep.Rng), randFE(ep.Rng), randFE(ep.Rng)})
		for k := 0; k < 8; k++ {
			switch ep.Rng.Intn(4) {
			case 0:
				o := opRec{Op: "Set", Z: 1 + ep.Rng.Intn(3), V: zz.Hex(randSet(ep.Rng)), K: ep.Rng.Intn(210)}
				applyFE(ep, regs, o)
				viewFE(ep, regs, o.Z)
			case 1:
				cmpFE(ep, regs, 1+ep.Rng.Intn(3), 1+ep.Rng.Intn(3), k)
			case 2:
				viewFE(ep, regs, 1+ep.Rng.Intn(3))
			default:
				applyFE(ep, regs, randArith(ep.Rng, 3))
			}
		}
	})
}

// ---- batch operations

func suiteF04(r *zz.Run) {
	mk := func(ep *zz.Ep, n int, zeros int) []FE {
		var regs []FE
		for i := 0; i < n; i++ {
			x := randFE(ep.Rng)
			for x.IsZero() {
				x = randFE(ep.Rng)
			}
			if ep.Rng.Intn(8) == 0 {
				x = mkVal(big.NewInt(1), false)
			}
			regs = append(regs, x)
		}
		for i := 0; i < zeros && n > 0; i++ {
			regs[ep.Rng.Intn(n)] = mkVal(big.NewInt(0), ep.Rng.Intn(2) == 0)
		}
		return regs
	}
	all := func(ep *zz.Ep, regs []FE) {
		n := len(regs)
		args := []int{}
		for _, i := range ep.Rng.Perm(n) {
			args = append(args, i+1)
		}
		sub := args[:ep.Rng.Intn(n+1)]
		for _, op := range []string{"BatchInv", "BatchInvSkip"} {
			applyFE(ep, regs, opRec{Op: op, Lo: 1, Hi: n})
			applyFE(ep, regs, opRec{Op: op, Args: args})
			applyFE(ep, regs, opRec{Op: op, Args: sub})
			lo := 1 + ep.Rng.Intn(n)
			applyFE(ep, regs, opRec{Op: op, Lo: lo, Hi: lo - 1 + ep.Rng.Intn(n-lo+2)})
		}
		rep := []int{}
		for i := 0; i < ep.Rng.Intn(6); i++ {
			rep = append(rep, 1+ep.Rng.Intn(n))
		}
		for _, op := range []string{"ProdMany", "SumMany"} {
			applyFE(ep, regs, opRec{Op: op, Z: 1 + ep.Rng.Intn(n), Args: rep})
			applyFE(ep, regs, opRec{Op: op, Z: 1 + ep.Rng.Intn(n), Args: args})
		}
		for _, op := range []string{"ProdSlice", "SumSlice"} {
			lo := 1 + ep.Rng.Intn(n)
			applyFE(ep, regs, opRec{Op: op, Z: 1 + ep.Rng.Intn(n), Lo: lo, Hi: lo - 1 + ep.Rng.Intn(n-lo+2)})
			applyFE(ep, regs, opRec{Op: op, Z: 1 + ep.Rng.Intn(n), Lo: 1, Hi: n})
		}
	}
	// every set of zero positions for short lists
	for n := 1; n <= 4; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			r.Episode(fmt.Sprintf("mask-%d-%d", n, mask), func(ep *zz.Ep) {
				regs := mk(ep, n, 0)
				for i := range regs {
					if mask>>i&1 == 1 {
						regs[i] = mkVal(big.NewInt(0), ep.Rng.Intn(2) == 0)
					}
				}
				regs = startFE(ep, regs)
				for _, op := range []string{"BatchInv", "BatchInvSkip"} {
					args := []int{}
					for _, i := range ep.Rng.Perm(n) {
						args = append(args, i+1)
					}
					applyFE(ep, regs, opRec{Op: op, Lo: 1, Hi: n})
					applyFE(ep, regs, opRec{Op: op, Args: args})
				}
				all(ep, regs)
			})
		}
	}
	// many zeros: the error messages change their form
	for n := 8; n <= 14; n++ {
		r.Episode(fmt.Sprintf("zeros-%d", n), func(ep *zz.Ep) {
			regs := mk(ep, n+2, 0)
			for i := 0; i < n; i++ {
				regs[i+1] = mkVal(big.NewInt(0), ep.Rng.Intn(2) == 0)
			}
			all(ep, startFE(ep, regs))
		})
	}
	r.Repeat("rand", r.Scale(500, 8000), func(ep *zz.Ep, i int) {
		n := 1 + ep.Rng.Intn(9)
		if i%50 == 0 {
			n = 20 + ep.Rng.Intn(30)
		}
		z := 0
		if ep.Rng.Intn(3) == 0 {
			z = 1 + ep.Rng.Intn(n)
		}
		all(ep, startFE(ep, mk(ep, n, z)))
	})
}

func wellFormed(err error) bool {
	if v, ok := err.(interface{ ValidateError_Final() error }); ok {
		return v.ValidateError_Final() == nil
	}
	return true
}
