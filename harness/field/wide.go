//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type U256 = fe.Uint256
type U512 = fe.Uint512

func hex512(x U512) string {
	v := new(big.Int)
	for i := 7; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(x[i]))
	}
	return zz.Hex(v)
}

type wide struct {
	ep *zz.Ep
	u  []U256
	w  U512
}

func startWide(ep *zz.Ep, vals ...*big.Int) *wide {
	m := &wide{ep: ep}
	for _, v := range vals {
		m.u = append(m.u, u256(v))
	}
	ep.Set("init", m.snap())
	return m
}

func (m *wide) snap() []string {
	r := make([]string, len(m.u))
	for i := range m.u {
		r[i] = hex256(m.u[i])
	}
	return r
}

func (m *wide) log(op string, ev M) {
	ev["post"] = m.snap()
	ev["w"] = hex512(m.w)
	m.ep.Log(op, ev)
}

// exact runs one exact operation
func (m *wide) exact(o opRec, n uint) {
	ev := M{}
	var z, x, y *U256
	if o.Z > 0 {
		z, ev["z"] = &m.u[o.Z-1], o.Z
	}
	if o.X > 0 {
		x, ev["x"] = &m.u[o.X-1], o.X
	}
	if o.Y > 0 {
		y, ev["y"] = &m.u[o.Y-1], o.Y
	}
	var v *big.Int
	if o.V != "" {
		v = hx(o.V)
		ev["v"] = o.V
	}
	ret := "-"
	var f func()
	switch o.Op {
	case "Add":
		f = func() { z.Add(x, y) }
	case "AddC":
		f = func() { ret = zz.HexU64(z.AddAndReturnCarry(x, y)) }
	case "Sub":
		f = func() { z.Sub(x, y) }
	case "SubB":
		f = func() { ret = zz.HexU64(z.SubAndReturnBorrow(x, y)) }
	case "Mul":
		f = func() { z.Mul(x, y) }
	case "Inc":
		f = func() { z.Increment(x) }
		if o.Z == o.X && o.K%2 == 1 {
			f = func() { z.IncrementEq() }
		}
	case "Dec":
		f = func() { z.Decrement(x) }
		if o.Z == o.X && o.K%2 == 1 {
			f = func() { z.DecrementEq() }
		}
	case "Shr":
		ev["n"] = int(n)
		f = func() { z.ShiftRightEq(n) }
	case "ShrL":
		f = func() { ret = zz.HexU64(z.ShiftRightEq_64()) }
	case "ShlL":
		f = func() { ret = zz.HexU64(z.ShiftLeftEq_64()) }
	case "Zero":
		f = func() { z.SetZero() }
	case "One":
		f = func() { z.SetOne() }
	case "Copy":
		f = func() { z.SetUint256(x) }
		if o.K%2 == 1 {
			f = func() { x.ToUint256(z) }
		}
	case "SetV":
		kinds := []func(){
			func() { z.SetBigInt(v); ev["v"] = zz.Hex(v) },
			func() { t := fe.BigIntToUInt256(v); ev["v"] = zz.Hex(v); *z = t },
			func() { t := fe.InitUint256FromString(fmt.Sprintf("%#x", v)); *z = t },
			func() { t := fe.InitUint256FromString(v.String()); *z = t },
		}
		if v.IsUint64() {
			kinds = append(kinds, func() { z.SetUint64(v.Uint64()) }, func() { z.SetUint64(v.Uint64()) })
		}
		ev["m"] = o.K % len(kinds)
		f = kinds[o.K%len(kinds)]
	case "WSetV":
		kinds := []func(){
			func() { m.w.SetBigInt(v); ev["v"] = zz.Hex(v) },
			func() { t := fe.BigIntToUint512(v); ev["v"] = zz.Hex(v); m.w = t },
		}
		if v.IsUint64() {
			kinds = append(kinds, func() { m.w.SetUint64(v.Uint64()) })
		}
		ev["m"] = o.K % len(kinds)
		f = kinds[o.K%len(kinds)]
	case "WMul":
		f = func() { m.w.LongMul(x, y) }
	case "WSq":
		f = func() { m.w.LongSquare(x) }
	case "WSet":
		f = func() { m.w.SetUint256(x) }
	case "WGet":
		f = func() { m.w.ToUint256(z) }
	case "MulL":
		f = func() {
			var t [5]uint64
			for i := range t {
				t[i] = 0xdeadbeefdeadbeef
			}
			fe.LongMulUint64(&t, x, v.Uint64())
			a := new(big.Int)
			for i := 4; i >= 0; i-- {
				a.Lsh(a, 64)
				a.Or(a, new(big.Int).SetUint64(t[i]))
			}
			ret = zz.Hex(a)
		}
	default:
		panic("bad op " + o.Op)
	}
	ev["out"] = zz.Outcome(f)
	ev["ret"] = ret
	m.log(o.Op, ev)
}

func (m *wide) view(xi int) {
	x := &m.u[xi-1]
	got := M{"big": zz.Hex(x.ToBigInt()), "dec": x.String(), "hex": fmt.Sprintf("%x", *x), "bitlen": x.BitLen(), "isz": x.IsZero(), "is1": x.IsOne(),
		"a": x.IsReduced_a(), "b": x.IsReduced_b(), "c": x.IsReduced_c(), "f": x.IsReduced_f()}
	if fmt.Sprintf("%v", *x) != x.String() {
		got["dec"] = "formats disagree"
	}
	m.log("View", M{"x": xi, "got": got})
}

func (m *wide) cmp(xi, yi int) {
	x, y := &m.u[xi-1], &m.u[yi-1]
	m.log("Compare", M{"x": xi, "y": yi, "got": M{"cmp": x.Cmp(y), "less": x.IsLessThan(y)}})
}

func (m *wide) wview() {
	m.log("WView", M{"big": zz.Hex(m.w.ToBigInt()), "dec": m.w.String(), "hex": fmt.Sprintf("%x", m.w)})
}

var rangeOf = map[string]*big.Int{"a": R, "b": P2, "c": C, "f": P}
var modIn = map[string]string{"AddB": "b", "SubBb": "b", "AddCc": "c", "SubCc": "c", "AddA": "a", "SubA": "a", "DblA": "a", "MulA": "a", "SqA": "a",
	"RedA": "a", "RedCA": "a", "RedFB": "b", "MulM": "c", "SqM": "c", "ToM": "c", "FromM": "c", "NegA": "a", "ExpA": "a", "ExpM": "a"}
var modTwo = map[string]bool{"AddB": true, "SubBb": true, "AddCc": true, "SubCc": true, "AddA": true, "SubA": true, "MulA": true, "MulM": true}
var modEq = map[string]bool{"AddA": true, "SubA": true, "DblA": true, "RedA": true, "RedCA": true, "RedFB": true} // receiver is the first operand

// admissible tells whether registers x, y may be used for op
func (m *wide) admissible(op string, xi, yi int) bool {
	lim := rangeOf[modIn[op]]
	if m.u[xi-1].ToBigInt().Cmp(lim) >= 0 {
		return false
	}
	return !modTwo[op] || m.u[yi-1].ToBigInt().Cmp(lim) < 0
}

func (m *wide) modular(op string, zi, xi, yi int, k int, exp *big.Int) {
	if modEq[op] {
		xi = zi
	}
	if !m.admissible(op, xi, yi) {
		return
	}
	z, x, y := &m.u[zi-1], &m.u[xi-1], &m.u[yi-1]
	ev := M{"z": zi, "x": xi}
	if modTwo[op] {
		ev["y"] = yi
	}
	switch op {
	case "AddB":
		z.AddAndReduce_b(x, y)
	case "AddCc":
		z.AddAndReduce_c(x, y)
	case "SubBb":
		z.SubAndReduce_b(x, y)
	case "SubCc":
		z.SubAndReduce_c(x, y)
	case "AddA":
		z.AddEqAndReduce_a(y)
	case "SubA":
		z.SubEqAndReduce_a(y)
	case "DblA":
		z.DoubleEqAndReduce_a()
	case "MulA":
		if zi == xi && k%2 == 1 {
			z.MulEqAndReduce_a(y)
		} else {
			z.MulAndReduce_a(x, y)
		}
	case "SqA":
		if zi == xi && k%2 == 1 {
			z.SquareEqAndReduce_a()
		} else {
			z.SquareAndReduce_a(x)
		}
	case "RedA":
		if k%2 == 0 {
			z.Reduce()
		} else {
			z.Reduce_fa()
		}
	case "RedCA":
		z.Reduce_ca()
	case "RedFB":
		z.Reduce_fb()
	case "MulM":
		z.MulMontgomery_c(x, y)
	case "SqM":
		z.SquareMontgomery_c(x)
	case "ToM":
		z.ConvertToMontgomeryRepresentation_c(x)
	case "FromM":
		if k%2 == 0 {
			z.FromMontgomeryRepresentation_fc(x)
		} else {
			t := x.ToNonMontgomery_fc()
			*z = t
		}
	case "NegA":
		t := x.ComputeModularNegative_Weak_a()
		*z = t
	case "ExpA", "ExpM":
		w := u256(exp)
		if op == "ExpA" {
			z.ModularExponentiation_fa(x, &w)
		} else {
			z.ModularExponentiationMontgomery_fa(x, &w)
		}
		ev["v"] = hex256(w)
	default:
		panic(op)
	}
	m.log(op, ev)
}

func (m *wide) inv(zi, xi int) {
	ok := m.u[zi-1].ModularInverse_a_NAIVEHAC(&m.u[xi-1])
	m.log("InvA", M{"z": zi, "x": xi, "ok": ok})
}

func (m *wide) wred(zi int) {
	m.u[zi-1].ReduceUint512ToUint256_a(m.w)
	m.log("WRed", M{"z": zi})
}

func (m *wide) slide(xi int, win uint8) {
	ds := m.u[xi-1].SlidingWindowDecomposition(win)
	lst := []any{}
	v := reflect.ValueOf(ds)
	for i := 0; i < v.Len(); i++ {
		d := v.Index(i)
		e, p := d.FieldByName("exp"), d.FieldByName("pos")
		if !e.IsValid() || !p.IsValid() {
			e, p = d.Field(0), d.Field(1)
		}
		lst = append(lst, M{"e": zz.HexU64(e.Uint()), "p": int(p.Uint())})
	}
	m.log("Slide", M{"x": xi, "win": int(win), "ds": lst})
}

func rand256(rng *rand.Rand) *big.Int {
	switch rng.Intn(5) {
	case 0:
		return zz.Pick(rng, edgeRaw)
	case 1, 2:
		return zz.RandLimbs(rng, 4)
	case 3:
		j := int64(1 + rng.Intn(8))
		b := zz.Pick(rng, []*big.Int{P, R, C, P2})
		w := new(big.Int).Mul(b, big.NewInt(int64(rng.Intn(9))))
		w.Div(w, big.NewInt(j))
		w.Add(w, big.NewInt(int64(rng.Intn(7)-3)))
		return w.Mod(w, R)
	default:
		return zz.RandBig(rng, R)
	}
}

var exact3 = []string{"Add", "AddC", "Sub", "SubB", "Mul"}
var exact2 = []string{"Inc", "Dec", "Copy"}

func suiteF06(r *zz.Run) {
	// all pairs of special limb patterns
	for i, a := range edgeRaw {
		for j, b := range edgeRaw {
			if !r.Thorough() && (i+2*j)%4 != int(r.Seed)&3 && i != j {
				continue
			}
			r.Episode(fmt.Sprintf("pair-%d-%d", i, j), func(ep *zz.Ep) {
				m := startWide(ep, a, b, big.NewInt(9))
				for _, op := range exact3 {
					m.exact(opRec{Op: op, Z: 3, X: 1, Y: 2}, 0)
				}
				m.cmp(1, 2)
				m.exact(opRec{Op: "WMul", X: 1, Y: 2}, 0)
				if i != j {
					return
				}
				m.cmp(1, 1)
				m.cmp(2, 1)
				m.exact(opRec{Op: "WSq", X: 1}, 0)
				m.wview()
				m.exact(opRec{Op: "WSet", X: 1}, 0)
				m.wview()
				m.exact(opRec{Op: "WGet", Z: 3}, 0)
				for _, op := range exact2 {
					m.exact(opRec{Op: op, Z: 3, X: 1}, 0)
					for k := 0; k < 2; k++ {
						m.exact(opRec{Op: "Copy", Z: 2, X: 1}, 0)
						m.exact(opRec{Op: op, Z: 2, X: 2, K: k}, 0)
						m.view(2)
					}
				}
				for _, op := range exact3 {
					m.exact(opRec{Op: op, Z: 3, X: 1, Y: 1}, 0)
					m.exact(opRec{Op: "Copy", Z: 2, X: 1}, 0)
					m.exact(opRec{Op: op, Z: 2, X: 2, Y: 2}, 0)
				}
				for n := uint(0); n <= 64; n++ {
					m.exact(opRec{Op: "Copy", Z: 2, X: 1}, 0)
					m.exact(opRec{Op: "Shr", Z: 2}, n)
				}
				for _, op := range []string{"ShrL", "ShlL"} {
					m.exact(opRec{Op: "Copy", Z: 2, X: 1}, 0)
					for k := 0; k < 5; k++ {
						m.exact(opRec{Op: op, Z: 2}, 0)
						m.view(2)
					}
				}
				for _, v := range []string{"0", "1", "ffffffffffffffff", "8000000000000000"} {
					m.exact(opRec{Op: "MulL", X: 1, V: v}, 0)
				}
				for k := 0; k < 4; k++ {
					m.exact(opRec{Op: "SetV", Z: 3, V: zz.Hex(a), K: k}, 0)
				}
				m.view(1)
			})
		}
	}
	r.Repeat("rand", r.Scale(1500, 25000), func(ep *zz.Ep, i int) {
		m := startWide(ep, rand256(ep.Rng), rand256(ep.Rng), rand256(ep.Rng))
		rg := func() int { return 1 + ep.Rng.Intn(3) }
		for k := 0; k < 16; k++ {
			switch ep.Rng.Intn(12) {
			case 0, 1, 2, 3:
				m.exact(opRec{Op: zz.Pick(ep.Rng, exact3), Z: rg(), X: rg(), Y: rg()}, 0)
			case 4:
				m.exact(opRec{Op: zz.Pick(ep.Rng, exact2), Z: rg(), X: rg(), K: ep.Rng.Intn(2)}, 0)
			case 5:
				m.exact(opRec{Op: "Shr", Z: rg()}, uint(ep.Rng.Intn(65)))
			case 6:
				m.exact(opRec{Op: zz.Pick(ep.Rng, []string{"ShrL", "ShlL", "Zero", "One"}), Z: rg()}, 0)
			case 7:
				v := zz.RandLimbs(ep.Rng, 1+ep.Rng.Intn(5))
				if ep.Rng.Intn(8) == 0 {
					v.Neg(v)
				}
				m.exact(opRec{Op: "SetV", Z: rg(), V: zz.Hex(v), K: ep.Rng.Intn(60)}, 0)
			case 8:
				m.exact(opRec{Op: zz.Pick(ep.Rng, []string{"WMul", "WSq", "WSet"}), X: rg(), Y: rg()}, 0)
				m.wview()
			case 9:
				if ep.Rng.Intn(2) == 0 {
					v := zz.RandLimbs(ep.Rng, 1+ep.Rng.Intn(9))
					if ep.Rng.Intn(8) == 0 {
						v.Neg(v)
					}
					m.exact(opRec{Op: "WSetV", V: zz.Hex(v), K: ep.Rng.Intn(60)}, 0)
					m.wview()
				}
				m.exact(opRec{Op: "WGet", Z: rg()}, 0)
			case 10:
				m.exact(opRec{Op: "MulL", X: rg(), V: zz.HexU64(zz.RandLimbs(ep.Rng, 1).Uint64())}, 0)
			default:
				m.view(rg())
				m.cmp(rg(), rg())
			}
		}
	})
}

func suiteF07(r *zz.Run) {
	var ops []string
	for _, o := range []string{"AddB", "SubBb", "AddCc", "SubCc", "AddA", "SubA", "DblA", "MulA", "SqA", "RedA", "RedCA", "RedFB", "MulM", "SqM", "ToM", "FromM", "NegA"} {
		ops = append(ops, o)
	}
	for i, a := range edgeRaw {
		for j, b := range edgeRaw {
			if !r.Thorough() && (i+2*j)%4 != int(r.Seed)&3 && i != j {
				continue
			}
			r.Episode(fmt.Sprintf("pair-%d-%d", i, j), func(ep *zz.Ep) {
				m := startWide(ep, a, b, a)
				for _, op := range ops {
					if modTwo[op] {
						if modEq[op] {
							m.exact(opRec{Op: "Copy", Z: 3, X: 1}, 0)
						}
						m.modular(op, 3, 1, 2, 0, nil)
					}
				}
				if i != j {
					return
				}
				m.view(1)
				for _, op := range ops {
					for k := 0; k < 2; k++ {
						m.exact(opRec{Op: "Copy", Z: 3, X: 1}, 0)
						m.modular(op, 3, 1, 1, k, nil)
						m.exact(opRec{Op: "Copy", Z: 3, X: 1}, 0)
						m.modular(op, 3, 3, 3, k, nil)
						m.view(3)
					}
				}
				m.inv(3, 1)
				m.exact(opRec{Op: "Copy", Z: 3, X: 1}, 0)
				m.inv(3, 3)
				m.exact(opRec{Op: "WSq", X: 1}, 0)
				m.wred(3)
			})
		}
	}
	r.Repeat("border", r.Scale(2000, 25000), func(ep *zz.Ep, i int) {
		a := rand256(ep.Rng)
		t := zz.Pick(ep.Rng, []*big.Int{R, P, P2, C, big.NewInt(0), new(big.Int).Add(P2, P), new(big.Int).Add(R, P), new(big.Int).Add(R, P2)})
		b := new(big.Int).Sub(t, a)
		if ep.Rng.Intn(2) == 0 {
			b = new(big.Int).Sub(a, t)
		}
		b = add(b, int64(ep.Rng.Intn(7)-3))
		if ep.Rng.Intn(3) == 0 {
			b.Add(b, new(big.Int).Lsh(big.NewInt(1), uint(64*ep.Rng.Intn(4))))
		}
		b.Mod(b, R)
		m := startWide(ep, a, b, a)
		for _, op := range ops {
			if modEq[op] {
				m.exact(opRec{Op: "Copy", Z: 3, X: 1}, 0)
			}
			m.modular(op, 3, 1, 2, ep.Rng.Intn(2), nil)
		}
	})
	r.Repeat("rand", r.Scale(1200, 20000), func(ep *zz.Ep, i int) {
		m := startWide(ep, rand256(ep.Rng), rand256(ep.Rng), rand256(ep.Rng))
		rg := func() int { return 1 + ep.Rng.Intn(3) }
		for k := 0; k < 16; k++ {
			switch ep.Rng.Intn(10) {
			case 0:
				m.exact(opRec{Op: "WSetV", V: zz.Hex(zz.RandLimbs(ep.Rng, 8))}, 0)
				m.wred(rg())
			case 1:
				m.exact(opRec{Op: "WMul", X: rg(), Y: rg()}, 0)
				m.wred(rg())
			case 2: // multiples of p
				v := new(big.Int).Mul(P, zz.RandLimbs(ep.Rng, 4))
				v.Add(v, big.NewInt(int64(ep.Rng.Intn(3)-1)))
				v.Abs(v)
				m.exact(opRec{Op: "WSetV", V: zz.Hex(v)}, 0)
				m.wred(rg())
			case 3:
				m.exact(opRec{Op: "SetV", Z: rg(), V: zz.Hex(rand256(ep.Rng))}, 0)
			case 4:
				m.inv(rg(), rg())
			case 5:
				m.view(rg())
			default:
				m.modular(zz.Pick(ep.Rng, ops), rg(), rg(), rg(), ep.Rng.Intn(2), nil)
			}
		}
	})
}

func expEdges(rng *rand.Rand) *big.Int {
	switch rng.Intn(6) {
	case 0:
		return big.NewInt(int64(rng.Intn(40)))
	case 1:
		return new(big.Int).Lsh(big.NewInt(1), uint(rng.Intn(256)))
	case 2: // runs of ones
		v := new(big.Int).Lsh(big.NewInt(1), uint(1+rng.Intn(256)))
		return v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(rng.Intn(v.BitLen()))))
	case 3: // sparse
		v := new(big.Int)
		for i := 0; i < 4; i++ {
			v.SetBit(v, rng.Intn(256), 1)
		}
		return v
	case 4:
		return zz.Pick(rng, edgeRaw)
	default:
		return zz.RandLimbs(rng, 4)
	}
}

func suiteF08(r *zz.Run) {
	var es []*big.Int
	for i := int64(0); i < 40; i++ {
		es = append(es, big.NewInt(i))
	}
	for k := uint(0); k < 256; k++ {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		es = append(es, x, add(x, -1), new(big.Int).Sub(R, x))
	}
	es = append(es, edgeRaw...)
	for i, ex := range es {
		if !r.Thorough() && i > 40 && i%3 != int(r.Seed)%3 {
			continue
		}
		r.Episode(fmt.Sprintf("exp-%d", i), func(ep *zz.Ep) {
			m := startWide(ep, rand256(ep.Rng), ex, zz.Pick(ep.Rng, edgeRaw))
			m.modular("ExpA", 3, 1, 1, 0, ex)
			m.modular("ExpM", 3, 1, 1, 0, ex)
			wins := []int{1, 2, 3, 4, 5, 6, 8, 15, 16, 31, 32, 62, 63, 1 + ep.Rng.Intn(63), 1 + ep.Rng.Intn(63)}
			if r.Thorough() {
				wins = nil
				for w := 1; w < 64; w++ {
					wins = append(wins, w)
				}
			}
			for _, win := range wins {
				m.slide(2, uint8(win))
			}
		})
	}
	r.Episode("zero-base", func(ep *zz.Ep) {
		m := startWide(ep, big.NewInt(0), P, P2)
		for _, b := range []int{1, 2, 3} {
			for _, ex := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), add(P, -1), P, add(R, -1)} {
				for _, op := range []string{"ExpA", "ExpM"} {
					m.exact(opRec{Op: "SetV", Z: 1, V: "0"}, 0)
					m.exact(opRec{Op: "SetV", Z: 2, V: zz.Hex(P)}, 0)
					m.exact(opRec{Op: "SetV", Z: 3, V: zz.Hex(P2)}, 0)
					m.modular(op, 3, b, b, 0, ex)
				}
			}
		}
		for _, w := range []uint8{0, 64, 65, 128, 255} {
			out := zz.Outcome(func() { m.u[0].SlidingWindowDecomposition(w) })
			m.log("SlideBad", M{"x": 1, "win": int(w), "out": out})
		}
	})
	r.Repeat("rand", r.Scale(600, 10000), func(ep *zz.Ep, i int) {
		m := startWide(ep, rand256(ep.Rng), rand256(ep.Rng), expEdges(ep.Rng))
		for k := 0; k < 5; k++ {
			zi, xi := 1+ep.Rng.Intn(2), 1+ep.Rng.Intn(3)
			m.modular(zz.Pick(ep.Rng, []string{"ExpA", "ExpM"}), zi, xi, 1, 0, expEdges(ep.Rng))
			m.slide(1+ep.Rng.Intn(3), uint8(1+ep.Rng.Intn(63)))
		}
		// the exponent may be the receiver or the base
		m.alias(ep.Rng.Intn(6))
	})
}

// alias runs an exponentiation whose exponent register coincides with base and/or receiver
func (m *wide) alias(k int) {
	pat := [][3]int{{1, 2, 1}, {1, 1, 1}, {1, 1, 2}, {2, 1, 1}, {1, 2, 3}, {3, 3, 3}}[k]
	z, x, ex := &m.u[pat[0]-1], &m.u[pat[1]-1], &m.u[pat[2]-1]
	v := hex256(*ex)
	ev := M{"z": pat[0], "x": pat[1], "v": v}
	z.ModularExponentiation_fa(x, ex)
	m.log("ExpA", ev)
	v = hex256(*ex)
	z.ModularExponentiationMontgomery_fa(x, ex)
	m.log("ExpM", M{"z": pat[0], "x": pat[1], "v": v})
}

// exponentiation of field elements
func suiteF08fe(r *zz.Run) {
	r.Repeat("fe", r.Scale(400, 8000), func(ep *zz.Ep, i int) {
		regs := startFE(ep, []FE{randFE(ep.Rng), randFE(ep.Rng), mkVal(big.NewInt(0), ep.Rng.Intn(2) == 0)})
		for k := 0; k < 6; k++ {
			applyFE(ep, regs, opRec{Op: "Exp", Z: 1 + ep.Rng.Intn(3), X: 1 + ep.Rng.Intn(3), V: zz.Hex(expEdges(ep.Rng))})
		}
		applyFE(ep, regs, opRec{Op: "Zero", Z: 3})
		applyFE(ep, regs, opRec{Op: "Exp", Z: 2, X: 3, V: zz.Pick(ep.Rng, []string{"0", "1", zz.Hex(add(P, -1)), zz.Hex(add(R, -1))})})
	})
}
