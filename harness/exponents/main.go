//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type M = zz.M

var P, _ = new(big.Int).SetString("1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1", 16)
var P2 = new(big.Int).Lsh(P, 1)

func add(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }

// edge values in [0, 2p)
func edges() (r []*big.Int) {
	for _, d := range []int64{0, 1, 2, 3, 1 << 32, math.MaxInt64} {
		r = append(r, big.NewInt(d))
	}
	for _, d := range []int64{-2, -1, 0, 1, 2} {
		r = append(r, add(P, d))
	}
	for _, d := range []int64{-1, -2, -3} {
		r = append(r, add(P2, d))
	}
	for _, k := range []uint{63, 64, 65, 127, 128, 191, 192, 252, 253} {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		for _, d := range []int64{-1, 0, 1} {
			r = append(r, add(x, d))
		}
		y := new(big.Int).Sub(P2, x)
		r = append(r, y, add(y, 1))
		y = new(big.Int).Add(P, x)
		if y.Cmp(P2) < 0 {
			r = append(r, y, add(y, -1))
		}
	}
	half := new(big.Int).Rsh(P, 1)
	r = append(r, half, add(half, 1))
	var rr []*big.Int
	for _, x := range r {
		if x.Sign() >= 0 && x.Cmp(P2) < 0 {
			rr = append(rr, x)
		}
	}
	return rr
}

var edgeVals = edges()

func randVal(rng *rand.Rand) *big.Int {
	switch rng.Intn(4) {
	case 0:
		return zz.Pick(rng, edgeVals)
	case 1:
		return new(big.Int).Mod(zz.RandLimbs(rng, 4), P2)
	case 2:
		// near multiples of p/small
		d := big.NewInt(int64(rng.Intn(9) + 1))
		x := new(big.Int).Mul(P2, big.NewInt(int64(rng.Intn(10))))
		x.Div(x, d)
		x.Add(x, big.NewInt(int64(rng.Intn(5)-2)))
		return x.Mod(x, P2)
	default:
		return zz.RandBig(rng, P2)
	}
}

func mk(v *big.Int) *exponents.Exponent {
	var e exponents.Exponent
	e.SetBigInt(v)
	return &e
}

var names = []string{"r0", "r1", "r2"}

func snap(regs map[string]*exponents.Exponent) M {
	m := M{}
	for k, v := range regs {
		m[k] = zz.Hex(v.ToBigInt_Full())
	}
	return m
}

func view(regs map[string]*exponents.Exponent, x string) M {
	v := regs[x]
	red := v.ModuloP253()
	// ToBigInt_Subgroup and ModuloP253 are two ways of saying the same thing
	sub := zz.Hex(v.ToBigInt_Subgroup())
	if h := zz.Hex(red.ToBigInt_Full()); h != sub {
		sub = sub + "/" + h
	}
	dec := v.String()
	if d2 := fmt.Sprintf("%v", *v); d2 != dec {
		dec = dec + "/" + d2
	}
	full := zz.Hex(v.ToBigInt_Full())
	if h := fmt.Sprintf("%x", v); h != full {
		full = full + "/" + h
	}
	return M{"x": x, "got": M{"full": full, "sub": sub, "dec": dec,
		"isz": v.IsZero_Full(), "iszs": v.IsZero_Subgroup(), "is1": v.IsOne_Full(), "is1s": v.IsOne_Subgroup()}}
}

type opRec struct {
	Op string `json:"op"`
	Z  string `json:"z"`
	X  string `json:"x"`
	Y  string `json:"y"`
	V  string `json:"v"`
}

func apply(ep *zz.Ep, regs map[string]*exponents.Exponent, o opRec) {
	z, x, y := regs[o.Z], regs[o.X], regs[o.Y]
	ev := M{"z": o.Z}
	switch o.Op {
	case "Add":
		z.Add(x, y)
	case "Sub":
		z.Sub(x, y)
	case "Mul":
		z.Mul(x, y)
	case "Neg":
		z.Neg(x)
	case "Mod":
		*z = x.ModuloP253()
	case "Copy":
		*z = *x
	case "Zero":
		z.SetZero()
	case "One":
		z.SetOne()
	case "SetBig":
		v := zz.FromHex(o.V)
		z.SetBigInt(v)
		ev["v"] = zz.Hex(v) // SetBigInt must not modify its argument
	case "SetU":
		z.SetUInt(zz.FromHex(o.V).Uint64())
		ev["v"] = o.V
	case "SetI":
		z.SetInt(zz.FromHex(o.V).Int64())
		ev["v"] = o.V
	default:
		panic("bad op " + o.Op)
	}
	if o.X != "" {
		ev["x"] = o.X
	}
	if o.Y != "" {
		ev["y"] = o.Y
	}
	ev["post"] = snap(regs)
	ep.Log(o.Op, ev)
}

func start(ep *zz.Ep, vals map[string]*big.Int) map[string]*exponents.Exponent {
	regs := map[string]*exponents.Exponent{}
	init := M{}
	for k, e := range sharedExp {
		regs[k] = e
		init[k] = zz.Hex(e.ToBigInt_Full())
	}
	for k, v := range vals {
		regs[k] = mk(v)
		init[k] = zz.Hex(v)
	}
	ep.Set("init", init)
	return regs
}

func randOp(rng *rand.Rand) opRec {
	z, x, y := zz.Pick(rng, names), zz.Pick(rng, names), zz.Pick(rng, names)
	switch rng.Intn(13) {
	case 0, 1:
		return opRec{Op: "Add", Z: z, X: x, Y: y}
	case 2, 3:
		return opRec{Op: "Sub", Z: z, X: x, Y: y}
	case 4, 5:
		return opRec{Op: "Mul", Z: z, X: x, Y: y}
	case 6, 7:
		return opRec{Op: "Neg", Z: z, X: x}
	case 8:
		return opRec{Op: "Mod", Z: z, X: x}
	case 9:
		v := new(big.Int).Set(randVal(rng))
		switch rng.Intn(4) {
		case 0:
			v.Neg(v)
		case 1:
			v.Mul(v, randVal(rng))
			if rng.Intn(2) == 0 {
				v.Neg(v)
			}
		case 2:
			v.Mul(P2, big.NewInt(int64(rng.Intn(7)-3)))
			v.Add(v, big.NewInt(int64(rng.Intn(5)-2)))
		}
		return opRec{Op: "SetBig", Z: z, V: zz.Hex(v)}
	case 10:
		return opRec{Op: "SetU", Z: z, V: zz.HexU64(zz.RandLimbs(rng, 1).Uint64())}
	case 11:
		return opRec{Op: "SetI", Z: z, V: zz.HexI64(int64(zz.RandLimbs(rng, 1).Uint64()))}
	default:
		return opRec{Op: zz.Pick(rng, []string{"Zero", "One", "Copy"}), Z: z, X: x}
	}
}

func suiteE01(r *zz.Run) {
	// all pairs of edge values, all operations, several alias patterns
	for i, a := range edgeVals {
		for j, b := range edgeVals {
			r.Episode(fmt.Sprintf("pair-%d-%d", i, j), func(ep *zz.Ep) {
				regs := start(ep, map[string]*big.Int{"r0": a, "r1": b, "r2": big.NewInt(7)})
				reset := func() {
					apply(ep, regs, opRec{Op: "SetBig", Z: "r0", V: zz.Hex(a)})
					apply(ep, regs, opRec{Op: "SetBig", Z: "r1", V: zz.Hex(b)})
				}
				for _, op := range []string{"Add", "Sub", "Mul"} {
					apply(ep, regs, opRec{Op: op, Z: "r2", X: "r0", Y: "r1"})
					apply(ep, regs, opRec{Op: op, Z: "r0", X: "r0", Y: "r1"})
					reset()
					apply(ep, regs, opRec{Op: op, Z: "r1", X: "r0", Y: "r1"})
					reset()
				}
				if j == 0 {
					ep.Log("View", view(regs, "r0"))
					for _, op := range []string{"Neg", "Mod"} {
						apply(ep, regs, opRec{Op: op, Z: "r2", X: "r0"})
						ep.Log("View", view(regs, "r2"))
						apply(ep, regs, opRec{Op: op, Z: "r0", X: "r0"})
						ep.Log("View", view(regs, "r0"))
						reset()
					}
					for _, op := range []string{"Add", "Sub", "Mul"} {
						apply(ep, regs, opRec{Op: op, Z: "r2", X: "r0", Y: "r0"})
						apply(ep, regs, opRec{Op: op, Z: "r0", X: "r0", Y: "r0"})
						reset()
					}
				}
			})
		}
	}
	r.Repeat("rand", r.Scale(1500, 30000), func(ep *zz.Ep, i int) {
		regs := start(ep, map[string]*big.Int{"r0": randVal(ep.Rng), "r1": randVal(ep.Rng), "r2": randVal(ep.Rng)})
		for k := 0; k < 12; k++ {
			o := randOp(ep.Rng)
			apply(ep, regs, o)
			if k%2 == 1 {
				ep.Log("View", view(regs, zz.Pick(ep.Rng, names)))
			}
		}
	})
	if r.In != "" {
		for i, raw := range zz.ReadBehaviours(r.In) {
			var ops []opRec
			if err := json.Unmarshal(raw, &ops); err != nil {
				panic(err)
			}
			r.Episode(fmt.Sprintf("gen-%d", i), func(ep *zz.Ep) {
				seen := map[string]bool{}
				for _, o := range ops {
					for _, n := range []string{o.Z, o.X, o.Y} {
						if n != "" {
							seen[n] = true
						}
					}
				}
				seen["r0"], seen["r1"] = true, true
				var ks []string
				for k := range seen {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				vals := map[string]*big.Int{}
				for _, k := range ks {
					vals[k] = randVal(ep.Rng)
				}
				regs := start(ep, vals)
				for _, o := range ops {
					apply(ep, regs, o)
				}
				for _, k := range ks {
					ep.Log("View", view(regs, k))
				}
			})
		}
	}
}

func main() {
	zz.Main(map[string]func(*zz.Run){"E01": suiteE01, "E02": suiteE02, "P01exp": suiteP01exp, "P01glv": suiteP01glv})
}

// exponents that many episodes use at the same time; never written
var sharedExp map[string]*exponents.Exponent

func suiteP01exp(r *zz.Run) {
	rng := rand.New(rand.NewSource(r.Seed))
	sharedExp = map[string]*exponents.Exponent{"s0": mk(randVal(rng)), "s1": mk(randVal(rng)), "s2": mk(big.NewInt(1))}
	r.Together(r.Scale(600, 9000), 6, suiteE01, suiteSharedExp)
}

func suiteSharedExp(r *zz.Run) {
	r.Repeat("shared", r.Scale(450, 4500), func(ep *zz.Ep, i int) {
		regs := start(ep, map[string]*big.Int{"r0": randVal(ep.Rng), "r1": randVal(ep.Rng), "r2": randVal(ep.Rng)})
		all := []string{"r0", "r1", "r2", "s0", "s1", "s2"}
		for k := 0; k < 12; k++ {
			o := randOp(ep.Rng)
			if o.X != "" {
				o.X = zz.Pick(ep.Rng, all)
			}
			if o.Y != "" {
				o.Y = zz.Pick(ep.Rng, all)
			}
			apply(ep, regs, o)
			if k%2 == 1 {
				ep.Log("View", view(regs, zz.Pick(ep.Rng, all)))
			}
		}
	})
}

func suiteP01glv(r *zz.Run) { r.Together(r.Scale(180, 3000), 6, suiteE02) }
