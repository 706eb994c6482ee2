//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sync"

	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

func main() {
	zz.Main(map[string]func(*zz.Run){
		"S01": suiteS01, "S02": suiteS02, "S03": suiteS03, "S04": suiteS04, "S05": suiteS05, "S05P": suiteS05P,
	})
}

// the points of interest that type t can hold
func kinds(t string, rng *rand.Rand) []pv {
	s := randSub(rng)
	r := []pv{pN, s, pneg(s), randSub(rng), randSub(rng), pNaP}
	if !isSub(t) {
		r = append(r, pA, padd(s, pA), pneg(padd(s, pA)), randFull(rng), randFull(rng), padd(s, pE1))
		for _, y := range []int64{0, 2, 3, 5} { // small coordinates
			if x := xFor(big.NewInt(y)); x != nil {
				r = append(r, aff(x, big.NewInt(y)))
			}
		}
	}
	if canInf(t) {
		r = append(r, pE1, pE2)
	}
	return r
}

func someBytes(rng *rand.Rand, most int) []byte {
	b := make([]byte, rng.Intn(most+1))
	rng.Read(b)
	if rng.Intn(4) == 0 {
		for i := range b {
			b[i] = 0
		}
	}
	return b
}

// a small modification history leading to some configuration; returns its index
func (s *st) derive(i, steps int) int {
	for k := 0; k < steps; k++ {
		c := s.fam[i-1].c
		key := zz.Pick(s.rng, c.keys())
		v := val{}
		switch key {
		case "endian":
			v = val{k: "order", be: s.rng.Intn(2) == 0}
		case "sub":
			v = val{k: "bool", be: c.f == "short" || c.f == "long" || s.rng.Intn(2) == 0}
		case "h1", "h2":
			l := s.rng.Intn(9)
			if s.rng.Intn(3) > 0 {
				l = s.rng.Intn(3)
			}
			v = val{k: "bith", h: [2]int{s.rng.Intn(1 << l), l}}
		default:
			v = val{k: "bytes", b: someBytes(s.rng, 4)}
		}
		if j := s.set1(i, key, v); j > 0 {
			i = j
		}
	}
	return i
}

// round trip of the point in register x through serializer i into the registers zs
func (s *st) trip(i, x int, zs []int) {
	s.writer(10000, s.rng.Intn(4) == 0)
	s.ser(i, "single", []int{x})
	for _, z := range zs {
		s.reread()
		s.de(i, z, false)
	}
}

func suiteS01(r *zz.Run) {
	// every kind of point of every type, in every format with default parameters and both byte orders, into every type
	for _, f := range formats() {
		for ti, t := range allNames {
			f, t, ti := f, t, ti
			if isForeign(t) && !r.Thorough() && (ti+len(f))%3 != 0 {
				continue
			}
			r.Episode("trip-"+f+"-"+t, func(ep *zz.Ep) {
				zt := zz.Pick(ep.Rng, fullNames)
				zs := zz.Pick(ep.Rng, subNames)
				zx := zz.Pick(ep.Rng, allNames)
				s := newSt(ep, []string{f}, t, zt, zs, zx)
				defer s.done()
				cfgs := []int{1, s.set1(1, "endian", val{k: "order", be: true})}
				if f[0] == 'x' || f[0] == 'y' {
					cfgs = append(cfgs, s.set1(zz.Pick(ep.Rng, cfgs), "sub", val{k: "bool", be: true}))
				}
				cfgs = append(cfgs, s.derive(zz.Pick(ep.Rng, cfgs), 3))
				ks := kinds(t, ep.Rng)
				for j, v := range ks {
					s.set(1, v, ep.Rng.Intn(nStyles))
					for n, i := range cfgs {
						if !r.Thorough() && (n+j)%2 == 1 && n > 1 {
							continue
						}
						s.trip(i, 1, []int{2, 3, 4})
						if isForeign(t) || ep.Rng.Intn(3) == 0 {
							s.reread()
							s.de(i, 1, false)
						}
					}
				}
			})
		}
	}
	// bit headers of every length
	for _, f := range formats() {
		if f == "xs" || f == "ys" {
			continue
		}
		for l := 0; l <= 8; l++ {
			f, l := f, l
			r.Episode(fmt.Sprintf("bits-%s-%d", f, l), func(ep *zz.Ep) {
				s := newSt(ep, []string{f}, "xf", "xs", zz.Pick(ep.Rng, allNames))
				defer s.done()
				for _, key := range []string{"h1", "h2"} {
					if key == "h2" && s.fam[0].c.coo() == 1 {
						continue
					}
					for _, b := range []int{0, 1<<l - 1, ep.Rng.Intn(1 << l)} {
						i := s.set1(1+ep.Rng.Intn(len(s.fam)), key, val{k: "bith", h: [2]int{b, l}})
						if ep.Rng.Intn(2) == 0 {
							i = s.set1(i, "endian", val{k: "order", be: ep.Rng.Intn(2) == 0})
						}
						vs := []pv{pN, randSub(ep.Rng), randSub(ep.Rng), randSub(ep.Rng)}
						// a point whose coordinate has leading zero bits
						for n := 0; n < 400; n++ {
							v := randSub(ep.Rng)
							ns, _ := s.fam[i-1].c.nums(v)
							if ns[0].BitLen() <= 256-l && ns[len(ns)-1].BitLen() <= 256-l {
								vs = append(vs, v)
								break
							}
						}
						for _, v := range vs {
							s.set(1, v, ep.Rng.Intn(nStyles))
							s.trip(i, 1, []int{2})
							if len(s.w.out) > 0 { // read with another header
								j := 1 + ep.Rng.Intn(len(s.fam))
								s.reread()
								s.de(j, 3, false)
							}
						}
					}
				}
			})
		}
	}
	// trusted input
	r.Repeat("trust", r.Scale(20, 300), func(ep *zz.Ep, n int) {
		s := newSt(ep, []string{zz.Pick(ep.Rng, formats())}, zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames))
		defer s.done()
		i := s.derive(1, ep.Rng.Intn(4))
		for k := 0; k < 6; k++ {
			v := randSub(ep.Rng)
			if k == 0 {
				v = pN
			}
			s.set(1, v, ep.Rng.Intn(nStyles))
			s.writer(10000, false)
			s.ser(i, "single", []int{1})
			s.reread()
			s.de(i, 2+ep.Rng.Intn(2), true)
			s.writer(10000, false)
			s.ser(i, "many", []int{1, 1})
			s.reread()
			s.deMany(i, []int{2, 3}, zz.Pick(ep.Rng, []string{"many", "bounded", "variadic"}), true)
		}
	})
}

var specials = func() []*big.Int {
	r := []*big.Int{}
	for _, x := range []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4, -5} {
		r = append(r, mod(big.NewInt(x)))
	}
	h := new(big.Int).Rsh(P, 1)
	r = append(r, h, sum(h, one), cR, neg(cR), inv(cR), cD, cA)
	// 1 - a x^2 = 0 has no root; y with y^2 = a/d, x with x^2 = 1/a do not exist; y = 1/sqrt.. do not exist either
	for _, x := range []int64{2, 3, 5, 7, 11} {
		if y := yFor(big.NewInt(x)); y != nil {
			r = append(r, y)
		}
	}
	return r
}()

// a body for a serializer configured as c that is interesting to read; class of input by k
func hostile(rng *rand.Rand, c conf, k int) []byte {
	p := randSub(rng)
	switch k % 16 {
	case 0:
		return c.body(p)
	case 1:
		return c.body(padd(p, pA))
	case 2:
		return c.body(randFull(rng))
	case 3:
		return c.body(padd(p, pE1))
	case 4: // negative or otherwise altered coordinates
		ns, hs := c.nums(p)
		j := rng.Intn(len(ns))
		ns[j] = neg(ns[j])
		return c.enc(ns, hs)
	case 5: // other sign bit, other prefix
		ns, hs := c.nums(zz.Pick(rng, []pv{p, p, pN, pA}))
		j := rng.Intn(len(ns))
		if hs[j][1] > 0 {
			hs[j][0] ^= 1 << rng.Intn(hs[j][1])
		}
		return c.enc(ns, hs)
	case 6: // random numbers
		ns, hs := c.nums(p)
		for j := range ns {
			if rng.Intn(len(ns)) == 0 || len(ns) == 1 {
				ns[j] = zz.RandBig(rng, P)
			}
		}
		return c.enc(ns, hs)
	case 7, 8: // special numbers
		ns, hs := c.nums(p)
		for j := range ns {
			ns[j] = zz.Pick(rng, specials)
		}
		if rng.Intn(3) == 0 {
			hs[0][0] ^= bit(hs[0][1] > 0)
		}
		return c.enc(ns, hs)
	case 9: // not reduced, but the right value
		ns, hs := c.nums(zz.Pick(rng, []pv{p, p, pN}))
		j := rng.Intn(len(ns))
		ns[j] = new(big.Int).Add(ns[j], P)
		if rng.Intn(2) == 0 {
			hs[j][0] = 0
		}
		return c.enc(ns, hs)
	case 10: // around the modulus
		ns, hs := c.nums(p)
		ns[rng.Intn(len(ns))] = new(big.Int).Add(P, big.NewInt(int64(rng.Intn(5)-2)))
		return c.enc(ns, hs)
	case 11:
		b := make([]byte, 32*c.coo())
		x := zz.Pick(rng, []byte{0, 0, 255, 128, 1, 64})
		for i := range b {
			b[i] = x
		}
		return b
	case 12:
		b := make([]byte, 32*c.coo())
		rng.Read(b)
		return b
	case 13, 14: // one bit
		b := c.body(zz.Pick(rng, []pv{p, p, pN}))
		b[rng.Intn(len(b))] ^= 1 << rng.Intn(8)
		return b
	}
	// the y of another point; coordinates exchanged; the other order
	ns, hs := c.nums(p)
	ms, _ := c.nums(randSub(rng))
	if len(ns) == 2 {
		switch rng.Intn(3) {
		case 0:
			ns[0] = ms[0]
		case 1:
			ns[1] = ms[1]
		default:
			ns[0], ns[1] = ns[1], ns[0]
		}
		return c.enc(ns, hs)
	}
	d := c
	d.be = !c.be
	return d.body(p)
}

func suiteS02(r *zz.Run) {
	for _, f := range formats() {
		f := f
		r.Repeat("hostile-"+f, r.Scale(28, 300), func(ep *zz.Ep, n int) {
			s := newSt(ep, []string{f}, allNames[n%len(allNames)], zz.Pick(ep.Rng, fullNames), zz.Pick(ep.Rng, subNames))
			defer s.done()
			for j := range s.o {
				s.set(j+1, randSub(ep.Rng), ep.Rng.Intn(nStyles))
			}
			cfgs := []int{1, s.set1(1, "endian", val{k: "order", be: true}), s.derive(1, 1+ep.Rng.Intn(4))}
			if f == "xy" || f == "xs" || f == "ys" {
				cfgs = append(cfgs, s.set1(zz.Pick(ep.Rng, cfgs), "sub", val{k: "bool", be: true}))
			}
			if ep.Rng.Intn(3) == 0 {
				cfgs = append(cfgs, s.copyOf(zz.Pick(ep.Rng, cfgs), true))
			}
			for k := 0; k < 32; k++ {
				i := cfgs[(k+k/len(cfgs))%len(cfgs)]
				c := s.fam[i-1].c
				b := hostile(ep.Rng, c, k)
				data := append(append(append([]byte{}, c.hd["sh"]...), b...), c.hd["sf"]...)
				for z := 1; z <= 3; z++ {
					s.reader(append(append([]byte{}, data...), someBytes(ep.Rng, 3)...), "eof")
					s.de(i, z, false)
				}
			}
		})
		// all pairs of special numbers
		r.Episode("special-"+f, func(ep *zz.Ep) {
			s := newSt(ep, []string{f}, "af", "xs", "es")
			defer s.done()
			s.set(1, randSub(ep.Rng), 0)
			s.set(2, randSub(ep.Rng), 0)
			s.set(3, randSub(ep.Rng), 0)
			two := f == "long" || f == "xy"
			i := 1
			if f == "xs" || f == "ys" || f == "xy" {
				i = zz.Pick(ep.Rng, []int{1, s.set1(1, "sub", val{k: "bool", be: true})})
			}
			c := s.fam[i-1].c
			for a, x := range specials {
				if two {
					for b, y := range specials {
						if (a+b)%3 != 0 && a > 2 && b > 2 && !r.Thorough() {
							continue
						}
						s.reader(c.enc([]*big.Int{x, y}, [][2]int{c.h1, c.h2}), "eof")
						s.de(i, 1+(a+b)%3, false)
					}
					continue
				}
				for h := 0; h < 2; h++ {
					for z := 1; z <= 3; z++ {
						hh := [2]int{h, 1}
						s.reader(c.enc([]*big.Int{x}, [][2]int{hh}), "eof")
						s.de(i, z, false)
					}
				}
			}
		})
	}
}

// framing with short strings; some empty
func (s *st) framed(i int) int {
	for _, k := range headerKeys {
		if s.rng.Intn(3) > 0 {
			if j := s.set1(i, k, val{k: "bytes", b: someBytes(s.rng, 3)}); j > 0 {
				i = j
			}
		}
	}
	return i
}

var slots = []string{"xf", "xs", "af", "as", "ef", "es"}

func (s *st) subSlot(t string) bool { return isSub(lower(t)) }

func (s *st) fill(sub bool) {
	for j := range s.o {
		v := randSub(s.rng)
		switch s.rng.Intn(8) {
		case 0:
			v = pN
		case 1:
			if !sub && !isSub(lower(s.types[j])) {
				v = randFull(s.rng)
			}
		}
		s.set(j+1, v, s.rng.Intn(nStyles))
	}
}

func (s *st) pts(n int, sub bool) []pv {
	r := []pv{}
	for i := 0; i < n; i++ {
		v := randSub(s.rng)
		switch s.rng.Intn(8) {
		case 0:
			v = pN
		case 1, 2:
			if !sub {
				v = zz.Pick(s.rng, []pv{randFull(s.rng), padd(v, pA), pA})
			}
		}
		r = append(r, v)
	}
	return r
}

func suiteS03(r *zz.Run) {
	// sequences and slices of registers, written and read in every way
	for _, f := range formats() {
		f := f
		r.Repeat("seq-"+f, r.Scale(14, 150), func(ep *zz.Ep, n int) {
			t := zz.Pick(ep.Rng, slots)
			u := zz.Pick(ep.Rng, allNames)
			ty := []string{t, t, u, zz.Pick(ep.Rng, allNames)}
			s := newSt(ep, []string{f}, ty...)
			defer s.done()
			s.fill(false)
			i := s.framed(s.derive(1, ep.Rng.Intn(3)))
			if ep.Rng.Intn(8) == 0 {
				s.copyOf(i, false)
				i = len(s.fam)
			}
			for L := 0; L <= 5; L++ {
				xs := []int{}
				for k := 0; k < L; k++ {
					xs = append(xs, 1+ep.Rng.Intn(4))
				}
				if ep.Rng.Intn(2) == 0 {
					for k := range xs {
						xs[k] = 1 + ep.Rng.Intn(2)
					}
				}
				zs := []int{1, 2, 3, 4}
				ep.Rng.Shuffle(4, func(a, b int) { zs[a], zs[b] = zs[b], zs[a] })
				for len(zs) < L {
					zs = append(zs, 1+ep.Rng.Intn(4))
				}
				if ep.Rng.Intn(3) == 0 {
					s.set(1+ep.Rng.Intn(4), zz.Pick(ep.Rng, kinds(t, ep.Rng)[:4]), ep.Rng.Intn(nStyles))
				}
				if ep.Rng.Intn(6) == 0 {
					z := 1 + ep.Rng.Intn(4)
					s.set(z, zz.Pick(ep.Rng, kinds(lower(s.types[z-1]), ep.Rng)), ep.Rng.Intn(nStyles))
				}
				s.writer(100000, ep.Rng.Intn(5) == 0)
				s.ser(i, "many", xs)
				for _, how := range []string{"many", "bounded", "variadic"} {
					for _, m := range []int{L - 1, L, L + 1} {
						if m < 0 || m > len(zs) || (m != L && ep.Rng.Intn(2) == 0) {
							continue
						}
						s.reread()
						s.deMany(i, zs[:m], how, false)
					}
				}
				s.fill(ep.Rng.Intn(2) == 0)
				s.writer(100000, ep.Rng.Intn(5) == 0)
				s.ser(i, "slice", xs)
				for _, mk := range []string{"new", "use", "use", "use", "cust", "fail"} {
					s.reread()
					room := L + ep.Rng.Intn(3)
					if mk == "use" && L > 0 && ep.Rng.Intn(3) == 0 {
						room = L - 1
					}
					if mk == "new" {
						room = 0
					}
					s.deSlice(i, mk, zz.Pick(ep.Rng, slots), room, false)
				}
			}
		})
		// every byte of the framing altered
		r.Repeat("alter-"+f, r.Scale(5, 40), func(ep *zz.Ep, n int) {
			s := newSt(ep, []string{f}, zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames))
			defer s.done()
			s.fill(true)
			i := s.framed(s.derive(1, ep.Rng.Intn(3)))
			c := s.fam[i-1].c
			p := s.pts(3, true)
			many := append(append(append([]byte{}, c.single(p[0])...), c.single(p[1])...), c.single(p[2])...)
			for j := range many {
				k := j % c.outLen()
				inBody := k >= len(c.hd["sh"]) && k < len(c.hd["sh"])+32*c.coo()
				if inBody && ep.Rng.Intn(12) > 0 {
					continue
				}
				d := append([]byte{}, many...)
				d[j] ^= byte(1 + ep.Rng.Intn(255))
				s.reader(d, "eof")
				s.deMany(i, []int{1, 2, 3}, zz.Pick(ep.Rng, []string{"many", "bounded", "variadic"}), false)
			}
			L := 2 + ep.Rng.Intn(2)
			sl := c.slice(s.pts(L, ep.Rng.Intn(2) == 0))
			for j := range sl {
				k := j - len(c.hd["gh"]) - 4
				in := false
				if k >= 0 && k < L*c.perPoint() {
					q := k % c.perPoint()
					in = q >= len(c.hd["ph"]) && q < len(c.hd["ph"])+32*c.coo()
				}
				if in && ep.Rng.Intn(16) > 0 {
					continue
				}
				d := append([]byte{}, sl...)
				d[j] ^= byte(1 + ep.Rng.Intn(255))
				d = append(d, someBytes(ep.Rng, 2)...)
				s.reader(d, "eof")
				s.deSlice(i, zz.Pick(ep.Rng, []string{"use", "cust"}), zz.Pick(ep.Rng, slots), len(d)/32+2, false)
			}
			// announced lengths
			for _, l := range []uint32{0, 1, 2, 3, 4, 5, 255, 256, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, uint32((1<<31 - 1) / c.perPoint()), uint32((1<<31-1-c.sliceLen(0))/c.perPoint() + 1), uint32((1<<31 - 1 - c.sliceLen(0)) / c.perPoint())} {
				d := append([]byte{}, sl...)
				o := len(c.hd["gh"])
				d[o], d[o+1], d[o+2], d[o+3] = byte(l), byte(l>>8), byte(l>>16), byte(l>>24)
				s.reader(d, "eof")
				s.deSlice(i, "cust", zz.Pick(ep.Rng, slots), len(d)/32+2, false)
				s.reader(d, "eof")
				s.deSlice(i, "use", zz.Pick(ep.Rng, slots), ep.Rng.Intn(L+2), false)
				s.reader(d, "eof")
				s.deSlice(i, "fail", zz.Pick(ep.Rng, slots), 0, false)
				if l < 300 {
					s.reader(d, "eof")
					s.deSlice(i, "new", zz.Pick(ep.Rng, slots), 0, false)
				}
			}
		})
	}
	r.Repeat("huge", 4, func(ep *zz.Ep, n int) {
		s := newSt(ep, formats(), "xf")
		defer s.done()
		for i := range formats() {
			i = s.framed(i + 1)
			c := s.fam[i-1].c
			for _, L := range []int64{(1<<31-1)/int64(c.outLen()) + 1, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1} {
				s.huge(i, "many", L)
				s.huge(i, "read", L)
			}
			for _, L := range []int64{(1<<31-1-int64(c.sliceLen(0)))/int64(c.perPoint()) + 1, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1} {
				s.huge(i, "slice", L)
			}
		}
	})
}

func suiteS04(r *zz.Run) {
	damage(r)
	for _, f := range formats() {
		f := f
		r.Repeat("cut-"+f, r.Scale(6, 60), func(ep *zz.Ep, n int) {
			s := newSt(ep, []string{f}, zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames))
			defer s.done()
			s.fill(true)
			i := 1
			if n > 0 {
				i = s.framed(s.derive(1, ep.Rng.Intn(3)))
			}
			c := s.fam[i-1].c
			end := func() string { return zz.Pick(ep.Rng, []string{"eof", "fault"}) }
			tr := func() bool { return ep.Rng.Intn(4) == 0 }
			// the ends of the parts, and places in between
			cuts := func(total int, edges []int) []int {
				set := map[int]bool{}
				for _, e := range edges {
					for d := -1; d <= 1; d++ {
						set[e+d] = true
					}
				}
				r := []int{}
				for k := 0; k <= total; k++ {
					if set[k] || k < 5 || k > total-5 || ep.Rng.Intn(8) == 0 {
						r = append(r, k)
					}
				}
				return r
			}
			lh := len(c.hd["sh"])
			p := s.pts(3, true)
			one1 := append(c.single(p[0]), 1, 2)
			ok := true // do the coordinates fit their headers?
			{
				s.set(1, p[0], 0)
				s.writer(1000, false)
				s.ser(i, "single", []int{1})
				ok = len(s.w.out) == c.outLen()
			}
			if !ok {
				return
			}
			for k := 0; k <= c.outLen()+1; k++ {
				for _, e := range []string{"eof", "fault"} {
					s.reader(one1[:k], e)
					s.de(i, 1+ep.Rng.Intn(3), tr())
				}
				for _, late := range []bool{false, true} {
					s.writer(k, late)
					s.ser(i, "single", []int{1 + ep.Rng.Intn(3)})
					if ep.Rng.Intn(3) == 0 {
						s.ser(i, "single", []int{1 + ep.Rng.Intn(3)})
					}
				}
			}
			many := append(append(append([]byte{}, one1[:c.outLen()]...), c.single(p[1])...), c.single(p[2])...)
			ed := []int{}
			for q := 0; q < 3; q++ {
				ed = append(ed, q*c.outLen(), q*c.outLen()+lh, q*c.outLen()+lh+32*c.coo())
			}
			for _, k := range cuts(len(many), ed) {
				for _, how := range []string{"many", "bounded", "variadic"} {
					s.reader(many[:k], end())
					zs := []int{1, 2, 3}
					if ep.Rng.Intn(3) == 0 {
						zs = []int{2, 2, 1, 3, 3}
					}
					s.deMany(i, zs, how, tr())
				}
				for _, late := range []bool{false, true} {
					s.writer(k, late)
					s.ser(i, "many", []int{1, 2, 3})
				}
			}
			sl := c.slice(p)
			g := len(c.hd["gh"])
			ed = []int{g, g + 4}
			for q := 0; q <= 3; q++ {
				o := g + 4 + q*c.perPoint()
				ed = append(ed, o, o+len(c.hd["ph"]), o+len(c.hd["ph"])+32*c.coo())
			}
			for _, k := range cuts(len(sl), ed) {
				for _, mk := range []string{"new", "use", "cust"} {
					s.reader(sl[:k], end())
					s.deSlice(i, mk, zz.Pick(ep.Rng, slots), 3+ep.Rng.Intn(2), tr())
				}
				for _, late := range []bool{false, true} {
					s.writer(k, late)
					s.ser(i, "slice", []int{1, 2, 3})
				}
			}
			// unserializable points in a sequence
			for _, v := range []pv{pNaP, padd(randSub(ep.Rng), pA), pE1} {
				z := 1 + ep.Rng.Intn(3)
				t := lower(s.types[z-1])
				if (v.k == "E1" && !canInf(t)) || (v.k == "aff" && isSub(t)) {
					continue
				}
				s.set(z, v, ep.Rng.Intn(nStyles))
				for _, how := range []string{"single", "many", "slice"} {
					s.writer(ep.Rng.Intn(400), ep.Rng.Intn(2) == 0)
					if how == "single" {
						s.ser(i, how, []int{z})
					} else {
						s.ser(i, how, []int{1, 2, 3})
					}
				}
				s.set(z, pN, 0)
			}
		})
	}
}

// framing with each header either empty or not, according to the bits of mask
func (s *st) frame(i, mask int) int {
	for b, k := range headerKeys {
		v := []byte{}
		if mask>>b&1 == 1 {
			v = append(someBytes(s.rng, 2), byte(1+s.rng.Intn(255)))
		}
		if j := s.set1(i, k, val{k: "bytes", b: v}); j > 0 {
			i = j
		}
	}
	return i
}

// a coordinate block that is no encoding of a point
func (s *st) spoil(b []byte) {
	switch s.rng.Intn(4) {
	case 0: // not reduced
		for k := range b {
			b[k] |= 0x7f
		}
	case 1:
		s.rng.Read(b)
	case 2: // flip one bit
		b[s.rng.Intn(len(b))] ^= 1 << s.rng.Intn(8)
	default: // another point's coordinate
		for k := 0; k < 32 && k < len(b); k++ {
			b[k] = byte(s.rng.Intn(256))
		}
	}
}

// invalid content and deviating framing at every position, for every combination of empty and non-empty headers
func damage(r *zz.Run) {
	for _, f := range formats() {
		f := f
		r.Repeat("damage-"+f, r.Scale(16, 64), func(ep *zz.Ep, n int) {
			s := newSt(ep, []string{f}, zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames))
			defer s.done()
			s.fill(true)
			mask := 0
			for b, k := range headerKeys { // n runs through the combinations of the framing of slices
				on := false
				switch k {
				case "pf":
					on = n&1 == 1
				case "gf":
					on = n&2 == 2
				case "ph":
					on = n&4 == 4
				case "gh":
					on = n&8 == 8
				default:
					on = ep.Rng.Intn(2) == 0
				}
				if on {
					mask |= 1 << b
				}
			}
			i := s.frame(s.derive(1, ep.Rng.Intn(2)), mask)
			c := s.fam[i-1].c
			L := 1 + ep.Rng.Intn(3)
			p := s.pts(L, true)
			sl, many := c.slice(p), []byte{}
			for k := 0; k < L; k++ {
				many = append(many, c.single(p[k])...)
			}
			body := 32 * c.coo()
			for k := 0; k < L; k++ {
				for _, tail := range []int{0, 1, 2} { // nothing behind the damage, something, everything
					d := append([]byte{}, sl...)
					o := len(c.hd["gh"]) + 4 + k*c.perPoint()
					at := o + len(c.hd["ph"])
					s.spoil(d[at : at+body])
					if tail == 0 {
						d = d[:at+body]
					} else if tail == 1 {
						d = d[:at+body+ep.Rng.Intn(len(d)-at-body+1)]
					}
					s.reader(d, zz.Pick(ep.Rng, []string{"eof", "fault"}))
					s.deSlice(i, zz.Pick(ep.Rng, []string{"new", "use", "cust"}), zz.Pick(ep.Rng, slots), L+ep.Rng.Intn(2), false)
					d = append([]byte{}, many...)
					at = k*c.outLen() + len(c.hd["sh"])
					s.spoil(d[at : at+body])
					if tail == 0 {
						d = d[:at+body]
					} else if tail == 1 {
						d = d[:at+body+ep.Rng.Intn(len(d)-at-body+1)]
					}
					s.reader(d, zz.Pick(ep.Rng, []string{"eof", "fault"}))
					zs := []int{1, 2, 3}[:L]
					s.deMany(i, zs, zz.Pick(ep.Rng, []string{"many", "bounded", "variadic"}), false)
				}
				// the part before and the part behind a point
				for _, e := range [][2]int{{0, len(c.hd["ph"])}, {len(c.hd["ph"]) + body, len(c.hd["pf"])}} {
					if e[1] == 0 {
						continue
					}
					d := append([]byte{}, sl...)
					d[len(c.hd["gh"])+4+k*c.perPoint()+e[0]+ep.Rng.Intn(e[1])] ^= byte(1 + ep.Rng.Intn(255))
					s.reader(d, "eof")
					s.deSlice(i, zz.Pick(ep.Rng, []string{"new", "use", "cust"}), zz.Pick(ep.Rng, slots), L+ep.Rng.Intn(2), false)
				}
			}
			for _, e := range [][2]int{{0, len(c.hd["gh"])}, {len(sl) - len(c.hd["gf"]), len(c.hd["gf"])}} {
				if e[1] == 0 {
					continue
				}
				d := append([]byte{}, sl...)
				d[e[0]+ep.Rng.Intn(e[1])] ^= byte(1 + ep.Rng.Intn(255))
				s.reader(d, "eof")
				s.deSlice(i, zz.Pick(ep.Rng, []string{"new", "use", "cust"}), zz.Pick(ep.Rng, slots), L+ep.Rng.Intn(2), false)
			}
			// a receiver that cannot take a point of the curve
			s.reader(sl, "eof")
			s.deSlice(i, "use", zz.Pick(ep.Rng, subNames), L, false)
		})
	}
}

func (s *st) randVal() val {
	switch s.rng.Intn(10) {
	case 0, 1:
		return val{k: "order", be: s.rng.Intn(2) == 0}
	case 2:
		return val{k: "bool", be: s.rng.Intn(3) > 0}
	case 3, 4:
		l := s.rng.Intn(9)
		return val{k: "bith", h: [2]int{s.rng.Intn(1 << l), l}}
	case 5, 6, 7:
		return val{k: zz.Pick(s.rng, []string{"bytes", "bytes", "text"}), b: someBytes(s.rng, 5)}
	}
	return val{k: "none", go_: zz.Pick(s.rng, []any{1, uint8(3), 1.5, [4]byte{1, 2, 3, 4}, []int{1}, struct{}{}, oddOrder{}, []string{"a"}, byte(7), int32(1)})}
}

func suiteS05(r *zz.Run) {
	// histories drawn by TLC
	if r.In != "" {
		for n, raw := range zz.ReadBehaviours(r.In) {
			var h struct {
				Fs  []string
				Ops []struct {
					Op, Key, How string
					I, Kind      int
					Bytes        []int
					Be           bool
					L            int
				}
			}
			if err := json.Unmarshal(raw, &h); err != nil {
				panic(err)
			}
			have := formats()
			use := []string{}
			for _, f := range h.Fs {
				if base[f] != nil {
					use = append(use, f)
				} else {
					use = append(use, have[len(f)%len(have)])
				}
			}
			r.Episode(fmt.Sprintf("tlc-%d", n), func(ep *zz.Ep) {
				s := newSt(ep, use, zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames))
				defer s.done()
				s.fill(false)
				for _, o := range h.Ops {
					i := 1 + (o.I-1)%len(s.fam)
					switch o.Op {
					case "with":
						v := val{}
						switch o.Kind {
						case 0:
							v = val{k: "order", be: o.Be}
						case 1:
							v = val{k: "bool", be: o.Be}
						case 2:
							v = val{k: "bith", h: [2]int{o.I % (1 << o.L), o.L}}
						case 3:
							b := make([]byte, len(o.Bytes))
							for q, x := range o.Bytes {
								b[q] = byte(x)
							}
							v = val{k: "bytes", b: b}
						default:
							v = s.randVal()
						}
						if keyName[o.Key] == "" {
							s.with(i, s.mixCase(zz.Pick(ep.Rng, junkNames)), v, o.How)
						} else {
							s.with(i, s.mixCase(keyName[o.Key]), v, o.How)
						}
					case "copy":
						s.copyOf(i, o.Be)
					case "show":
						s.show()
					case "trip":
						s.set(1, zz.Pick(ep.Rng, kinds(lower(s.types[0]), ep.Rng)), ep.Rng.Intn(nStyles))
						s.writer(10000, false)
						s.ser(i, "single", []int{1})
						s.reread()
						s.de(1+(o.L+i-1)%len(s.fam), 2, false)
					}
					if len(s.fam) > 24 {
						break
					}
				}
				s.show()
			})
		}
	}
	// every parameter of every format with every kind of value
	for _, f := range formats() {
		f := f
		r.Episode("all-"+f, func(ep *zz.Ep) {
			s := newSt(ep, []string{f}, "xf", "as")
			defer s.done()
			s.fill(true)
			s.show()
			for _, key := range []string{"endian", "h1", "h2", "sub", "gh", "gf", "ph", "pf", "sh", "sf"} {
				for _, v := range []val{{k: "order", be: true}, {k: "order"}, {k: "bool", be: true}, {k: "bool"}, {k: "bith", h: [2]int{1, 2}}, {k: "bith"}, {k: "bith", h: [2]int{255, 8}},
					{k: "bytes"}, {k: "bytes", b: []byte{1, 2, 3}}, {k: "none", go_: 3}, {k: "text", b: []byte("abc")}, {k: "none", go_: oddOrder{}}} {
					for _, how := range []string{"method", "free"} {
						if len(s.fam) > 20 {
							s.show()
							s.fam = s.fam[:20]
							ep.Log("Trim", M{"n": 20})
						}
						n := len(s.fam)
						i := 1 + ep.Rng.Intn(n)
						if j := s.with(i, s.mixCase(keyName[key]), v, how); j > 0 && j <= 20 {
							s.set(1, randSub(ep.Rng), ep.Rng.Intn(nStyles))
							s.trip(j, 1, []int{2})
						}
					}
				}
			}
		})
	}
	r.Repeat("walk", r.Scale(40, 600), func(ep *zz.Ep, n int) {
		fs := []string{zz.Pick(ep.Rng, formats()), zz.Pick(ep.Rng, formats())}
		s := newSt(ep, fs, zz.Pick(ep.Rng, allNames), zz.Pick(ep.Rng, allNames))
		defer s.done()
		s.fill(false)
		for k := 0; k < 30 && len(s.fam) < 14; k++ {
			i := 1 + ep.Rng.Intn(len(s.fam))
			c := s.fam[i-1].c
			switch ep.Rng.Intn(6) {
			case 0:
				s.copyOf(i, ep.Rng.Intn(3) == 0)
			case 1:
				name := keyName[zz.Pick(ep.Rng, append(c.keys(), "h1", "h2"))]
				if ep.Rng.Intn(4) == 0 {
					name = zz.Pick(ep.Rng, junkNames)
				}
				s.with(i, s.mixCase(name), s.randVal(), zz.Pick(ep.Rng, []string{"method", "free"}))
			case 2:
				v := s.randVal()
				if v.k == "order" {
					s.with(i, "Endianness", v, "order")
				} else {
					s.with(i, "Endianness", val{k: "none", go_: oddOrder{}}, "order")
				}
			case 3:
				s.set(1, zz.Pick(ep.Rng, kinds(lower(s.types[0]), ep.Rng)), ep.Rng.Intn(nStyles))
				s.trip(i, 1, []int{2})
			default:
				s.derive(i, 1)
			}
		}
		s.show()
	})
}

// one serializer used by several callers at once
func suiteS05P(r *zz.Run) {
	r.Repeat("par", r.Scale(12, 100), func(ep *zz.Ep, n int) {
		f := zz.Pick(ep.Rng, formats())
		s := newSt(ep, []string{f})
		defer s.done()
		i := s.framed(s.derive(1, 2))
		des := s.copyOf(i, true)
		c := s.fam[i-1].c
		var mu sync.Mutex
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			rng := rand.New(rand.NewSource(ep.Rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						mu.Lock()
						ep.Log("UNEXPECTED_PANIC", M{"msg": zz.Clip(fmt.Sprint(x))})
						mu.Unlock()
					}
				}()
				for k := 0; k < 6; k++ {
					t := zz.Pick(rng, typeNames)
					v := randSub(rng)
					o := mkObj(rng, t, v, rng.Intn(nStyles))
					w := &sink{cap: 10000}
					m := M{"i": i, "v": v.log()}
					k, err := s.fam[i-1].s.SerializeCurvePoint(w, o)
					note(m, err, err == nil, "PartialWrite", "")
					m["n"], m["add"] = k, zz.Codes(w.out)
					u := zz.Pick(rng, typeNames)
					dst := newObj(u)
					data := c.single(v)
					j := zz.Pick(rng, []int{i, des})
					d := M{"i": j, "data": zz.Codes(data), "ty": u, "out": "ok"}
					k2, err2 := s.fam[j-1].any.DeserializeCurvePoint(&script{data: data, end: "eof", rng: rng}, untrusted, dst)
					note(d, err2, err2 == nil, "PartialRead", "")
					d["n"], d["pt"] = k2, rawOf(dst)
					x := s.fam[j-1].any.GetParameter("SinglePointHeader").([]byte)
					for q := range x {
						x[q]++
					}
					if s.fam[i-1].s.WithParameter("SinglePointHeader", []byte{1, 2, 3}) == nil {
						panic("nil")
					}
					mu.Lock()
					ep.Log("PSer", m)
					ep.Log("PDe", d)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		s.show()
	})
}
