//go:build go1.22

package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type M = zz.M

func main() { zz.Main(map[string]func(*zz.Run){"C01": suiteC01, "C02": suiteC02}) }

const memLen = 44

type order = common.FieldElementEndianness

// custom byte orders which must not be accepted
type odd struct{ binary.ByteOrder }
type odd2 struct {
	binary.ByteOrder
	x []int // not comparable
}
type wrapped struct{ common.FieldElementEndianness }

type state struct {
	ep   *zz.Ep
	mem  []byte
	ord  [2]order
	hd   [2]common.BitHeader
	flag common.SubgroupRestriction
	only common.SubgroupOnly
}

func newState(ep *zz.Ep) *state {
	s := &state{ep: ep, mem: make([]byte, memLen)}
	ep.Rng.Read(s.mem)
	ep.Set("mem", zz.Codes(s.mem))
	return s
}

var orderKinds = []string{"LE", "BE", "stdLE", "stdBE", "obj", "odd", "odd2", "wrapped", "ptr", "nil", "native"}

func (s *state) setOrder(z int, kind string, x int) {
	out := zz.Outcome(func() {
		var o binary.ByteOrder
		switch kind {
		case "LE":
			o = common.LittleEndian
		case "BE":
			o = common.BigEndian
		case "stdLE":
			o = binary.LittleEndian
		case "stdBE":
			o = binary.BigEndian
		case "obj":
			o = s.ord[x]
		case "odd":
			o = odd{binary.LittleEndian}
		case "odd2":
			o = odd2{binary.BigEndian, []int{1}}
		case "wrapped":
			o = wrapped{common.BigEndian}
		case "ptr":
			o = &odd{binary.BigEndian}
		case "native":
			o = struct{ order }{common.BigEndian}
		}
		s.ord[z].SetEndianness(o)
	})
	ev := M{"z": z + 1, "kind": kind, "x": x + 1, "out": out}
	msb, got, str := []bool{}, []bool{}, []string{}
	for i := range s.ord {
		s.ord[i].Validate()
		msb = append(msb, s.ord[i].StartsWithMSB())
		g := s.ord[i].GetEndianness()
		got = append(got, g == common.BigEndian)
		if (g == common.BigEndian) == (g == common.LittleEndian) {
			str = append(str, "neither")
		}
		str = append(str, s.ord[i].String())
	}
	ev["msb"], ev["got"], ev["str"] = msb, got, str
	s.ep.Log("Order", ev)
}

func words(v *big.Int) (w [4]uint64) {
	for k := range w {
		w[k] = new(big.Int).Rsh(v, uint(64*k)).Uint64()
	}
	return
}
func number(w [4]uint64) *big.Int {
	r := new(big.Int)
	for k := 3; k >= 0; k-- {
		r.Lsh(r, 64).Or(r, new(big.Int).SetUint64(w[k]))
	}
	return r
}

var sizes = map[string]int{"16": 2, "32": 4, "64": 8, "256": 32, "ptr": 32, "indirect": 32, "array": 32}

func (s *state) put(x int, fn string, off, avail int, v *big.Int) {
	n := sizes[fn]
	v = new(big.Int).Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
	w := words(v)
	w0 := w
	if fn == "array" {
		avail = memLen - off
		if avail < 32 {
			return
		}
	}
	b := s.mem[off : off+avail]
	out := zz.Outcome(func() {
		switch fn {
		case "16":
			s.ord[x].PutUint16(b, uint16(w[0]))
		case "32":
			s.ord[x].PutUint32(b, uint32(w[0]))
		case "64":
			s.ord[x].PutUint64(b, w[0])
		case "256":
			s.ord[x].PutUint256(b, w)
		case "ptr", "indirect":
			s.ord[x].PutUint256_ptr(b, &w)
		case "array":
			s.ord[x].PutUint256_array((*[32]byte)(b), &w)
		}
	})
	s.ep.Log("Put", M{"x": x + 1, "fn": fn, "n": n, "off": off, "avail": avail, "v": zz.Hex(v), "out": out, "mem": zz.Codes(s.mem), "kept": w == w0})
}

func (s *state) take(x int, fn string, off, avail int) {
	n := sizes[fn]
	if fn == "array" {
		avail = memLen - off
		if avail < 32 {
			return
		}
	}
	b := s.mem[off : off+avail]
	v := new(big.Int)
	out := zz.Outcome(func() {
		switch fn {
		case "16":
			v.SetUint64(uint64(s.ord[x].Uint16(b)))
		case "32":
			v.SetUint64(uint64(s.ord[x].Uint32(b)))
		case "64":
			v.SetUint64(s.ord[x].Uint64(b))
		case "256":
			v = number(s.ord[x].Uint256(b))
		case "ptr", "indirect":
			w := [4]uint64{1, 2, 3, 4}
			s.ord[x].Uint256_indirect(b, &w)
			v = number(w)
		case "array":
			w := [4]uint64{1, 2, 3, 4}
			s.ord[x].Uint256_array((*[32]byte)(b), &w)
			v = number(w)
		}
	})
	s.ep.Log("Take", M{"x": x + 1, "fn": fn, "n": n, "off": off, "avail": avail, "v": zz.Hex(v), "out": out, "mem": zz.Codes(s.mem)})
}

var fns = []string{"16", "32", "64", "256", "ptr", "indirect", "array"}

func suiteC01(r *zz.Run) {
	for _, k := range orderKinds {
		r.Episode("order-"+k, func(ep *zz.Ep) {
			s := newState(ep)
			for _, k2 := range orderKinds {
				s.setOrder(0, k2, 1)
				s.setOrder(0, k, 1)
				s.setOrder(1, k2, 0)
			}
		})
	}
	for _, fn := range fns {
		for _, kind := range []string{"LE", "BE", "stdLE", "stdBE"} {
			r.Episode("bytes-"+fn+kind, func(ep *zz.Ep) { // every single byte position set
				s := newState(ep)
				s.setOrder(0, kind, 0)
				s.setOrder(1, map[string]string{"LE": "BE", "BE": "LE", "stdLE": "stdBE", "stdBE": "stdLE"}[kind], 0)
				for i := 0; i < sizes[fn]; i++ {
					v := new(big.Int).Lsh(big.NewInt(int64(1+ep.Rng.Intn(255))), uint(8*i))
					s.put(0, fn, 3, sizes[fn]+ep.Rng.Intn(3), v)
					s.take(0, fn, 3, sizes[fn]+ep.Rng.Intn(3))
					s.take(1, fn, 3, sizes[fn])
				}
				for a := 0; a <= sizes[fn]; a++ { // short slices with enough capacity
					s.put(0, fn, 2, a, zz.RandLimbs(ep.Rng, 4))
					s.take(0, fn, 2, a)
				}
			})
		}
	}
	r.Repeat("mix", r.Scale(200, 4000), func(ep *zz.Ep, i int) {
		s := newState(ep)
		for j := 0; j < 30; j++ {
			fn := fns[ep.Rng.Intn(len(fns))]
			n := sizes[fn]
			off := ep.Rng.Intn(memLen - n + 1)
			avail := n + ep.Rng.Intn(memLen-n-off+1)
			if ep.Rng.Intn(15) == 0 {
				avail = ep.Rng.Intn(n)
			}
			switch ep.Rng.Intn(8) {
			case 0:
				s.setOrder(ep.Rng.Intn(2), orderKinds[ep.Rng.Intn(len(orderKinds))], ep.Rng.Intn(2))
			case 1, 2, 3, 4:
				s.take(ep.Rng.Intn(2), fn, off, avail)
			default:
				s.put(ep.Rng.Intn(2), fn, off, avail, randValue(ep.Rng))
			}
		}
	})
}

func randValue(rng *rand.Rand) *big.Int {
	if rng.Intn(3) > 0 {
		return zz.RandLimbs(rng, 4)
	}
	v := new(big.Int) // distinct bytes
	for i := 0; i < 32; i++ {
		v.Lsh(v, 8).Or(v, big.NewInt(int64(rng.Intn(256))))
	}
	return v
}

func (s *state) header(z int, how string, x, bits, n int) {
	out := zz.Outcome(func() {
		switch how {
		case "set":
			s.hd[z].SetBitHeader(common.PrefixBits(bits), uint8(n))
		case "make":
			s.hd[z] = common.MakeBitHeader(common.PrefixBits(bits), uint8(n))
		case "copy":
			s.hd[z].SetBitHeaderFromBitHeader(s.hd[x])
		}
	})
	post, got := [][]int{}, [][]int{}
	valid := true
	for i := range s.hd {
		post = append(post, []int{int(s.hd[i].PrefixBits()), int(s.hd[i].PrefixLen())})
		g := s.hd[i].GetBitHeader()
		got = append(got, []int{int(g.PrefixBits()), int(g.PrefixLen())})
		if zz.Outcome(func() { s.hd[i].Validate() }) != "ok" {
			valid = false
		}
		g.SetBitHeader(1, 7) // a copy
	}
	s.ep.Log("Header", M{"z": z + 1, "how": how, "x": x + 1, "bits": bits, "len": n, "out": out, "post": post, "got": got, "valid": valid})
}

func suiteC02(r *zz.Run) {
	for n := 0; n <= 20; n++ {
		n := n
		r.Episode(fmt.Sprintf("len-%d", n), func(ep *zz.Ep) {
			s := newState(ep)
			for bits := 0; bits < 256; bits++ {
				s.header(0, "set", 0, bits, n)
				s.header(1, "make", 0, bits, n)
			}
		})
	}
	r.Episode("longlen", func(ep *zz.Ep) {
		s := newState(ep)
		for n := 9; n < 256; n++ {
			for _, bits := range []int{0, 1, 128, 255} {
				s.header(0, "set", 0, bits, n)
				s.header(1, "make", 0, bits, n)
			}
		}
	})
	r.Repeat("mix", r.Scale(150, 3000), func(ep *zz.Ep, i int) {
		s := newState(ep)
		for j := 0; j < 40; j++ {
			n := ep.Rng.Intn(10)
			bits := ep.Rng.Intn(256)
			if ep.Rng.Intn(3) > 0 && n < 8 {
				bits &= 1<<n - 1
			}
			s.header(ep.Rng.Intn(2), zz.Pick(ep.Rng, []string{"set", "set", "make", "copy"}), ep.Rng.Intn(2), bits, n)
		}
	})
	r.Episode("flags", func(ep *zz.Ep) {
		s := newState(ep)
		s.ep.Log("Restrict", M{"only": true, "on": true, "out": "ok", "got": s.only.IsSubgroupOnly()})
		if s.flag.IsSubgroupOnly() {
			panic("restricted by default")
		}
		for j := 0; j < 8; j++ {
			on := j%3 != 1
			out := zz.Outcome(func() { s.flag.SetSubgroupRestriction(on) })
			s.ep.Log("Restrict", M{"only": false, "on": on, "out": out, "got": s.flag.IsSubgroupOnly()})
			out = zz.Outcome(func() { s.only.SetSubgroupRestriction(on) })
			s.ep.Log("Restrict", M{"only": true, "on": on, "out": out, "got": s.only.IsSubgroupOnly()})
			s.flag.Validate()
			s.only.Validate()
			s.ep.Log("Trust", M{"on": on, "got": common.TrustLevelFromBool(on).Bool(), "t": common.TrustedInput.Bool(), "u": common.UntrustedInput.Bool()})
		}
	})
}
