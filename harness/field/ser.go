//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"sort"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

var errFault = errors.New("zz: scripted fault")

// scripted stream
type script struct {
	data  []byte
	pos   int
	end   string // "eof" or "fault"
	with  bool   // return the final error together with the last data
	chunk int    // 0: whole requests
	rng   *rand.Rand
}

func (s *script) fin() error {
	if s.end == "fault" {
		return errFault
	}
	return io.EOF
}

func (s *script) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos == len(s.data) {
		return 0, s.fin()
	}
	n := len(p)
	if s.chunk > 0 {
		if k := s.rng.Intn(s.chunk + 1); k < n {
			n = k
		}
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += n
	if s.with && s.pos == len(s.data) {
		return n, s.fin()
	}
	return n, nil
}

// writer of limited capacity
type sink struct {
	out  []byte
	cap  int
	late bool
}

func (s *sink) Write(p []byte) (int, error) {
	n := len(p)
	if k := s.cap - len(s.out); n > k {
		s.out = append(s.out, p[:k]...)
		return k, errFault
	}
	s.out = append(s.out, p...)
	if s.late {
		return n, errFault
	}
	return n, nil
}

var serErrs = []struct {
	name string
	err  error
}{{"eof", io.EOF}, {"fault", errFault}, {"fit", fe.ErrPrefixDoesNotFit}, {"len", fe.ErrPrefixLengthInvalid}, {"mismatch", fe.ErrPrefixMismatch},
	{"nonnorm", fe.ErrNonNormalizedDeserialization}, {"ueof", io.ErrUnexpectedEOF}}

func errNames(err error) []string {
	r := []string{}
	if err == nil {
		return r
	}
	for _, s := range serErrs {
		if errors.Is(err, s.err) {
			r = append(r, s.name)
		}
	}
	if len(r) == 0 {
		r = append(r, "other")
	}
	sort.Strings(r)
	return r
}

// err is the error as returned (possibly a typed nil is a defect we want to see: then it has no names but is not nil)
func errData(ev M, err error, isNil bool, count, partial, seen string) {
	ev["errs"] = []string{}
	ev["fine"] = true
	if isNil {
		return
	}
	ev["errs"] = errNames(err)
	ev["fine"] = wellFormed(err) && len(err.Error()) > 0
	m := errorsWithData.GetData_map(err)
	ev["dn"], ev["dpart"] = -1, "missing"
	if v, ok := m[count].(int); ok {
		ev["dn"] = v
	}
	if v, ok := m[partial].(bool); ok {
		ev["dpart"] = v
	}
	if seen != "" {
		v, ok := m[seen].([]byte)
		ev["dseen"] = zz.Codes(v)
		ev["dnil"] = ok && v == nil
	}
}

func order(be bool) common.FieldElementEndianness {
	if be {
		return fe.BigEndian
	}
	return fe.LittleEndian
}

// registers 1,2: field elements, 3,4: wide integers
type serState struct {
	ep *zz.Ep
	f  [2]FE
	u  [2]fe.Uint256
	w  *sink
	r  *script
}

func (s *serState) snap() []string {
	return []string{valOf(s.f[0]), valOf(s.f[1]), hex256(s.u[0]), hex256(s.u[1])}
}

func newSer(ep *zz.Ep) *serState {
	s := &serState{ep: ep}
	ep.Set("init", s.snap())
	return s
}

// v must be reduced for z<=2
func (s *serState) set(z int, v *big.Int, alt bool) {
	if z <= 2 {
		s.f[z-1] = mkVal(v, alt)
	} else {
		s.u[z-3] = u256(v)
	}
	s.ep.Log("Set", M{"z": z, "v": s.snap()[z-1]})
}

func (s *serState) writer(capacity int, late bool) {
	s.w = &sink{cap: capacity, late: late}
	s.ep.Log("Writer", M{"cap": capacity, "late": late})
}

func (s *serState) reader(data []byte, end string, with bool, chunk int) {
	s.r = &script{data: data, end: end, with: with, chunk: chunk, rng: s.ep.Rng}
	s.ep.Log("Reader", M{"data": zz.Codes(data), "end": end})
}

func (s *serState) reread(chunk int) {
	s.r = &script{data: append([]byte(nil), s.w.out...), end: "eof", chunk: chunk, rng: s.ep.Rng}
	s.ep.Log("Reread", nil)
}

func logErr[E error](ev M, err E, isnil bool, write bool) {
	if write {
		errData(ev, err, isnil, "BytesWritten", "PartialWrite", "")
	} else {
		errData(ev, err, isnil, "BytesRead", "PartialRead", "ActuallyRead")
	}
}

// ser writes register x: prefix used if pre; free: free function instead of method; buffered: Uint256 into a bytes.Buffer
func (s *serState) ser(x int, pre bool, pb, pl uint8, be, free bool) {
	ev := M{"x": x, "pb": int(pb), "pl": int(pl), "be": be, "free": free}
	bh := common.MakeBitHeader(common.PrefixBits(pb), pl)
	var n int
	eo := order(be)
	switch {
	case x <= 2 && free && pre:
		k, err := fe.SerializeFieldElementWithPrefix(&s.f[x-1], s.w, bh, eo)
		n = k
		logErr[error](ev, err, err == nil, true)
	case x <= 2 && free:
		k, err := fe.SerializeFieldElement(&s.f[x-1], s.w, eo)
		n = k
		logErr[error](ev, err, err == nil, true)
	case x <= 2 && pre:
		k, err := s.f[x-1].SerializeWithPrefix(s.w, bh, eo)
		n = k
		logErr[error](ev, err, err == nil, true)
	case x <= 2:
		k, err := s.f[x-1].Serialize(s.w, eo)
		n = k
		logErr[error](ev, err, err == nil, true)
	case pre:
		k, err := s.u[x-3].SerializeWithPrefix(s.w, bh, eo)
		n = k
		logErr[error](ev, err, err == nil, true)
	default:
		k, err := s.u[x-3].Serialize(s.w, eo)
		n = k
		logErr[error](ev, err, err == nil, true)
	}
	ev["n"] = n
	ev["out"] = zz.Codes(s.w.out)
	ev["post"] = s.snap()
	s.ep.Log("Ser", ev)
}

// Uint256 into a byte slice of the given length (-1: nil), or a bytes.Buffer (length 32 then)
func (s *serState) serSlice(x int, pre bool, pb, pl uint8, be bool, length int, buffer bool) {
	ev := M{"x": x, "pb": int(pb), "pl": int(pl), "be": be, "isnil": length < 0, "len": length, "buffer": buffer}
	bh := common.MakeBitHeader(common.PrefixBits(pb), pl)
	eo := order(be)
	var out []byte
	n := 0
	rest := true
	panicked := false
	if buffer {
		lead := []byte{1, 2, 3}
		b := bytes.NewBuffer(append([]byte(nil), lead...))
		if pre {
			k, err := s.u[x-3].SerializeWithPrefix_Buffer(b, bh, eo)
			n = k
			logErr[error](ev, err, err == nil, true)
		} else {
			k, err := s.u[x-3].Serialize_Buffer(b, eo)
			n = k
			logErr[error](ev, err, err == nil, true)
		}
		all := b.Bytes()
		rest = bytes.HasPrefix(all, lead)
		out = all[len(lead):]
	} else {
		var dst []byte
		if length >= 0 {
			full := make([]byte, length+8)
			for i := range full {
				full[i] = byte(0xA0 + i%7)
			}
			dst = full[:length:length]
		}
		before := append([]byte(nil), dst...)
		panicked, _ = zz.Try(func() {
			if pre {
				k, err := s.u[x-3].SerializeWithPrefix_Bytes(dst, bh, eo)
				n = k
				logErr[error](ev, err, err == nil, true)
			} else {
				k, err := s.u[x-3].Serialize_Bytes(dst, eo)
				n = k
				logErr[error](ev, err, err == nil, true)
			}
		})
		if !panicked && n > 0 && n <= len(dst) {
			out = dst[:n]
		}
		rest = bytes.Equal(dst[len(out):], before[len(out):])
	}
	ev["panic"] = panicked
	ev["n"] = n
	ev["out"] = zz.Codes(out)
	ev["rest"] = rest
	ev["post"] = s.snap()
	s.ep.Log("SerSlice", ev)
}

// de reads into register z; mode plain/get/exp; how: "m" method, "f" free function, "b" bytes.Buffer, "s" byte slice (z>=3, full data)
func (s *serState) de(z int, mode string, pb, pl uint8, be bool, how string) {
	kind := "f"
	if z > 2 {
		kind = "u"
	}
	ev := M{"z": z, "mode": mode, "pb": int(pb), "pl": int(pl), "be": be, "kind": kind, "how": how}
	eo := order(be)
	var rawBefore, rawAfter []byte
	rawOf := func() []byte {
		if z <= 2 {
			b := raw(s.f[z-1])
			return b[:]
		}
		return []byte(fmt.Sprint(s.u[z-3]))
	}
	rawBefore = rawOf()
	n := 0
	pre := -1
	if mode == "plain" {
		ev["pb"], ev["pl"], pl = 0, 0, 0
	}
	pos := -1
	done := func(k int, p int, err error, isnil bool) {
		n, pre = k, p
		logErr[error](ev, err, isnil, false)
	}
	if z <= 2 {
		F := &s.f[z-1]
		switch {
		case mode == "plain" && how == "f":
			k, err := fe.DeserializeFieldElement(F, s.r, eo)
			done(k, 0, err, err == nil)
		case mode == "plain":
			k, err := F.Deserialize(s.r, eo)
			done(k, 0, err, err == nil)
		case mode == "get" && how == "f":
			k, p, err := fe.DeserializeFieldElementAndGetPrefix(F, s.r, pl, eo)
			done(k, int(p), err, err == nil)
		case mode == "get":
			k, p, err := F.DeserializeAndGetPrefix(s.r, pl, eo)
			done(k, int(p), err, err == nil)
		case how == "f":
			k, err := fe.DeserializeFieldElementWithExpectedPrefix(F, s.r, common.MakeBitHeader(common.PrefixBits(pb), pl), eo)
			done(k, 0, err, err == nil)
		default:
			k, err := F.DeserializeWithExpectedPrefix(s.r, common.MakeBitHeader(common.PrefixBits(pb), pl), eo)
			done(k, 0, err, err == nil)
		}
	} else {
		U := &s.u[z-3]
		switch {
		case mode == "plain" && how == "b":
			b := bytes.NewBuffer(append([]byte(nil), s.r.data[s.r.pos:]...))
			l0 := b.Len()
			k, err := U.Deserialize_Buffer(b, eo)
			done(k, 0, err, err == nil)
			s.r.pos += l0 - b.Len()
		case mode == "get" && how == "b":
			b := bytes.NewBuffer(append([]byte(nil), s.r.data[s.r.pos:]...))
			l0 := b.Len()
			k, p, err := U.DeserializeAndGetPrefix_Buffer(b, pl, eo)
			done(k, int(p), err, err == nil)
			s.r.pos += l0 - b.Len()
		case mode == "plain" && how == "s":
			k, err := U.Deserialize_Bytes(s.r.data[s.r.pos:], eo)
			done(k, 0, err, err == nil)
			s.r.pos += 32 // a slice has no position of its own
		case mode == "get" && how == "s":
			k, p, err := U.DeserializeAndGetPrefix_Bytes(s.r.data[s.r.pos:], pl, eo)
			done(k, int(p), err, err == nil)
			if pl <= 8 {
				s.r.pos += 32
			}
		case mode == "plain":
			k, err := U.Deserialize(s.r, eo)
			done(k, 0, err, err == nil)
		case mode == "get":
			k, p, err := U.DeserializeAndGetPrefix(s.r, pl, eo)
			done(k, int(p), err, err == nil)
		default:
			k, err := U.DeserializeWithExpectedPrefix(s.r, common.MakeBitHeader(common.PrefixBits(pb), pl), eo)
			done(k, 0, err, err == nil)
		}
	}
	if pos < 0 {
		pos = s.r.pos
	}
	rawAfter = rawOf()
	if mode == "plain" {
		ev["mode"] = "get" // the model: prefix of length 0
	}
	ev["n"] = n
	ev["pre"] = pre
	ev["pos"] = pos
	ev["kept"] = bytes.Equal(rawBefore, rawAfter)
	ev["post"] = s.snap()
	s.ep.Log("De", ev)
}

// a 256-bit pattern whose top bits are of interest
func serWord(rng *rand.Rand) *big.Int {
	var v *big.Int
	switch rng.Intn(4) {
	case 0:
		v = new(big.Int).Set(zz.Pick(rng, edgeRaw))
	case 1:
		v = zz.RandLimbs(rng, 4)
	default:
		v = zz.RandBig(rng, R)
	}
	switch rng.Intn(4) {
	case 0: // clear some top bits
		v.Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(246+rng.Intn(11))))
	case 1: // put a prefix above a value close to p
		d := int64(rng.Intn(5) - 2)
		v = add(P, d)
		k := rng.Intn(2)
		v.Add(v, new(big.Int).Lsh(big.NewInt(int64(k)), 255))
	}
	return v.Mod(v, R)
}

func bytesBE(v *big.Int, be bool) []byte {
	b := make([]byte, 32)
	v.FillBytes(b)
	if !be {
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
	}
	return b
}

func hows(z int, mode string, full bool) []string {
	if z <= 2 {
		return []string{"m", "f"}
	}
	if mode == "exp" {
		return []string{"m"}
	}
	if full {
		return []string{"m", "b", "s"}
	}
	return []string{"m", "b"}
}

func suiteF05(r *zz.Run) {
	two := func(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
	// every prefix length and value at the border of fitting, both orders, all writers
	for pl := 0; pl <= 8; pl++ {
		for _, be := range []bool{false, true} {
			pl, be := pl, be
			r.Episode(fmt.Sprintf("prefix-%d-%v", pl, be), func(ep *zz.Ep) {
				s := newSer(ep)
				lim := two(256 - pl)
				vals := []*big.Int{big.NewInt(0), big.NewInt(1), add(lim, -1), new(big.Int).Set(lim), add(lim, 1), new(big.Int).Rsh(lim, 1), add(P, -1), add(P, 0)}
				for _, v := range vals {
					pbs := []uint8{0, uint8((1 << pl) - 1), uint8(ep.Rng.Intn(1 << pl)), uint8((1 << pl) >> 1)}
					for z := 1; z <= 4; z += 2 {
						vv := new(big.Int).Mod(v, R)
						if z <= 2 {
							if v.Cmp(P) >= 0 {
								continue
							}
							vv = v
						}
						s.set(z, vv, ep.Rng.Intn(2) == 0)
						for _, pb := range pbs {
							s.writer(64, false)
							s.ser(z, true, pb, uint8(pl), be, false)
							if z <= 2 {
								s.ser(z, true, pb, uint8(pl), be, true)
							} else {
								s.serSlice(z, true, pb, uint8(pl), be, 32, true)
								s.serSlice(z, true, pb, uint8(pl), be, 32+ep.Rng.Intn(3), false)
							}
							if len(s.w.out) >= 32 {
								for _, md := range []string{"get", "exp"} {
									for _, how := range hows(z, md, true) {
										s.reread(ep.Rng.Intn(40))
										s.de(z+1, md, pb, uint8(pl), be, how)
										if pl > 0 && md == "exp" && len(s.r.data) >= 32 {
											s.reread(0)
											s.de(z+1, md, pb^uint8(1<<ep.Rng.Intn(pl)), uint8(pl), be, how)
										}
									}
								}
							}
						}
					}
				}
			})
		}
	}
	// truncation and fault at every position
	for cut := 0; cut <= 33; cut++ {
		cut := cut
		r.Episode(fmt.Sprintf("cut-%d", cut), func(ep *zz.Ep) {
			s := newSer(ep)
			for i := 0; i < 4; i++ {
				s.set(i+1, zz.RandBig(ep.Rng, P), false)
			}
			for _, be := range []bool{false, true} {
				for _, end := range []string{"eof", "fault"} {
					for z := 1; z <= 4; z += 2 {
						for _, md := range []string{"plain", "get", "exp"} {
							for _, how := range hows(z, md, cut >= 32) {
								if end == "fault" && (how == "b" || how == "s") {
									continue
								}
								for _, right := range []bool{true, false} {
									if !right && md != "exp" {
										continue
									}
									v := serWord(ep.Rng)
									pl := ep.Rng.Intn(9)
									data := append(bytesBE(v, be), byte(ep.Rng.Intn(256)), 7)[:cut]
									pb := uint8(ep.Rng.Intn(1 << pl))
									if right {
										pb = uint8(new(big.Int).Rsh(v, uint(256-pl)).Uint64())
									}
									s.reader(data, end, ep.Rng.Intn(2) == 0, ep.Rng.Intn(3)*ep.Rng.Intn(20))
									s.de(z, md, pb, uint8(pl), be, how)
									s.de(z+1, md, pb, uint8(pl), be, hows(z, md, false)[0])
								}
							}
						}
					}
				}
				for z := 1; z <= 4; z += 2 {
					pl := uint8(ep.Rng.Intn(9))
					pb := uint8(ep.Rng.Intn(1 << pl))
					for _, late := range []bool{false, true} {
						for _, pre := range []bool{false, true} {
							s.writer(cut, late)
							p, q := pb, pl
							if !pre {
								p, q = 0, 0
							}
							s.ser(z, pre, p, q, be, false)
							s.ser(z+1, pre, p, q, be, z == 1)
							s.writer(cut, late)
							s.ser(z, pre, p, q, be, true)
							s.ser(z, pre, p, q, be, false)
						}
					}
					if z >= 3 {
						s.serSlice(z, false, 0, 0, be, cut, false)
						s.serSlice(z, true, pb, pl, be, cut, false)
						s.serSlice(z, false, 0, 0, be, -1, false)
						s.serSlice(z, true, pb, pl, be, -1, false)
						s.serSlice(z, false, 0, 0, be, 32, true)
					}
				}
			}
		})
	}
	// invalid prefix lengths
	r.Episode("preflen", func(ep *zz.Ep) {
		s := newSer(ep)
		for z := 1; z <= 4; z++ {
			s.set(z, zz.RandBig(ep.Rng, P), false)
		}
		for _, pl := range []uint8{9, 10, 16, 63, 64, 65, 128, 255} {
			for _, be := range []bool{false, true} {
				for z := 1; z <= 4; z += 2 {
					for _, how := range hows(z, "get", true) {
						s.reader(bytesBE(serWord(ep.Rng), be), "eof", false, 0)
						s.de(z, "get", 0, pl, be, how)
					}
				}
			}
		}
	})
	// all edge inputs, all ways
	for i, v := range edgeRaw {
		v := v
		r.Episode(fmt.Sprintf("edge-%d", i), func(ep *zz.Ep) {
			s := newSer(ep)
			for z := 1; z <= 4; z++ {
				s.set(z, big.NewInt(int64(z)), false)
			}
			for _, be := range []bool{false, true} {
				for z := 1; z <= 4; z += 2 {
					for _, md := range []string{"plain", "get", "exp"} {
						for _, how := range hows(z, md, true) {
							for _, pl := range []uint{0, 1, uint(ep.Rng.Intn(9))} {
								if md == "plain" && pl != 0 {
									continue
								}
								s.reader(bytesBE(v, be), "eof", false, 0)
								s.de(z, md, uint8(new(big.Int).Rsh(v, 256-pl).Uint64()), uint8(pl), be, how)
							}
						}
					}
				}
			}
		})
	}
	// random pipes
	r.Repeat("pipe", r.Scale(250, 6000), func(ep *zz.Ep, i int) {
		s := newSer(ep)
		rng := ep.Rng
		for z := 1; z <= 4; z++ {
			v := serWord(rng)
			if z <= 2 {
				v = mod(v)
			}
			s.set(z, v, rng.Intn(2) == 0)
		}
		capacity := 1 << 20
		if rng.Intn(3) == 0 {
			capacity = rng.Intn(140)
		}
		s.writer(capacity, rng.Intn(8) == 0)
		type sent struct {
			kind   int
			pre    bool
			pb, pl uint8
			be     bool
		}
		var log []sent
		for k := 1 + rng.Intn(5); k > 0; k-- {
			x := 1 + rng.Intn(4)
			pre := rng.Intn(3) > 0
			var pl, pb uint8
			if pre {
				pl = uint8(rng.Intn(9))
				if rng.Intn(2) == 0 {
					pl = uint8(rng.Intn(3))
				}
				pb = uint8(rng.Intn(1 << pl))
			}
			be := rng.Intn(2) == 0
			before := len(s.w.out)
			s.ser(x, pre, pb, pl, be, rng.Intn(2) == 0)
			if len(s.w.out) > before {
				log = append(log, sent{(x - 1) / 2, pre, pb, pl, be})
			}
			if rng.Intn(3) == 0 {
				z := 1 + rng.Intn(4)
				v := serWord(rng)
				if z <= 2 {
					v = mod(v)
				}
				s.set(z, v, rng.Intn(2) == 0)
			}
		}
		s.reread(rng.Intn(2) * rng.Intn(50))
		for _, m := range log {
			z := 2*m.kind + 1 + rng.Intn(2)
			if rng.Intn(6) == 0 { // read as the other kind
				z = 1 + rng.Intn(4)
			}
			md := zz.Pick(rng, []string{"get", "exp"})
			if !m.pre {
				md = "plain"
			}
			pb := m.pb
			if rng.Intn(6) == 0 && m.pl > 0 {
				pb ^= uint8(1 << rng.Intn(int(m.pl)))
			}
			s.de(z, md, pb, m.pl, m.be, zz.Pick(rng, hows(z, md, len(s.r.data)-s.r.pos >= 32)))
		}
		s.de(1+rng.Intn(4), "get", 0, 0, rng.Intn(2) == 0, "m")
	})
	// arbitrary streams
	r.Repeat("stream", r.Scale(250, 6000), func(ep *zz.Ep, i int) {
		s := newSer(ep)
		rng := ep.Rng
		for z := 1; z <= 4; z++ {
			s.set(z, zz.RandBig(rng, P), rng.Intn(2) == 0)
		}
		var data []byte
		var words []*big.Int
		be := rng.Intn(2) == 0
		for k := 0; k < 4; k++ {
			v := serWord(rng)
			words = append(words, v)
			data = append(data, bytesBE(v, be)...)
		}
		if rng.Intn(2) == 0 {
			data = data[:rng.Intn(len(data)+1)]
		}
		s.reader(data, zz.Pick(rng, []string{"eof", "fault"}), rng.Intn(2) == 0, rng.Intn(3)*rng.Intn(40))
		for k := 0; k < 5; k++ {
			z := 1 + rng.Intn(4)
			md := zz.Pick(rng, []string{"plain", "get", "exp"})
			pl := uint(rng.Intn(9))
			if rng.Intn(2) == 0 {
				pl = uint(rng.Intn(2))
			}
			pb := uint8(rng.Intn(1 << pl))
			if rng.Intn(3) > 0 && k < 4 {
				pb = uint8(new(big.Int).Rsh(words[k], 256-pl).Uint64())
			}
			s.de(z, md, pb, uint8(pl), be, zz.Pick(rng, []string{"m", "f"}))
		}
	})
}
