//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	bErr "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

var errFault = errors.New("zz: scripted fault")
var errMaker = errors.New("zz: no room")

// ---- streams
type script struct {
	data  []byte
	pos   int
	end   string // "eof" or "fault"
	with  bool   // the final error comes together with the last data
	chunk int
	rng   *rand.Rand
}

func (s *script) fin() error {
	if s.end == "fault" {
		return errFault
	}
	return io.EOF
}

func (s *script) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos == len(s.data) {
		return 0, s.fin()
	}
	n := len(p)
	if s.chunk > 0 {
		if k := s.rng.Intn(s.chunk + 1); k < n {
			n = k
		}
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += n
	if s.with && s.pos == len(s.data) {
		return n, s.fin()
	}
	return n, nil
}

type sink struct {
	out  []byte
	cap  int
	late bool
}

func (s *sink) Write(p []byte) (int, error) {
	n := len(p)
	if n == 0 {
		return 0, nil
	}
	if k := s.cap - len(s.out); n > k {
		s.out = append(s.out, p[:k]...)
		return k, errFault
	}
	s.out = append(s.out, p...)
	if s.late && len(s.out) == s.cap {
		return n, errFault
	}
	return n, nil
}

// ---- errors
var serErrs = []struct {
	name string
	err  error
}{{"eof", io.EOF}, {"fault", errFault}, {"maker", errMaker}, {"fit", fe.ErrPrefixDoesNotFit}, {"len", fe.ErrPrefixLengthInvalid}, {"mismatch", fe.ErrPrefixMismatch},
	{"nonnorm", fe.ErrNonNormalizedDeserialization}, {"ueof", io.ErrUnexpectedEOF},
	{"nap", bErr.ErrCannotSerializeNaP}, {"inf", bErr.ErrCannotSerializePointAtInfinity}, {"outside", bErr.ErrWillNotSerializePointOutsideSubgroup},
	{"header", bErr.ErrDidNotReadExpectedString}, {"size", bErr.ErrSizeDoesNotFitInt32}, {"buffer", ps.ErrInsufficientBufferForDeserialization},
	{"UnexpectedNegativeZero", bErr.ErrUnexpectedNegativeZero}, {"XNotInSubgroup", bErr.ErrXNotInSubgroup}, {"XNotOnCurve", bErr.ErrXNotOnCurve},
	{"YNotOnCurve", bErr.ErrYNotOnCurve}, {"NotInSubgroup", bErr.ErrNotInSubgroup}, {"NotOnCurve", bErr.ErrNotOnCurve}, {"WrongSignY", bErr.ErrWrongSignY},
	{"InvalidZeroSignX", bErr.ErrInvalidZeroSignX}, {"InvalidSign", bErr.ErrInvalidSign},
	{"CannotDeserializeNaP", bErr.ErrCannotDeserializeNaP}, {"CannotDeserializeXYAllZero", bErr.ErrCannotDeserializeXYAllZero}}

func errNames(err error) []string {
	r := []string{}
	for _, s := range serErrs {
		if errors.Is(err, s.err) {
			r = append(r, s.name)
		}
	}
	if len(r) == 0 {
		r = append(r, "other")
	}
	sort.Strings(r)
	return r
}

func note(m M, err error, isNil bool, part, pts string) {
	m["errs"], m["fine"], m["dpart"], m["dpts"] = []string{}, true, false, -1
	if isNil {
		return
	}
	m["errs"] = errNames(err)
	v, ok := err.(interface{ ValidateError_Final() error })
	m["fine"] = len(err.Error()) > 0 && (!ok || v.ValidateError_Final() == nil)
	d := errorsWithData.GetData_map(err)
	if x, ok := d[part].(bool); ok {
		m["dpart"] = x
	} else {
		m["fine"] = false
	}
	if pts != "" {
		if x, ok := d[pts].(int); ok {
			m["dpts"] = x
		} else {
			m["fine"] = false
		}
	}
}

// ---- sequences of points of one type
type buf struct {
	sl  cp.CurvePointSlice
	at  func(i int) obj
	n   int
	use ps.DeserializeSliceMaker
}

func (b *buf) raws() []any {
	r := []any{}
	for i := 0; i < b.n; i++ {
		r = append(r, rawOf(b.at(i)))
	}
	return r
}

func bufOf[T any, PT interface {
	*T
	cp.CurvePointPtrInterface
}](a []T) *buf {
	return &buf{sl: cp.AsCurvePointSlice[T, PT](a), at: func(i int) obj { return PT(&a[i]) }, n: len(a), use: ps.UseExistingSlice[T, PT](a)}
}

func mkBuf(t string, n, c int) *buf {
	switch lower(t) {
	case "xf":
		return bufOf(make([]cp.Point_xtw_full, n, c))
	case "xs":
		return bufOf(make([]cp.Point_xtw_subgroup, n, c))
	case "af":
		return bufOf(make([]cp.Point_axtw_full, n, c))
	case "as":
		return bufOf(make([]cp.Point_axtw_subgroup, n, c))
	case "ef":
		return bufOf(make([]cp.Point_efgh_full, n, c))
	}
	return bufOf(make([]cp.Point_efgh_subgroup, n, c))
}

func newMaker(t string) ps.DeserializeSliceMaker {
	switch lower(t) {
	case "xf":
		return ps.CreateNewSlice[cp.Point_xtw_full]
	case "xs":
		return ps.CreateNewSlice[cp.Point_xtw_subgroup]
	case "af":
		return ps.CreateNewSlice[cp.Point_axtw_full]
	case "as":
		return ps.CreateNewSlice[cp.Point_axtw_subgroup]
	case "ef":
		return ps.CreateNewSlice[cp.Point_efgh_full]
	}
	return ps.CreateNewSlice[cp.Point_efgh_subgroup]
}

// the output of a new-slice maker as points, if it is one of type t
func outAs(t string, out any) (*buf, bool) {
	switch a := out.(type) {
	case []cp.Point_xtw_full:
		return bufOf(a), lower(t) == "xf"
	case []cp.Point_xtw_subgroup:
		return bufOf(a), lower(t) == "xs"
	case []cp.Point_axtw_full:
		return bufOf(a), lower(t) == "af"
	case []cp.Point_axtw_subgroup:
		return bufOf(a), lower(t) == "as"
	case []cp.Point_efgh_full:
		return bufOf(a), lower(t) == "ef"
	case []cp.Point_efgh_subgroup:
		return bufOf(a), lower(t) == "es"
	}
	return nil, false
}

// ---- serializers
var base = map[string]ps.CurvePointSerializerModifyable{"short": ps.BanderwagonShort, "long": ps.BanderwagonLong}

func formats() []string {
	r := []string{}
	for _, f := range []string{"short", "long", "xy", "xs", "ys"} {
		if base[f] != nil {
			r = append(r, f)
		}
	}
	return r
}

// what the harness believes about a serializer: used to build input only
type conf struct {
	f      string
	be     bool
	h1, h2 [2]int
	sub    bool
	hd     map[string][]byte
	des    bool
}

func (c conf) clone() conf {
	h := map[string][]byte{}
	for k, v := range c.hd {
		h[k] = v
	}
	c.hd = h
	return c
}

func (c conf) coo() int {
	if c.f == "long" || c.f == "xy" {
		return 2
	}
	return 1
}
func (c conf) outLen() int   { return len(c.hd["sh"]) + len(c.hd["sf"]) + 32*c.coo() }
func (c conf) perPoint() int { return len(c.hd["ph"]) + len(c.hd["pf"]) + 32*c.coo() }
func (c conf) sliceLen(n int) int {
	return len(c.hd["gh"]) + 4 + len(c.hd["gf"]) + n*c.perPoint()
}

var headerKeys = []string{"gh", "gf", "ph", "pf", "sh", "sf"}

func (c conf) keys() []string {
	r := append([]string{"endian", "sub"}, headerKeys...)
	if c.f == "short" || c.f == "long" || c.f == "xy" {
		r = append(r, "h1")
	}
	if c.f == "long" || c.f == "xy" {
		r = append(r, "h2")
	}
	return r
}

var keyName = map[string]string{"endian": "Endianness", "h1": "BitHeader", "h2": "BitHeader2", "sub": "SubgroupOnly", "gh": "GlobalSliceHeader", "gf": "GlobalSliceFooter",
	"ph": "PerPointHeader", "pf": "PerPointFooter", "sh": "SinglePointHeader", "sf": "SinglePointFooter"}

type srv struct {
	c   conf
	s   ps.CurvePointSerializerModifyable   // nil for deserializers
	d   ps.CurvePointDeserializerModifyable // nil for serializers
	any ps.CurvePointDeserializer
}

func wrapS(c conf, s ps.CurvePointSerializerModifyable) *srv { return &srv{c: c, s: s, any: s} }
func wrapD(c conf, d ps.CurvePointDeserializerModifyable) *srv {
	c.des = true
	return &srv{c: c, d: d, any: d}
}

// a value for a parameter
type val struct {
	k   string
	be  bool
	h   [2]int
	b   []byte
	go_ any // what is passed if k == "none"; how orders are passed
}

func (x val) log() M {
	switch x.k {
	case "order", "bool":
		return M{"k": x.k, "v": x.be}
	case "bith":
		return M{"k": x.k, "v": []int{x.h[0], x.h[1]}}
	case "bytes", "text":
		return M{"k": x.k, "v": zz.Codes(x.b)}
	}
	return M{"k": "none", "v": 0}
}

func (x val) arg(rng *rand.Rand) any {
	switch x.k {
	case "order":
		if rng.Intn(2) == 0 {
			if x.be {
				return binary.BigEndian
			}
			return binary.LittleEndian
		}
		if x.be {
			return fe.BigEndian
		}
		return fe.LittleEndian
	case "bool":
		return x.be
	case "bith":
		return common.MakeBitHeader(common.PrefixBits(x.h[0]), uint8(x.h[1]))
	case "text":
		return string(x.b)
	case "bytes":
		if len(x.b) == 0 && rng.Intn(2) == 0 {
			return []byte(nil)
		}
		return append([]byte(nil), x.b...)
	}
	return x.go_
}

// an order that is neither of the two
type oddOrder struct{ binary.ByteOrder }

func (oddOrder) Uint16(b []byte) uint16 { return 7 }
func (oddOrder) Uint32(b []byte) uint32 {
	return uint32(b[0])<<16 | uint32(b[1])<<24 | uint32(b[2]) | uint32(b[3])<<8
}
func (oddOrder) Uint64(b []byte) uint64 { return 7 }
func (oddOrder) PutUint64(b []byte, v uint64) {
	binary.BigEndian.PutUint64(b, v)
	b[0], b[1] = b[1], b[0]
}
func (oddOrder) String() string { return "odd" }

type st struct {
	*bank
	fam []*srv
	w   *sink
	r   *script
}

func newSt(ep *zz.Ep, fs []string, types ...string) *st {
	s := &st{bank: newBank(ep, types...)}
	ep.Set("init", fs)
	for _, f := range fs {
		c := conf{f: f, hd: map[string][]byte{}, sub: f == "short" || f == "long"}
		switch f {
		case "short":
			c.h1 = [2]int{1, 1}
		case "long":
			c.h1, c.h2 = [2]int{0, 2}, [2]int{1, 1}
		}
		s.fam = append(s.fam, wrapS(c, base[f]))
	}
	return s
}

func (s *st) mixCase(n string) string {
	switch s.rng.Intn(4) {
	case 0:
		return n
	case 1:
		return strings.ToLower(n)
	case 2:
		return strings.ToUpper(n)
	}
	b := []byte(n)
	for i, c := range b {
		if s.rng.Intn(2) == 0 && (c|32 >= 'a' && c|32 <= 'z') {
			b[i] ^= 32
		}
	}
	return string(b)
}

func keyOf(c conf, name string) string {
	for _, k := range c.keys() {
		if strings.ToLower(name) == strings.ToLower(keyName[k]) {
			return k
		}
	}
	return ""
}

// with derives fam[i] with a parameter changed; returns the index of the new serializer or 0
func (s *st) with(i int, name string, v val, how string) int {
	f := s.fam[i-1]
	m := M{"i": i, "name": zz.Codes([]byte(name)), "val": v.log(), "how": how, "des": f.c.des}
	arg := v.arg(s.rng)
	var n *srv
	c := f.c.clone()
	switch keyOf(c, name) {
	case "endian":
		c.be = v.be
	case "sub":
		c.sub = v.be
	case "h1":
		c.h1 = v.h
	case "h2":
		c.h2 = v.h
	case "":
	default:
		c.hd[keyOf(c, name)] = v.b
	}
	m["out"] = zz.Outcome(func() {
		switch {
		case f.s != nil && how == "order":
			n = wrapS(c, f.s.WithEndianness(arg.(binary.ByteOrder)))
		case f.s != nil && how == "free":
			n = wrapS(c, ps.WithParameter(f.s, name, arg))
		case f.s != nil:
			n = wrapS(c, f.s.WithParameter(name, arg))
		case how == "order":
			n = wrapD(c, f.d.WithEndianness(arg.(binary.ByteOrder)))
		case how == "free":
			n = wrapD(c, ps.WithParameter(f.d, name, arg))
		default:
			n = wrapD(c, f.d.WithParameter(name, arg))
		}
	})
	if b, ok := arg.([]byte); ok { // the caller may go on using its slice
		for j := range b {
			b[j] ^= 0x55
		}
	}
	s.ep.Log("With", m)
	if m["out"] == "ok" && n != nil && n.any != nil {
		s.fam = append(s.fam, n)
		return len(s.fam)
	}
	return 0
}

// set changes one parameter by key
func (s *st) set1(i int, key string, v val) int {
	how := zz.Pick(s.rng, []string{"method", "method", "free"})
	if key == "endian" && s.rng.Intn(2) == 0 {
		how = "order"
	}
	return s.with(i, s.mixCase(keyName[key]), v, how)
}

func (s *st) copyOf(i int, des bool) int {
	f := s.fam[i-1]
	var n *srv
	out := zz.Outcome(func() {
		switch {
		case f.s != nil && des:
			n = wrapD(f.c.clone(), f.s.AsDeserializer())
		case f.s != nil:
			n = wrapS(f.c.clone(), f.s.Clone())
		default:
			n = wrapD(f.c.clone(), f.d.Clone())
		}
	})
	s.ep.Log("Copy", M{"i": i, "des": des, "out": out})
	if out == "ok" {
		s.fam = append(s.fam, n)
	}
	return len(s.fam)
}

func logged(key string, x any) M {
	r := M{"ok": false, "v": 0}
	switch key {
	case "endian":
		if o, ok := x.(common.FieldElementEndianness); ok {
			return M{"ok": true, "v": o.StartsWithMSB()}
		}
	case "sub":
		if b, ok := x.(bool); ok {
			return M{"ok": true, "v": b}
		}
	case "h1", "h2":
		if h, ok := x.(common.BitHeader); ok {
			return M{"ok": true, "v": []int{int(h.PrefixBits()), int(h.PrefixLen())}}
		}
	default:
		if b, ok := x.([]byte); ok {
			m := M{"ok": true, "v": zz.Codes(b)}
			for j := range b { // what we were given is ours
				b[j] ^= 0x33
			}
			return m
		}
	}
	return r
}

var junkNames = []string{"", "Endian", "Endianness ", " BitHeader", "BitHeader3", "SliceHeader", "GlobalSliceHeade", "SubgroupOnlyy", "x", "PerPoint_Header", "Bit\x00Header", "endiannesS2"}

func (s *st) show() {
	all := []any{}
	for _, f := range s.fam {
		names, vals, has, get, slen := []any{}, []any{}, []any{}, []any{}, []any{}
		rp := f.any.RecognizedParameters()
		for _, n := range rp {
			names = append(names, zz.Codes([]byte(n)))
			var x any
			out := zz.Outcome(func() { x = f.any.GetParameter(n) })
			if out != "ok" {
				vals = append(vals, M{"ok": false, "v": 0})
			} else {
				vals = append(vals, logged(keyOf(f.c, n), x))
			}
		}
		for j := range rp { // what we were given is ours
			rp[j] = "gone"
		}
		cand := []string{}
		for k := range keyName {
			cand = append(cand, keyName[k])
		}
		sort.Strings(cand)
		for j := 0; j < 4; j++ {
			n := zz.Pick(s.rng, cand)
			if s.rng.Intn(4) == 0 {
				n = zz.Pick(s.rng, junkNames)
			}
			n = s.mixCase(n)
			has = append(has, M{"name": zz.Codes([]byte(n)), "res": f.any.HasParameter(n)})
			var x any
			out := zz.Outcome(func() { x = f.any.GetParameter(n) })
			g := M{"name": zz.Codes([]byte(n)), "out": out, "val": M{"ok": false, "v": 0}}
			if out == "ok" {
				g["val"] = logged(keyOf(f.c, n), x)
			}
			get = append(get, g)
		}
		lim := (1<<31 - 1) / f.c.perPoint()
		for _, n := range []int64{0, 1, int64(s.rng.Intn(100)), int64(lim) - 1, int64(lim), int64(lim) + 1, 1<<31 - 1, -1, -1 << 31, int64(s.rng.Int31())} {
			var res int32
			var err error
			out := zz.Outcome(func() { res, err = f.any.SliceOutputLength(int32(n)) })
			q := M{"n": zz.HexI64(n), "neg": n < 0, "out": out, "nil": err == nil, "res": zz.HexI64(int64(res)), "fine": true}
			if err != nil {
				v, ok := err.(interface{ ValidateError_Final() error })
				q["fine"] = len(err.Error()) > 0 && (!ok || v.ValidateError_Final() == nil)
			}
			slen = append(slen, q)
		}
		all = append(all, M{"names": names, "vals": vals, "has": has, "get": get, "slen": slen, "be": f.any.GetFieldElementEndianness().StartsWithMSB(), "sub": f.any.IsSubgroupOnly(), "len": int(f.any.OutputLength())})
	}
	s.ep.Log("Show", M{"s": all})
}

func (s *st) writer(capacity int, late bool) {
	s.w = &sink{cap: capacity, late: late}
	s.ep.Log("Writer", M{"cap": capacity, "late": late})
}

func (s *st) reader(data []byte, end string) {
	s.r = &script{data: data, end: end, with: s.rng.Intn(2) == 0, chunk: s.rng.Intn(3) * s.rng.Intn(40), rng: s.rng}
	s.ep.Log("Reader", M{"data": zz.Codes(data), "end": end})
}

func (s *st) reread() {
	s.r = &script{data: append([]byte(nil), s.w.out...), end: "eof", with: s.rng.Intn(2) == 0, chunk: s.rng.Intn(3) * s.rng.Intn(40), rng: s.rng}
	s.ep.Log("Reread", nil)
}

type sliceSerializer interface {
	SerializeSlice(io.Writer, cp.CurvePointSlice) (int, ps.BatchSerializationError)
}

// the points of the registers xs as a sequence; "vals": in an array of their own, "ptrs": the registers themselves
func (s *st) seq(xs []int, kind string) (cp.CurvePointSlice, *buf) {
	if kind == "vals" && len(xs) > 0 {
		t := lower(s.types[xs[0]-1])
		b := mkBuf(t, len(xs), len(xs))
		for i, x := range xs {
			copyRaw(b.at(i), s.at(x))
		}
		return b.sl, b
	}
	os := make([]obj, len(xs))
	for i, x := range xs {
		os[i] = s.at(x)
	}
	if kind == "gen" {
		return cp.GenericPointSlice(os), nil
	}
	return cp.AsCurvePointPtrSlice(os), nil
}

// dst = src for points of the same type, representation included
func copyRaw(dst, src obj) {
	switch d := dst.(type) {
	case *cp.Point_xtw_full:
		*d = *plain(src).(*cp.Point_xtw_full)
	case *cp.Point_xtw_subgroup:
		*d = *plain(src).(*cp.Point_xtw_subgroup)
	case *cp.Point_axtw_full:
		*d = *plain(src).(*cp.Point_axtw_full)
	case *cp.Point_axtw_subgroup:
		*d = *plain(src).(*cp.Point_axtw_subgroup)
	case *cp.Point_efgh_full:
		*d = *plain(src).(*cp.Point_efgh_full)
	case *cp.Point_efgh_subgroup:
		*d = *plain(src).(*cp.Point_efgh_subgroup)
	}
}

func plain(o obj) obj {
	switch o := o.(type) {
	case fxf:
		return o.Point_xtw_full
	case fxs:
		return o.Point_xtw_subgroup
	case faf:
		return o.Point_axtw_full
	case fas:
		return o.Point_axtw_subgroup
	case fef:
		return o.Point_efgh_full
	case fes:
		return o.Point_efgh_subgroup
	case plainInf:
		return o.CurvePointPtrInterface
	case plainFin:
		return o.CurvePointPtrInterface
	}
	return o
}

func (s *st) sameTypes(xs []int) bool {
	for _, x := range xs {
		if lower(s.types[x-1]) != lower(s.types[xs[0]-1]) {
			return false
		}
	}
	return len(xs) > 0
}

func (s *st) kind(xs []int) string {
	k := zz.Pick(s.rng, []string{"vals", "vals", "ptrs", "gen"})
	if !s.sameTypes(xs) {
		k = zz.Pick(s.rng, []string{"ptrs", "gen"})
	}
	return k
}

// ser writes the points of registers xs with serializer i; how single/many/slice
func (s *st) ser(i int, how string, xs []int) {
	f := s.fam[i-1]
	if f.s == nil {
		return
	}
	m := M{"i": i, "how": how, "xs": xs, "n": 0, "errs": []string{}, "fine": true, "dpart": false, "dpts": -1}
	before := len(s.w.out)
	kind := ""
	var sl cp.CurvePointSlice
	var b *buf
	if how != "single" {
		kind = s.kind(xs)
		sl, b = s.seq(xs, kind)
	}
	m["kind"] = kind
	ss, ok := f.s.(sliceSerializer)
	if how == "slice" && !ok {
		return
	}
	m["out"] = zz.Outcome(func() {
		switch how {
		case "single":
			n, err := f.s.SerializeCurvePoint(s.w, s.at(xs[0]))
			m["n"] = n
			note(m, err, err == nil, "PartialWrite", "")
		case "many":
			n, err := f.s.SerializeCurvePoints(s.w, sl)
			m["n"] = n
			note(m, err, err == nil, "PartialWrite", "PointsSerialized")
		default:
			n, err := ss.SerializeSlice(s.w, sl)
			m["n"] = n
			note(m, err, err == nil, "PartialWrite", "PointsSerialized")
		}
	})
	if b != nil { // the array is what the registers are now
		for j, x := range xs {
			s.put(x, b.at(j))
		}
	}
	m["add"] = zz.Codes(s.w.out[before:])
	m["raw"] = s.raws()
	s.ep.Log("Ser", m)
}

func (s *st) put(x int, o obj) {
	n := newObj(lower(s.types[x-1]))
	copyRaw(n, o)
	if isForeign(s.types[x-1]) {
		n = wrap(n)
	}
	s.o[x-1] = n
}

// what reads for member f of the family: itself or the deserializer it gives
func (s *st) rd(f *srv) ps.CurvePointDeserializer {
	if f.s != nil && s.rng.Intn(2) == 0 {
		return f.s.AsDeserializer()
	}
	return f.any
}

// de reads one point into register z
func (s *st) de(i, z int, tr bool) []string {
	f := s.fam[i-1]
	d := s.rd(f)
	m := M{"i": i, "z": z, "tr": tr, "n": 0, "errs": []string{}, "fine": true, "dpart": false, "dpts": -1}
	m["out"] = zz.Outcome(func() {
		n, err := d.DeserializeCurvePoint(s.r, trustOf(tr), s.at(z))
		m["n"] = n
		note(m, err, err == nil, "PartialRead", "")
	})
	m["pos"] = s.r.pos
	m["raw"] = s.raws()
	s.ep.Log("De", m)
	return m["errs"].([]string)
}

// deMany reads a sequence into registers zs; how many/bounded/variadic
func (s *st) deMany(i int, zs []int, how string, tr bool) {
	f := s.fam[i-1]
	d := s.rd(f)
	m := M{"i": i, "zs": zs, "how": how, "tr": tr, "n": 0, "errs": []string{}, "fine": true, "dpart": false, "dpts": -1, "cnt": -1}
	kind := s.kind(zs)
	if dup(zs) && kind == "vals" {
		kind = "ptrs"
	}
	sl, b := s.seq(zs, kind)
	m["kind"] = kind
	m["out"] = zz.Outcome(func() {
		switch how {
		case "many":
			n, err := d.DeserializeCurvePoints(s.r, trustOf(tr), sl)
			m["n"] = n
			note(m, err, err == nil, "PartialRead", "PointsDeserialized")
		case "bounded":
			n, k, err := ps.DeserializeCurvePoints_Bounded(d, s.r, trustOf(tr), sl)
			m["n"], m["cnt"] = n, k
			note(m, err, err == nil, "PartialRead", "PointsDeserialized")
		default:
			os := []obj{}
			for _, z := range zs {
				os = append(os, s.at(z))
			}
			b = nil
			n, err := ps.DeserializeCurvePoints_Variadic(d, s.r, trustOf(tr), os...)
			m["n"] = n
			note(m, err, err == nil, "PartialRead", "PointsDeserialized")
		}
	})
	if b != nil {
		for j, z := range zs {
			s.put(z, b.at(j))
		}
	}
	m["pos"] = s.r.pos
	m["raw"] = s.raws()
	s.ep.Log("DeMany", m)
}

func dup(xs []int) bool {
	seen := map[int]bool{}
	for _, x := range xs {
		if seen[x] {
			return true
		}
		seen[x] = true
	}
	return false
}

// a sequence that pretends to be of any length; elements from a cycle of real ones
type longSlice struct {
	n int
	b *buf
}

func (x longSlice) Len() int { return x.n }
func (x longSlice) GetByIndex(i int) cp.CurvePointPtrInterface {
	if x.b == nil {
		panic("zz: looked at")
	}
	if i >= x.b.n {
		i = x.b.n - 1
	}
	return x.b.at(i)
}

// deSlice reads a self-describing slice.  mk: "new", "use" (existing of given room), "cust" (own maker, any announced length), "fail"
func (s *st) deSlice(i int, mk, t string, room int, tr bool) {
	f := s.fam[i-1]
	d := s.rd(f)
	m := M{"i": i, "mk": mk, "ty": lower(t), "tr": tr, "n": 0, "errs": []string{}, "fine": true, "dpart": false, "dpts": -1, "outok": false, "outn": 0, "after": []any{}}
	told := []string{}
	b := mkBuf(t, room, room+s.rng.Intn(3))
	for j := 0; j < b.n; j++ {
		if s.rng.Intn(3) > 0 {
			v := randSub(s.rng)
			copyRaw(b.at(j), mkObj(s.rng, lower(t), v, s.rng.Intn(nStyles)))
		}
	}
	m["before"] = b.raws()
	var maker ps.DeserializeSliceMaker
	marker := &struct{ x int }{1}
	switch mk {
	case "new":
		maker = newMaker(t)
	case "use":
		maker = b.use
	case "cust":
		maker = func(n int32) (any, cp.CurvePointSlice, error) {
			if n < 0 {
				return marker, nil, nil
			}
			return marker, longSlice{int(n), b}, nil
		}
	default:
		maker = func(n int32) (any, cp.CurvePointSlice, error) {
			if n < 0 {
				return marker, nil, nil
			}
			return marker, nil, errMaker
		}
	}
	watch := func(n int32) (any, cp.CurvePointSlice, error) {
		told = append(told, zz.HexI64(int64(n)))
		return maker(n)
	}
	m["out"] = zz.Outcome(func() {
		out, n, err := d.DeserializeSlice(s.r, trustOf(tr), watch)
		m["n"] = n
		note(m, err, err == nil, "PartialRead", "PointsDeserialized")
		switch mk {
		case "new":
			nb, ok := outAs(t, out)
			m["outok"] = ok
			if ok && err == nil {
				m["after"] = nb.raws()
			}
		case "use":
			k, ok := out.(int)
			m["outok"], m["outn"] = ok, k
		default:
			p, ok := out.(*struct{ x int })
			m["outok"] = ok && p == marker
		}
	})
	if mk != "new" {
		m["after"] = b.raws()
	}
	m["told"] = told
	m["pos"] = s.r.pos
	m["raw"] = s.raws()
	s.ep.Log("DeSlice", m)
}

// huge asks for more points than can be handled
func (s *st) huge(i int, how string, n int64) {
	f := s.fam[i-1]
	m := M{"i": i, "how": how, "len": zz.HexI64(n), "n": 0, "errs": []string{}, "fine": true, "dpart": false, "dpts": -1}
	w := &sink{cap: 1000}
	ss, ok := any(f.s).(sliceSerializer)
	if f.s == nil && how != "read" || how == "slice" && !ok {
		return
	}
	m["out"] = zz.Outcome(func() {
		switch how {
		case "many":
			k, err := f.s.SerializeCurvePoints(w, longSlice{int(n), nil})
			m["n"] = k
			note(m, err, err == nil, "PartialWrite", "PointsSerialized")
		case "slice":
			k, err := ss.SerializeSlice(w, longSlice{int(n), nil})
			m["n"] = k
			note(m, err, err == nil, "PartialWrite", "PointsSerialized")
		default:
			k, err := s.rd(f).DeserializeCurvePoints(&script{end: "eof"}, untrusted, longSlice{int(n), nil})
			m["n"] = k
			note(m, err, err == nil, "PartialRead", "PointsDeserialized")
		}
	})
	m["add"] = zz.Codes(w.out)
	s.ep.Log("Huge", m)
}

// ---- building input
func putNum(v *big.Int, h [2]int, be bool) []byte {
	x := new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(int64(h[0])), uint(256-h[1])))
	x.Mod(x, new(big.Int).Lsh(one, 256))
	b := make([]byte, 32)
	x.FillBytes(b)
	if !be {
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
	}
	return b
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// coordinates of the encoding of p
func (c conf) nums(p pv) ([]*big.Int, [][2]int) {
	sg := func(x *big.Int) *big.Int {
		if sign(p.y) < 0 {
			return neg(x)
		}
		return x
	}
	switch c.f {
	case "short":
		return []*big.Int{sg(p.x)}, [][2]int{c.h1}
	case "long":
		return []*big.Int{sg(p.y), sg(p.x)}, [][2]int{c.h1, c.h2}
	case "xy":
		return []*big.Int{p.x, p.y}, [][2]int{c.h1, c.h2}
	case "xs":
		return []*big.Int{p.x}, [][2]int{{bit(sign(p.y) < 0), 1}}
	}
	return []*big.Int{p.y}, [][2]int{{bit(sign(p.x) < 0), 1}}
}

func (c conf) enc(ns []*big.Int, hs [][2]int) []byte {
	r := []byte{}
	for i := range ns {
		r = append(r, putNum(ns[i], hs[i], c.be)...)
	}
	return r
}

func (c conf) body(p pv) []byte {
	ns, hs := c.nums(p)
	return c.enc(ns, hs)
}

func (c conf) single(p pv) []byte {
	return bytes.Join([][]byte{c.hd["sh"], c.body(p), c.hd["sf"]}, nil)
}

func (c conf) slice(ps []pv) []byte {
	var l [4]byte
	binary.LittleEndian.PutUint32(l[:], uint32(len(ps)))
	r := append(append([]byte{}, c.hd["gh"]...), l[:]...)
	for _, p := range ps {
		r = append(r, c.hd["ph"]...)
		r = append(r, c.body(p)...)
		r = append(r, c.hd["pf"]...)
	}
	return append(r, c.hd["gf"]...)
}

func (s *st) String() string { return fmt.Sprint(len(s.fam)) }
