//go:build go1.22

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type M = zz.M

// codes: code points, -1 for every byte that is not valid UTF-8
func codes(s string) []int {
	out := []int{}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			out = append(out, -1)
		} else {
			out = append(out, int(r))
		}
		i += n
	}
	return out
}

type boomStringer struct{}

func (boomStringer) String() string { panic("boom") }

type recVal struct {
	X int
	Y string
}

// values parameters may have
var tmplVals = []any{nil, 7, "s$w", []int{1, 2}, recVal{1, "q"}, 2.5, errors.New("inner"), boomStringer{}, int64(-3), true, map[string]int{"z": 1, "b": 2}, ""}

var tmplNames = []string{"A", "B", "Cc", "A1", "X_y", "Ä", "a", "!m", "Δλ"}

// custom interpolating error
type custErr struct {
	msg        string
	vb, vn, vp bool
}

var errCust = errors.New("custom verdict")

func verdict(ok bool) error {
	if ok {
		return nil
	}
	return errCust
}
func (c *custErr) Error() string { return c.msg }
func (c *custErr) Error_interpolate(p map[string]any) string {
	if p == nil {
		return c.msg
	}
	return c.msg + fmt.Sprintf("%v", p)
}
func (c *custErr) ValidateError_Base() error { return verdict(c.vb) }
func (c *custErr) ValidateError_Params(p map[string]any) error {
	if p == nil {
		return verdict(c.vn)
	}
	return verdict(c.vp)
}

// tbl collects what has to be printed
type tbl struct {
	verbs map[string]bool
	maps  map[string]map[string]int
}

func unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if i+1 < len(s) && ((s[i] == '\\' && strings.IndexByte("%${}\\", s[i+1]) >= 0) || (s[i] == '%' && s[i+1] == '%')) {
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// template: remember everything that might be a verb
func (t *tbl) template(s string) {
	s = strings.ToValidUTF8(s, "\uFFFD")
	for p := 0; p < len(s); p++ {
		if s[p] != '{' {
			continue
		}
		for q := p - 1; q >= 0 && p-q < 60; q-- {
			if s[q] == '%' || s[q] == '$' {
				if v := unescape(s[q+1 : p]); !strings.Contains(v, "%") {
					t.verbs[v] = true
				}
			}
		}
	}
}

func mapKey(m map[string]int) string {
	b, _ := json.Marshal(m)
	return string(b)
}
func (t *tbl) addMap(m map[string]int) { t.maps[mapKey(m)] = m }

func pairs(m map[string]int) []any {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []any{}
	for _, k := range ks {
		out = append(out, []any{codes(k), m[k]})
	}
	return out
}

func realMap(m map[string]int) ewd.ParamMap {
	r := ewd.ParamMap{}
	for k, v := range m {
		r[k] = tmplVals[v]
	}
	return r
}

func (t *tbl) finish(ep *zz.Ep) {
	t.verbs["v"] = true
	delete(t.verbs, "")
	verbs := []string{}
	for v := range t.verbs {
		verbs = append(verbs, v)
	}
	sort.Strings(verbs)
	used := map[int]bool{}
	keys := []string{}
	for k, m := range t.maps {
		keys = append(keys, k)
		for _, v := range m {
			used[v] = true
		}
	}
	sort.Strings(keys)
	ft, mt := []any{}, []any{}
	for _, v := range verbs {
		for id := range tmplVals {
			if used[id] {
				ft = append(ft, M{"v": id, "f": codes(v), "s": codes(fmt.Sprintf("%"+v, tmplVals[id]))})
			}
		}
		for _, k := range keys {
			mt = append(mt, M{"m": pairs(t.maps[k]), "f": codes(v), "s": codes(fmt.Sprintf("%"+v, realMap(t.maps[k])))})
		}
	}
	ep.Set("ft", ft)
	ep.Set("mt", mt)
}

// chain of errors under construction
type tchain struct {
	ep   *zz.Ep
	errs []error
	own  []map[string]int // all parameters (errors with data)
	kind []string
	base []int
	t    tbl
}

func newChain(ep *zz.Ep, focus string) *tchain {
	ep.Set("focus", focus)
	ep.Set("ft", []any{})
	ep.Set("mt", []any{})
	return &tchain{ep: ep, t: tbl{map[string]bool{}, map[string]map[string]int{}}}
}
func (c *tchain) get(b int) error {
	if b == 0 {
		return nil
	}
	return c.errs[b-1]
}
func (c *tchain) add(e error, kind string, own map[string]int, base int) int {
	c.errs, c.kind, c.own, c.base = append(c.errs, e), append(c.kind, kind), append(c.own, own), append(c.base, base)
	return len(c.errs)
}
func (c *tchain) plain(s string) int {
	c.ep.Log("err", M{"kind": "plain", "t": codes(s), "out": "ok"})
	return c.add(errors.New(s), "plain", nil, 0)
}
func (c *tchain) wrap(s string, b int) int {
	c.ep.Log("err", M{"kind": "wrap", "t": codes(s), "base": b, "out": "ok"})
	return c.add(fmt.Errorf("%s%w", s, c.get(b)), "wrap", nil, b)
}
func (c *tchain) cust(s string, f int) int {
	x := &custErr{s, f&1 != 0, f&2 != 0, f&4 != 0}
	c.ep.Log("err", M{"kind": "cust", "t": codes(s), "vb": x.vb, "vn": x.vn, "vp": x.vp, "out": "ok"})
	return c.add(x, "cust", nil, 0)
}
func (c *tchain) inherited(b int) map[string]int {
	for b != 0 {
		if c.kind[b-1] == "ewd" {
			return c.own[b-1]
		}
		if c.kind[b-1] != "wrap" {
			break
		}
		b = c.base[b-1]
	}
	return nil
}

// known replaces characters whose class the specification does not list
func known(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r < 128 || (r == utf8.RuneError) || strings.ContainsRune("ÄΔéλ世٣", r) {
			b.WriteString(s[i : i+n])
		} else {
			b.WriteString("é")
		}
		i += n
	}
	return b.String()
}

func (c *tchain) ewd(tm string, own map[string]int, b int, how int) int {
	tm = known(tm)
	var e error
	args := []any{}
	for k, v := range own {
		args = append(args, k, tmplVals[v])
	}
	out := zz.Outcome(func() {
		if tm == "" && b != 0 && how&4 != 0 {
			switch how % 4 {
			case 0:
				e = ewd.AddDataToError_any_map(c.get(b), ewd.ReplacePreviousData, realMap(own))
			case 1:
				e = ewd.AddDataToError_any_params(c.get(b), ewd.ReplacePreviousData, args...)
			case 2:
				e = ewd.AddDataToError_map[struct{}](c.get(b), ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, realMap(own))
			case 3:
				e = ewd.AddDataToError_params[struct{}](c.get(b), ewd.ReplacePreviousData, ewd.MissingDataAsZero, args...)
			}
			return
		}
		switch how % 4 {
		case 0:
			e = ewd.NewErrorWithData_any_map(c.get(b), tm, ewd.ReplacePreviousData, realMap(own))
		case 1:
			e = ewd.NewErrorWithData_any_params(c.get(b), tm, ewd.ReplacePreviousData, args...)
		case 2:
			e = ewd.NewErrorWithData_map[struct{}](c.get(b), tm, ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, realMap(own))
		case 3:
			e = ewd.NewErrorWithData_params[struct{}](c.get(b), tm, ewd.ReplacePreviousData, ewd.MissingDataAsZero, args...)
		}
	})
	c.ep.Log("err", M{"kind": "ewd", "t": codes(tm), "own": pairs(own), "base": b, "out": out})
	if out != "ok" {
		return 0
	}
	all := map[string]int{}
	for k, v := range c.inherited(b) {
		all[k] = v
	}
	for k, v := range own {
		all[k] = v
	}
	c.t.template(tm)
	c.t.addMap(all)
	return c.add(e, "ewd", all, b)
}

func (c *tchain) ask(k int, pass map[string]int) {
	if k > len(c.errs) {
		return
	}
	x, ok := c.errs[k-1].(ewd.ErrorWithData_any)
	if !ok {
		return
	}
	m := M{"k": k, "nil": pass == nil, "pa": []any{}}
	var msg, again string
	if pass == nil {
		msg = x.Error()
		again = x.Error_interpolate(nil)
		m["vp"] = x.ValidateError_Params(nil) == nil
	} else {
		c.t.addMap(pass)
		m["pa"] = pairs(pass)
		rp := realMap(pass)
		msg = x.Error_interpolate(rp)
		m["vp"] = x.ValidateError_Params(rp) == nil
		again = x.Error_interpolate(rp)
	}
	m["vs"], m["vb"], m["vf"] = x.ValidateSyntax() == nil, x.ValidateError_Base() == nil, x.ValidateError_Final() == nil
	m["msg"], m["again"] = codes(msg), codes(again)
	c.ep.Log("ask", m)
}

func (c *tchain) ensure(ks []int) {
	es := []ewd.ErrorWithData_any{}
	for _, k := range ks {
		es = append(es, c.errs[k-1].(ewd.ErrorWithData_any))
	}
	ok := func(f func(...ewd.ErrorWithData_any)) bool { return zz.Outcome(func() { f(es...) }) == "ok" }
	c.ep.Log("ensure", M{"ks": append([]int{}, ks...), "s": ok(ewd.EnsureErrorsValid_Syntax), "b": ok(ewd.EnsureErrorsValid_Base), "f": ok(ewd.EnsureErrorsValid_Final)})
}

func rndParams(rng *rand.Rand, n int) map[string]int {
	m := map[string]int{}
	for i := rng.Intn(n + 1); i > 0; i-- {
		k := 0
		if rng.Intn(4) == 0 {
			k = rng.Intn(len(tmplNames))
		} else {
			k = rng.Intn(3)
		}
		m[tmplNames[k]] = rng.Intn(len(tmplVals))
	}
	return m
}

var tmplVerbs = []string{"", "", "v", "s", "d", "q", "5d", "+v", "#v", "x", "T", "6.2f", "-4d|", "5", "é", "v tail", "[1]v", "w"}
var tmplTexts = []string{"x", "foo ", "w", "!", "m>0", "A", "é", "\n", "'\"", "世", "\\\\", "\\{", "\\}", "\\%", "\\$", "%%", "a\\b", "<!", ">", "v"}

// a template of the language
func goodTemplate(rng *rand.Rand, depth int) string {
	var b strings.Builder
	names := []string{"!m", "!map", "!params", "!parameters", "D", "A", "B", "Cc", "A", "B", "A1", "X_y", "Ä", "Δλ"}
	for i := rng.Intn(4) + 1; i > 0; i-- {
		switch k := rng.Intn(10); {
		case k < 3:
			b.WriteString(zz.Pick(rng, tmplTexts))
		case k < 6:
			b.WriteString(zz.Pick(rng, []string{"%", "$"}) + zz.Pick(rng, tmplVerbs) + "{" + zz.Pick(rng, names) + "}")
		case k < 8:
			b.WriteString(zz.Pick(rng, []string{"%w", "$w"}))
		default:
			if depth > 0 {
				b.WriteString(zz.Pick(rng, []string{"%!", "$!"}) + zz.Pick(rng, []string{"m>0", "m=0"}) + "{" + goodTemplate(rng, depth-1) + "}")
			}
		}
	}
	return b.String()
}

var tmplBlocks = []string{"x", "A", "B", "%", "$", "{", "}", "%!", "$!", "%w", "$w", "m>0", "m=0", "\\%", "\\", "%%", "!m", "!", "d", "\xff", "\xfe\x80", "\uFFFD",
	"%{A}", "$d{B}", "%!m>0{", "$!m=0{", "\\{", "é", "Ä", "", "w", "m", "!x", "\\\\", "\\}", "٣", "A\\}", " "}

func wildTemplate(rng *rand.Rand) string {
	s := ""
	for i := rng.Intn(9); i > 0; i-- {
		s += zz.Pick(rng, tmplBlocks)
	}
	return s
}

// a template of the language with one change
func nearTemplate(rng *rand.Rand) string {
	s := goodTemplate(rng, 2)
	if len(s) == 0 {
		return s
	}
	p := rng.Intn(len(s) + 1)
	switch rng.Intn(3) {
	case 0:
		return s[:p] + zz.Pick(rng, tmplBlocks) + s[p:]
	case 1:
		return s[:p] + s[min(len(s), p+rng.Intn(3)):]
	default:
		return s[:p] + zz.Pick(rng, tmplBlocks) + s[min(len(s), p+1):]
	}
}

// pieces that parse, but can not be used (or only without wrapped error, or not as they are)
var mistakes = []string{"%!bad{x}", "$!worse{y}", "%!{z}", "%v{A.B}", "$v{-}", "%v%{A}", "%z{A}", "${-}", "%{9}", "$!m=0{%!bad{$w}}", "%!m>0{${A.B}}",
	"%w", "$!m>0{%w}", "$!bad{%w}", "%!m=1{%w}", "%!worse{$!bad{}}", "%w{}", "%w{A}", "%d{A}", "$+v{B}", "%!m >0{x}", "%!M>0{x}"}

func severalMistakes(rng *rand.Rand, depth int) string {
	s := ""
	for i := rng.Intn(4) + 1; i > 0; i-- {
		switch k := rng.Intn(8); {
		case k < 5:
			s += zz.Pick(rng, mistakes)
		case k == 5 && depth > 0:
			s += zz.Pick(rng, []string{"%!", "$!"}) + zz.Pick(rng, []string{"m=0", "m>0", "bad", "m<0", ""}) + "{" + severalMistakes(rng, depth-1) + "}"
		case k == 6:
			s += zz.Pick(rng, []string{" ", "t", "\\%", "\\{"})
		default:
			s += goodTemplate(rng, 1)
		}
	}
	return s
}

func randomChain(ep *zz.Ep, focus string, tm func(depth int) string) {
	rng := ep.Rng
	c := newChain(ep, focus)
	defer c.t.finish(ep)
	b := 0
	switch rng.Intn(6) {
	case 0:
	case 1:
		b = c.cust("cust", rng.Intn(8))
	default:
		b = c.plain(zz.Pick(rng, []string{"plain", "", "pl%{A}$w", "ä\\"}))
	}
	for i := rng.Intn(3) + 1; i > 0; i-- {
		if b != 0 && rng.Intn(5) == 0 {
			b = c.wrap(zz.Pick(rng, []string{"wrapped: ", "%w "}), b)
		}
		t := tm(2)
		if b != 0 && rng.Intn(12) == 0 {
			t = ""
		}
		n := c.ewd(t, rndParams(rng, 3), b, rng.Intn(8))
		if n == 0 {
			continue
		}
		b = n
	}
	ks := []int{}
	for k := range c.errs {
		if c.kind[k] != "ewd" {
			continue
		}
		ks = append(ks, k+1)
		c.ask(k+1, nil)
		c.ask(k+1, map[string]int{})
		c.ask(k+1, rndParams(rng, 3))
	}
	if focus == "val" && len(ks) > 0 {
		c.ensure(ks)
		c.ensure(ks[len(ks)-1:])
		c.ensure(nil)
	}
	c.ask(max(b, 1), nil)
}

func tmplSuite(focus string) func(*zz.Run) {
	return func(r *zz.Run) {
		// templates generated from the specification, in fixed surroundings
		if r.In != "" {
			for i, raw := range zz.ReadBehaviours(r.In) {
				i := i
				var bl []string
				if err := json.Unmarshal(raw, &bl); err != nil {
					panic(err)
				}
				tm := strings.Join(bl, "")
				r.Episode(fmt.Sprintf("gen-%d", i), func(ep *zz.Ep) {
					c := newChain(ep, focus)
					defer c.t.finish(ep)
					p := c.plain("pl")
					var k int
					switch i % 3 {
					case 0:
						q := c.ewd("q%{A}${B}", map[string]int{"A": 1}, p, i)
						k = c.ewd(tm, map[string]int{"B": 2}, q, i)
					case 1:
						k = c.ewd(tm, map[string]int{"A": 1, "B": 3}, p, i)
					case 2:
						k = c.ewd(tm, map[string]int{}, 0, i)
					}
					if k == 0 {
						return
					}
					c.ask(k, nil)
					c.ask(k, map[string]int{})
					c.ask(k, map[string]int{"B": 5})
					if o := c.ewd("o $w %w", map[string]int{"B": 4}, k, i+1); o != 0 {
						c.ask(o, nil)
						c.ask(o, map[string]int{"A": 9})
					}
				})
			}
		}
		n := r.Scale(500, 6000)
		switch focus {
		case "msg":
			r.Repeat("good", 2*n, func(ep *zz.Ep, i int) {
				randomChain(ep, focus, func(d int) string { return goodTemplate(ep.Rng, d) })
			})
			// long chains
			r.Repeat("deep", n/10, func(ep *zz.Ep, i int) {
				c := newChain(ep, focus)
				defer c.t.finish(ep)
				b := c.plain("p")
				for j := 0; j < 12; j++ {
					t := zz.Pick(ep.Rng, []string{"$w", "%w", "(%{A} $w)", "[${A}%w]", "$!m>0{$w}", "", "%!m=0{x}$w${B}"})
					b = c.ewd(t, rndParams(ep.Rng, 1), b, j)
				}
				c.ask(b, nil)
				c.ask(b, map[string]int{})
				c.ask(b-6, map[string]int{"B": 2})
			})
		case "bad":
			r.Repeat("wild", n, func(ep *zz.Ep, i int) {
				randomChain(ep, focus, func(d int) string { return wildTemplate(ep.Rng) })
			})
			// several independent mistakes in one template
			r.Repeat("several", n, func(ep *zz.Ep, i int) {
				randomChain(ep, focus, func(d int) string { return severalMistakes(ep.Rng, 2) })
			})
			r.Repeat("near", n, func(ep *zz.Ep, i int) {
				randomChain(ep, focus, func(d int) string { return nearTemplate(ep.Rng) })
			})
			r.Repeat("bytes", n/5, func(ep *zz.Ep, i int) {
				randomChain(ep, focus, func(int) string {
					b := make([]byte, ep.Rng.Intn(24))
					for j := range b {
						if ep.Rng.Intn(3) > 0 {
							b[j] = "%${}\\!wA>m0"[ep.Rng.Intn(11)]
						} else {
							b[j] = "\xff\xc3\x80\xefa\x00"[ep.Rng.Intn(6)]
						}
					}
					return string(b)
				})
			})
			// nesting
			r.Repeat("nest", n/10, func(ep *zz.Ep, i int) {
				randomChain(ep, focus, func(int) string {
					s := zz.Pick(ep.Rng, []string{"%d{A}", "%!zz{y}", "%", "}", "{", "%d{a}", "$!m>0{", "x", "%d\\%{A}", "%{!z}"})
					for j := ep.Rng.Intn(5); j > 0; j-- {
						s = zz.Pick(ep.Rng, []string{"%!m>0{", "%!m=0{", "$!m>0{", "$!m=0{", "$!q{"}) + s + zz.Pick(ep.Rng, []string{"}", "}", "}", "} t", ""})
					}
					return s
				})
			})
		case "val":
			r.Repeat("mixed", 2*n, func(ep *zz.Ep, i int) {
				randomChain(ep, focus, func(d int) string {
					if ep.Rng.Intn(3) == 0 {
						return nearTemplate(ep.Rng)
					}
					return goodTemplate(ep.Rng, d)
				})
			})
		}
	}
}

func main() {
	zz.Main(map[string]func(*zz.Run){
		"W01": tmplSuite("msg"),
		"W02": tmplSuite("bad"),
		"W03": tmplSuite("val"),
		"W04": dataSuite("W04"),
		"W05": dataSuite("W05"),
		"W06": dataSuite("W06"),
		"W07": dataSuite("W07"),
		"W08": dataSuite("W08"),
	})
}
