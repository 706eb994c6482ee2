//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/internal/callcounters"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type M = zz.M

type ctrOp struct {
	Op, ID, Other, Name string
	Disp, Root, On      bool
	M                   int
	CC                  bool // call the method on the *CallCounter
}

type ctrs struct {
	ep  *zz.Ep
	pre string
	cc  map[string]*callcounters.CallCounter
}

func (s *ctrs) id(x string) callcounters.Id {
	if x == "" {
		return ""
	}
	return callcounters.Id(s.pre + x)
}
func (s *ctrs) nm(x string) string {
	if x == "" {
		return ""
	}
	return s.pre + x
}

func (s *ctrs) do(o ctrOp) {
	ev := M{"id": o.ID}
	cc := s.cc[o.ID]
	useCC := o.CC && cc != nil
	ev["viaPtr"] = useCC
	var ret *callcounters.CallCounter
	out := zz.Outcome(func() {
		switch o.Op {
		case "Hier":
			ev["name"], ev["dflt"], ev["other"], ev["odflt"] = o.Name, o.ID, o.Other, o.Other+"(dummy)"
			ret = callcounters.CreateHierarchicalCallCounter(s.id(o.ID), s.nm(o.Name), s.id(o.Other))
		case "New":
			ev["name"], ev["other"], ev["disp"], ev["root"] = o.Name, o.Other, o.Disp, o.Root
			ret = callcounters.CreateNewCallCounter(s.id(o.ID), s.nm(o.Name), o.Disp, s.id(o.Other), o.Root)
		case "Attached":
			ev["name"], ev["other"] = o.Name, o.Other
			ret = callcounters.CreateAttachedCallCounter(s.id(o.ID), s.nm(o.Name), s.id(o.Other))
		case "Rem":
			ev["on"] = o.On
			if useCC {
				ret = cc.SetDisplayRemaining(o.On)
			} else {
				ret = s.id(o.ID).SetDisplayRemaining(o.On)
			}
		case "LinkTo":
			ev["other"], ev["m"] = o.Other, o.M
			if useCC {
				ret = cc.AddThisToTarget(s.id(o.Other), o.M)
			} else {
				ret = s.id(o.ID).AddThisToTarget(s.id(o.Other), o.M)
			}
		case "LinkFrom":
			ev["other"], ev["m"] = o.Other, o.M
			if useCC {
				ret = cc.AddToThisFromSource(s.id(o.Other), o.M)
			} else {
				ret = s.id(o.ID).AddToThisFromSource(s.id(o.Other), o.M)
			}
		case "Inc":
			s.id(o.ID).Increment()
		case "Reset":
			if useCC {
				cc.Reset()
			} else {
				s.id(o.ID).Reset()
			}
		case "ResetAll":
			callcounters.ResetAllCounters()
		}
	})
	if ret != nil {
		s.cc[o.ID] = ret
	}
	ev["out"] = out
	s.ep.Log(o.Op, ev)
}

func (s *ctrs) get(x string, ptr bool) {
	ev := M{"id": x, "got": 0, "ok": false}
	if cc := s.cc[x]; cc != nil && ptr {
		ev["got"], ev["ok"] = cc.Get()
		ev["viaPtr"] = true
	} else {
		ev["got"], ev["ok"] = s.id(x).Get()
	}
	s.ep.Log("Get", ev)
	s.ep.Log("Exists", M{"id": x, "got": s.id(x).Exists()})
}

func (s *ctrs) report(pos, byName bool) {
	list := []any{}
	for _, it := range callcounters.ReportCallCounters(pos, byName) {
		if strings.HasPrefix(it.Tag, s.pre) {
			list = append(list, M{"tag": it.Tag[len(s.pre):], "calls": it.Calls})
		}
	}
	s.ep.Log("Report", M{"pos": pos, "byName": byName, "list": list})
}

func (s *ctrs) structure() {
	const ind = "~>"
	list, unseen := []any{}, []any{}
	second := false
	for _, line := range strings.Split(callcounters.GetCallCounterStructureReport(ind), "\n") {
		if strings.HasPrefix(line, "Call counters not below any") {
			second = true
			continue
		}
		d := 0
		for strings.HasPrefix(line, ind) {
			line = line[len(ind):]
			d++
		}
		if !strings.HasPrefix(line, s.pre) {
			continue
		}
		line = line[len(s.pre):]
		line, noinit := cut(line, " (counter was only refered to, never actually created)")
		line, rec := cut(line, " (recursively hidden)")
		line, hid := cut(line, " (hidden)")
		if second {
			unseen = append(unseen, M{"tag": line, "hid": hid, "ini": !noinit})
		} else {
			list = append(list, M{"tag": line, "hid": hid, "rec": rec, "ini": !noinit, "depth": d})
		}
	}
	s.ep.Log("Structure", M{"list": list, "unseen": unseen})
}

func cut(s, suffix string) (string, bool) {
	if strings.HasSuffix(s, suffix) {
		return s[:len(s)-len(suffix)], true
	}
	return s, false
}

func (s *ctrs) look(ids []string) {
	for i, x := range ids {
		s.get(x, i%2 == 0)
	}
	for _, p := range []bool{false, true} {
		s.report(p, false)
		s.report(p, true)
	}
	s.structure()
}

func suiteI01(r *zz.Run) {
	fresh := func(ep *zz.Ep) *ctrs {
		return &ctrs{ep: ep, pre: "<" + ep.ID + ">", cc: map[string]*callcounters.CallCounter{}}
	}
	if r.In != "" {
		for i, raw := range zz.ReadBehaviours(r.In) {
			raw := raw
			r.Episode(fmt.Sprintf("gen-%d", i), func(ep *zz.Ep) {
				s := fresh(ep)
				var ops []struct {
					Op, ID, Other, Name string
					Disp, Root, On      bool
					M                   int
				}
				if err := json.Unmarshal(raw, &ops); err != nil {
					panic(err)
				}
				for k, o := range ops {
					s.do(ctrOp{o.Op, o.ID, o.Other, o.Name, o.Disp, o.Root, o.On, o.M, (k+i)%2 == 0})
					s.get(zz.Pick(ep.Rng, []string{"a", "b", "d"}), ep.Rng.Intn(2) == 0)
					if ep.Rng.Intn(6) == 0 {
						s.look([]string{"a", "b", "d"})
					}
				}
				s.look([]string{"a", "b", "d"})
			})
		}
	}
	r.Repeat("tree", r.Scale(400, 4000), func(ep *zz.Ep, i int) {
		s := fresh(ep)
		rng := ep.Rng
		all := []string{"a", "b", "c", "d", "e", "f", "g", "h"}[:3+rng.Intn(6)]
		perm := rng.Perm(len(all)) // creation order
		created := 0
		lower := func(k int) string {
			if k == 0 || rng.Intn(5) == 0 {
				return ""
			}
			return all[rng.Intn(k)]
		}
		for n := 20 + rng.Intn(30); n > 0; n-- {
			k := rng.Intn(len(all))
			o := ctrOp{ID: all[k], CC: rng.Intn(2) == 0}
			if created < len(all) && rng.Intn(3) > 0 {
				k = perm[created]
				created++
				o.ID = all[k]
				o.Op = zz.Pick(rng, []string{"Hier", "Hier", "Hier", "New", "Attached"})
				o.Other = lower(k)
				o.Name = "N" + o.ID
				if o.Op == "Hier" && rng.Intn(2) == 0 {
					o.Name = ""
				}
				o.Disp, o.Root = rng.Intn(4) > 0, rng.Intn(2) == 0
			} else {
				o.Op = zz.Pick(rng, []string{"Inc", "Inc", "Inc", "Inc", "Inc", "Inc", "Reset", "ResetAll", "Rem", "Rem", "LinkTo", "LinkFrom", "Hier", "New"})
				switch o.Op {
				case "Hier", "New": // mostly duplicates
					o.Other, o.Name = lower(k), "N"+o.ID
					o.Disp = true
				case "Rem":
					o.On = rng.Intn(3) > 0
				case "ResetAll":
					if rng.Intn(3) > 0 {
						o.Op = "Inc"
					} else {
						o.ID = ""
					}
				case "LinkTo":
					o.Other = lower(k)
					o.M = rng.Intn(7) - 3
					if o.Other == "" || (o.M == 0 && s.cc[o.ID] == nil) {
						continue
					}
				case "LinkFrom":
					if k == len(all)-1 {
						continue
					}
					o.Other = all[k+1+rng.Intn(len(all)-k-1)]
					o.M = rng.Intn(7) - 3
					if o.M == 0 && s.cc[o.ID] == nil {
						continue
					}
				}
			}
			s.do(o)
			s.get(zz.Pick(rng, all), rng.Intn(2) == 0)
			if rng.Intn(10) == 0 {
				s.look(all)
			}
		}
		s.look(all)
	})
	r.Episode("refused", func(ep *zz.Ep) {
		s := fresh(ep)
		s.do(ctrOp{Op: "Hier", ID: "a"})
		for _, op := range []string{"Hier", "New", "Attached", "Rem", "LinkTo", "LinkFrom", "Inc", "Reset"} {
			s.do(ctrOp{Op: op, ID: "", Other: "a", Name: "x", M: 1})
			s.look([]string{"a"})
		}
		s.do(ctrOp{Op: "LinkTo", ID: "a", Other: "", M: 1})
		s.do(ctrOp{Op: "LinkFrom", ID: "a", Other: "", M: 1})
		s.do(ctrOp{Op: "LinkTo", ID: "a", Other: "", M: 1, CC: true})
		s.do(ctrOp{Op: "LinkFrom", ID: "a", Other: "", M: 1, CC: true})
		s.do(ctrOp{Op: "LinkTo", ID: "a", Other: "", M: 0})
		s.do(ctrOp{Op: "Inc", ID: "b"})
		s.do(ctrOp{Op: "Attached", ID: "q", Name: "q"})
		s.do(ctrOp{Op: "LinkTo", ID: "a", Other: "z", M: 5})
		s.do(ctrOp{Op: "Inc", ID: "z"}) // only referred to
		s.look([]string{"a", "b", "z", "q"})
	})
}
