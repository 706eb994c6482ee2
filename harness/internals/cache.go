//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

var cacheKeys = []string{"k", "m", "q"}

func keyNo(k string) int {
	for i, x := range cacheKeys {
		if x == k {
			return i
		}
	}
	return -1
}

type cel struct {
	K string
	I int
}

func (c cel) rec() M { return M{"k": c.K, "i": c.I} }

// detSrc yields (number of the key, running number)
type detSrc struct {
	key   int
	drawn int64
}

func (s *detSrc) Int63() int64 { s.drawn++; return int64(s.key)<<32 | s.drawn }
func (s *detSrc) Seed(int64)   {}

type cacheReq struct {
	Op string `json:"op"`
	K  string `json:"k"`
	N  int    `json:"n"`
}

// cacheFlavour adapts the element type
type cacheFlavour[E any] struct {
	mk   func(cel) E
	rd   func(E) cel
	copy func(E) E
	mut  func(*E) // destroys what the element refers to
	rand bool     // with a generator
}

type cacheHooks struct {
	gate func(kind string, k string)
	log  func(op string, m M) // nil: nothing is logged inside callbacks
}

func newCache[E any](fl cacheFlavour[E], h cacheHooks, counts []int) testutils.PrecomputedCache[string, E] {
	gate := func(kind, k string) {
		if h.gate != nil {
			h.gate(kind, k)
		}
	}
	var cr func(string) *rand.Rand
	if fl.rand {
		cr = func(k string) *rand.Rand {
			gate("rand", k)
			return rand.New(&detSrc{key: keyNo(k)})
		}
	}
	cf := func(r *rand.Rand, k string) E {
		ki := keyNo(k)
		var x cel
		good := true
		if fl.rand {
			if r == nil {
				good = false
			} else {
				v := r.Int63()
				x = cel{cacheKeys[v>>32], int(v & 0xffffffff)}
				good = x.K == k
			}
			counts[ki]++
		} else {
			counts[ki]++ // deliberately without synchronisation
			x = cel{k, counts[ki]}
			good = r == nil
		}
		if h.log != nil {
			h.log("create", M{"k": k, "rng": good})
		}
		gate("create", k)
		if h.log != nil {
			h.log("created", M{"k": k})
		}
		return fl.mk(x)
	}
	var cp func(E) E
	if fl.copy != nil {
		cp = func(x E) E { gate("copy", ""); return fl.copy(x) }
	}
	return testutils.MakePrecomputedCache[string, E](cr, cf, cp)
}

var ptrFlavour = cacheFlavour[*cel]{
	mk: func(c cel) *cel { return &c },
	rd: func(p *cel) cel {
		if p == nil {
			return cel{"nil", -1}
		}
		return *p
	},
	copy: func(p *cel) *cel { q := *p; return &q },
	mut:  func(p **cel) { (*p).I = -5; *p = nil },
	rand: true,
}
var valFlavour = cacheFlavour[cel]{mk: func(c cel) cel { return c }, rd: func(c cel) cel { return c }, mut: func(p *cel) { p.I = -5 }, rand: true}
var norandFlavour = cacheFlavour[cel]{mk: func(c cel) cel { return c }, rd: func(c cel) cel { return c }, mut: func(p *cel) { p.I = -5 }}

// perform does request number c (1-based); the results are read out and then destroyed
func perform[E any](pc *testutils.PrecomputedCache[string, E], fl cacheFlavour[E], c int, q cacheReq, prep []E) (out string, vals []M, fresh bool) {
	vals = []M{}
	fresh = true
	if q.Op == "pre" {
		out = zz.Outcome(func() { pc.PrepopulateCache(q.K, prep) })
		return
	}
	var got []E
	out = zz.Outcome(func() { got = pc.GetElements(q.K, q.N) })
	if out != "ok" {
		return
	}
	fresh = got != nil
	for i := range got {
		vals = append(vals, fl.rd(got[i]).rec())
	}
	for i := range got {
		fl.mut(&got[i])
	}
	if cap(got) > len(got) { // also what is behind must be ours
		var zero E
		g := got[:cap(got)]
		for i := len(got); i < len(g); i++ {
			g[i] = zero
		}
	}
	return
}

func prepared[E any](fl cacheFlavour[E], c int, q cacheReq) (prep []E, vals []M) {
	vals = []M{}
	if q.Op == "pre" {
		for i := 1; i <= q.N; i++ {
			x := cel{fmt.Sprintf("p%d", c), i}
			prep = append(prep, fl.mk(x))
			vals = append(vals, x.rec())
		}
		if q.N == 0 && c%2 == 0 {
			prep = []E{}
		}
	}
	return
}

func cacheSeq[E any](ep *zz.Ep, fl cacheFlavour[E], reqs []cacheReq) {
	ep.Set("keys", cacheKeys)
	counts := make([]int, len(cacheKeys))
	pc := newCache(fl, cacheHooks{log: func(op string, m M) { ep.Log(op, m) }}, counts)
	for i, q := range reqs {
		c := i + 1
		prep, pv := prepared(fl, c, q)
		ep.Log("call", M{"c": c, "k": q.K, "what": q.Op, "n": q.N, "vals": pv})
		out, vals, fresh := perform(&pc, fl, c, q, prep)
		for i := range prep { // the caller may reuse what it passed
			fl.mut(&prep[i])
		}
		ep.Log("ret", M{"c": c, "out": out, "vals": vals, "fresh": fresh})
	}
	ep.Log("end", M{"rest": true})
}

// cacheRace runs the requests of each process concurrently; nothing is synchronised or logged while they run
func cacheRace[E any](ep *zz.Ep, fl cacheFlavour[E], procs [][]cacheReq) {
	ep.Set("keys", cacheKeys)
	counts := make([]int, len(cacheKeys))
	pc := newCache(fl, cacheHooks{}, counts)
	type result struct {
		out   string
		vals  []M
		fresh bool
	}
	c := 0
	nums := make([][]int, len(procs))
	res := make([][]result, len(procs))
	preps := make([][][]E, len(procs))
	for p, reqs := range procs {
		res[p] = make([]result, len(reqs))
		for _, q := range reqs {
			c++
			nums[p] = append(nums[p], c)
			prep, pv := prepared(fl, c, q)
			preps[p] = append(preps[p], prep)
			ep.Log("call", M{"c": c, "k": q.K, "what": q.Op, "n": q.N, "vals": pv})
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for p := range procs {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			<-start
			for i, q := range procs[p] {
				out, vals, fresh := perform(&pc, fl, nums[p][i], q, preps[p][i])
				for j := range preps[p][i] {
					fl.mut(&preps[p][i][j])
				}
				res[p][i] = result{out, vals, fresh}
			}
		}(p)
	}
	close(start)
	wg.Wait()
	for p := range procs {
		for i, r := range res[p] {
			ep.Log("ret", M{"c": nums[p][i], "out": r.out, "vals": r.vals, "fresh": r.fresh})
		}
	}
	for i, n := range counts {
		ep.Log("count", M{"k": cacheKeys[i], "n": n})
	}
	ep.Log("end", M{"rest": true})
}

// ---- steered schedules

// A steered process stops at every gate until it is released. The steerer passes control to one process at a time as
// the schedule says; a process that is stopped by a lock is left alone until it reports back. At the end all run freely.
type steer struct {
	mu      sync.Mutex
	ep      *zz.Ep
	free    bool
	at      []chan struct{} // process p waits here
	arrived chan int
	who     map[uint64]int
	copies  []int
}

func (s *steer) log(op string, m M) {
	s.mu.Lock()
	s.ep.Log(op, m)
	s.mu.Unlock()
}

func (s *steer) stop(p int) {
	s.mu.Lock()
	free := s.free
	s.mu.Unlock()
	if free {
		return
	}
	s.arrived <- p
	<-s.at[p]
}

type schedBehaviour struct {
	Req   []cacheReq `json:"req"`
	Sched []int      `json:"sched"`
}

func cacheSched[E any](ep *zz.Ep, fl cacheFlavour[E], b schedBehaviour) {
	ep.Set("keys", cacheKeys)
	counts := make([]int, len(cacheKeys))
	n := len(b.Req)
	s := &steer{ep: ep, arrived: make(chan int, 1000), copies: make([]int, n)}
	for i := 0; i < n; i++ {
		s.at = append(s.at, make(chan struct{}, 1000))
	}
	// callbacks need to know which process calls: each process has its own view of the cache sharing all state, which is not
	// possible through the public interface, so the goroutine is identified instead
	var ids sync.Map
	me := func() int {
		if v, ok := ids.Load(goid()); ok {
			return v.(int)
		}
		return -1
	}
	pc := newCache(fl, cacheHooks{
		gate: func(kind, k string) {
			p := me()
			if p < 0 {
				return
			}
			if kind == "copy" { // one gate for all copies of a request
				s.copies[p]++
				if s.copies[p] > 1 {
					return
				}
			}
			s.stop(p)
		},
		log: s.log,
	}, counts)
	finished := make([]bool, n)
	done := make(chan int, n)
	for p := range b.Req {
		go func(p int) {
			ids.Store(goid(), p)
			q := b.Req[p]
			prep, pv := prepared(fl, p+1, q)
			s.stop(p)
			s.log("call", M{"c": p + 1, "k": q.K, "what": q.Op, "n": q.N, "vals": pv})
			out, vals, fresh := perform(&pc, fl, p+1, q, prep)
			for i := range prep {
				fl.mut(&prep[i])
			}
			s.log("ret", M{"c": p + 1, "out": out, "vals": vals, "fresh": fresh})
			done <- p
		}(p)
	}
	waiting := make([]bool, n) // at a gate
	for i := 0; i < n; i++ {
		waiting[<-s.arrived] = true
	}
	note := func(d time.Duration, p int) { // wait until p stops or finishes, at most d
		t := time.NewTimer(d)
		defer t.Stop()
		for !waiting[p] && !finished[p] {
			select {
			case x := <-s.arrived:
				waiting[x] = true
			case x := <-done:
				finished[x] = true
			case <-t.C:
				return
			}
		}
	}
	for _, p1 := range b.Sched {
		p := p1 - 1
		if finished[p] {
			continue
		}
		if !waiting[p] {
			note(2*time.Millisecond, p)
		}
		if !waiting[p] {
			continue // stopped by a lock
		}
		waiting[p] = false
		s.at[p] <- struct{}{}
		note(2*time.Millisecond, p)
	}
	s.mu.Lock()
	s.free = true
	s.mu.Unlock()
	for p := range s.at {
		for i := 0; i < 900; i++ {
			s.at[p] <- struct{}{}
		}
	}
	for {
		all := true
		for _, f := range finished {
			all = all && f
		}
		if all {
			break
		}
		select {
		case <-s.arrived:
		case x := <-done:
			finished[x] = true
		}
	}
	ep.Log("end", M{"rest": true})
}

func suiteI03sched(r *zz.Run) {
	for i, raw := range zz.ReadBehaviours(r.In) {
		var b schedBehaviour
		if err := json.Unmarshal(raw, &b); err != nil {
			panic(err)
		}
		r.Episode(fmt.Sprintf("sched-%d", i), func(ep *zz.Ep) { cacheSched(ep, ptrFlavour, b) })
	}
}

func randReqs(rng *rand.Rand, n, keys, max int, pre float64) []cacheReq {
	var out []cacheReq
	for i := 0; i < n; i++ {
		q := cacheReq{Op: "get", K: cacheKeys[rng.Intn(keys)], N: rng.Intn(max + 1)}
		if rng.Float64() < pre {
			q.Op = "pre"
		}
		if rng.Intn(6) == 0 {
			q.N = 0
		}
		out = append(out, q)
	}
	return out
}

func suiteI03(r *zz.Run) {
	// all sequences of two and three requests on one or two keys
	small := []cacheReq{{"get", "k", 0}, {"get", "k", 1}, {"get", "k", 3}, {"pre", "k", 0}, {"pre", "k", 2}, {"get", "m", 2}, {"pre", "m", 1}}
	for _, a := range small {
		for _, b := range small {
			for _, c := range small {
				reqs := []cacheReq{a, b, c, {"get", "k", 4}, {"get", "k", 2}}
				id := fmt.Sprintf("seq-%s%s%d-%s%s%d-%s%s%d", a.Op, a.K, a.N, b.Op, b.K, b.N, c.Op, c.K, c.N)
				r.Episode(id, func(ep *zz.Ep) { cacheSeq(ep, ptrFlavour, reqs) })
			}
		}
	}
	r.Repeat("seqval", r.Scale(60, 600), func(ep *zz.Ep, i int) {
		cacheSeq(ep, valFlavour, randReqs(ep.Rng, 3+ep.Rng.Intn(12), 3, 3+ep.Rng.Intn(20), 0.2))
	})
	r.Repeat("seqnorand", r.Scale(60, 600), func(ep *zz.Ep, i int) {
		cacheSeq(ep, norandFlavour, randReqs(ep.Rng, 3+ep.Rng.Intn(12), 3, 3+ep.Rng.Intn(20), 0.2))
	})
	r.Repeat("seqptr", r.Scale(60, 600), func(ep *zz.Ep, i int) {
		cacheSeq(ep, ptrFlavour, randReqs(ep.Rng, 3+ep.Rng.Intn(12), 3, 3+ep.Rng.Intn(20), 0.2))
	})
	// prepared elements only: no creation function at all
	r.Repeat("preonly", r.Scale(30, 200), func(ep *zz.Ep, i int) {
		ep.Set("keys", cacheKeys)
		pc := testutils.MakePrecomputedCache[string, cel](nil, nil, nil)
		m := ep.Rng.Intn(6)
		reqs := []cacheReq{{"pre", "k", m}}
		for j := 0; j < 5; j++ {
			reqs = append(reqs, cacheReq{"get", "k", ep.Rng.Intn(m + 1)})
		}
		for i, q := range reqs {
			prep, pv := prepared(valFlavour, i+1, q)
			ep.Log("call", M{"c": i + 1, "k": q.K, "what": q.Op, "n": q.N, "vals": pv})
			out, vals, fresh := perform(&pc, valFlavour, i+1, q, prep)
			ep.Log("ret", M{"c": i + 1, "out": out, "vals": vals, "fresh": fresh})
		}
		ep.Log("end", M{"rest": true})
	})
	procsOf := func(rng *rand.Rand) [][]cacheReq {
		n := 2 + rng.Intn(7)
		keys := 1 + rng.Intn(3)
		max := 1 + rng.Intn(12)
		var out [][]cacheReq
		for i := 0; i < n; i++ {
			out = append(out, randReqs(rng, 1+rng.Intn(6), keys, max, 0.15))
		}
		return out
	}
	r.Repeat("raceptr", r.Scale(250, 3000), func(ep *zz.Ep, i int) { cacheRace(ep, ptrFlavour, procsOf(ep.Rng)) })
	r.Repeat("raceval", r.Scale(150, 2000), func(ep *zz.Ep, i int) { cacheRace(ep, valFlavour, procsOf(ep.Rng)) })
	r.Repeat("racenorand", r.Scale(150, 2000), func(ep *zz.Ep, i int) { cacheRace(ep, norandFlavour, procsOf(ep.Rng)) })
}
