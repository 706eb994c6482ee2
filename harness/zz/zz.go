//go:build go1.22

// Package zz is the shared part of the conformance harnesses: it runs "episodes" (short histories of calls on the
// real code), records every call with its observable effects and writes one JSON line per episode.
package zz

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

type M = map[string]any

// Run is one invocation of a suite.
type Run struct {
	Seed    int64
	N       int
	Tier    string
	Only    string
	Shard   int
	Shards  int
	In      string
	Timeout time.Duration
	w       *bufio.Writer
	cur     *os.File
	count   int
	idx     int
	started atomic.Int64
	curID   atomic.Value
	Suite   string

	gathering bool
	gathered  []gathered
}

type gathered struct {
	id string
	f  func(ep *Ep)
}

// Ep is one episode.
type Ep struct {
	ID  string
	Rng *rand.Rand
	rec M
	ev  []any
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Scale returns q in the quick tier and t in the thorough tier
func (r *Run) Scale(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

func Main(suites map[string]func(*Run)) {
	r := &Run{}
	var suite, out string
	var tmo int
	flag.StringVar(&suite, "suite", "", "")
	flag.Int64Var(&r.Seed, "seed", 1, "")
	flag.IntVar(&r.N, "n", 0, "")
	flag.StringVar(&r.Tier, "tier", "quick", "")
	flag.StringVar(&r.Only, "only", "", "only this episode")
	flag.IntVar(&r.Shard, "shard", 0, "")
	flag.IntVar(&r.Shards, "shards", 1, "")
	flag.StringVar(&r.In, "in", "", "input file (behaviours generated from the specification)")
	flag.StringVar(&out, "out", "", "")
	flag.IntVar(&tmo, "timeout", 20, "seconds per episode")
	flag.Parse()
	r.Timeout = time.Duration(tmo) * time.Second
	r.Suite = suite
	f, ok := suites[suite]
	if !ok {
		var names []string
		for k := range suites {
			names = append(names, k)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "unknown suite; have", names)
		os.Exit(3)
	}
	fo, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r.w = bufio.NewWriterSize(fo, 1<<20)
	r.cur, err = os.Create(out + ".cur")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r.started.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if time.Since(time.Unix(0, r.started.Load())) > r.Timeout {
				fmt.Fprintln(os.Stderr, "ZZHANG episode", r.curID.Load())
				os.Exit(97)
			}
		}
	}()
	f(r)
	r.w.Flush()
	fo.Close()
	r.cur.Truncate(0)
	r.cur.WriteAt([]byte("DONE"), 0)
	r.cur.Close()
}

func (r *Run) seedFor(id string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s", r.Seed, r.Suite, id)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// Episode runs f as the episode named id (if it belongs to this shard / selection) and writes its trace.
func (r *Run) Episode(id string, f func(ep *Ep)) {
	if r.gathering {
		r.gathered = append(r.gathered, gathered{id, f})
		return
	}
	r.idx++
	if r.Only != "" {
		if r.Only != id {
			return
		}
	} else if r.Shards > 1 && r.idx%r.Shards != r.Shard {
		return
	}
	r.curID.Store(id)
	r.started.Store(time.Now().UnixNano())
	b := []byte(fmt.Sprintf("%-120s", id))
	r.cur.WriteAt(b, 0)
	ep := r.execute(id, f)
	r.started.Store(time.Now().UnixNano())
	r.write(ep)
}

func (r *Run) execute(id string, f func(ep *Ep)) (ep *Ep) {
	ep = &Ep{ID: id, Rng: rand.New(rand.NewSource(r.seedFor(id))), rec: M{"id": id}, ev: []any{}}
	defer func() {
		if x := recover(); x != nil {
			ep.ev = append(ep.ev, M{"op": "UNEXPECTED_PANIC", "msg": clip(fmt.Sprint(x))})
		}
	}()
	f(ep)
	return ep
}

func (r *Run) write(ep *Ep) {
	ep.rec["ev"] = ep.ev
	enc, err := json.Marshal(ep.rec)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot marshal", ep.ID, err)
		os.Exit(3)
	}
	r.w.Write(enc)
	r.w.WriteByte('\n')
	r.count++
	if r.count%256 == 0 {
		r.w.Flush()
	}
}

// Together takes the episodes of other suites, draws n of them and runs them in groups of the given width, those of one
// group at the same time. What is recorded are the same episodes as if each had run alone.
func (r *Run) Together(n, width int, suites ...func(*Run)) {
	var all []gathered
	rng := rand.New(rand.NewSource(r.seedFor("together")))
	for k, f := range suites {
		r.gathering, r.gathered = true, nil
		f(r)
		r.gathering = false
		g := r.gathered
		rng.Shuffle(len(g), func(i, j int) { g[i], g[j] = g[j], g[i] })
		if m := n / len(suites); len(g) > m {
			g = g[:m]
		}
		for _, x := range g {
			all = append(all, gathered{fmt.Sprintf("%d-%s", k, x.id), x.f})
		}
	}
	r.gathered = nil
	rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for len(all) > 0 {
		g := all[:min(width, len(all))]
		all = all[len(g):]
		r.group("together-"+g[0].id, g)
	}
}

func (r *Run) group(id string, g []gathered) {
	r.idx++
	want := r.Only == "" || r.Only == id
	for _, x := range g {
		want = want || r.Only == x.id
	}
	if !want || r.Only == "" && r.Shards > 1 && r.idx%r.Shards != r.Shard {
		return
	}
	r.curID.Store(id)
	r.started.Store(time.Now().UnixNano())
	r.cur.WriteAt([]byte(fmt.Sprintf("%-120s", id)), 0)
	eps := make([]*Ep, len(g))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i, x := range g {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			eps[i] = r.execute(x.id, x.f)
		}()
	}
	close(start)
	wg.Wait()
	r.started.Store(time.Now().UnixNano())
	for _, ep := range eps {
		if r.Only == "" || r.Only == id || r.Only == ep.ID {
			r.write(ep)
		}
	}
}

// Repeat runs n random episodes called name-<i>
func (r *Run) Repeat(name string, n int, f func(ep *Ep, i int)) {
	for i := 0; i < n; i++ {
		i := i
		r.Episode(fmt.Sprintf("%s-%d", name, i), func(ep *Ep) { f(ep, i) })
	}
}

func clip(s string) string {
	out := []rune{}
	for _, c := range s {
		if c < 32 || c > 126 {
			c = '.'
		}
		out = append(out, c)
		if len(out) > 300 {
			break
		}
	}
	return string(out)
}

// Clip makes an arbitrary string safe for the trace
func Clip(s string) string { return clip(s) }

// Set sets a field of the episode record (initial state, constants)
func (ep *Ep) Set(k string, v any) { ep.rec[k] = v }

// Log appends an event
func (ep *Ep) Log(op string, m M) {
	if m == nil {
		m = M{}
	}
	m["op"] = op
	ep.ev = append(ep.ev, m)
}

func (ep *Ep) Len() int { return len(ep.ev) }

// Try runs f, reporting a panic
func Try(f func()) (panicked bool, val any) {
	defer func() {
		if x := recover(); x != nil {
			panicked = true
			val = x
		}
	}()
	f()
	return
}

// Outcome runs f and gives "ok" or "panic"
func Outcome(f func()) string {
	if p, _ := Try(f); p {
		return "panic"
	}
	return "ok"
}

// Hex of an integer (negative numbers have a leading minus)
func Hex(x *big.Int) string {
	return x.Text(16)
}

func FromHex(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("zz: bad hex " + s)
	}
	return r
}

func HexU64(x uint64) string { return new(big.Int).SetUint64(x).Text(16) }
func HexI64(x int64) string  { return big.NewInt(x).Text(16) }

// Codes turns a byte string into a list of ints
func Codes(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// ReadBehaviours reads a file with one JSON value per line
func ReadBehaviours(path string) []json.RawMessage {
	f, err := os.Open(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	var out []json.RawMessage
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		out = append(out, json.RawMessage(append([]byte(nil), sc.Bytes()...)))
	}
	return out
}

// Pick picks one of xs
func Pick[T any](rng *rand.Rand, xs []T) T { return xs[rng.Intn(len(xs))] }

// RandBig is uniform in [0,n)
func RandBig(rng *rand.Rand, n *big.Int) *big.Int { return new(big.Int).Rand(rng, n) }

// RandLimbs is an edge-biased integer of the given number of 64-bit limbs
func RandLimbs(rng *rand.Rand, limbs int) *big.Int {
	r := new(big.Int)
	mode := rng.Intn(3)
	for i := 0; i < limbs; i++ {
		var w uint64
		k := rng.Intn(10)
		if mode == 0 {
			k = 9
		} else if mode == 1 {
			k = rng.Intn(5)
		}
		switch k {
		case 0:
			w = 0
		case 1:
			w = ^uint64(0)
		case 2:
			w = 1
		case 3:
			w = ^uint64(0) - 1
		case 4:
			w = 1 << 63
		case 5:
			w = uint64(1) << uint(rng.Intn(64))
		case 6:
			w = (uint64(1) << uint(rng.Intn(64))) - 1
		case 7:
			w = uint64(rng.Intn(16))
		default:
			w = rng.Uint64()
		}
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(w))
	}
	return r
}
