// Package pbt is a small property-based testing engine. A case is generated
// from a sequence of recorded choices (drawn from a seeded PRNG), so any case
// can be replayed from its choices and shrunk by editing them. Checks receive
// whole batches of cases, because one "go list" run can serve many cases.
package pbt

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Src is the source of all choices of one case.
type Src struct {
	rng    *rand.Rand
	replay []uint64
	rec    []uint64
	labels map[string]bool
	max    int
}

// NewSrc makes a source for a fresh random case.
func NewSrc(seed uint64, stream string) *Src {
	h := fnv.New64a()
	h.Write([]byte(stream))
	return &Src{rng: rand.New(rand.NewPCG(seed, h.Sum64())), max: 20000}
}

// Replay makes a source that replays recorded choices (0 when they run out).
func Replay(choices []uint64) *Src { return &Src{replay: choices, max: 20000} }

// Uint draws a number in [0,n).
func (s *Src) Uint(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	i := len(s.rec)
	if i > 50*s.max {
		panic("runaway generator")
	}
	switch {
	case s.rng != nil:
		if i < s.max {
			v = s.rng.Uint64N(n)
		}
	case i < len(s.replay):
		v = s.replay[i]
		if v >= n {
			v = n - 1
		}
	}
	s.rec = append(s.rec, v)
	return v
}

func (s *Src) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.Uint(uint64(n)))
}

// Range draws in [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.Intn(hi-lo+1) }

// Bool is false for the simplest choice.
func (s *Src) Bool() bool { return s.Uint(2) == 1 }

// Chance is true with probability pct/100; false is simplest.
func (s *Src) Chance(pct int) bool { return int(s.Uint(100)) >= 100-pct }

// Small draws a size in [0,max], biased to small numbers.
func (s *Src) Small(max int) int {
	n := 0
	for n < max && s.Uint(100) >= 40 {
		n++
	}
	return n
}

// U64 draws any 64-bit value (biased to interesting ones).
func (s *Src) U64() uint64 {
	switch s.Intn(4) {
	case 0:
		return s.Uint(16)
	case 1:
		return s.Uint(1 << 16)
	case 2:
		sh := s.Uint(64)
		return (uint64(1) << sh) + s.Uint(3) - 1
	}
	return s.Uint(1<<63)<<1 | s.Uint(2)
}

// Label records a class of this case.
func (s *Src) Label(l string) {
	if s.labels == nil {
		s.labels = map[string]bool{}
	}
	s.labels[l] = true
}

func (s *Src) Choices() []uint64 { return s.rec }

// Pick picks one element; the first is simplest.
func Pick[T any](s *Src, xs ...T) T { return xs[s.Intn(len(xs))] }

// PickW picks an index by weights.
func (s *Src) PickW(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	v := s.Intn(t)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Perm draws a permutation of n (identity is simplest).
func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.Intn(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Shuffle returns a permuted copy.
func Shuffle[T any](s *Src, xs []T) []T {
	out := make([]T, len(xs))
	for i, j := range s.Perm(len(xs)) {
		out[i] = xs[j]
	}
	return out
}

// Subset returns a random subset, in order.
func Subset[T any](s *Src, xs []T, pct int) []T {
	var out []T
	for _, x := range xs {
		if s.Chance(pct) {
			out = append(out, x)
		}
	}
	return out
}

// Outcome is the verdict on one case.
type Outcome struct {
	Fail       string // "" = the property held
	Class      string // coarse signature of the failure; shrinking keeps it
	NonTrivial bool
	Labels     []string
	Excluded   string // the case is outside the domain (or in a known finding); not judged
	HarnessErr string // the harness could not judge: an error of the check
}

// OK is the outcome of a case that held.
func OK(nontrivial bool, labels ...string) Outcome {
	return Outcome{NonTrivial: nontrivial, Labels: labels}
}

// Failf is a violation of a class.
func Failf(class, format string, a ...any) Outcome {
	return Outcome{Class: class, Fail: class + ": " + fmt.Sprintf(format, a...), NonTrivial: true}
}

// Family is one generator + oracle.
type Family struct {
	Name     string
	Gen      func(s *Src) any
	Check    func(cases []any) []Outcome // one outcome per case
	Show     func(c any) string
	Batch    int
	Parallel int // batches in flight
	Quick    int
	Thorough int
	// ShrinkBatch bounds the candidates judged in one shrinking batch.
	ShrinkBatch int
}

// Each lifts a single-case check to a batch check, mapping panics to failures.
func Each[T any](f func(c T) Outcome) func([]any) []Outcome {
	return func(cs []any) []Outcome {
		out := make([]Outcome, len(cs))
		for i, c := range cs {
			out[i] = Guard(func() Outcome { return f(c.(T)) })
		}
		return out
	}
}

// Guard runs f, turning a panic into a failure outcome.
func Guard(f func() Outcome) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if he, ok := r.(HarnessPanic); ok {
				o = Outcome{HarnessErr: string(he)}
				return
			}
			if te, ok := r.(ToolPanic); ok {
				o = Failf("refused", "%s", string(te))
				return
			}
			o = Failf("panic", "%v\n%s", r, trimStack(st))
		}
	}()
	return f()
}

// HarnessPanic aborts a case with a harness error.
type HarnessPanic string

// ToolPanic fails a case, or all cases of a batch: the code under test refuses what is valid by construction.
type ToolPanic string

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "controller-tools") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Failure is a shrunk failure.
type Failure struct {
	Family  string
	Class   string
	Msg     string
	Choices []uint64
	Shown   string
}

// Stats of a family run.
type Stats struct {
	Name        string         `json:"family"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Excluded    map[string]int `json:"excluded,omitempty"`
	Labels      map[string]int `json:"labels,omitempty"`
	Samples     []string       `json:"samples"`
	WallS       float64        `json:"wall_s"`
}

// Runner runs families.
type Runner struct {
	Seed      uint64
	Deadline  time.Time // stop generating new batches after this (run is then smaller, not failed)
	InFlight  func(fam string, choices [][]uint64)
	ShrinkFor time.Duration
}

type job struct {
	idx     int
	cases   []any
	srcs    []*Src
	results []Outcome
}

type summary struct {
	n                int
	labels, excluded map[string]int
	hashes           []uint64
	samples          []string
}

// summary reduces a judged batch to its counts.
func (j *job) summary(f *Family) *summary {
	sm := &summary{labels: map[string]int{}, excluded: map[string]int{}}
	for i, o := range j.results {
		sm.n++
		if o.Excluded != "" {
			sm.excluded[o.Excluded]++
			continue
		}
		for _, l := range o.Labels {
			sm.labels[l]++
		}
		for l := range j.srcs[i].labels {
			sm.labels[l]++
		}
		if o.NonTrivial {
			h := uint64(14695981039346656037)
			for _, v := range j.srcs[i].rec {
				h = (h ^ v) * 1099511628211
				h ^= h >> 29
			}
			sm.hashes = append(sm.hashes, h)
			if j.idx < 3 && len(sm.samples) < 3 {
				sm.samples = append(sm.samples, clip(f.Show(j.cases[i]), 1500))
			}
		}
	}
	return sm
}

// Run explores one family with n cases.
func (r *Runner) Run(f *Family, n int) (Stats, *Failure, error) {
	start := time.Now()
	st := Stats{Name: f.Name, Excluded: map[string]int{}, Labels: map[string]int{}}
	batch := max(f.Batch, 1)
	par := max(f.Parallel, 1)
	seen := map[uint64]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, par)
	var bad []*job
	var fatal error
	nb := (n + batch - 1) / batch
	results := make([]*summary, nb)
	for b := 0; b < nb; b++ {
		mu.Lock()
		stop := len(bad) > 0 || fatal != nil
		mu.Unlock()
		if stop || (!r.Deadline.IsZero() && time.Now().After(r.Deadline)) {
			break
		}
		sem <- struct{}{}
		wg.Add(1)
		go func(b int) {
			defer func() { <-sem; wg.Done() }()
			j := &job{idx: b}
			var ch [][]uint64
			for i := b * batch; i < min((b+1)*batch, n); i++ {
				s := NewSrc(r.Seed, fmt.Sprintf("%s/%d", f.Name, i))
				c := f.Gen(s)
				j.cases = append(j.cases, c)
				j.srcs = append(j.srcs, s)
				ch = append(ch, s.rec)
			}
			if r.InFlight != nil {
				r.InFlight(f.Name, ch)
			}
			j.results = safeCheck(f, j.cases)
			mu.Lock()
			defer mu.Unlock()
			results[b] = j.summary(f)
			for _, o := range j.results {
				if o.HarnessErr != "" && fatal == nil {
					fatal = fmt.Errorf("harness error in %s: %s", f.Name, o.HarnessErr)
				}
				if o.Fail != "" {
					bad = append(bad, j)
					break
				}
			}
		}(b)
	}
	wg.Wait()
	for _, sm := range results {
		if sm == nil {
			continue
		}
		st.Evaluations += sm.n
		st.NonTrivial += len(sm.hashes)
		for l, n := range sm.labels {
			st.Labels[l] += n
		}
		for l, n := range sm.excluded {
			st.Excluded[l] += n
		}
		for _, h := range sm.hashes {
			if !seen[h] {
				seen[h] = true
				st.Distinct++
			}
		}
		for _, x := range sm.samples {
			if len(st.Samples) < 3 {
				st.Samples = append(st.Samples, x)
			}
		}
	}
	st.WallS = time.Since(start).Seconds()
	if len(bad) > 0 {
		sort.Slice(bad, func(i, k int) bool { return bad[i].idx < bad[k].idx })
		j := bad[0]
		// the shortest failing case of the first failing batch
		best := -1
		for i, o := range j.results {
			if o.Fail != "" && (best < 0 || len(j.srcs[i].rec) < len(j.srcs[best].rec)) {
				best = i
			}
		}
		fl := r.shrink(f, j.srcs[best].rec, j.cases[best], j.results[best])
		return st, fl, nil
	}
	return st, nil, fatal
}

func safeCheck(f *Family, cases []any) (out []Outcome) {
	defer func() {
		if rec := recover(); rec != nil {
			out = make([]Outcome, len(cases))
			te, tool := rec.(ToolPanic)
			for i := range out {
				if tool {
					out[i] = Failf("refused", "%s", string(te))
					continue
				}
				out[i] = Outcome{HarnessErr: fmt.Sprintf("batch check panicked: %v\n%s", rec, debug.Stack())}
			}
		}
	}()
	out = f.Check(cases)
	if len(out) != len(cases) {
		panic("outcome count mismatch")
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " …"
	}
	return s
}

// ReplayCase re-judges recorded choices.
func ReplayCase(f *Family, choices []uint64) (any, Outcome) {
	c := f.Gen(Replay(choices))
	return c, safeCheck(f, []any{c})[0]
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func (r *Runner) shrink(f *Family, rec []uint64, c any, o Outcome) *Failure {
	budget := r.ShrinkFor
	if budget == 0 {
		budget = 40 * time.Second
		if d, err := time.ParseDuration(os.Getenv("VERIF_SHRINK")); err == nil {
			budget = d
		}
	}
	end := time.Now().Add(budget)
	best := append([]uint64(nil), rec...)
	bestCase, bestOut := c, o
	// confirm alone
	if c2, o2 := ReplayCase(f, best); o2.Fail != "" {
		bestCase, bestOut = c2, o2
	} else {
		return &Failure{Family: f.Name, Class: o.Class, Msg: o.Fail + "\n(note: failed in its batch but not when re-run alone)", Choices: best, Shown: f.Show(c)}
	}
	sb := f.ShrinkBatch
	if sb == 0 {
		sb = 48
	}
	try := func(cands [][]uint64) bool {
		type cand struct {
			rec []uint64
			c   any
		}
		for len(cands) > 0 {
			if time.Now().After(end) {
				return false
			}
			n := min(sb, len(cands))
			var cs []cand
			var raw []any
			seen := map[string]bool{}
			for _, ch := range cands[:n] {
				s := Replay(ch)
				var cc any
				func() {
					defer func() { recover() }()
					cc = f.Gen(s)
				}()
				if cc == nil || !less(s.rec, best) {
					continue
				}
				k := fmt.Sprint(s.rec)
				if seen[k] {
					continue
				}
				seen[k] = true
				cs = append(cs, cand{s.rec, cc})
				raw = append(raw, cc)
			}
			cands = cands[n:]
			if len(raw) == 0 {
				continue
			}
			outs := safeCheck(f, raw)
			bi := -1
			for i, oo := range outs {
				if oo.Fail != "" && oo.Class == bestOut.Class && (bi < 0 || less(cs[i].rec, cs[bi].rec)) {
					bi = i
				}
			}
			if bi >= 0 {
				best, bestCase, bestOut = cs[bi].rec, cs[bi].c, outs[bi]
				return true
			}
		}
		return false
	}
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		for _, size := range []int{64, 32, 16, 8, 4, 3, 2, 1} {
			for {
				var cands [][]uint64
				for i := len(best) - size; i >= 0; i -= max(1, size/2) {
					cands = append(cands, append(append([]uint64(nil), best[:i]...), best[i+size:]...))
				}
				if !try(cands) {
					break
				}
				progress = true
			}
		}
		for {
			var cands [][]uint64
			for i := range best {
				if best[i] != 0 {
					d := append([]uint64(nil), best...)
					d[i] = 0
					cands = append(cands, d)
					if i > 0 { // zero this one and shorten: length-style choices
						e := append([]uint64(nil), best...)
						e[i] = best[i] / 2
						cands = append(cands, e)
					}
				}
			}
			if !try(cands) {
				break
			}
			progress = true
		}
		for {
			var cands [][]uint64
			for i := range best {
				if best[i] > 1 {
					d := append([]uint64(nil), best...)
					d[i]--
					cands = append(cands, d)
				}
			}
			if !try(cands) {
				break
			}
			progress = true
		}
	}
	// the batch may matter: confirm the minimised one alone
	if c2, o2 := ReplayCase(f, best); o2.Fail != "" {
		bestCase, bestOut = c2, o2
	}
	return &Failure{Family: f.Name, Class: bestOut.Class, Msg: bestOut.Fail, Choices: best, Shown: f.Show(bestCase)}
}

// Debug prints to stderr when VERIF_DEBUG is set.
func Debug(format string, a ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

// Limit runs f, which must end on its own: when it does not end within a
// minute (or eats gigabytes), the worker stops and the case is reported as not
// terminating. Only for operations that normally take microseconds.
func Limit(desc func() string, f func()) {
	startWatch.Do(func() { go watch() })
	e := &watched{desc: desc, start: time.Now()}
	watchMu.Lock()
	watching[e] = true
	watchMu.Unlock()
	defer func() {
		watchMu.Lock()
		delete(watching, e)
		watchMu.Unlock()
	}()
	f()
}

type watched struct {
	desc  func() string
	start time.Time
}

var (
	startWatch sync.Once
	watchMu    sync.Mutex
	watching   = map[*watched]bool{}
)

func watch() {
	for {
		time.Sleep(500 * time.Millisecond)
		var old *watched
		watchMu.Lock()
		for e := range watching {
			if old == nil || e.start.Before(old.start) {
				old = e
			}
		}
		watchMu.Unlock()
		if old == nil {
			continue
		}
		age := time.Since(old.start)
		var ms runtime.MemStats
		if age > 5*time.Second {
			runtime.ReadMemStats(&ms)
		}
		if age > 60*time.Second || ms.HeapAlloc > 6<<30 {
			os.WriteFile(os.Getenv("VERIF_SCRATCH")+"/hang", []byte(old.desc()), 0o644)
			os.Exit(4)
		}
	}
}
