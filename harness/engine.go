package main

// A small property-based testing engine. A case is a pure function of a
// sequence of choices; generation draws them from a seeded PRNG, replaying and
// shrinking feed an edited sequence back in.

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

const maxChoices = 60000

// ---------------------------------------------------------------- PRNG

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	return h.Sum64()
}

// ---------------------------------------------------------------- choices

// T is the handle of one generated case.
type T struct {
	r        *rng
	replay   []uint64
	isReplay bool
	pos      int
	rec      []uint64
	journal  *os.File

	quiet      bool // do not build logs (fast path)
	log        []string
	labels     map[string]bool
	nontrivial bool
	sig        uint64 // hash over the rendered case
	evals      int    // library evaluations inside the case
	size       int
}

type failure struct {
	Key string // root-cause-ish identification, stable under shrinking
	Msg string
}

type discard struct{ why string }

// N draws a number in [0,n).
func (t *T) N(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness: N(%d)", n))
	}
	var v uint64
	if t.isReplay {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos] % uint64(n)
		}
	} else {
		v = t.r.next() % uint64(n)
	}
	t.pos++
	if t.pos > maxChoices {
		panic(discard{"too many choices"})
	}
	t.rec = append(t.rec, v)
	if t.journal != nil {
		fmt.Fprintf(t.journal, "%d\n", v)
	}
	return int(v)
}

// Range draws from lo..hi inclusive, lo is simplest.
func (t *T) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

func (t *T) Bool() bool { return t.N(2) == 1 }

// P is true with probability num/den; false is simplest.
func (t *T) P(num, den int) bool { return t.N(den) >= den-num }

// W draws an index with the given weights.
func (t *T) W(ws ...int) int {
	tot := 0
	for _, w := range ws {
		tot += w
	}
	v := t.N(tot)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Perm draws a permutation of 0..n-1 (identity is simplest).
func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------------------------------------------------------------- reporting

func (t *T) Label(f string, a ...interface{}) {
	if t.labels == nil {
		t.labels = map[string]bool{}
	}
	if len(a) == 0 {
		t.labels[f] = true
	} else {
		t.labels[fmt.Sprintf(f, a...)] = true
	}
}

// Logf records one line of the readable rendering of the case.
func (t *T) Logf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	t.log = append(t.log, s)
	for i := 0; i < len(s); i++ {
		t.sig = (t.sig ^ uint64(s[i])) * 1099511628211
	}
}

// NonTrivial marks the case non-trivial (by the rule of its family).
func (t *T) NonTrivial() { t.nontrivial = true }

// Fail reports a violation. key identifies what failed.
func (t *T) Fail(key, f string, a ...interface{}) {
	panic(failure{key, fmt.Sprintf(f, a...)})
}

func (t *T) Discard(why string) { panic(discard{why}) }

// ---------------------------------------------------------------- library calls

// caught describes a panic raised by the library.
type caught struct {
	val     interface{}
	runtime bool // a Go runtime error (nil dereference, bad index, failed type assertion, ...)
	msg     string
	where   string
}

func (c *caught) String() string {
	if c == nil {
		return "no panic"
	}
	k := "panic"
	if c.runtime {
		k = "runtime error"
	}
	return fmt.Sprintf("%s %q at %s", k, trunc(c.msg, 300), c.where)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Try calls f and returns the panic it raised, if any. Panics of the harness
// itself (failure, discard) pass through.
func (t *T) Try(f func()) (c *caught) {
	t.evals++
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard:
				panic(r)
			}
			c = &caught{val: r, where: libFrame()}
			if _, ok := r.(runtime.Error); ok {
				c.runtime = true
			}
			c.msg = safeSprint(r)
		}
	}()
	f()
	return nil
}

// safeSprint renders a panic value; rendering library errors calls back into
// the library and may itself panic.
func safeSprint(r interface{}) (s string) {
	defer func() {
		if q := recover(); q != nil {
			s = fmt.Sprintf("%T (unprintable)", r)
		}
	}()
	if e, ok := r.(error); ok {
		return e.Error()
	}
	return fmt.Sprint(r)
}

// libFrame names the innermost library frame of the current panic.
func libFrame() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if i := strings.Index(f.Function, "SymbolicMath.go/"); i >= 0 {
			return f.Function[i+len("SymbolicMath.go/"):]
		}
		if !more {
			return "?"
		}
	}
}

// ---------------------------------------------------------------- families

// Family is one executable sub-check of a property.
type Family struct {
	Name string
	// Quick and Thorough are the numbers of cases per tier.
	Quick, Thorough int
	Rule            string
	Run             func(t *T)
}

type Property struct {
	ID       string
	Rule     string
	Assume   []string
	Families []Family
}

var properties = map[string]*Property{}

func register(p *Property) {
	if properties[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	properties[p.ID] = p
}

func propIDs() []string {
	var ids []string
	for id := range properties {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

type outcome struct {
	fail    *failure
	discard string
	t       *T
}

// runCase runs one case to completion.
func runCase(f *Family, t *T) (o outcome) {
	o.t = t
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				o.fail = &v
			case discard:
				o.discard = v.why
			default:
				// An unexpected panic: if it comes out of the library it is an unguarded
				// library crash; otherwise it is a harness bug.
				where := libFrame()
				if where != "?" {
					key := "panic:" + where
					o.fail = &failure{key, fmt.Sprintf("unexpected panic %q in %s", trunc(safeSprint(r), 300), where)}
				} else {
					fmt.Fprintf(os.Stderr, "HARNESS-BUG %v\n%s\n", r, debug.Stack())
					os.Exit(3)
				}
			}
		}
	}()
	f.Run(t)
	return
}

func newCase(seed uint64, prop string, fam string, i int) *T {
	return &T{r: &rng{hashStr(seed, prop, fam, i)}}
}

func replayCase(choices []uint64) *T {
	return &T{isReplay: true, replay: choices}
}

// shrink minimises a failing choice sequence, keeping the same failure key.
func shrink(f *Family, choices []uint64, key string, budget int) ([]uint64, *failure, *T) {
	best := append([]uint64(nil), choices...)
	o := runCase(f, replayCase(best))
	if o.fail == nil {
		return best, nil, o.t // not reproducible
	}
	bestFail, bestT := o.fail, o.t
	try := func(c []uint64) bool {
		if budget <= 0 {
			return false
		}
		budget--
		o := runCase(f, replayCase(c))
		if o.fail != nil && o.fail.Key == key {
			// keep only what was consumed
			r := o.t.rec
			if len(r) > len(c) {
				r = r[:len(c)]
			}
			best = append([]uint64(nil), r...)
			bestFail, bestT = o.fail, o.t
			return true
		}
		return false
	}
	improved := true
	for improved && budget > 0 {
		improved = false
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				n := len(best)
				if try(c) && len(best) < n {
					improved = true
				} else {
					i += size
				}
				if budget <= 0 {
					break
				}
			}
		}
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i++ {
				c := append([]uint64(nil), best...)
				nz := false
				for j := i; j < i+size; j++ {
					if c[j] != 0 {
						nz = true
					}
					c[j] = 0
				}
				if nz && try(c) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for best[i] > 0 && budget > 0 {
				c := append([]uint64(nil), best...)
				c[i] = c[i] / 2
				if try(c) {
					improved = true
					continue
				}
				if i >= len(best) {
					break
				}
				c = append([]uint64(nil), best...)
				c[i]--
				if !try(c) {
					break
				}
				improved = true
				if i >= len(best) {
					break
				}
			}
		}
		// drop trailing zeros
		for len(best) > 0 && best[len(best)-1] == 0 {
			best = best[:len(best)-1]
		}
	}
	o = runCase(f, replayCase(best))
	if o.fail != nil {
		bestFail, bestT = o.fail, o.t
	}
	return best, bestFail, bestT
}
