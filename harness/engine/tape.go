// Package engine is the property-based testing core of the harness: every
// random choice of a case is drawn from a recorded tape of bounded integers,
// so a case is a pure function of its tape, replays from it, and shrinks by
// simplifying it.
package engine

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
)

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// T is the state of one generated case.
type T struct {
	tape   []uint32
	pos    int
	rnd    *rng // nil: replay (choices beyond the tape are 0)
	labels []string
	keys   []uint64
	evals  int
	sample string
	Trace  []string // description of the case, for the replay file
}

func newRandom(seed uint64) *T { return &T{rnd: &rng{seed}} }
func newReplay(tape []uint32) *T {
	return &T{tape: tape}
}

// N draws an integer in [0,n). 0 is the simplest choice.
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	if t.rnd != nil {
		v := uint32(t.rnd.next() % uint64(n))
		t.tape = append(t.tape, v)
		t.pos++
		return int(v)
	}
	if t.pos < len(t.tape) {
		v := t.tape[t.pos] % uint32(n)
		t.pos++
		return int(v)
	}
	t.pos++
	return 0
}

// Range draws an integer in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

// Bool draws a fair boolean (false is simplest).
func (t *T) Bool() bool { return t.N(2) == 1 }

// Chance is true with the given percentage (false is simplest).
func (t *T) Chance(pct int) bool { return t.N(100) >= 100-pct }

// Pick draws one element.
func Pick[E any](t *T, xs []E) E { return xs[t.N(len(xs))] }

// Subset draws a subset, keeping order.
func Subset[E any](t *T, xs []E, pct int) []E {
	var out []E
	for _, x := range xs {
		if t.Chance(pct) {
			out = append(out, x)
		}
	}
	return out
}

// Shuffle permutes in place (identity is simplest).
func Shuffle[E any](t *T, xs []E) {
	for i := 0; i < len(xs)-1; i++ {
		j := i + t.N(len(xs)-i)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// Label counts the case in a class of the distribution report.
func (t *T) Label(format string, a ...interface{}) {
	t.labels = append(t.labels, fmt.Sprintf(format, a...))
}

// NonTrivial counts the given rendering as a non-trivial case (distinct by content).
func (t *T) NonTrivial(key ...string) {
	h := fnv.New64a()
	for _, k := range key {
		h.Write([]byte(k))
		h.Write([]byte{0})
	}
	t.keys = append(t.keys, h.Sum64())
}

// Evals counts additional evaluations within one case.
func (t *T) Evals(n int) { t.evals += n }

// Sample records how the case looks (kept for a few cases only).
func (t *T) Sample(s string) { t.sample = s }

// Logf adds to the description written to the replay file.
func (t *T) Logf(format string, a ...interface{}) {
	t.Trace = append(t.Trace, fmt.Sprintf(format, a...))
}

// Failure is a violation of the property.
type Failure struct {
	Kind string
	Msg  string
}

// Fail builds a Failure.
func Fail(kind, format string, a ...interface{}) *Failure {
	return &Failure{Kind: kind, Msg: fmt.Sprintf(format, a...)}
}

// Guard runs code of the system under test and turns a panic into a Failure.
func Guard(what string, f func()) (fail *Failure) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			fail = Fail("crash", "%s crashed: %v\n%s", what, r, st)
		}
	}()
	f()
	return nil
}

// shrink simplifies a failing tape.
func shrink(tape []uint32, run func([]uint32) *Failure, limit func() bool) ([]uint32, *Failure) {
	best := append([]uint32(nil), tape...)
	bestFail := run(best)
	if bestFail == nil {
		return best, nil
	}
	try := func(c []uint32) bool {
		if limit() {
			return false
		}
		if f := run(c); f != nil {
			best, bestFail = c, f
			return true
		}
		return false
	}
	for changed := true; changed && !limit(); {
		changed = false
		// delete chunks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					changed = true
				} else {
					i += size
				}
				if limit() {
					break
				}
			}
		}
		// zero chunks
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				c := append([]uint32(nil), best...)
				z := false
				for j := i; j < i+size; j++ {
					if c[j] != 0 {
						c[j] = 0
						z = true
					}
				}
				if z && try(c) {
					changed = true
				}
			}
		}
		// minimise values
		for i := 0; i < len(best); i++ {
			lo := uint32(0)
			for best[i] > lo {
				mid := lo + (best[i]-lo)/2
				c := append([]uint32(nil), best...)
				c[i] = mid
				if try(c) {
					changed = true
				} else {
					lo = mid + 1
				}
				if limit() || i >= len(best) {
					break
				}
			}
		}
	}
	return best, bestFail
}
