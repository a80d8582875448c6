// Package vt is the thin layer every property of /verif is written against: it drives pgregory.net/rapid with a fixed
// number of cases, counts what was generated, and guards each case against runaway CPU, memory and deadlocks.
package vt

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// C is one generated case.
type C struct {
	*rapid.T
	st   *stats
	key  string
	nt   bool
	cls  []string
	all  *choices // of All
	stem *string  // of Word
}

// choices are those of one case of All; the next case is the next one in lexical order.
type choices struct {
	made, last []int
	labels     []string
	pos        int
}

func (a *choices) choose(lo, hi int, label string) int {
	if a.pos == len(a.made) {
		a.made, a.last, a.labels = append(a.made, lo), append(a.last, hi), append(a.labels, label)
	} else if a.last[a.pos] != hi || a.labels[a.pos] != label {
		panic(fmt.Sprintf("VT-INFRA the choices of a case depend on more than the choices before: %s in %d, %s in %d", a.labels[a.pos], a.last[a.pos], label, hi))
	}
	a.pos++
	return a.made[a.pos-1]
}

// next is false after the last case
func (a *choices) next() bool {
	n := a.pos
	a.pos = 0
	for n > 0 && a.made[n-1] == a.last[n-1] {
		n--
	}
	a.made, a.last, a.labels = a.made[:n], a.last[:n], a.labels[:n]
	if n > 0 {
		a.made[n-1]++
	}
	return n > 0
}

func (a *choices) String() string {
	var sb strings.Builder
	for i := range a.pos {
		fmt.Fprintf(&sb, "%s=%d ", a.labels[i], a.made[i])
	}
	return sb.String()
}

// Fatalf fails the case.
func (c *C) Fatalf(format string, args ...any) {
	if c.all != nil {
		panic(failed(fmt.Sprintf(format, args...)))
	}
	c.T.Helper()
	c.T.Fatalf(format, args...)
}

// Exhaustive is true for a case of All.
func (c *C) Exhaustive() bool { return c.all != nil }

type failed string

// All runs a property for every combination of what its c.Range and c.Bool can draw, smallest first, and at most limit
// combinations; prop must not draw in another way.
func All(t *testing.T, limit int, rule string, prop func(c *C)) {
	t.Helper()
	st := &stats{Test: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]bool{}, limit: 1 << 60}
	currentTest.Store(t.Name())
	startWatchdog()
	t.Cleanup(func() { st.Failed = t.Failed(); st.write() })
	a := &choices{}
	for more := true; more; {
		c := &C{st: st, all: a}
		caseNo.Add(1)
		caseActive.Store(true)
		func() {
			defer caseActive.Store(false)
			defer func() {
				if p := recover(); p != nil {
					if msg, isa := p.(failed); isa {
						t.Fatalf("case %s: %s", a, string(msg))
					}
					buf := make([]byte, 1<<14)
					t.Fatalf("case %s: panic: %v\n%s", a, p, buf[:runtime.Stack(buf, false)])
				}
			}()
			prop(c)
		}()
		st.record(c)
		if st.Evaluations > limit {
			t.Fatalf("VT-INFRA more than %d cases", limit)
		}
		more = a.next()
	}
}

type stats struct {
	Test        string          `json:"test"`
	Rule        string          `json:"rule"`
	Evaluations int             `json:"evaluations"`
	NonTrivial  int             `json:"nontrivial"`
	Distinct    int             `json:"distinct_nontrivial"`
	Classes     map[string]int  `json:"classes,omitempty"`
	Samples     []string        `json:"samples,omitempty"`
	Known       []string        `json:"known,omitempty"`
	Failed      bool            `json:"failed"`
	seen        map[uint64]bool `json:"-"`
	limit       int             `json:"-"`
}

// NonTrivial marks the case as non-trivial by the rule of the check; the formatted text identifies the case.
func (c *C) NonTrivial(format string, args ...any) {
	c.nt = true
	c.key = fmt.Sprintf(format, args...)
}

// Trivial undoes NonTrivial.
func (c *C) Trivial() { c.nt = false }

// Class counts the case under a label, to read the distribution of what is generated.
func (c *C) Class(format string, args ...any) {
	c.cls = append(c.cls, fmt.Sprintf(format, args...))
}

// Mult is the number by which the quick case counts are multiplied.
func Mult() float64 {
	if s := os.Getenv("VT_MULT"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil && f > 0 {
			return f
		}
	}
	return 1
}

var (
	caseNo      atomic.Int64
	caseActive  atomic.Bool
	watchdogOn  atomic.Bool
	currentTest atomic.Value
)

// Check runs n generated cases (times the multiplier of the tier) of a property.
func Check(t *testing.T, n int, rule string, prop func(c *C)) {
	t.Helper()
	st := &stats{Test: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]bool{}}
	st.limit = int(float64(n) * Mult())
	if st.limit < 1 {
		st.limit = 1
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(st.limit)); err != nil {
		t.Fatal(err)
	}
	currentTest.Store(t.Name())
	startWatchdog()
	t.Cleanup(func() { st.Failed = t.Failed(); st.write() })
	var shrinking time.Time
	rapid.Check(t, func(rt *rapid.T) {
		// rapid finishes a step of shrinking, which may be hundreds of cases, after its time is up
		if inShrinker() {
			if shrinking.IsZero() {
				shrinking = time.Now()
			} else if time.Since(shrinking) > shrinkLimit {
				return
			}
		}
		c := &C{T: rt, st: st}
		caseNo.Add(1)
		caseActive.Store(true)
		defer caseActive.Store(false)
		prop(c)
		// Only reached if the case passed; shrinking and replays come after the first failure and are not counted,
		// as rapid stops generating then
		if st.Evaluations < st.limit {
			st.record(c)
		}
	})
}

const shrinkLimit = 25 * time.Second

// inShrinker is true if the case is one that rapid tries in order to shrink another
func inShrinker() bool {
	var pcs [12]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := fs.Next()
		if strings.Contains(f.Function, "(*shrinker)") {
			return true
		}
		if !more {
			return false
		}
	}
}

func (st *stats) record(c *C) {
	st.Evaluations++
	for _, s := range c.cls {
		st.Classes[s]++
	}
	if !c.nt {
		return
	}
	st.NonTrivial++
	h := fnv.New64a()
	h.Write([]byte(c.key))
	if k := h.Sum64(); !st.seen[k] {
		st.seen[k] = true
		st.Distinct++
		// samples are taken at the 1st, 8th, 64th... distinct non-trivial case
		if n := st.Distinct; len(st.Samples) < 6 && (n == 1 || n == 8 || n == 64 || n == 512 || n == 4096 || n == 32768) {
			s := c.key
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			st.Samples = append(st.Samples, strings.ToValidUTF8(s, "?"))
		}
	}
}

func (st *stats) write() {
	dir := os.Getenv("VT_OUT")
	if dir == "" {
		return
	}
	b, err := json.Marshal(st)
	if err == nil {
		hs := make([]byte, 0, 8*len(st.seen))
		for h := range st.seen {
			hs = binary.LittleEndian.AppendUint64(hs, h)
		}
		err = os.WriteFile(filepath.Join(dir, strings.ReplaceAll(st.Test, "/", "_")+".hashes"), hs, 0o644)
	}
	if err == nil {
		name := strings.ReplaceAll(st.Test, "/", "_")
		err = os.WriteFile(filepath.Join(dir, name+".stats.json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "VT-INFRA: cannot write stats:", err)
		os.Exit(98)
	}
}

// Table runs an exhaustive enumeration: the property is called once per case, the counts are written like for Check.
func Table(t *testing.T, rule string, run func(each func(key string, f func(fail func(format string, args ...any))))) {
	t.Helper()
	st := &stats{Test: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]bool{}, limit: 1 << 60}
	currentTest.Store(t.Name())
	startWatchdog()
	t.Cleanup(func() { st.Failed = t.Failed(); st.write() })
	run(func(key string, f func(fail func(format string, args ...any))) {
		caseNo.Add(1)
		caseActive.Store(true)
		defer caseActive.Store(false)
		func() {
			defer func() {
				if p := recover(); p != nil {
					if p == stopTable {
						t.FailNow()
					}
					buf := make([]byte, 1<<14)
					t.Fatalf("case %s: panic: %v\n%s", key, p, buf[:runtime.Stack(buf, false)])
				}
			}()
			f(func(format string, args ...any) {
				t.Errorf("case %s: %s", key, fmt.Sprintf(format, args...))
				panic(stopTable)
			})
		}()
		st.record(&C{st: st, nt: true, key: key})
	})
}

type stopTableT struct{}

var stopTable any = stopTableT{}

// Panics runs f and returns whether it panicked, and with what.
func Panics(f func()) (val any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
		}
	}()
	f()
	panicked = false
	return
}

// ---- watchdog

const (
	cpuLimit  = 120 * time.Second // CPU time of one case: cases take micro- to milliseconds
	heapLimit = 3 << 30           // live heap of one case: cases use a few KB
	idleLimit = 60 * time.Second  // wall time during which the process used no CPU at all inside one case
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func startWatchdog() {
	if !watchdogOn.CompareAndSwap(false, true) {
		return
	}
	go func() {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		var last int64 = -1
		var cpu0, cpuIdle time.Duration
		var idleSince time.Time
		for {
			time.Sleep(50 * time.Millisecond)
			n, cpu := caseNo.Load(), cpuTime()
			if !caseActive.Load() || n != last {
				last, cpu0, cpuIdle, idleSince = n, cpu, cpu, time.Now()
				continue
			}
			if cpu-cpu0 > cpuLimit {
				abort("does not terminate: more than %v of CPU time in one case", cpuLimit)
			}
			metrics.Read(sample)
			if sample[0].Value.Kind() == metrics.KindUint64 && sample[0].Value.Uint64() > heapLimit {
				abort("unbounded memory: more than %d bytes of heap in one case", heapLimit)
			}
			// the watchdog itself uses well under 1% of a CPU
			if cpu-cpuIdle > 2*time.Second {
				cpuIdle, idleSince = cpu, time.Now()
			} else if time.Since(idleSince) > idleLimit && blocked() {
				abort("deadlock: every goroutine of the case is blocked")
			}
		}
	}()
}

// blocked is true if every goroutine but this one is parked on a channel, lock or the like.
func blocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		ok := false
		for _, s := range []string{"chan receive", "chan send", "select", "sync.", "semacquire"} {
			if strings.Contains(head, "["+s) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func abort(format string, args ...any) {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	fmt.Printf("VT-ABORT %s: %s (case number %d)\n%s\n", currentTest.Load(), fmt.Sprintf(format, args...), caseNo.Load(), buf)
	os.Exit(97)
}

// SortedKeys returns the keys of a map in order, so that nothing depends on map iteration order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// DrawStem draws what the strings of a case have in common: often nothing, at times up to 5000 characters, around the
// lengths at which an implementation may cut off, hash or compare only a part.
func DrawStem(t *rapid.T, label string) string {
	n := rapid.SampledFrom([]int{0, 0, 1, 3, 7, 8, 9, 14, 15, 16, 17, 23, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 5000}).Draw(t, label+".length")
	unit := rapid.SampledFrom([]string{"a", "ab", "Customer", "xyzzy", "é", "日", "0"}).Draw(t, label+".unit")
	s := strings.Repeat(unit, n/len(unit)+1)
	for n > 0 && n < len(s) && s[n]&0xc0 == 0x80 {
		n--
	}
	return s[:n]
}

// DrawSimilar draws a string that differs from others of the same stem only at its start, its end, its length or in the
// middle.
func DrawSimilar(t *rapid.T, stem, label string) string {
	tail := rapid.SampledFrom([]string{"", "a", "b", "c", "A", "é", "0", "10", "9", "ab", "aa", "ba", "z1", "z2"})
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0:
		return tail.Draw(t, label+".head") + stem
	case 1:
		return tail.Draw(t, label+".head") + stem + tail.Draw(t, label+".tail")
	case 2:
		return stem + tail.Draw(t, label+".middle") + stem
	}
	return stem + tail.Draw(t, label+".tail")
}

// Word draws one of the usual words or, in some cases, one that has much in common with the others of the case.
func (c *C) Word(label string, usual ...string) string {
	if c.stem == nil {
		s := ""
		if c.all == nil && c.Range(0, 3, label+".similar") == 0 {
			s = DrawStem(c.T, label+".stem")
		}
		c.stem = &s
	}
	if *c.stem != "" && c.Range(0, 3, label+".like") > 0 {
		return DrawSimilar(c.T, *c.stem, label)
	}
	return usual[c.Range(0, len(usual)-1, label)]
}

// Lookalikes are errors that are not the given end, although they wrap it, say they are it, or have its text.
func Lookalikes(end error) []error {
	return []error{fmt.Errorf("lost: %w", end), alike{end}, errors.New(end.Error()), errors.Join(end, errors.New("lost"))}
}

type alike struct{ end error }

func (a alike) Error() string   { return a.end.Error() }
func (a alike) Is(error) bool   { return true }
func (a alike) Unwrap() error   { return a.end }
func (a alike) Timeout() bool   { return true }
func (a alike) Temporary() bool { return true }
