package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// The checks are rapid properties. Every generated case describes itself in a
// Case; the descriptions are counted, deduplicated and sampled into the
// evidence file.

var thorough = os.Getenv("VERIF_TIER") == "thorough"

type statistics struct {
	mu      sync.Mutex
	evals   int
	seen    map[uint64]struct{}
	classes map[string]int
	tests   map[string]int
	samples []string
	rules   map[string]string
	nsample int
}

var stats = &statistics{seen: map[uint64]struct{}{}, classes: map[string]int{}, tests: map[string]int{}, rules: map[string]string{}}

// Case is one generated case
type Case struct {
	name       string
	desc       strings.Builder
	nontrivial bool
	labels     map[string]bool
}

func (c *Case) logf(format string, args ...interface{}) {
	if c.desc.Len() < 20000 {
		fmt.Fprintf(&c.desc, format, args...)
		c.desc.WriteByte('\n')
	}
}

// nt marks the case as non-trivial, if cond holds
func (c *Case) nt(cond bool) {
	c.nontrivial = c.nontrivial || cond
}

func (c *Case) label(l string) {
	c.labels[l] = true
}

func (c *Case) labelIf(cond bool, l string) {
	if cond {
		c.labels[l] = true
	}
}

func (c *Case) done() {
	stats.mu.Lock()
	defer stats.mu.Unlock()
	stats.evals++
	stats.tests[c.name]++
	for l := range c.labels {
		stats.classes[l]++
	}
	if !c.nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(c.name))
	h.Write([]byte(c.desc.String()))
	k := h.Sum64()
	if _, ok := stats.seen[k]; ok {
		return
	}
	stats.seen[k] = struct{}{}
	stats.nsample++
	// keep some early and some later samples
	if n := stats.nsample; len(stats.samples) < 12 && (n == 1 || n == 10 || n == 50 || n%300 == 0) {
		s := c.desc.String()
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		stats.samples = append(stats.samples, c.name+": "+s)
	}
}

var factor = func() float64 {
	f := 1.0
	if thorough {
		f = 25
	}
	if s := os.Getenv("VERIF_FACTOR"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			f *= v
		}
	}
	return f
}()

// check runs prop on n generated cases (more in the thorough tier)
// rule says what makes a case non-trivial
func check(t *testing.T, n int, rule string, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	stats.mu.Lock()
	stats.rules[t.Name()] = rule
	stats.mu.Unlock()
	if fuzzing {
		fuzzOnce(t, func(rt *rapid.T) {
			c := &Case{name: t.Name(), labels: map[string]bool{}}
			defer watch(t.Name()).Stop()
			prop(rt, c)
		})
		return
	}
	n = int(float64(n) * factor)
	if n < 1 {
		n = 1
	}
	must(t, flag.Set("rapid.checks", strconv.Itoa(n)))
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{name: t.Name(), labels: map[string]bool{}}
		w := watch(t.Name())
		defer w.Stop()
		prop(rt, c)
		c.done()
	})
}

// checkAtMost is check for expensive cases, whose number is limited
func checkAtMost(t *testing.T, n, most int, rule string, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	if f := factor; float64(n)*f > float64(most) {
		factor = float64(most) / float64(n)
		defer func() { factor = f }()
	}
	check(t, n, rule, prop)
}

// caseLimit is far more than any case takes (milliseconds)
const caseLimit = 150 * time.Second

// watch ends the process if a case does not terminate, run.py judges the stacks
func watch(name string) *time.Timer {
	return time.AfterFunc(caseLimit, func() {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		fmt.Printf("HANG: a case of %s does not terminate\n\n%s\n", name, buf[:n])
		os.Exit(5)
	})
}

// limit is like watch for cases which allocate without bound instead of terminating
func limit(c *Case, d time.Duration) *time.Timer {
	return time.AfterFunc(d, func() {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		fmt.Printf("HANG: a case of %s does not terminate\n\n%s\n\n%s\n", c.name, buf[:n], c.desc.String())
		os.Exit(5)
	})
}

type evidence struct {
	Evaluations int               `json:"evaluations"`
	Distinct    int               `json:"distinct_nontrivial"`
	Rules       map[string]string `json:"rules"`
	Samples     []string          `json:"samples"`
	Classes     map[string]int    `json:"classes"`
	Tests       map[string]int    `json:"cases_per_test"`
}

func TestMain(m *testing.M) {
	debug.SetMaxStack(64 << 20)
	flag.Parse()
	code := m.Run()
	if out := os.Getenv("VERIF_STATS"); out != "" {
		stats.mu.Lock()
		e := evidence{stats.evals, len(stats.seen), stats.rules, stats.samples, stats.classes, stats.tests}
		stats.mu.Unlock()
		b, _ := json.MarshalIndent(e, "", " ")
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fmt.Println("cannot write statistics:", err)
			code = 3
		}
	}
	os.Exit(code)
}

// ---- small generators

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

func num(t *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// chance is true in about percent% of the cases, it shrinks to false
func chance(t *rapid.T, label string, percent int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-percent
}

// ---- rule helpers

func join(r []string) string { return strings.Join(r, "|") }

func keyOf(r []string) string { return fmt.Sprintf("%q", r) }

func keys(rules [][]string) []string {
	res := make([]string, len(rules))
	for i, r := range rules {
		res[i] = keyOf(r)
	}
	sort.Strings(res)
	return res
}

func sameRules(a, b [][]string) bool {
	x, y := keys(a), keys(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func clone(r []string) []string { return append([]string{}, r...) }

// catch calls fn and returns the value it panicked with
func catch(fn func()) (p interface{}) {
	defer func() { p = recover() }()
	fn()
	return nil
}
