package harness

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"pgregory.net/rapid"
)

// hugeSize is enough for a few pairs of equal hashes of 32 bits: 250000²/2^33 is about 7
const hugeSize = 250000

// hugeValues returns n distinct values
func hugeValues(t *rapid.T, n int) []string {
	rnd := rand.New(rand.NewSource(int64(num(t, "values", 0, 1<<30))))
	format := pick(t, "format", "%x", "user-%08x", "/path/%x/data", "%x@example.com")
	seen, res := map[uint32]bool{}, make([]string, 0, n)
	for len(res) < n {
		if x := rnd.Uint32(); !seen[x] {
			seen[x] = true
			res = append(res, fmt.Sprintf(format, x))
		}
	}
	return res
}

// huge returns an enforcer which holds a rule about each value, in one of the columns
func huge(t *rapid.T, c *Case, matcher string) (e *fastac.Enforcer, values []string, rule func(i int) []string) {
	e, err := mkEnf(mdl("sub, obj", "sub, obj", "", effSome, matcher))
	must(t, err)
	values = hugeValues(t, hugeSize)
	second := chance(t, "second column", 50)
	rule = func(i int) []string {
		if second {
			return []string{"p", "sub", values[i]}
		}
		return []string{"p", values[i], "obj"}
	}
	c.logf("%d values like %q, second column: %v, matcher %s", len(values), values[0], second, matcher)
	for i := range values {
		if ok, err := e.AddRule(rule(i)); !ok || err != nil {
			t.Fatalf("AddRule(%q) = %v, %v, it is absent\n%s", rule(i), ok, err, c.desc.String())
		}
	}
	c.nt(true)
	return e, values, rule
}

func TestC04_Huge(t *testing.T) {
	checkAtMost(t, 1, 6, "250000 distinct rules: all are added, listed once and removed; non-trivial: all", func(t *rapid.T, c *Case) {
		e, values, rule := huge(t, c, "r.sub == 'x'")
		count := func(want int) {
			n := 0
			e.GetModel().RangeRules(func([]string) bool { n++; return true })
			if n != want {
				t.Fatalf("RangeRules yields %d rules, want %d\n%s", n, want, c.desc.String())
			}
		}
		count(len(values))
		for i := range values {
			if i%2 == 0 {
				if ok, err := e.RemoveRule(rule(i)); !ok || err != nil {
					t.Fatalf("RemoveRule(%q) = %v, %v, it is present\n%s", rule(i), ok, err, c.desc.String())
				}
			}
		}
		count(len(values) / 2)
		for i := range values {
			if ok, err := e.RemoveRule(rule(i)); ok != (i%2 == 1) || err != nil {
				t.Fatalf("RemoveRule(%q) = %v, %v, it is present: %v\n%s", rule(i), ok, err, i%2 == 1, c.desc.String())
			}
		}
		count(0)
	})
}

func TestC02_Huge(t *testing.T) {
	checkAtMost(t, 1, 4, "250000 distinct rules, a request that is about all of them (perhaps by two alternatives): Filter returns each once; non-trivial: all", func(t *rapid.T, c *Case) {
		e, values, rule := huge(t, c, pick(t, "matcher", "r.sub == 'all'", "r.sub == 'all' || r.obj == 'any' && p.obj != ''", "p.sub >= '' && r.obj == 'any' && p.obj >= '' && r.sub == 'all'", "(p.sub != '' || p.obj != '') && r.sub == 'all'"))
		got, err := e.Filter("all", "any")
		must(t, err)
		seen := map[string]bool{}
		for _, r := range got {
			seen[keyOf(r)] = true
		}
		if len(got) != len(values) {
			t.Fatalf("Filter returns %d rules, %d match\n%s", len(got), len(values), c.desc.String())
		}
		for i := range values {
			if !seen[keyOf(rule(i))] {
				t.Fatalf("Filter does not return %q\n%s", rule(i), c.desc.String())
			}
		}
	})
}

// halves are the values below the median, and the others
func halves(values []string) (median string) {
	sorted := append([]string{}, values...)
	sort.Strings(sorted)
	return sorted[len(sorted)/2]
}

func TestC01_Huge(t *testing.T) {
	checkAtMost(t, 1, 4, "250000 rules, those with a value below a limit allow and all others deny, or the other way round; a request about the values below the limit is permitted, one about the others is denied; non-trivial: all", func(t *rapid.T, c *Case) {
		effect := pick(t, "effect", effND, effSND, effSome)
		e, err := mkEnf(mdl("limit, obj, below", "sub, obj, eft", "", effect, "(r.below && p.sub < r.limit || !r.below && p.sub >= r.limit) && p.obj == r.obj"))
		must(t, err)
		values := hugeValues(t, hugeSize)
		limit, below := halves(values), chance(t, "below allows", 50)
		for _, v := range values {
			f := "deny"
			if (v < limit) == below {
				f = "allow"
			}
			addAll(t, e, []string{"p", v, "obj", f})
		}
		c.logf("limit %q, below allows: %v", limit, below)
		for _, b := range []bool{true, false} {
			if got, err := e.Enforce(limit, "obj", b); err != nil || got != (b == below) {
				t.Fatalf("Enforce(%q, obj, %v) = %v, %v\n%s", limit, b, got, err, c.desc.String())
			}
		}
		c.nt(true)
	})
}

func TestC03_Huge(t *testing.T) {
	checkAtMost(t, 1, 4, "250000 distinct rules, one half is removed: the rules with a value below or above the median are those that remain; non-trivial: all", func(t *rapid.T, c *Case) {
		e, values, rule := huge(t, c, "(r.sub == 'below' && p.sub < r.obj || r.sub == 'above' && p.sub >= r.obj) && p.obj != ''")
		gone := map[string]bool{}
		for i := range values {
			if i%2 == 0 {
				_, err := e.RemoveRule(rule(i))
				must(t, err)
				gone[keyOf(rule(i))] = true
			}
		}
		limit := halves(values)
		for _, side := range []string{"below", "above"} {
			want := 0
			for i := range values {
				if r := rule(i); i%2 == 1 && (r[1] < limit) == (side == "below") {
					want++
				}
			}
			got, err := e.Filter(side, limit)
			must(t, err)
			for _, r := range got {
				if gone[keyOf(r)] || (r[1] < limit) != (side == "below") {
					t.Fatalf("Filter(%s %s) returns %q, removed: %v\n%s", side, limit, r, gone[keyOf(r)], c.desc.String())
				}
			}
			if len(got) != want {
				t.Fatalf("Filter(%s %s) returns %d rules, %d are left\n%s", side, limit, len(got), want, c.desc.String())
			}
		}
	})
}

func TestC27_Huge(t *testing.T) {
	checkAtMost(t, 1, 4, "250000 distinct rules: GetDistinct lists each combination; non-trivial: all", func(t *rapid.T, c *Case) {
		e, values, _ := huge(t, c, "r.sub == 'x'")
		p, _ := e.GetModel().GetPolicy("p")
		for _, columns := range [][]int{{0, 1}, {1, 0}, {0}, {1}} {
			got, err := policy.GetDistinct(p, columns)
			must(t, err)
			seen := map[string]bool{}
			for _, r := range got {
				seen[keyOf(r)] = true
			}
			if want := len(values); len(seen) != len(got) || len(got) != want && (len(columns) == 2 || len(got) != 1) {
				t.Fatalf("GetDistinct(%v) returns %d lists, %d distinct ones, want %d\n%s", columns, len(got), len(seen), want, c.desc.String())
			}
		}
	})
}

func TestC08_Huge(t *testing.T) {
	checkAtMost(t, 1, 2, "250000 distinct links in a domain: each is added, in force in its domain, and deleted; non-trivial: all", func(t *rapid.T, c *Case) {
		rm := rbac.NewDomainManager(10)
		if chance(t, "domain matcher", 50) {
			rm.SetDomainMatcher(patterns[0].sut())
		}
		values := hugeValues(t, hugeSize)
		link := func(i int) (string, string, string) { return values[i], fmt.Sprint("role", i%5000), "dom" }
		if chance(t, "roles", 50) {
			link = func(i int) (string, string, string) { return fmt.Sprint("user", i%5000), values[i], "dom" }
		}
		for i := range values {
			a, b, d := link(i)
			if ok, err := rm.AddLink(a, b, d); !ok || err != nil {
				t.Fatalf("AddLink(%q, %q, %q) = %v, %v\n%s", a, b, d, ok, err, c.desc.String())
			}
		}
		for i := range values {
			a, b, d := link(i)
			if i%2 == 0 {
				if ok, err := rm.DeleteLink(a, b, d); !ok || err != nil {
					t.Fatalf("DeleteLink(%q, %q, %q) = %v, %v\n%s", a, b, d, ok, err, c.desc.String())
				}
			}
		}
		for i := range values {
			a, b, d := link(i)
			if ok, err := rm.HasLink(a, b, d); ok != (i%2 == 1) || err != nil {
				t.Fatalf("HasLink(%q, %q, %q) = %v, %v\n%s", a, b, d, ok, err, c.desc.String())
			}
		}
		c.nt(true)
	})
}
