package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"pgregory.net/rapid"
)

// Values which are equal when they are joined by some string J. Code that identifies a list of values by its joined
// text confuses them. A case draws one history, which is executed for every J.

var allJoiners = append([]string{"", "->", "=>", "<", "@", "#", ".", "..", "=", "==", "&", "&&", "+", "~", "!", "?", "%", "^", "\\", "||", "//", "--", "__", "##", "@@", "'", "\"", "`", "\" \"", "\",\"", "', '", "][", "] [", ")(", "](", "·", "\n", "\r", "\v", "\x01", "\x02", "\x03", "\x1c", "\x1d", "\x1e", "\x1f", "\x7f", "\x00\x00", "\xff", "\xfe", "\u00a0", "\u2028", "\ufffd", "<nil>", " | ", " - ", ": ", "; ", ",,", "0", "1,", "\t\t"}, joiners...)

// cuts draws lists of n values, which are equal when joined by any J; the result builds them for J
func cuts(t *rapid.T, n int) func(j string) [][]string {
	parts := []string{}
	for i := num(t, "parts", n, n+2); i > 0; i-- {
		parts = append(parts, pick(t, "part", "a", "b", "", "a"))
	}
	return func(j string) [][]string {
		res := [][]string{}
		var cut func(values []string, from int)
		cut = func(values []string, from int) {
			if len(values) == n-1 {
				res = append(res, append(clone(values), strings.Join(parts[from:], j)))
				return
			}
			for to := from + 1; to <= len(parts)-(n-1-len(values)); to++ {
				cut(append(clone(values), strings.Join(parts[from:to], j)), to)
			}
		}
		cut(nil, 0)
		set := [][]string{} // they may be equal, if J is empty
		for _, r := range append(res, append(clone(parts[:n-1]), "b")) {
			set = append(without(set, r), r)
		}
		return set
	}
}

type jstep struct {
	add bool
	i   int
}

func genJoinedSteps(t *rapid.T, max int) []jstep {
	steps := []jstep{}
	for i := num(t, "steps", 1, max); i > 0; i-- {
		steps = append(steps, jstep{!chance(t, "remove", 30), num(t, "i", 0, 20)})
	}
	return steps
}

func keyed(key string, lists [][]string) [][]string {
	res := [][]string{}
	for _, l := range lists {
		res = append(res, append([]string{key}, l...))
	}
	return res
}

// joinedHistory adds and removes rules by steps and calls verify after each of them
func joinedHistory(t *rapid.T, what string, e *fastac.Enforcer, pool [][]string, steps []jstep, verify func(what string, rules [][]string)) [][]string {
	rules := [][]string{}
	for _, s := range steps {
		r := pool[s.i%len(pool)]
		has := contains(rules, r)
		var changed bool
		var err error
		if s.add {
			changed, err = e.AddRule(clone(r))
		} else {
			changed, err = e.RemoveRule(clone(r))
		}
		what += fmt.Sprintf("\nadd %v %q", s.add, r)
		if err != nil || changed != (has != s.add) {
			t.Fatalf("%s: %v, %v", what, changed, err)
		}
		rules = without(rules, r)
		if s.add {
			rules = append(rules, r)
		}
		verify(what, rules)
	}
	return rules
}

func TestC04_Joined(t *testing.T) {
	check(t, 60, "histories of rules that are equal when joined, for every joiner; results, RangeRules and Range against a set; non-trivial: several of them are present", func(t *rapid.T, c *Case) {
		p, g := cuts(t, 3), cuts(t, pick(t, "grouping columns", 2, 3))
		steps := genJoinedSteps(t, 12)
		for _, j := range allJoiners {
			gs := g(j)
			e, err := mkEnf(mdl("a", "a, b, c", "g = _"+strings.Repeat(", _", len(gs[0])-1), effSome, "r.a == p.a"))
			must(t, err)
			pool := append(keyed("p", p(j)), keyed("g", gs)...)
			joinedHistory(t, fmt.Sprintf("joiner %q", j), e, pool, steps, func(what string, rules [][]string) {
				c.nt(len(rules) > 2)
				if got := allRules(e.GetModel()); !sameRules(got, rules) {
					t.Fatalf("%s\nRangeRules yields %q, want %q", what, got, rules)
				}
			})
		}
	})
}

func TestC27_Joined(t *testing.T) {
	check(t, 60, "rules that are equal when joined, for every joiner; GetDistinct of random columns; non-trivial: several combinations", func(t *rapid.T, c *Case) {
		lists := cuts(t, 3)
		steps := genJoinedSteps(t, 10)
		cols := [][]int{{0, 1, 2}, {2, 1, 0}}
		for i := 0; i < 2; i++ {
			cols = append(cols, rapid.SliceOfN(rapid.IntRange(0, 2), 1, 4).Draw(t, "columns"))
		}
		for _, j := range allJoiners {
			e, err := mkEnf(mdl("a", "a, b, c", "g = _, _, _", effSome, "r.a == p.a"))
			must(t, err)
			for _, key := range []string{"p", "g"} {
				rules := joinedHistory(t, fmt.Sprintf("joiner %q", j), e, keyed(key, lists(j)), steps, func(string, [][]string) {})
				pol, _ := e.GetModel().GetPolicy(key)
				for _, cs := range cols {
					want := [][]string{}
					for _, r := range rules {
						v := []string{}
						for _, k := range cs {
							v = append(v, r[k+1])
						}
						want = append(without(want, v), v)
					}
					c.nt(len(want) > 2)
					if got, err := policy.GetDistinct(pol, cs); err != nil || !sameRules(got, want) {
						t.Fatalf("joiner %q: GetDistinct(%v) = %q, %v, want %q", j, cs, got, err, want)
					}
				}
			}
		}
	})
}

// matchers over p = a, b, c with a condition for the request q and the rule r (without key)
var joinedMatchers = []struct {
	text string
	ok   func(q, r []string) bool
}{
	{"r.a == p.a && r.b == p.b && r.c == p.c", func(q, r []string) bool { return q[0] == r[0] && q[1] == r[1] && q[2] == r[2] }},
	{"((r.a == p.a) == (r.b == p.b)) && r.c == p.c", func(q, r []string) bool { return (q[0] == r[0]) == (q[1] == r[1]) && q[2] == r[2] }},
	{"same(r.b, p.b, r.c, p.c) && r.a == p.a", func(q, r []string) bool { return q[1] == r[1] && q[2] == r[2] && q[0] == r[0] }},
	{"same(r.a, p.a, r.b, p.b) && same(r.b, p.b, r.c, p.c)", func(q, r []string) bool { return q[0] == r[0] && q[1] == r[1] && q[2] == r[2] }},
	{"r.a == p.a && r.b == p.b || r.c == p.c", func(q, r []string) bool { return q[0] == r[0] && q[1] == r[1] || q[2] == r[2] }},
	{"same(r.a, p.a, r.b, p.b) && p.c != r.c || r.c == p.c", func(q, r []string) bool { return q[0] == r[0] && q[1] == r[1] || q[2] == r[2] }},
	{"(r.a == p.a || r.b == p.b) && (r.c == p.c || r.a != p.a)", func(q, r []string) bool { return (q[0] == r[0] || q[1] == r[1]) && (q[2] == r[2] || q[0] != r[0]) }},
	{"same(r.a, p.a, r.c, p.c) && same(r.a, p.a, r.b, p.b)", func(q, r []string) bool { return q[0] == r[0] && q[1] == r[1] && q[2] == r[2] }},
}

// joined checks decisions (and matching rules) for rules and requests that are equal when joined
func joined(t *rapid.T, c *Case, history, filter bool) {
	lists := cuts(t, 3)
	steps := genJoinedSteps(t, 10)
	m := joinedMatchers[num(t, "matcher", 0, len(joinedMatchers)-1)]
	c.logf("m = %s", m.text)
	for _, j := range allJoiners {
		pool := lists(j)
		e, err := mkEnf(mdl("a, b, c", "a, b, c", "", effSome, "true"))
		must(t, err)
		e.GetModel().SetFunction("same", func(args ...interface{}) (interface{}, error) {
			return args[0] == args[1] && args[2] == args[3], nil
		})
		must(t, e.GetModel().SetDef('m', "m", m.text))
		must(t, e.GetModel().(*model.Model).BuildMatchers())
		verify := func(what string, rules [][]string) {
			for _, q := range pool {
				want := [][]string{}
				for _, r := range rules {
					if m.ok(q, r[1:]) {
						want = append(want, r)
					}
				}
				c.nt(len(want) > 0 && len(want) < len(rules))
				req := []interface{}{q[0], q[1], q[2]}
				if got, err := e.Enforce(req...); len(rules) > 0 && (err != nil || got != (len(want) > 0)) {
					t.Fatalf("%s\nEnforce(%q) = %v, %v with %s", what, q, got, err, m.text)
				}
				if !filter {
					continue
				}
				if got, err := e.Filter(req...); err != nil || !sameRules(got, want) {
					t.Fatalf("%s\nFilter(%q) = %q, %v, want %q with %s", what, q, got, err, want, m.text)
				}
			}
		}
		every := verify
		if !history {
			every = func(string, [][]string) {}
		}
		rules := joinedHistory(t, fmt.Sprintf("joiner %q", j), e, keyed("p", pool), steps, every)
		verify(fmt.Sprintf("joiner %q, rules %q", j, rules), rules)
	}
}

func TestC01_Joined(t *testing.T) {
	check(t, 60, "rules and requests that are equal when joined, for every joiner, eight matchers with clauses that look at several columns; decisions against a Go predicate; non-trivial: some rule matches and some does not", func(t *rapid.T, c *Case) {
		joined(t, c, false, false)
	})
}

func TestC02_Joined(t *testing.T) {
	check(t, 60, "as TestC01_Joined, matching rules; non-trivial: some rule matches and some does not", func(t *rapid.T, c *Case) {
		joined(t, c, false, true)
	})
}

func TestC03_Joined(t *testing.T) {
	check(t, 30, "as TestC02_Joined, after every change; non-trivial: some rule matches and some does not", func(t *rapid.T, c *Case) {
		joined(t, c, true, true)
	})
}

func TestC06_Joined(t *testing.T) {
	check(t, 40, "links in lists of domains that are equal when joined, for every joiner; HasLink, GetRoles, GetDomains and Range; non-trivial: several domains", func(t *rapid.T, c *Case) {
		lists := [3]func(string) [][]string{}
		for i := range lists {
			lists[i] = cuts(t, i+1)
		}
		steps := genJoinedSteps(t, 10)
		for _, j := range allJoiners {
			doms := [][]string{}
			for _, l := range lists {
				doms = append(doms, l(j)...)
			}
			dm := rbac.NewDomainManager(10)
			present := [][]string{}
			for k, s := range steps {
				d := doms[(s.i*7+k)%len(doms)]
				if s.add {
					_, err := dm.AddLink("u", "v", clone(d)...)
					must(t, err)
					present = append(without(present, d), d)
				} else {
					_, err := dm.DeleteLink("u", "v", clone(d)...)
					must(t, err)
					present = without(present, d)
				}
			}
			c.nt(len(present) > 1)
			for _, d := range doms {
				want := contains(present, d)
				if got, err := dm.HasLink("u", "v", clone(d)...); err != nil || got != want {
					t.Fatalf("joiner %q: HasLink(%q) = %v, %v, links in %q", j, d, got, err, present)
				}
				if got, err := dm.GetRoles("u", clone(d)...); err != nil || (len(got) == 1) != want || len(got) > 1 {
					t.Fatalf("joiner %q: GetRoles(%q) = %q, %v, links in %q", j, d, got, err, present)
				}
			}
			want := []string{}
			for _, d := range present {
				want = append(want, strings.Join(d, "/"))
			}
			sort.Strings(want)
			for name, f := range map[string]func() ([]string, error){"GetAllDomains": dm.GetAllDomains, "GetDomains": func() ([]string, error) { return dm.GetDomains("u") }} {
				got, err := f()
				sort.Strings(got)
				if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					t.Fatalf("joiner %q: %s = %q, %v, want %q", j, name, got, err, want)
				}
			}
			seen := [][]string{}
			dm.Range(func(a, b string, d ...string) bool { seen = append(seen, clone(d)); return true })
			if !sameRules(seen, present) {
				t.Fatalf("joiner %q: Range yields %q, want %q", j, seen, present)
			}
		}
	})
}

func TestC07_Joined(t *testing.T) {
	check(t, 12, "links between names and patterns that are confused when joined, for every joiner; HasLink of all pairs; non-trivial: a link of a pattern covers another name", func(t *rapid.T, c *Case) {
		steps := genJoinedSteps(t, 6)
		second := make([]int, len(steps))
		for i := range second {
			second[i] = num(t, "role", 0, 20)
		}
		early := chance(t, "early", 50)
		for _, j := range allJoiners {
			p := joinedNames(j)
			g := pgraph{links: edges{}, p: p}
			rm := rbac.NewRoleManager(10)
			if early {
				rm.SetMatcher(p.sut())
			}
			for i, s := range steps {
				k := [2]string{p.names[s.i%len(p.names)], p.names[second[i]%len(p.names)]}
				if s.add {
					_, err := rm.AddLink(k[0], k[1])
					must(t, err)
					g.links[k] = true
				} else {
					_, err := rm.DeleteLink(k[0], k[1])
					must(t, err)
					delete(g.links, k)
				}
				c.nt(p.is(k[0]) || p.is(k[1]))
			}
			if !early {
				rm.SetMatcher(p.sut())
			}
			for _, a := range p.names {
				for _, b := range p.names {
					low, high := g.has(a, b, false), g.has(a, b, true)
					if got, err := rm.HasLink(a, b); err != nil || got && !high || !got && low {
						t.Fatalf("joiner %q: HasLink(%q, %q) = %v, %v, want %v, links %q", j, a, b, got, err, low, g.links)
					}
				}
			}
		}
	})
}

func TestC08_Joined(t *testing.T) {
	check(t, 30, "links in domains and patterns that are confused when joined, for every joiner; HasLink in all domains; non-trivial: a link in a pattern", func(t *rapid.T, c *Case) {
		steps := genJoinedSteps(t, 8)
		link := make([]int, len(steps))
		for i := range link {
			link[i] = num(t, "link", 0, 20)
		}
		early := chance(t, "early", 50)
		links := cuts(t, 2)
		for _, j := range allJoiners {
			p, ls := joinedNames(j), links(j)
			g := &dgraph{dp: p}
			dm := rbac.NewDomainManager(10)
			if early {
				dm.SetDomainMatcher(p.sut())
			}
			for i, s := range steps {
				x := ls[link[i]%len(ls)]
				l := dlink{x[0], x[1], []string{p.names[s.i%len(p.names)]}}
				k := g.find(l)
				if s.add {
					if got, err := dm.AddLink(l.a, l.b, clone(l.dom)...); err != nil || got == (k >= 0) {
						t.Fatalf("joiner %q: AddLink(%s) = %v, %v", j, l, got, err)
					}
					if k < 0 {
						g.links = append(g.links, l)
					}
				} else {
					if got, err := dm.DeleteLink(l.a, l.b, clone(l.dom)...); err != nil || got != (k >= 0) {
						t.Fatalf("joiner %q: DeleteLink(%s) = %v, %v", j, l, got, err)
					}
					if k >= 0 {
						g.links = append(append([]dlink{}, g.links[:k]...), g.links[k+1:]...)
					}
				}
				c.nt(p.is(l.dom[0]))
			}
			if !early {
				dm.SetDomainMatcher(p.sut())
			}
			for _, d := range p.names {
				if p.is(d) {
					continue
				}
				in := g.in([]string{d})
				for _, x := range ls {
					want := in.has(x[0], x[1], false)
					if got, err := dm.HasLink(x[0], x[1], d); err != nil || got != want {
						t.Fatalf("joiner %q: HasLink(%q, %q) = %v, %v, want %v, links %v", j, x, d, got, err, want, g.links)
					}
				}
			}
		}
	})
}
