package harness

import (
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"pgregory.net/rapid"
)

// any value: values with a meaning somewhere in FastAC, values made of
// separators (which are confused when values get joined), arbitrary text
func genValue(t *rapid.T) string {
	switch num(t, "kind", 0, 5) {
	case 0, 1:
		return pick(t, "value", "a", "b", "c", "aa", "1")
	case 2:
		return pick(t, "tricky", tricky...)
	case 3, 4:
		return rapid.StringOfN(rapid.SampledFrom([]rune{'a', 'b', ',', ' ', '"', '\'', '\\', '/', '|', ':', '1', '2', '\n', '#', 0, '$', '.'}), 0, 5, -1).Draw(t, "separators")
	}
	return rapid.String().Draw(t, "text")
}

// variant returns a rule which is easily confused with r
func variant(t *rapid.T, r []string) []string {
	v := clone(r)
	if len(v) < 3 {
		return v
	}
	i := num(t, "column", 1, len(v)-2)
	sep := pick(t, "sep", "", ",", ", ", "|", " ", "/", ":", "\x00", "::", "$$", "\n", ";", "_", "-")
	switch num(t, "variant", 0, 5) {
	case 5:
		v[i] = near(t, v[i])
	case 0: // move the border between two values
		v[i], v[i+1] = v[i]+sep+v[i+1], ""
	case 1:
		v[i], v[i+1] = "", v[i]+sep+v[i+1]
	case 2:
		s := v[i] + sep + v[i+1]
		k := num(t, "border", 0, len(s))
		v[i], v[i+1] = s[:k], s[k:]
	case 3:
		v[i], v[i+1] = v[i+1], v[i]
	case 4:
		v[i] += sep
	}
	return v
}

type section struct {
	key string
	n   int // number of values
}

func TestC04_RuleSet(t *testing.T) {
	check(t, 3000, "random sequences of rule operations on two policy and two grouping sections with arbitrary values, many of them chosen to be confused with present rules; non-trivial: at least one rule was added twice, or removed while present, and there were 2 or more rules", func(t *rapid.T, c *Case) {
		m := model.NewModel()
		secs := []section{{"p", 3}, {"p2", 2}, {"g", 2}, {"g2", 3}}
		must(t, m.LoadModelFromText("[request_definition]\nr = a, b, c\n[policy_definition]\np = a, b, c\np2 = a, b\n[role_definition]\ng = _, _\ng2 = _, _, _\n[policy_effect]\ne = "+effSome+"\n[matchers]\nm = r.a == p.a && (r.b == p.b || g(r.b, p.b))\nm2 = r.a == p2.a || g2(r.a, p2.a, r.c)\nmg = g.user == r.a\n"))
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		rules := [][]string{}
		pool := [][]string{}
		gone := map[string]bool{} // sections without a definition
		gen := func() []string {
			if len(pool) > 0 && chance(t, "known", 40) {
				return pool[num(t, "i", 0, len(pool)-1)]
			}
			var r []string
			if len(pool) > 0 && chance(t, "variant", 60) {
				r = variant(t, pool[num(t, "i", 0, len(pool)-1)])
				if chance(t, "other section", 15) {
					s := secs[num(t, "section", 0, len(secs)-1)]
					r[0] = s.key
					for len(r) < s.n+1 {
						r = append(r, "")
					}
					r = r[:s.n+1]
				}
			} else {
				s := secs[num(t, "section", 0, len(secs)-1)]
				r = []string{s.key}
				for i := 0; i < s.n; i++ {
					r = append(r, genValue(t))
				}
			}
			pool = append(pool, r)
			return r
		}
		verify := func() {
			got := [][]string{}
			m.RangeRules(func(rule []string) bool {
				got = append(got, rule) // not a copy: the rules have to stay as they are
				return true
			})
			if !sameRules(got, rules) {
				t.Fatalf("RangeRules yields %q\nwant %q\n%s", got, rules, c.desc.String())
			}
			for _, s := range secs {
				want := [][]string{}
				for _, r := range rules {
					if r[0] == s.key {
						want = append(want, r[1:])
					}
				}
				p, ok := m.GetPolicy(s.key)
				if ok == gone[s.key] {
					t.Fatalf("policy %s: present %v, definition removed: %v\n%s", s.key, ok, gone[s.key], c.desc.String())
				}
				if gone[s.key] {
					continue
				}
				if !ok {
					t.Fatalf("no policy %s", s.key)
				}
				got := [][]string{}
				p.Range(func(rule []string) bool {
					got = append(got, clone(rule))
					return true
				})
				if !sameRules(got, want) {
					t.Fatalf("policy %s yields %q\nwant %q\n%s", s.key, got, want, c.desc.String())
				}
			}
		}
		stops := func() {
			k := num(t, "stop", 1, len(rules)+1)
			n := 0
			m.RangeRules(func(rule []string) bool {
				n++
				return n < k
			})
			want := k
			if len(rules) < k {
				want = len(rules)
			}
			if n != want {
				t.Fatalf("RangeRules called the callback %d times, although it stopped at %d of %d rules\n%s", n, k, len(rules), c.desc.String())
			}
			for _, s := range secs {
				if gone[s.key] {
					continue
				}
				p, _ := m.GetPolicy(s.key)
				size := 0
				for _, r := range rules {
					if r[0] == s.key {
						size++
					}
				}
				n := 0
				p.Range(func(rule []string) bool {
					n++
					return n < k
				})
				if n != min(k, size) {
					t.Fatalf("Range of %s called the callback %d times, although it stopped at %d of %d\n%s", s.key, n, k, size, c.desc.String())
				}
			}
		}
		steps := num(t, "steps", 1, 25)
		twice, removed := false, false
		for i := 0; i < steps; i++ {
			switch num(t, "step", 0, 14) {
			case 0, 1, 2, 3:
				r := gen()
				if gone[r[0]] {
					c.logf("add %q", r)
					if got, err := e.AddRule(clone(r)); err == nil || got {
						t.Fatalf("AddRule(%q) = %v, %v without a definition\n%s", r, got, err, c.desc.String())
					}
					break
				}
				has := contains(rules, r)
				twice = twice || has
				c.logf("add %q", r)
				arg := clone(r)
				got, err := e.AddRule(arg)
				if err != nil || got == has {
					t.Fatalf("AddRule(%q) = %v, %v, present before: %v\n%s", r, got, err, has, c.desc.String())
				}
				if !sameRules([][]string{arg}, [][]string{r}) {
					t.Fatalf("AddRule changed its argument %q to %q", r, arg)
				}
				if !has {
					rules = append(rules, r)
				}
			case 4, 5, 6:
				var r []string
				if len(rules) > 0 && chance(t, "present", 60) {
					r = rules[num(t, "i", 0, len(rules)-1)]
				} else {
					r = gen()
				}
				has := contains(rules, r)
				removed = removed || has
				c.logf("remove %q", r)
				got, err := e.RemoveRule(clone(r))
				if gone[r[0]] {
					if err == nil || got {
						t.Fatalf("RemoveRule(%q) = %v, %v without a definition\n%s", r, got, err, c.desc.String())
					}
					break
				}
				if err != nil || got != has {
					t.Fatalf("RemoveRule(%q) = %v, %v, present before: %v\n%s", r, got, err, has, c.desc.String())
				}
				rules = without(rules, r)
			case 7:
				rs := [][]string{}
				for k := num(t, "n", 0, 3); k > 0; k-- {
					r := gen()
					if gone[r[0]] {
						continue
					}
					rs = append(rs, clone(r))
					if !contains(rules, r) {
						rules = append(rules, r)
					}
				}
				c.logf("add all %q", rs)
				must(t, e.AddRules(rs))
			case 8:
				rs := [][]string{}
				for k := num(t, "n", 0, 3); k > 0; k-- {
					r := gen()
					if gone[r[0]] {
						continue
					}
					rs = append(rs, clone(r))
					rules = without(rules, r)
				}
				c.logf("remove all %q", rs)
				must(t, e.RemoveRules(rs))
			case 9:
				if !chance(t, "clear", 40) {
					break
				}
				s := pick(t, "section", secs...)
				c.logf("clear %s", s.key)
				if gone[s.key] {
					if m.ClearPolicy(s.key) == nil {
						t.Fatalf("cleared %s without a definition\n%s", s.key, c.desc.String())
					}
					break
				}
				must(t, m.ClearPolicy(s.key))
				rest := [][]string{}
				for _, r := range rules {
					if r[0] != s.key {
						rest = append(rest, r)
					}
				}
				rules = rest
			case 10, 11: // rules which can not be stored
				vals := []string{genValue(t), genValue(t), genValue(t)}
				var r []string
				switch num(t, "bad", 0, 4) {
				case 0:
					r = append([]string{pick(t, "key", "p3", "g3", "pp", "p ", "g ", " p", "P", "G", "x", "r", "m", "e", "mg", "#", "2", "ü")}, vals...)
				case 1:
					r = append([]string{""}, vals...)
				case 2:
					r = []string{}
				case 3:
					r = nil
				case 4:
					r = []string{pick(t, "key", "g", "g2")}
					if chance(t, "user", 50) {
						r = append(r, vals[0])
					}
				}
				c.logf("refuse %q", r)
				var ok bool
				var err error
				add := chance(t, "add", 60)
				var p interface{}
				if add {
					p = catch(func() { ok, err = e.AddRule(r) })
				} else {
					p = catch(func() { ok, err = e.RemoveRule(r) })
				}
				if p != nil || ok || err == nil {
					t.Fatalf("rule %q (add: %v): %v, %v, panic %v; want an error\n%s", r, add, ok, err, p, c.desc.String())
				}
			case 12:
				verify()
			case 13:
				stops()
			case 14: // a definition comes and goes, its rules go with it
				s := pick(t, "definition", secs[1], secs[3])
				if gone[s.key] {
					c.logf("define %s", s.key)
					must(t, m.SetDef(s.key[0], s.key, map[string]string{"p2": "a, b", "g2": "_, _, _"}[s.key]))
				} else if chance(t, "undefine", 50) {
					c.logf("undefine %s", s.key)
					must(t, m.RemoveDef(s.key[0], s.key))
					rest := [][]string{}
					for _, r := range rules {
						if r[0] != s.key {
							rest = append(rest, r)
						}
					}
					rules = rest
				} else {
					break
				}
				gone[s.key] = !gone[s.key]
			}
		}
		verify()
		stops()
		c.labelIf(twice, "added twice")
		c.labelIf(removed, "removed")
		c.nt((twice || removed) && len(pool) > 1)
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func TestC04_Large(t *testing.T) {
	check(t, 60, "50 to 2100 random changes of policy and grouping rules; every result and the rules at the end are those of a set; non-trivial: 50 rules were removed, 50 remain", func(t *rapid.T, c *Case) {
		h := newLargeHistory(t, c)
		h.random()
		c.nt(len(h.rules) >= 50 && len(h.ops)-len(h.rules) >= 100)
		if got := allRules(h.m); !sameRules(got, h.all()) {
			t.Fatalf("RangeRules yields %d rules, want %d: %q\n%s", len(got), len(h.rules), got, c.desc.String())
		}
		n, k := 0, num(t, "stop", 1, len(h.rules)+1)
		h.m.RangeRules(func([]string) bool { n++; return n < k })
		if n != min(k, len(h.rules)) {
			t.Fatalf("RangeRules called the callback %d times, stopped at %d of %d\n%s", n, k, len(h.rules), c.desc.String())
		}
		rm, _ := h.m.GetRoleManager("g")
		links := [][]string{}
		rm.Range(func(a, b string, _ ...string) bool { links = append(links, []string{"g", a, b}); return true })
		want := [][]string{}
		for _, r := range h.all() {
			if r[0] == "g" {
				want = append(want, r)
			}
		}
		if !sameRules(links, want) {
			t.Fatalf("the role manager holds %q, want %q\n%s", links, want, c.desc.String())
		}
		// everything away in random order
		for _, r := range rapid.Permutation(h.all()).Draw(t, "order") {
			if ok, err := h.e.RemoveRule(clone(r)); err != nil || !ok {
				t.Fatalf("RemoveRule(%q) = %v, %v\n%s", r, ok, err, c.desc.String())
			}
		}
		if got := allRules(h.m); len(got) > 0 {
			t.Fatalf("%q remain\n%s", got, c.desc.String())
		}
	})
}
