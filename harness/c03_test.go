package harness

import (
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/rbac"
	"pgregory.net/rapid"
)

func without(rules [][]string, r []string) [][]string {
	res := [][]string{}
	for _, x := range rules {
		if keyOf(x) != keyOf(r) {
			res = append(res, x)
		}
	}
	return res
}

func contains(rules [][]string, r []string) bool {
	return len(without(rules, r)) != len(rules)
}

func TestC03_History(t *testing.T) {
	check(t, 2500, "random model and a random sequence of adding, removing, bulk changes, clearing, rebuilding matchers and queries; non-trivial: something was removed and a later query matched a proper subset or had matched the removed rule", func(t *rapid.T, c *Case) {
		ev := chance(t, "eval", 20)
		s := genScenario(t, scenarioOpts{depth: 3, maxRules: 6, nReq: 4, eval: ev})
		s.describe(c)
		e, err := s.build()
		if err != nil {
			t.Fatalf("model was refused: %v", err)
		}
		// a matcher which exists since before the first rule
		ctx, err := fastac.NewContext(e.GetModel(), fastac.SetMatcher(s.m.String()))
		if err != nil {
			t.Fatal(err)
		}
		rules, links := [][]string{}, [][]string{}
		pool := append(append([][]string{}, s.rules...), s.links...)
		newRule := func() []string {
			if len(pool) > 0 && chance(t, "known", 60) {
				return pool[num(t, "rule", 0, len(pool)-1)]
			}
			var r []string
			if len(s.v.g) > 0 && chance(t, "link", 35) {
				r = s.genLink(t)
			} else {
				r = s.genRule(t)
			}
			pool = append(pool, r)
			return r
		}
		present := func() []string {
			all := append(append([][]string{}, rules...), links...)
			if len(all) > 0 && chance(t, "present", 85) {
				return all[num(t, "rule", 0, len(all)-1)]
			}
			return newRule()
		}
		isLink := func(r []string) bool { return r[0] != s.v.pKey }
		change := func(add bool, r []string) bool {
			set := &rules
			if isLink(r) {
				set = &links
			}
			has := contains(*set, r)
			if add && !has {
				*set = append(*set, r)
			} else if !add {
				*set = without(*set, r)
			}
			return has != add
		}
		removed := false
		verify := func(last bool) {
			for _, req := range s.requests {
				want, m, err := s.decide(req, rules, links)
				if err != nil {
					continue // eval of an empty policy
				}
				if removed {
					c.nt(len(m) < len(rules) || len(rules) == 0)
				}
				got, err := e.Enforce(req...)
				if err != nil || got != want {
					t.Fatalf("Enforce(%s) = %v, %v, want %v\nrules %q\nlinks %q\n%s", showReq(req), got, err, want, rules, links, c.desc.String())
				}
				got, err = e.EnforceWithContext(ctx, req...)
				if err != nil || got != want {
					t.Fatalf("EnforceWithContext(%s) = %v, %v, want %v\nrules %q\nlinks %q\n%s", showReq(req), got, err, want, rules, links, c.desc.String())
				}
				found, err := e.Filter(req...)
				if err != nil || !sameRules(found, m) {
					t.Fatalf("Filter(%s) = %q, %v, want %q\nrules %q\nlinks %q\n%s", showReq(req), found, err, m, rules, links, c.desc.String())
				}
			}
		}
		// start with some rules
		addAll(t, e, s.rules...)
		addAll(t, e, s.links...)
		for _, r := range append(append([][]string{}, s.rules...), s.links...) {
			change(true, r)
		}
		steps := num(t, "steps", 1, 14)
		for i := 0; i < steps; i++ {
			switch num(t, "step", 0, 11) {
			case 0, 1, 2:
				r := newRule()
				c.logf("add %q", r)
				if got, err := e.AddRule(clone(r)); err != nil || got != change(true, r) {
					t.Fatalf("AddRule(%q) = %v, %v\n%s", r, got, err, c.desc.String())
				}
			case 3, 4, 5, 6:
				r := present()
				c.logf("remove %q", r)
				had := change(false, r)
				removed = removed || had
				if got, err := e.RemoveRule(clone(r)); err != nil || got != had {
					t.Fatalf("RemoveRule(%q) = %v, %v\n%s", r, got, err, c.desc.String())
				}
			case 7:
				rs := [][]string{}
				for k := num(t, "n", 0, 3); k > 0; k-- {
					r := newRule()
					rs = append(rs, clone(r))
					change(true, r)
				}
				c.logf("add all %q", rs)
				if err := e.AddRules(rs); err != nil {
					t.Fatal(err)
				}
			case 8:
				rs := [][]string{}
				for k := num(t, "n", 0, 3); k > 0; k-- {
					r := present()
					rs = append(rs, clone(r))
					removed = change(false, r) || removed
				}
				c.logf("remove all %q", rs)
				if err := e.RemoveRules(rs); err != nil {
					t.Fatal(err)
				}
			case 9:
				key := pick(t, "section", "p", "p", "g", "g2")
				has := key == "p"
				for _, g := range s.v.g {
					has = has || g.key == key
				}
				c.logf("clear %s", key)
				if err := e.GetModel().(interface{ ClearPolicy(string) error }).ClearPolicy(key); (err == nil) != has {
					t.Fatalf("ClearPolicy(%s): %v", key, err)
				}
				for _, r := range append(append([][]string{}, rules...), links...) {
					if r[0] == key {
						removed = change(false, r) || removed
					}
				}
			case 10:
				c.logf("rebuild")
				if err := e.GetModel().(interface{ BuildMatchers() error }).BuildMatchers(); err != nil {
					t.Fatal(err)
				}
			case 11:
				verify(false)
			}
		}
		verify(true)
		// an enforcer which only knows what is left
		f, err := s.build()
		if err != nil {
			t.Fatal(err)
		}
		addAll(t, f, links...)
		addAll(t, f, rules...)
		for i := 0; i < 3; i++ {
			req := s.genRequest(t)
			a, err1 := e.Enforce(req...)
			b, err2 := f.Enforce(req...)
			if a != b || (err1 == nil) != (err2 == nil) {
				t.Fatalf("Enforce(%s) = %v, %v with history, %v, %v without\nrules %q\nlinks %q\n%s", showReq(req), a, err1, b, err2, rules, links, c.desc.String())
			}
		}
	})
}

// policies returns the number of policy rules
func policies(rules [][]string) (n int) {
	for _, r := range rules {
		if r[0] == "p" {
			n++
		}
	}
	return n
}

func TestC03_Large(t *testing.T) {
	check(t, 120, "50 to 2100 random changes of policy and grouping rules, now and then a clear or queries in between; decisions are those of an enforcer that got the remaining rules only, and those of a plain evaluation, requests are about known and empty values; non-trivial: 50 rules were removed, 50 remain", func(t *rapid.T, c *Case) {
		h := newLargeHistory(t, c)
		removed := 0
		h.changed = func(o op, _ string) {
			if !o.add {
				removed++
			}
			if h.rnd.Intn(25) == 0 {
				_, _ = h.e.Enforce(h.sub(), h.obj(), h.act())
			}
		}
		h.random()
		if chance(t, "clear", 10) {
			must(t, h.m.ClearPolicy("p"))
			for _, r := range h.all() {
				if r[0] == "p" {
					delete(h.rules, keyOf(r))
				}
			}
			h.order, h.index = nil, map[string]int{}
			for key := range h.rules {
				h.index[key] = len(h.order)
				h.order = append(h.order, key)
			}
			h.run(num(t, "more changes", 0, 100), 80)
			c.logf("cleared, then %d rules", len(h.rules))
		}
		fresh, err := mkEnf(largeModel)
		must(t, err)
		addAll(t, fresh, h.all()...)
		for i := 0; i < 120; i++ {
			sub, obj, act := h.sub(), h.obj(), h.act()
			if h.rnd.Intn(4) == 0 && policies(h.all()) > 0 {
				act = "" // no rule is about it
				if h.rnd.Intn(2) == 0 {
					obj = ""
				}
			}
			rules, want := h.matching(sub, obj, act)
			got, err := h.e.Enforce(sub, obj, act)
			got2, err2 := fresh.Enforce(sub, obj, act)
			if err != nil || err2 != nil || got != want || got2 != want {
				t.Fatalf("Enforce(%s, %s, %s) = %v, %v, fresh: %v, %v, want %v because of %q\n%s", sub, obj, act, got, err, got2, err2, want, rules, c.desc.String())
			}
			if f, err := h.e.Filter(sub, obj, act); err != nil || !sameRules(f, rules) {
				t.Fatalf("Filter(%s, %s, %s) = %q, %v, want %q\n%s", sub, obj, act, f, err, rules, c.desc.String())
			}
		}
		c.nt(removed >= 50 && len(h.rules) >= 50)
	})
}

// stubborn is a role manager which can not always be cleared
type stubborn struct {
	*rbac.RoleManager
	fail bool
}

func (r *stubborn) Clear() error {
	if r.fail {
		return errManager
	}
	return r.RoleManager.Clear()
}

func TestC03_FailedClear(t *testing.T) {
	check(t, 200, "histories of grouping rules in a section whose role manager refuses to be cleared now and then, Filter and Enforce are compared with the links that are left; non-trivial: a refused clear with links", func(t *rapid.T, c *Case) {
		m := model.NewModel()
		must(t, m.LoadModelFromText(mdl("sub, role", "role", "g = _, _", effSome, "g(r.sub, p.role) && r.role == p.role")))
		must(t, m.SetDef('m', "m2", "g.user == r.sub || g.role == r.role"))
		rm := &stubborn{rbac.NewRoleManager(10), false}
		m.SetRoleManager("g", rm)
		must(t, m.BuildMatchers())
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		roles := []string{"admin", "ops"}
		addAll(t, e, []string{"p", "admin"}, []string{"p", "ops"})
		links := [][]string{}
		for i := num(t, "steps", 1, 8); i > 0; i-- {
			l := []string{"g", pick(t, "user", "alice", "bob"), pick(t, "role", roles...)}
			switch num(t, "step", 0, 4) {
			case 0, 1:
				c.logf("add %q", l)
				_, err := e.AddRule(clone(l))
				must(t, err)
				links = append(without(links, l), l)
			case 2:
				c.logf("remove %q", l)
				_, err := e.RemoveRule(clone(l))
				must(t, err)
				links = without(links, l)
			default:
				rm.fail = chance(t, "refuse", 70)
				err := m.ClearPolicy("g")
				c.logf("clear: %v", err)
				if (err != nil) != rm.fail {
					t.Fatalf("ClearPolicy = %v, although the role manager returned an error: %v\n%s", err, rm.fail, c.desc.String())
				}
				c.nt(rm.fail && len(links) > 0)
				if !rm.fail {
					links = links[:0]
				}
			}
			l = []string{"g", pick(t, "user", "alice", "bob"), pick(t, "role", roles...)}
			want := [][]string{}
			for _, x := range links {
				if x[1] == l[1] || x[2] == l[2] {
					want = append(want, x)
				}
			}
			if got, err := e.Filter(fastac.SetMatcher("m2"), l[1], l[2]); err != nil || !sameRules(got, want) {
				t.Fatalf("Filter(m2, %q) = %q, %v, want %q\n%s", l[1:], got, err, want, c.desc.String())
			}
			if got, err := e.Enforce(l[1], l[2]); err != nil || got != contains(links, l) {
				t.Fatalf("Enforce(%q) = %v, %v\n%s", l[1:], got, err, c.desc.String())
			}
		}
	})
}
