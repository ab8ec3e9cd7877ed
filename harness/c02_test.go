package harness

import (
	"testing"

	fastac "github.com/abichinger/fastac"
	"pgregory.net/rapid"
)

func dedup(rules [][]string) [][]string {
	seen := map[string]bool{}
	res := [][]string{}
	for _, r := range rules {
		if !seen[keyOf(r)] {
			seen[keyOf(r)] = true
			res = append(res, r)
		}
	}
	return res
}

// subset reports whether a consists of n different elements of b
func subset(a, b [][]string, n int) bool {
	seen := map[string]bool{}
	for _, r := range b {
		seen[keyOf(r)] = true
	}
	for _, r := range a {
		if !seen[keyOf(r)] {
			return false
		}
		delete(seen, keyOf(r))
	}
	return len(a) == n
}

func TestC02_FilterPolicy(t *testing.T) {
	check(t, 4000, "random model, 0-10 rules, requests; Filter and RangeMatches (all stop positions) against the reference set; non-trivial: a proper, non-empty subset of the rules matches", func(t *rapid.T, c *Case) {
		suffix := pick(t, "suffix", "", "", "", "2", "10")
		s := genScenario(t, scenarioOpts{depth: 4, maxRules: 10, nReq: 3, suffix: suffix})
		s.describe(c)
		e, err := s.build()
		if err != nil {
			t.Fatalf("model was refused: %v", err)
		}
		if suffix != "" { // next to the section which is used
			c.label("not the first section")
			must(t, e.GetModel().SetDef('p', "p", "sub, obj"))
			must(t, e.GetModel().SetDef('p', "p1", "sub"))
			if chance(t, "others have rules", 50) {
				addAll(t, e, []string{"p", "a", "b"}, []string{"p1", "a"})
			}
		}
		addAll(t, e, s.rules...)
		addAll(t, e, s.links...)
		adhoc := chance(t, "ad-hoc matcher", 30)
		for _, req := range s.requests {
			want, err := s.matching(s.m, req, s.rules, s.links)
			if err != nil {
				t.Fatalf("reference: %v", err)
			}
			options := []fastac.ContextOption{}
			if suffix != "" {
				options = append(options, fastac.SetRequestDef("r"+suffix), fastac.SetEffector("e"+suffix), fastac.SetMatcher("m"+suffix))
			}
			if adhoc {
				options = append(options, fastac.SetMatcher(s.m.String()))
			}
			params := []interface{}{}
			for _, o := range options {
				params = append(params, o)
			}
			params = append(params, req...)
			c.logf("%s => %d rules", showReq(req), len(want))
			c.nt(len(want) > 0 && len(want) < len(s.rules))
			c.labelIf(len(s.rules) == 0, "empty policy")
			got, err := e.Filter(params...)
			if err != nil || !sameRules(got, want) {
				t.Fatalf("Filter(%s) = %q, %v\nwant %q\n%s", showReq(req), got, err, want, c.desc.String())
			}
			stop := num(t, "stop", 1, 4)
			reported := [][]string{}
			ctx, err := fastac.NewContext(e.GetModel(), options...)
			must(t, err)
			nested := adhoc || chance(t, "nested", 10)
			fn := func(rule []string) bool {
				reported = append(reported, rule)
				if nested { // the callback may use the enforcer, and the context
					if _, err := e.EnforceWithContext(ctx, s.requests[0]...); err != nil {
						t.Fatalf("nested Enforce: %v", err)
					}
					if got, err := e.FilterWithContext(ctx, req...); err != nil || !sameRules(got, want) {
						t.Fatalf("nested FilterWithContext(%s) = %q, %v\nwant %q\n%s", showReq(req), got, err, want, c.desc.String())
					}
				}
				return len(reported) < stop
			}
			if chance(t, "with context", 40) {
				err = e.RangeMatchesWithContext(ctx, req, fn)
			} else {
				err = e.RangeMatches(params, fn)
			}
			n := len(want)
			if n > stop {
				n = stop
				c.label("stopped early")
			}
			if err != nil || !subset(reported, want, n) {
				t.Fatalf("RangeMatches(%s) stopping after %d = %q, %v\nmatching %q\n%s", showReq(req), stop, reported, err, want, c.desc.String())
			}
		}
	})
}

func TestC02_FilterGrouping(t *testing.T) {
	check(t, 3000, "random grouping rules of one or two sections (with 0-2 domain levels) and matchers over g.user, g.role, g.domain; non-trivial: a proper, non-empty subset of the grouping rules matches", func(t *rapid.T, c *Case) {
		arity := num(t, "arity", 2, 4)
		key := pick(t, "key", "g", "g2")
		pool := append([]string{"alice", "bob", "admin"}, pick(t, "value", tricky...))
		dpool := append([]string{"d1", "d2"}, pick(t, "value", tricky...))
		v := &vocab{rKey: "r", pKey: key, funcs: []string{"hasPrefix"}, r: []attr{{"sub", "str", pool}, {"dom", "str", dpool}}, p: []attr{{"user", "str", pool}, {"role", "str", pool}}}
		if arity > 2 {
			v.p = append(v.p, attr{"domain", "str", dpool})
		}
		s := &scenario{v: &vocab{rKey: "r", pKey: "p", g: []gdef{{"g", 2, "sub"}, {"g2", arity, "sub"}}}, rArgs: []string{"sub", "dom"}, pArgs: []string{"sub"}, effect: effSome,
			m: X("eq", ref("r.sub"), ref("p.sub"))}
		if key == "g" {
			s.v.g[0].arity, s.v.g[1].arity = arity, 2
		}
		s.requests = [][]interface{}{{pick(t, "sub", pool...), pick(t, "dom", dpool...)}}
		rules := [][]string{}
		for i := num(t, "rules", 0, 8); i > 0; i-- {
			r := []string{key, pick(t, "user", pool...), pick(t, "role", pool...)}
			for k := 2; k < arity; k++ {
				r = append(r, pick(t, "domain", dpool...))
			}
			rules = append(rules, r)
		}
		m := v.genMatcher(t, num(t, "depth", 0, 3))
		if !m.usesPolicy(key) {
			m = X("and", X("eq", ref(key+".user"), ref(key+".user")), m)
		}
		other := map[string]string{"g": "g2", "g2": "g"}[key]
		s.links = [][]string{{other, "alice", "bob"}, {other, "x", "admin"}}
		c.logf("%s with %d values, m = %s", key, arity, m)
		for _, r := range rules {
			c.logf("%q", r)
		}
		e, err := s.build()
		if err != nil {
			t.Fatal(err)
		}
		addAll(t, e, []string{"p", "alice"})
		addAll(t, e, s.links...)
		addAll(t, e, rules...)
		req := s.requests[0]
		cols := []string{"user", "role", "domain", "sub1"}[:arity]
		gs := &scenario{v: v, rArgs: s.rArgs, pArgs: cols}
		want, err := gs.matching(m, req, rules, nil)
		if err != nil {
			t.Fatalf("reference: %v", err)
		}
		c.logf("%s => %q", showReq(req), want)
		c.nt(len(want) > 0 && len(want) < len(rules))
		got, err := e.Filter(append([]interface{}{fastac.SetMatcher(m.String())}, req...)...)
		if err != nil || !sameRules(got, want) {
			t.Fatalf("Filter = %q, %v\nwant %q\n%s", got, err, want, c.desc.String())
		}
	})
}

func TestC02_Large(t *testing.T) {
	check(t, 60, "the rules left by 50 to 2100 random changes; Filter, and RangeMatches stopped at random positions, against the matching rules; non-trivial: more than 20 rules match a request, and not all", func(t *rapid.T, c *Case) {
		h := newLargeHistory(t, c)
		h.objs = num(t, "few objects", 1, 3)
		h.random()
		for i := 0; i < 10; i++ {
			sub, obj, act := h.sub(), h.obj(), h.act()
			want, _ := h.matching(sub, obj, act)
			c.nt(len(want) > 20 && len(want) < len(h.rules))
			got, err := h.e.Filter(sub, obj, act)
			if err != nil || !sameRules(got, want) {
				t.Fatalf("Filter(%q, %q, %q) = %q, %v\nwant %q\n%s", sub, obj, act, got, err, want, c.desc.String())
			}
			stop := 1 + h.rnd.Intn(len(want)+1)
			reported := [][]string{}
			err = h.e.RangeMatches([]interface{}{sub, obj, act}, func(rule []string) bool {
				reported = append(reported, rule)
				return len(reported) < stop
			})
			if err != nil || !subset(reported, want, min(stop, len(want))) {
				t.Fatalf("RangeMatches(%q, %q, %q) stopping after %d = %q, %v\nmatching %q\n%s", sub, obj, act, stop, reported, err, want, c.desc.String())
			}
		}
		// ad hoc, with alternatives which both match
		x := h.sub()
		want := [][]string{}
		for _, r := range h.rules {
			if r[0] == "p" && (r[1] == x || r[3] == "read" || r[2] != "o0") {
				want = append(want, r)
			}
		}
		got, err := h.e.Filter(fastac.SetMatcher("p.sub == r.sub || p.act == 'read' || p.obj != 'o0'"), x)
		if err != nil || !sameRules(got, want) {
			t.Fatalf("Filter(%q) = %d rules, %v\nwant %d\n%s", x, len(got), err, len(want), c.desc.String())
		}
	})
}
