package harness

import (
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"pgregory.net/rapid"
)

// select1 returns options which select the definitions of s; the effect may be one of another scenario
// selection returns context options for group s, and the order in which the request values have to be passed
func selection(t *rapid.T, e *fastac.Enforcer, s, eff *scenario, c *Case) ([]fastac.ContextOption, []int) {
	m := e.GetModel()
	res := []fastac.ContextOption{}
	order := []int{}
	for i := range s.rArgs {
		order = append(order, i)
	}
	how := pick(t, "matcher by", "name", "name", "expression", "definition", "matcher")
	c.label("matcher by " + how)
	switch how {
	case "name":
		if s.suffix != "" || chance(t, "explicit", 30) {
			if chance(t, "twice", 10) { // the last one counts
				res = append(res, fastac.SetMatcher("m"))
			}
			res = append(res, fastac.SetMatcher("m"+s.suffix))
		} else if chance(t, "empty", 30) { // means the default
			res = append(res, fastac.SetMatcher(""))
		}
	case "expression":
		res = append(res, fastac.SetMatcher(s.m.String()))
	case "definition":
		res = append(res, fastac.SetMatcher(defs.NewMatcherDef(pick(t, "key", "", "m", "mx"), s.m.String())))
	case "matcher":
		x, err := m.BuildMatcherFromDef(defs.NewMatcherDef("x", s.m.String()))
		must(t, err)
		res = append(res, fastac.SetMatcher(x))
	}
	how = pick(t, "request by", "name", "name", "definition", "model definition")
	c.label("request by " + how)
	switch how {
	case "name":
		if s.suffix != "" || chance(t, "explicit", 30) {
			if chance(t, "twice", 10) { // the last one counts
				res = append(res, fastac.SetRequestDef("r"))
			}
			res = append(res, fastac.SetRequestDef("r"+s.suffix))
		} else if chance(t, "empty", 30) { // means the default
			res = append(res, fastac.SetRequestDef(""))
		}
	case "definition":
		// it has the key of a definition of the model, but may have its columns in another order
		if chance(t, "other order", 60) {
			order = rapid.Permutation(order).Draw(t, "columns")
		}
		args := []string{}
		for _, i := range order {
			args = append(args, s.rArgs[i])
		}
		res = append(res, fastac.SetRequestDef(defs.NewRequestDef(s.v.rKey, strings.Join(args, ","))))
	case "model definition":
		d, ok := m.GetRequestDef(s.v.rKey)
		if !ok {
			t.Fatalf("no request definition %s", s.v.rKey)
		}
		res = append(res, fastac.SetRequestDef(d))
	}
	how = pick(t, "effect by", "name", "name", "expression", "definition", "effector")
	c.label("effect by " + how)
	switch how {
	case "name":
		if eff.suffix != "" || chance(t, "explicit", 30) {
			if chance(t, "twice", 10) {
				res = append(res, fastac.SetEffector(effSND))
			}
			res = append(res, fastac.SetEffector("e"+eff.suffix))
		} else if chance(t, "empty", 30) {
			res = append(res, fastac.SetEffector(""))
		}
	case "expression":
		res = append(res, fastac.SetEffector(eff.effect))
	case "definition":
		res = append(res, fastac.SetEffector(defs.NewEffectDef(pick(t, "effect key", "e9", "e", "", "e5", "e1"), eff.effect)))
	case "effector":
		res = append(res, fastac.SetEffector(effector.NewEffector(defs.NewEffectDef("", eff.effect))))
	}
	return res, order
}

func reorder(req []interface{}, order []int) []interface{} {
	res := []interface{}{}
	for _, i := range order {
		res = append(res, req[i])
	}
	return res
}

// mix puts the options at random places between the request values
func mix(t *rapid.T, opts []fastac.ContextOption, req []interface{}) []interface{} {
	res := []interface{}{}
	for len(opts) > 0 || len(req) > 0 {
		if len(opts) > 0 && (len(req) == 0 || chance(t, "option next", 60)) {
			res = append(res, opts[0])
			opts = opts[1:]
		} else {
			res = append(res, req[0])
			req = req[1:]
		}
	}
	return res
}

func TestC19_Selection(t *testing.T) {
	check(t, 2500, "two or three groups of request, policy, role, effect and matcher definitions in one model with rules for all of them; every call selects a group (by name, expression, definition or object, options anywhere between the values), Enforce and Filter are compared with the reference for that group alone; non-trivial: the rules of the groups differ and a rule matched in one of them", func(t *rapid.T, c *Case) {
		ss := []*scenario{}
		others := pick(t, "keys", []string{"5", "7"}, []string{"1", "10"}, []string{"11", "1"}, []string{"12", "3"})
		suffixes := []string{"", others[0], others[1]}[:num(t, "groups", 2, 3)]
		o := scenarioOpts{depth: 2, maxRules: 5, nReq: 3}
		ds := []definition{}
		for _, x := range suffixes {
			o.suffix = x
			s := genScenario(t, o)
			s.describe(c)
			ss = append(ss, s)
			ds = append(ds, s.definitions(s.m.String())...)
		}
		m := newModel()
		for _, d := range rapid.Permutation(ds).Draw(t, "order") {
			must(t, m.SetDef(d.sec, d.key, d.value))
		}
		must(t, m.BuildMatchers())
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		all := [][]string{}
		for _, s := range ss {
			all = append(all, s.rules...)
			all = append(all, s.links...)
		}
		addAll(t, e, rapid.Permutation(all).Draw(t, "rules")...)
		ctxs, orders := make([]*fastac.Context, len(ss)), make([][]int, len(ss))
		for i := num(t, "calls", 3, 10); i > 0; i-- {
			k := num(t, "group", 0, len(ss)-1)
			s := ss[k]
			eff := s
			if chance(t, "other effect", 20) {
				eff = ss[num(t, "effect of", 0, len(ss)-1)]
			}
			req := s.requests[num(t, "request", 0, len(s.requests)-1)]
			opts, order := selection(t, e, s, eff, c)
			params := mix(t, opts, reorder(req, order))
			x := *s
			x.effect = eff.effect
			want, matched, err := x.decide(req, s.rules, s.links)
			if err != nil {
				continue // errors are judged by C13
			}
			c.nt(len(matched) > 0 && len(all) > len(s.rules))
			// a rule may only be changed for the group it belongs to
			if got, err := e.Enforce(params...); err != nil || got != want {
				t.Fatalf("group %q: Enforce(%s) = %v, %v, want %v\n%s", s.suffix, showReq(req), got, err, want, c.desc.String())
			}
			if got, err := e.Filter(params...); err != nil || !sameRules(got, matched) {
				t.Fatalf("group %q: Filter(%s) = %q, %v, want %q\n%s", s.suffix, showReq(req), got, err, matched, c.desc.String())
			}
			got := [][]string{}
			if err := e.RangeMatches(params, func(r []string) bool { got = append(got, clone(r)); return true }); err != nil || !sameRules(got, matched) {
				t.Fatalf("group %q: RangeMatches(%s) = %q, %v, want %q\n%s", s.suffix, showReq(req), got, err, matched, c.desc.String())
			}
			// a context is valid for any number of calls
			if ctxs[k] == nil {
				opts, orders[k] = selection(t, e, s, s, c)
				ctxs[k], err = fastac.NewContext(e.GetModel(), opts...)
				must(t, err)
			}
			ordered := reorder(req, orders[k])
			want, _, _ = s.decide(req, s.rules, s.links)
			if got, err := e.EnforceWithContext(ctxs[k], ordered...); err != nil || got != want {
				t.Fatalf("group %q: EnforceWithContext(%s) = %v, %v, want %v\n%s", s.suffix, showReq(req), got, err, want, c.desc.String())
			}
			if got, err := e.FilterWithContext(ctxs[k], ordered...); err != nil || !sameRules(got, matched) {
				t.Fatalf("group %q: FilterWithContext(%s) = %q, %v, want %q\n%s", s.suffix, showReq(req), got, err, matched, c.desc.String())
			}
			got = got[:0]
			if err := e.RangeMatchesWithContext(ctxs[k], ordered, func(r []string) bool { got = append(got, clone(r)); return true }); err != nil || !sameRules(got, matched) {
				t.Fatalf("group %q: RangeMatchesWithContext(%s) = %q, %v, want %q\n%s", s.suffix, showReq(req), got, err, matched, c.desc.String())
			}
			// the options are valid for one call only
			def := ss[0].requests[0]
			want, _, err = ss[0].decide(def, ss[0].rules, ss[0].links)
			if got, err2 := e.Enforce(def...); err == nil && (err2 != nil || got != want) {
				t.Fatalf("defaults: Enforce(%s) = %v, %v, want %v\n%s", showReq(def), got, err2, want, c.desc.String())
			}
			// rules of any group come and go
			if len(s.rules) > 0 && chance(t, "remove", 30) {
				j := num(t, "rule", 0, len(s.rules)-1)
				r := s.rules[j]
				kept := [][]string{}
				for _, y := range s.rules {
					if keyOf(y) != keyOf(r) {
						kept = append(kept, y)
					}
				}
				if _, err := e.RemoveRule(clone(r)); err != nil {
					t.Fatal(err)
				}
				s.rules = kept
				c.logf("remove %q", r)
			} else if chance(t, "add", 20) {
				r := s.genRule(t)
				s.rules = append(s.rules, r)
				addAll(t, e, r)
				c.logf("add %q", r)
			}
		}
	})
}

func TestC19_Unknown(t *testing.T) {
	check(t, 500, "calls which select a request definition, effect or matcher the model does not have: an error and never a permission, later calls are not affected; non-trivial: always", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 2, maxRules: 4, nReq: 2, strOnly: true})
		s.describe(c)
		e, err := s.build()
		must(t, err)
		addAll(t, e, s.rules...)
		addAll(t, e, s.links...)
		c.nt(true)
		for _, req := range s.requests {
			name := ""
			var opt fastac.ContextOption
			kind := num(t, "kind", 0, 3)
			switch kind {
			case 0:
				name = pick(t, "name", "r2", "r9", "m", "e", "R", "r ", "sub, obj", "x")
				opt = fastac.SetRequestDef(name)
			case 1:
				name = pick(t, "name", "e2", "allow", "m", "some(where (p.eft == deny))", "r", "x")
				opt = fastac.SetEffector(name)
			case 2:
				name = pick(t, "name", "p9.sub == r.sub", "((", "p.sub == ", "nope(p.sub)", "m9 &&", "'")
				opt = fastac.SetMatcher(name)
				if chance(t, "definition", 50) {
					opt = fastac.SetMatcher(defs.NewMatcherDef(pick(t, "key", "m", "", "m7"), name))
				}
			case 3: // not a matcher of the model: an expression which is the name of nothing
				name = pick(t, "name", "m2", "m9", "m1", "mm", "M", "m_", "m.", "e", "r", "p", "g", "true2")
				opt = fastac.SetMatcher(name)
			}
			c.logf("select %q", name)
			opts := []fastac.ContextOption{opt}
			for i := num(t, "valid options", 0, 2); i > 0; i-- { // of other kinds, before or behind
				switch num(t, "option", 0, 2) {
				case 0:
					if kind != 0 {
						opts = append(opts, fastac.SetRequestDef("r"))
					}
				case 1:
					if kind != 1 {
						opts = append(opts, fastac.SetEffector("e"))
					}
				case 2:
					if kind < 2 {
						opts = append(opts, fastac.SetMatcher("m"))
					}
				}
			}
			opts = rapid.Permutation(opts).Draw(t, "order")
			params := mix(t, opts, req)
			if got, err := e.Enforce(params...); err == nil || got {
				t.Fatalf("Enforce(%s) = %v, %v\n%s", showReq(req), got, err, c.desc.String())
			}
			if kind == 3 { // the expression is looked at only once there is a rule
				if got, err := e.Filter(params...); err == nil && len(s.rules) > 0 || len(got) > 0 {
					t.Fatalf("Filter(%s) = %q, %v\n%s", showReq(req), got, err, c.desc.String())
				}
			} else if kind != 1 { // Filter and RangeMatches do not use the effect
				if got, err := e.Filter(params...); err == nil || len(got) > 0 {
					t.Fatalf("Filter(%s) = %q, %v\n%s", showReq(req), got, err, c.desc.String())
				}
				if err := e.RangeMatches(params, func([]string) bool { t.Fatalf("RangeMatches called the callback\n%s", c.desc.String()); return true }); err == nil {
					t.Fatalf("RangeMatches(%s) reports no error\n%s", showReq(req), c.desc.String())
				}
				if x, err := fastac.NewContext(e.GetModel(), opts...); err == nil {
					t.Fatalf("NewContext = %v\n%s", x, c.desc.String())
				}
			}
			want, _, err := s.decide(req, s.rules, s.links)
			if got, err2 := e.Enforce(req...); err == nil && (err2 != nil || got != want) {
				t.Fatalf("afterwards: Enforce(%s) = %v, %v, want %v\n%s", showReq(req), got, err2, want, c.desc.String())
			}
		}
	})
}
