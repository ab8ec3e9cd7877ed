package harness

import (
	"fmt"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/types"
	"pgregory.net/rapid"
)

func TestC01_Declarative(t *testing.T) {
	check(t, 6000, "a random model (columns, roles, effect, matcher tree), 0-9 rules and 4 requests; non-trivial: some request matches a proper, non-empty subset of the rules", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 4, maxRules: 9})
		s.describe(c)
		c.label("op:" + s.m.op)
		e, err := s.build()
		if err != nil {
			t.Fatalf("model was refused: %v\n%s", err, c.desc.String())
		}
		all := append(append([][]string{}, s.rules...), s.links...)
		order := rapid.Permutation(seq(len(all))).Draw(t, "order")
		for _, i := range order {
			addAll(t, e, all[i])
		}
		for _, req := range s.requests {
			want, m, err := s.decide(req, s.rules, s.links)
			if err != nil {
				t.Fatalf("reference: %v", err)
			}
			c.logf("%s => %v", showReq(req), want)
			c.nt(len(m) > 0 && len(m) < len(s.rules))
			c.labelIf(want, "allow")
			c.labelIf(!want, "deny")
			for i := 0; i < 3; i++ {
				got, err := e.Enforce(req...)
				if err != nil || got != want {
					t.Fatalf("Enforce(%s) = %v, %v, want %v (matching %q)\n%s", showReq(req), got, err, want, m, c.desc.String())
				}
			}
		}
	})
}

func seq(n int) []int {
	res := make([]int, n)
	for i := range res {
		res[i] = i
	}
	return res
}

func TestC01_ManyRules(t *testing.T) {
	check(t, 300, "a random model with 20-80 rules over few values, added in random order; non-trivial: some request matches a proper, non-empty subset", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 3, minRules: 20, maxRules: 80, noTricky: true, nReq: 6})
		s.describe(c)
		e, err := s.build()
		if err != nil {
			t.Fatalf("model was refused: %v\n%s", err, c.desc.String())
		}
		addAll(t, e, s.rules...)
		addAll(t, e, s.links...)
		for _, req := range s.requests {
			want, m, err := s.decide(req, s.rules, s.links)
			if err != nil {
				t.Fatalf("reference: %v", err)
			}
			c.logf("%s => %v", showReq(req), want)
			c.nt(len(m) > 0 && len(m) < len(s.rules))
			for i := 0; i < 3; i++ {
				got, err := e.Enforce(req...)
				if err != nil || got != want {
					t.Fatalf("Enforce(%s) = %v, %v, want %v (matching %q)\n%s", showReq(req), got, err, want, m, c.desc.String())
				}
			}
		}
	})
}

// asking is an effector which asks for another decision before it decides
type asking struct {
	effector.IEffector
	ask func()
}

func (a asking) MergeEffects(effects []types.Effect, matches [][]string, complete bool) (types.Effect, []string, error) {
	a.ask()
	return a.IEffector.MergeEffects(effects, matches, complete)
}

func TestC01_Recursive(t *testing.T) {
	check(t, 1000, "a matcher calls a function which asks the same enforcer about the parent object, with Enforce, Filter, RangeMatches, a shared context, an ad hoc matcher or a role function, perhaps also an effector asks; the reference recurs likewise; non-trivial: the decision about an object and that about its parent differ", func(t *rapid.T, c *Case) {
		effect := pick(t, "effect", effSome, effND, effSND)
		clauses := []string{"r.sub == p.sub", "r.act == p.act", pick(t, "inherit", "(r.obj == p.obj || inherited(r.sub, r.obj, r.act))", "(inherited(r.sub, r.obj, r.act) || p.obj == r.obj)")}
		roles := chance(t, "roles", 40)
		if roles {
			clauses[0] = "g(r.sub, p.sub)"
		}
		text := strings.Join(rapid.Permutation(clauses).Draw(t, "clauses"), " && ")
		way := pick(t, "asks by", "Enforce", "Filter", "RangeMatches", "context", "ad hoc")
		objs := []string{"/", "/a", "/b", "/a/b", "/a/a", "/a/b/c", "/b/c"}
		parent := func(s string) string { return s[:strings.LastIndex(s, "/")] }
		subs, acts := []string{"u", "v", "w"}, []string{"x", "y"}
		rules, links := [][]string{}, [][]string{}
		seen := map[string]bool{}
		for i := num(t, "rules", 1, 8); i > 0; i-- {
			r := []string{"p", pick(t, "sub", subs...), pick(t, "obj", objs...), pick(t, "act", acts...), pick(t, "eft", "allow", "allow", "deny")}
			if !seen[keyOf(r)] {
				seen[keyOf(r)] = true
				rules = append(rules, r)
			}
		}
		if roles {
			for i := num(t, "links", 0, 2); i > 0; i-- {
				links = append(links, []string{"g", pick(t, "user", subs...), pick(t, "role", subs...)})
			}
		}
		c.logf("asks by %s, effect %s, matcher %s\nrules %q\nlinks %q", way, effect, text, rules, links)
		inherits := func(a, b string) bool {
			has := map[string]bool{a: true}
			for range subs {
				for _, l := range links {
					has[l[2]] = has[l[2]] || has[l[1]]
				}
			}
			return has[b]
		}
		filters := way == "Filter" || way == "RangeMatches" // whether a rule matches the parent, not whether it is permitted
		var matching func(sub, obj, act string) [][]string
		decide := func(sub, obj, act string) bool {
			effects := []string{}
			for _, r := range matching(sub, obj, act) {
				effects = append(effects, r[4])
			}
			return refMerge(effect, effects)
		}
		matching = func(sub, obj, act string) [][]string {
			res := [][]string{}
			inherited := false
			if up := parent(obj); up != "" && filters {
				inherited = len(matching(sub, up, act)) > 0
			} else if up != "" {
				inherited = decide(sub, up, act)
			}
			for _, r := range rules {
				if inherits(sub, r[1]) && r[3] == act && (r[2] == obj || inherited) {
					res = append(res, r)
				}
			}
			return res
		}
		m := model.NewModel()
		var e *fastac.Enforcer
		var ctx *fastac.Context
		def := defs.NewMatcherDef("m7", text)
		m.SetFunction("inherited", func(args ...interface{}) (interface{}, error) {
			sub, up, act := args[0], parent(args[1].(string)), args[2]
			if up == "" {
				return false, nil
			}
			switch way {
			case "Filter":
				got, err := e.Filter(sub, up, act)
				return len(got) > 0, err
			case "RangeMatches":
				found := false
				err := e.RangeMatches([]interface{}{sub, up, act}, func([]string) bool { found = true; return false })
				return found, err
			case "context":
				return e.EnforceWithContext(ctx, sub, up, act)
			case "ad hoc":
				return e.Enforce(fastac.SetMatcher(def), sub, up, act)
			}
			return e.Enforce(sub, up, act)
		})
		must(t, m.LoadModelFromText(mdl("sub, obj, act", "sub, obj, act, eft", "g = _, _", effect, text)))
		busy := false
		if chance(t, "effector asks", 30) {
			eff, _ := m.GetEffector("e")
			m.SetEffector("e", asking{eff, func() {
				if busy {
					return
				}
				busy = true
				defer func() { busy = false }()
				want := decide("u", "/a/b", "x")
				if got, err := e.Enforce("u", "/a/b", "x"); err != nil || got != want {
					t.Fatalf("asked by the effector: Enforce = %v, %v, want %v\n%s", got, err, want, c.desc.String())
				}
			}})
		}
		var err error
		e, err = fastac.NewEnforcer(m, nil)
		must(t, err)
		addAll(t, e, rules...)
		addAll(t, e, links...)
		ctx, err = fastac.NewContext(m)
		must(t, err)
		for i := 0; i < 4; i++ {
			sub, obj, act := pick(t, "sub", subs...), pick(t, "obj", objs...), pick(t, "act", acts...)
			rules, want := matching(sub, obj, act), decide(sub, obj, act)
			got, err := e.Enforce(sub, obj, act)
			if err != nil || got != want {
				t.Fatalf("Enforce(%s, %s, %s) = %v, %v, want %v because of %q\n%s", sub, obj, act, got, err, want, rules, c.desc.String())
			}
			if f, err := e.Filter(sub, obj, act); err != nil || !sameRules(f, rules) {
				t.Fatalf("Filter(%s, %s, %s) = %q, %v, want %q\n%s", sub, obj, act, f, err, rules, c.desc.String())
			}
			up := parent(obj)
			c.nt(up != "" && decide(sub, up, act) != want)
		}
	})
}

// shielded evaluates from left to right, up to the first part of a conjunction that is false;
// all alternatives are evaluated. It fails if a part fails which is not behind a false one.
func (e *ex) shielded(v *env) (bool, error) {
	switch e.op {
	case "and":
		for _, k := range e.kids {
			if b, err := k.shielded(v); err != nil || !b {
				return false, err
			}
		}
		return true, nil
	case "or":
		res := false
		for _, k := range e.kids {
			b, err := k.shielded(v)
			if err != nil {
				return false, err
			}
			res = res || b
		}
		return res, nil
	case "not":
		b, err := e.kids[0].shielded(v)
		return !b, err
	case "atom":
		switch e.out(v) {
		case oT:
			return true, nil
		case oF:
			return false, nil
		}
		return false, errRef
	}
	x, err := e.ev(v)
	if err != nil {
		return false, err
	}
	return x.(bool), nil
}

// TestC01_Guards: a clause which fails does no harm behind one that is false
func TestC01_Guards(t *testing.T) {
	check(t, 2500, "conjunctions (below disjunctions, negations and brackets) whose clauses fail for some values, behind clauses which are false for these values; no request may fail if no rule gets to a failing clause; non-trivial: a failing clause was shielded", func(t *rapid.T, c *Case) {
		vals := []string{"a", "b", "bad"}
		cols := []string{"x", "y", "z"}
		clause := func() *ex {
			switch num(t, "clause", 0, 5) {
			case 0, 1: // fails for a value
				mode := pick(t, "mode", "error", "panic", "true and error")
				arg := pick(t, "arg", "r.", "p.") + pick(t, "col", cols...)
				bad := pick(t, "bad", vals...)
				not := chance(t, "not", 60)
				text := fmt.Sprintf("fault(%s, '%s', '%s')", arg, bad, mode)
				if not {
					text = "!" + text
				}
				return &ex{op: "atom", s: text, out: func(v *env) outcome {
					x, _ := v.ref(arg)
					switch {
					case x == bad:
						return oE
					case not:
						return oT
					}
					return oF
				}}
			case 2, 3: // guards
				l := X("lit")
				l.s = pick(t, "value", vals...)
				return X(pick(t, "op", "eq", "ne"), ref(pick(t, "arg", "r.", "p.")+pick(t, "col", cols...)), l)
			}
			col := pick(t, "col", cols...)
			return X(pick(t, "op", "eq", "eq", "ne"), ref("r."+col), ref("p."+pick(t, "col2", col, cols[0], cols[1])))
		}
		var gen func(depth int) *ex
		gen = func(depth int) *ex {
			if depth == 0 {
				return clause()
			}
			kids := []*ex{}
			for i := num(t, "parts", 2, 4); i > 0; i-- {
				kids = append(kids, gen(num(t, "depth", 0, depth-1)))
			}
			x := X(pick(t, "join", "and", "and", "and", "or"), kids...)
			if chance(t, "negate", 10) {
				return X("not", x)
			}
			x.paren = chance(t, "brackets", 15)
			return x
		}
		m := gen(num(t, "depth", 1, 3))
		effect := pick(t, "effect", effSome, effND, effSND)
		mo := newModel()
		mo.SetFunction("fault", fault)
		must(t, mo.LoadModelFromText(mdl("x, y, z", "x, y, z", "", effect, m.String())))
		e, err := fastac.NewEnforcer(mo, nil)
		must(t, err)
		c.logf("%s, %s", m, effect)
		rules := [][]string{}
		for i := num(t, "rules", 1, 5); i > 0; i-- {
			r := []string{"p", pick(t, "p.x", vals...), pick(t, "p.y", vals...), pick(t, "p.z", vals...)}
			if !contains(rules, r) {
				rules = append(rules, r)
				c.logf("%q", r)
			}
		}
		addAll(t, e, rules...)
		for i := 0; i < 5; i++ {
			req := []interface{}{pick(t, "r.x", vals...), pick(t, "r.y", vals...), pick(t, "r.z", vals...)}
			want := [][]string{}
			efts := []string{}
			fails, shields := false, false
			for _, r := range rules {
				v := &env{r: map[string]interface{}{}, p: map[string]string{}}
				for j, col := range cols {
					v.r[col], v.p[col] = req[j], r[j+1]
				}
				ok, err := m.shielded(v)
				fails = fails || err != nil
				shields = shields || m.outcomes(v).has(oE)
				if ok {
					want = append(want, r)
					efts = append(efts, "allow")
				}
			}
			if fails {
				continue
			}
			c.nt(shields)
			if got, err := e.Enforce(req...); err != nil || got != refMerge(effect, efts) {
				t.Fatalf("Enforce(%s) = %v, %v, want %v\n%s", showReq(req), got, err, refMerge(effect, efts), c.desc.String())
			}
			if got, err := e.Filter(req...); err != nil || !sameRules(got, want) {
				t.Fatalf("Filter(%s) = %q, %v, want %q\n%s", showReq(req), got, err, want, c.desc.String())
			}
		}
	})
}
