package harness

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"pgregory.net/rapid"
)

// inline replaces eval(p.rule) by the expression of the rule
func inline(e *ex, s *scenario, rule []string) *ex {
	if e.op == "eval" {
		for i, n := range s.pArgs {
			if s.v.pKey+"."+n == e.s {
				return par(evalTexts[rule[i+1]].copy())
			}
		}
	}
	c := *e
	c.kids = nil
	for _, k := range e.kids {
		c.kids = append(c.kids, inline(k, s, rule))
	}
	return &c
}

func TestC22_Inline(t *testing.T) {
	check(t, 1200, "random matchers with eval(p.rule) and rules with random expressions (also several rules which only differ in the expression, added and removed); decisions are compared with the reference interpreter, each rule with a model whose matcher contains the expression itself; non-trivial: eval decides, a rule matches and one does not", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 2, eval: true, minRules: 1, maxRules: 6, nReq: 3})
		if !s.m.has("eval") {
			s.m = X(pick(t, "join", "and", "or"), s.m, &ex{op: "eval", s: s.v.pKey + ".rule"})
			if chance(t, "swap", 50) {
				s.m.kids[0], s.m.kids[1] = s.m.kids[1], s.m.kids[0]
			}
		}
		if chance(t, "mixed clause", 35) { // eval and other functions in one clause
			y := &ex{op: "eval", s: s.v.pKey + ".rule"}
			z := s.v.genBool(t, num(t, "other clause", 0, 1))
			if chance(t, "call", 60) {
				a := pick(t, "value", byKind(s.v.r, "str")...)
				z = &ex{op: "call", s: "hasPrefix", kids: []*ex{ref(s.v.rn(a)), {op: "lit", s: pick(t, "prefix", "", "a", "b", "d")}}}
			}
			y.paren, z.paren = true, true
			kids := []*ex{y, z}
			if chance(t, "swap", 50) {
				kids = []*ex{z, y}
			}
			switch num(t, "kind", 0, 4) {
			case 3, 4: // followed by another clause
				s.m = X("and", X(pick(t, "op", "beq", "bne"), kids...), pick(t, "next", s.m, s.v.genAtom(t)))
			case 0:
				s.m = X("or", s.m, X(pick(t, "op", "beq", "bne"), kids...))
			case 1:
				s.m = X("and", s.m, X("not", X(pick(t, "op", "and", "or"), kids...)))
			case 2:
				s.m = X(pick(t, "op", "beq", "bne"), kids...)
			}
		}
		for i := num(t, "twins", 0, 4); i > 0; i-- { // the same rule with another expression, or the same expression in another rule
			r, other := clone(s.rules[num(t, "rule", 0, len(s.rules)-1)]), s.genRule(t)
			same := chance(t, "same expression", 50)
			for k, n := range s.pArgs {
				if (n == "rule") != same {
					r[k+1] = other[k+1]
				}
			}
			s.rules = append(s.rules, r)
			c.label("twins")
		}
		s.describe(c)
		e, err := s.build()
		must(t, err)
		addAll(t, e, append(append([][]string{}, s.rules...), s.links...)...)
		rules := s.rules
		if len(rules) > 1 && chance(t, "remove", 40) {
			k := num(t, "removed", 0, len(rules)-1)
			left := [][]string{}
			for _, r := range rules {
				if keyOf(r) != keyOf(rules[k]) {
					left = append(left, r)
				}
			}
			if len(left) > 0 {
				c.logf("remove %q", rules[k])
				_, err := e.RemoveRule(clone(rules[k]))
				must(t, err)
				rules = left
			}
		}
		for _, req := range s.requests {
			want, matching, err := s.decide(req, rules, s.links)
			must(t, err)
			c.logf("%s => %v", showReq(req), want)
			c.nt(len(matching) > 0 && len(matching) < len(rules))
			got, err := e.Enforce(req...)
			if err != nil || got != want {
				t.Fatalf("Enforce(%s) = %v, %v, want %v (matching %q)\n%s", showReq(req), got, err, want, matching, c.desc.String())
			}
			found, err := e.Filter(req...)
			if err != nil || !sameRules(found, matching) {
				t.Fatalf("Filter(%s) = %q, %v, want %q\n%s", showReq(req), found, err, matching, c.desc.String())
			}
			in := map[string]bool{}
			for _, r := range found {
				in[keyOf(r)] = true
			}
			for i, r := range rules {
				if i > 3 {
					break
				}
				x := inline(s.m, s, r)
				e2, err := s.buildWith(x.String())
				if err != nil {
					t.Fatalf("%s was refused: %v\n%s", x, err, c.desc.String())
				}
				addAll(t, e2, append([][]string{r}, s.links...)...)
				m, err := e2.Filter(req...)
				if err != nil || (len(m) > 0) != in[keyOf(r)] {
					t.Fatalf("%q and request %s: eval %v, inline %v, %v (%s)\n%s", r, showReq(req), in[keyOf(r)], len(m) > 0, err, x, c.desc.String())
				}
			}
		}
	})
}

// nestedEval: eval of literals, request values and other columns, several levels deep
func TestC22_Nested(t *testing.T) {
	check(t, 2000, "eval of literals, of request values, of two columns, and expressions which call eval themselves up to four levels deep, against the reference interpreter; non-trivial: an expression that calls eval itself decides, some rule matches and some does not", func(t *rapid.T, c *Case) {
		subs, objs := []string{"alice", "bob", "it's", `q"`}, []string{"x", "y", "p.obj"}
		v := &vocab{rKey: "r", pKey: "p", r: []attr{{"sub", "str", subs}, {"obj", "str", objs}}, p: []attr{{"sub", "str", subs}, {"obj", "str", objs}}}
		var gen func(level int) *ex
		gen = func(level int) *ex {
			if level == 0 || chance(t, "leaf", 30) {
				return v.genBool(t, num(t, "depth", 0, 1))
			}
			var y *ex
			switch num(t, "kind", 0, 3) {
			case 0, 1:
				in := gen(level - 1)
				evalTexts[in.String()] = in
				y = X("evalx", style(t, &ex{op: "lit", s: in.String()}))
			case 2:
				y = X("evalx", ref("p.two"))
			case 3:
				y = X("evalx", ref("r.rule"))
			}
			if chance(t, "join", 40) {
				y = X(pick(t, "op", "and", "or"), y, v.genBool(t, 0))
			}
			if chance(t, "not", 15) {
				y = X("not", y)
			}
			return y
		}
		plain := func() string { // calls eval of literals at most
			x := v.genBool(t, num(t, "plain depth", 0, 1))
			if chance(t, "nested", 30) {
				evalTexts[x.String()] = x
				x = X("evalx", style(t, &ex{op: "lit", s: x.String()}))
			}
			evalTexts[x.String()] = x
			return x.String()
		}
		s := &scenario{v: v, rArgs: []string{"sub", "obj", "rule"}, pArgs: []string{"one", "sub", "two", "obj"}, effect: pick(t, "effect", effSome, effND)}
		s.m = X("evalx", ref("p.one"))
		if chance(t, "literal", 30) {
			s.m = gen(2)
		}
		switch num(t, "join", 0, 3) {
		case 0:
			s.m = X("and", X("eq", ref("r.sub"), ref("p.sub")), s.m)
		case 1:
			s.m = X("or", X("and", X("eq", ref("r.sub"), ref("p.sub")), X("evalx", ref("p.two"))), X("and", X("eq", ref("r.obj"), ref("p.obj")), s.m))
		case 2:
			s.m = X("and", s.m, X("evalx", ref("p.two")))
		}
		deep := false
		for i := num(t, "rules", 1, 5); i > 0; i-- {
			one := gen(2)
			evalTexts[one.String()] = one
			deep = deep || strings.Contains(one.String(), "eval(")
			s.rules = append(s.rules, []string{"p", one.String(), pick(t, "sub", subs...), plain(), pick(t, "obj", objs...)})
		}
		s.describe(c)
		e, err := s.build()
		must(t, err)
		addAll(t, e, s.rules...)
		for i := 0; i < 3; i++ {
			req := []interface{}{pick(t, "r.sub", subs...), pick(t, "r.obj", objs...), plain()}
			want, matching, err := s.decide(req, s.rules, nil)
			must(t, err)
			c.logf("%s => %v", showReq(req), want)
			c.nt(deep && len(matching) > 0 && len(matching) < len(s.rules))
			got, err := e.Enforce(req...)
			if err != nil || got != want {
				t.Fatalf("Enforce(%s) = %v, %v, want %v (matching %q)\n%s", showReq(req), got, err, want, matching, c.desc.String())
			}
			found, err := e.Filter(req...)
			if err != nil || !sameRules(found, matching) {
				t.Fatalf("Filter(%s) = %q, %v, want %q\n%s", showReq(req), found, err, matching, c.desc.String())
			}
		}
	})
}

// expressions which can not be evaluated
var badExpressions = []string{"", "((", "r.sub ==", "r.sub = 'a'", "nope(r.sub)", "nope", "p.nope == 'a'", "r.nope == 'a'", "x.sub == 'a'", "eval(p.rule)", "eval(eval(p.rule))", "true && eval(p.rule)", "eval()", "eval(1)",
	"eval('((')", "r.sub > 1", "1 && true", "r.sub && true", "!r.sub", "(true) (false)", "true) || (true", "'a", `"a`, "r.sub.Name == 'a'", "hasPrefix(r.sub)", "hasPrefix(1, 2)", "g(r.sub, p.obj)", "[r.sub", "true ? ", "r.sub in", "=~", "r.sub =~ '('",
	"regexMatch(r.sub, '(')", "ipMatch('x', 'y')", "globMatch(r.sub, '[')", "&&", "true &&", "1 +", "eval(r.sub, r.obj)", "p2.sub == 'a'", "panics()", "fails()"}

var loops = []string{"eval(p.rule)", "!eval(p.rule)", "true && eval(p.rule)", "eval(p.rule) || eval(p.rule)", "eval('eval(p.rule)')", "eval(p.rule) == eval(p.rule)"}

func TestC22_Errors(t *testing.T) {
	check(t, 3000, "rules with expressions that can not be evaluated or that call themselves, among rules that can; the decision has to be right without the failing rules or an error, they are never reported as matches, and rules of other objects do not matter; non-trivial: a failing rule is concerned by a request", func(t *rapid.T, c *Case) {
		m := model.NewModel()
		eff := pick(t, "effect", effSome, effSome, effND, effSND)
		matcher := pick(t, "matcher", "r.obj == p.obj && eval(p.rule)", "r.obj == p.obj && (eval(p.rule))", "r.obj == p.obj && !(!eval(p.rule))", "r.obj == p.obj && true && eval(p.rule)", "r.obj == p.obj && (eval(p.rule) || eval(p.rule))")
		must(t, m.SetDef('r', "r", "sub, obj"))
		must(t, m.SetDef('p', "p", "rule, obj, eft"))
		must(t, m.SetDef('e', "e", eff))
		must(t, m.SetDef('m', "m", matcher))
		m.SetFunction("hasPrefix", func(args ...interface{}) (interface{}, error) {
			return strings.HasPrefix(args[0].(string), args[1].(string)), nil
		})
		m.SetFunction("panics", func(args ...interface{}) (interface{}, error) { panic("panics") })
		m.SetFunction("fails", func(args ...interface{}) (interface{}, error) { return true, fmt.Errorf("fails") })
		must(t, m.BuildMatchers())
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		c.logf("m = %s; e = %s", matcher, eff)
		good := map[string]func(sub string) bool{
			"true": func(string) bool { return true }, "false": func(string) bool { return false }, "r.sub == 'alice'": func(s string) bool { return s == "alice" }, "r.sub != 'alice'": func(s string) bool { return s != "alice" },
			"hasPrefix(r.sub, 'b')": func(s string) bool { return strings.HasPrefix(s, "b") }, `eval('r.sub == \'bob\'')`: func(s string) bool { return s == "bob" }}
		goodTexts := []string{}
		for k := range good {
			goodTexts = append(goodTexts, k)
		}
		goodTexts = setKeys(func() map[string]bool {
			m := map[string]bool{}
			for _, k := range goodTexts {
				m[k] = true
			}
			return m
		}())
		rules := [][]string{}
		for i := num(t, "rules", 1, 5); i > 0; i-- {
			var text string
			switch num(t, "kind", 0, 4) {
			case 0, 1:
				text = pick(t, "bad", badExpressions...)
			case 2:
				text = pick(t, "loop", loops...)
			default:
				text = pick(t, "good", goodTexts...)
			}
			r := []string{"p", text, pick(t, "obj", "x", "x", "y"), pick(t, "eft", "allow", "allow", "deny")}
			c.logf("%q", r)
			rules = append(rules, r)
			addAll(t, e, r)
		}
		for _, sub := range []string{"alice", "bob"} {
			for _, obj := range []string{"x", "y", "z"} {
				bad := false
				effects := []string{}
				matching := [][]string{}
				seen := map[string]bool{}
				for _, r := range rules {
					if r[2] != obj || seen[keyOf(r)] {
						continue
					}
					seen[keyOf(r)] = true
					if fn, ok := good[r[1]]; !ok {
						bad = true
					} else if fn(sub) {
						effects = append(effects, r[3])
						matching = append(matching, r)
					}
				}
				got, err := e.Enforce(sub, obj)
				want := refMerge(eff, effects)
				switch {
				case !bad:
					if err != nil || got != want {
						t.Fatalf("Enforce(%s, %s) = %v, %v, want %v (no failing rule is concerned)\n%s", sub, obj, got, err, want, c.desc.String())
					}
				case err != nil:
					if got {
						t.Fatalf("Enforce(%s, %s) permits together with %v\n%s", sub, obj, err, c.desc.String())
					}
				default:
					// decided before the failing rule was visited: further effects must not matter
					ok := got == want
					for _, more := range []string{"allow", "deny"} {
						ok = ok && refMerge(eff, append(clone(effects), more)) == got
					}
					if !ok {
						t.Fatalf("Enforce(%s, %s) = %v without an error, a failing rule matters\n%s", sub, obj, got, c.desc.String())
					}
				}
				found, err := e.Filter(sub, obj)
				if bad {
					c.nt(true)
					if err == nil {
						t.Fatalf("Filter(%s, %s) = %q without an error\n%s", sub, obj, found, c.desc.String())
					}
				} else if err != nil || !sameRules(found, matching) {
					t.Fatalf("Filter(%s, %s) = %q, %v, want %q\n%s", sub, obj, found, err, matching, c.desc.String())
				}
			}
		}
	})
}

func TestC22_Large(t *testing.T) {
	check(t, 25, "up to 400 rules with different expressions (comparisons of numbers and names with constants), some removed again, twice the same requests; non-trivial: more than 100 different expressions, and some rules match", func(t *rapid.T, c *Case) {
		rnd := rand.New(rand.NewSource(int64(num(t, "seed", 0, 1<<30))))
		m := newModel()
		must(t, m.LoadModelFromText("[request_definition]\nr = sub, age, obj\n[policy_definition]\np = rule, obj\n[policy_effect]\ne = "+effSome+"\n[matchers]\nm = "+pick(t, "matcher", "eval(p.rule) && r.obj == p.obj", "r.obj == p.obj && eval(p.rule)")+"\n"))
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		type rule struct {
			vals []string
			is   func(sub string, age int) bool
		}
		rules := map[string]rule{}
		texts := map[string]bool{}
		n := big(t, "constants", 5, 300)
		for i := big(t, "rules", 20, 400); i > 0; i-- {
			k, s := rnd.Intn(n), fmt.Sprint("s", rnd.Intn(n))
			r := rule{}
			text := ""
			switch rnd.Intn(5) {
			case 0:
				text, r.is = fmt.Sprintf("r.age > %d", k), func(_ string, age int) bool { return age > k }
			case 1:
				text, r.is = fmt.Sprintf("r.age == %d", k), func(_ string, age int) bool { return age == k }
			case 2:
				text, r.is = fmt.Sprintf("r.sub == '%s'", s), func(sub string, _ int) bool { return sub == s }
			case 3:
				text, r.is = fmt.Sprintf("r.sub == '%s' && r.age <= %d", s, k), func(sub string, age int) bool { return sub == s && age <= k }
			case 4:
				text, r.is = fmt.Sprintf("r.age == %d || r.sub in ('%s', 'x')", k, s), func(sub string, age int) bool { return age == k || sub == s }
			}
			r.vals = []string{"p", text, fmt.Sprint("o", rnd.Intn(3))}
			texts[text] = true
			rules[keyOf(r.vals)] = r
			_, err := e.AddRule(clone(r.vals))
			must(t, err)
		}
		keys := []string{}
		for k := range rules {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if rnd.Intn(6) == 0 {
				_, err := e.RemoveRule(clone(rules[k].vals))
				must(t, err)
				delete(rules, k)
			}
		}
		c.logf("%d rules, %d expressions", len(rules), len(texts))
		for i := 0; i < 6; i++ {
			sub, age, obj := fmt.Sprint("s", rnd.Intn(n)), rnd.Intn(n+1), fmt.Sprint("o", rnd.Intn(3))
			want := [][]string{}
			for _, r := range rules {
				if r.vals[2] == obj && r.is(sub, age) {
					want = append(want, r.vals)
				}
			}
			c.nt(len(texts) > 100 && len(want) > 0)
			for j := 0; j < 2; j++ {
				got, err := e.Filter(sub, age, obj)
				if err != nil || !sameRules(got, want) {
					t.Fatalf("Filter(%q, %d, %q) = %q, %v, want %q\n%s", sub, age, obj, got, err, want, c.desc.String())
				}
				if ok, err := e.Enforce(sub, age, obj); err != nil || ok != (len(want) > 0) {
					t.Fatalf("Enforce(%q, %d, %q) = %v, %v, %d rules match\n%s", sub, age, obj, ok, err, len(want), c.desc.String())
				}
			}
		}
	})
}

// expressions which refer to the next column again and again
func TestC22_Chain(t *testing.T) {
	check(t, 300, "rules with up to 12 columns, each of which evaluates the next one, alone or joined with a condition, against the reference interpreter; non-trivial: some rule matches and some does not", func(t *rapid.T, c *Case) {
		subs, objs := []string{"alice", "bob"}, []string{"x", "y"}
		v := &vocab{rKey: "r", pKey: "p", r: []attr{{"sub", "str", subs}, {"obj", "str", objs}}, p: []attr{{"sub", "str", subs}, {"obj", "str", objs}}}
		n := big(t, "columns", 1, 12)
		s := &scenario{v: v, rArgs: []string{"sub", "obj"}, pArgs: []string{"sub", "obj"}, effect: pick(t, "effect", effSome, effND)}
		for i := 0; i < n; i++ {
			s.pArgs = append(s.pArgs, fmt.Sprint("c", i))
		}
		s.m = X("evalx", ref("p.c0"))
		if chance(t, "join", 50) {
			s.m = X("and", X("eq", ref("r.obj"), ref("p.obj")), s.m)
		}
		for i := num(t, "rules", 1, 4); i > 0; i-- {
			r := []string{"p", pick(t, "sub", subs...), pick(t, "obj", objs...)}
			end := v.genBool(t, 1)
			for k := 1; k < n; k++ {
				x := X("evalx", ref(fmt.Sprint("p.c", k)))
				switch num(t, "link", 0, 9) {
				case 0:
					x = X("not", x)
				case 1:
					x = X("and", X("eq", ref("r.sub"), ref("p.sub")), x)
				case 2:
					x = X("or", X("eq", ref("r.sub"), ref("p.sub")), x)
				}
				evalTexts[x.String()] = x
				r = append(r, x.String())
			}
			evalTexts[end.String()] = end
			s.rules = append(s.rules, append(r, end.String()))
		}
		s.describe(c)
		e, err := s.build()
		must(t, err)
		addAll(t, e, s.rules...)
		for i := 0; i < 3; i++ {
			req := []interface{}{pick(t, "r.sub", subs...), pick(t, "r.obj", objs...)}
			want, matching, err := s.decide(req, s.rules, nil)
			must(t, err)
			c.nt(len(matching) > 0 && len(matching) < len(s.rules))
			if got, err := e.Enforce(req...); err != nil || got != want {
				t.Fatalf("Enforce(%s) = %v, %v, want %v (matching %q)\n%s", showReq(req), got, err, want, matching, c.desc.String())
			}
			if found, err := e.Filter(req...); err != nil || !sameRules(found, matching) {
				t.Fatalf("Filter(%s) = %q, %v, want %q\n%s", showReq(req), found, err, matching, c.desc.String())
			}
		}
	})
}
