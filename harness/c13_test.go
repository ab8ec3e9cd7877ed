package harness

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"pgregory.net/rapid"
)

// outcome is a set of results which are right for an expression
type outcome int

const (
	oT outcome = 1 << iota
	oF
	oE // error
	oN // a value which is not a boolean
)

func (o outcome) has(x outcome) bool { return o&x != 0 }

func (o outcome) String() string {
	s := ""
	for i, n := range []string{"true", "false", "error", "no boolean"} {
		if o&(1<<i) != 0 {
			s += "|" + n
		}
	}
	return strings.TrimPrefix(s, "|")
}

func toOutcome(x interface{}, err error) outcome {
	if err != nil {
		return oE
	}
	if b, ok := x.(bool); ok {
		if b {
			return oT
		}
		return oF
	}
	return oN
}

// outcomes returns every result which can be defended, given that operators
// may skip operands which do not matter, and may evaluate them in any order
func (e *ex) outcomes(v *env) outcome {
	kids := func() []outcome {
		res := []outcome{}
		for _, k := range e.kids {
			res = append(res, k.outcomes(v))
		}
		return res
	}
	switch e.op {
	case "atom":
		return e.out(v)
	case "and", "or":
		decisive, neutral := oF, oT
		if e.op == "or" {
			decisive, neutral = oT, oF
		}
		res := neutral
		for _, k := range kids() {
			if k.has(oN) {
				k |= oF | oE // a clause which is no boolean does not match
			}
			if k.has(decisive) {
				res |= decisive
			}
			if k.has(oE) {
				res |= oE
			}
			if !k.has(neutral) {
				res &^= neutral
			}
		}
		return res
	case "not":
		k := kids()[0]
		var res outcome
		if k.has(oT) {
			res |= oF
		}
		if k.has(oF) {
			res |= oT
		}
		if k.has(oE | oN) {
			res |= oE
		}
		return res
	case "tern":
		c := e.kids[0].outcomes(v)
		var res outcome
		if c.has(oE | oN) {
			res |= oE
		}
		if c.has(oT) {
			res |= e.kids[1].outcomes(v)
		}
		if c.has(oF) {
			res |= e.kids[2].outcomes(v)
		}
		return res
	case "beq", "bne":
		a, b := e.kids[0].outcomes(v), e.kids[1].outcomes(v)
		if (a | b).has(oN) {
			return oT | oF | oE
		}
		var res outcome
		if (a | b).has(oE) {
			res |= oE
		}
		for _, x := range []outcome{oT, oF} {
			for _, y := range []outcome{oT, oF} {
				if a.has(x) && b.has(y) {
					if (x == y) == (e.op == "beq") {
						res |= oT
					} else {
						res |= oF
					}
				}
			}
		}
		return res
	}
	return toOutcome(e.ev(v))
}

// judge says whether the answer of Enforce is right
func acceptable(effect string, efts []string, os []outcome, got bool, err error) bool {
	anyE, allNonE := false, true
	allowT, denyT, allowF, denyF := false, false, true, true
	for i, o := range os {
		anyE = anyE || o.has(oE)
		allNonE = allNonE && o.has(oT|oF|oN)
		canF := o.has(oF | oN)
		switch efts[i] {
		case "allow":
			allowT = allowT || o.has(oT)
			allowF = allowF && canF
		case "deny":
			denyT = denyT || o.has(oT)
			denyF = denyF && canF
		}
	}
	if err != nil {
		return anyE && !got
	}
	switch effect {
	case effSome:
		if got {
			return allowT
		}
		return allNonE && allowF
	case effND:
		if got {
			return allNonE && denyF
		}
		return denyT
	}
	if got {
		return allNonE && denyF && allowT
	}
	return denyT || allNonE && denyF && allowF
}

var errFault = errors.New("injected error")

// fault fails if its first two arguments are equal, and is false otherwise
func fault(args ...interface{}) (interface{}, error) {
	if args[0] != args[1] {
		return false, nil
	}
	switch args[2] {
	case "error":
		return nil, errFault
	case "true and error":
		return true, errFault
	case "panic":
		panic("injected panic")
	case "panic error":
		panic(errFault)
	case "runtime":
		var m map[string]int
		m["x"]++
	case "index":
		return args[len(args)], nil
	case "string":
		return "true", nil
	case "number":
		return 1.0, nil
	case "nil":
		return nil, nil
	}
	return true, nil
}

func faultOutcome(mode string) outcome {
	switch mode {
	case "string", "number", "nil":
		return oN
	case "true":
		return oT
	}
	return oE
}

var faultModes = []string{"error", "true and error", "panic", "panic error", "runtime", "index", "string", "number", "nil", "true"}

// genFault generates a clause which may fail
func genFault(t *rapid.T, v *vocab) *ex {
	rs, ps := byKind(v.r, "str"), byKind(v.p, "str")
	r := v.rn(pick(t, "rattr", rs...))
	pa := pick(t, "pattr", ps...)
	p := v.pn(pa)
	always := func(text string, o outcome, refs ...string) *ex {
		return &ex{op: "atom", s: text, out: func(e *env) outcome {
			for _, x := range refs { // a request value may be missing
				if _, err := e.ref(x); err != nil {
					return oE
				}
			}
			return o
		}}
	}
	switch num(t, "fault", 0, 13) {
	case 0, 1, 2, 3, 4:
		mode := pick(t, "mode", faultModes...)
		a, b := r, p
		switch num(t, "args", 0, 3) {
		case 0:
			b = quoteLit(pick(t, "lit", pa.pool...), false)
		case 1:
			a = p
			b = quoteLit(pick(t, "lit", pa.pool...), false)
		}
		x := X("call", ref(a), ref(b))
		for i, k := range x.kids {
			if strings.HasPrefix(k.s, "'") {
				x.kids[i] = nil
			}
		}
		text := fmt.Sprintf("fault(%s, %s, '%s')", a, b, mode)
		val := func(e *env, s string) (interface{}, error) {
			if s[0] == '\'' {
				for _, l := range pa.pool {
					if quoteLit(l, false) == s {
						return l, nil
					}
				}
			}
			return e.ref(s)
		}
		return &ex{op: "atom", s: text, out: func(e *env) outcome {
			x, err1 := val(e, a)
			y, err2 := val(e, b)
			if err1 != nil || err2 != nil {
				return oE
			}
			if x == y {
				return faultOutcome(mode)
			}
			return oF
		}}
	case 5:
		return always(v.pKey+".nope == 'x'", oE).bracket()
	case 6:
		return always(v.rKey+".nope == "+p, oE).bracket()
	case 7:
		return always("regexMatch("+r+", '(')", oE)
	case 8:
		return always("ipMatch("+pick(t, "arg", r, p)+", '10.0.0.0/8')", oE)
	case 9:
		return always("pathMatch("+pick(t, "args", r, p, r+", "+p+", "+p, r+", 1", "true, "+p)+")", oE)
	case 10:
		return always(r+" < 1", oE).bracket()
	case 11:
		return always(pick(t, "eval", "eval('((')", "eval(1)", "eval('nope(1)')", "eval('p.nope')", "eval()", "eval('x')", "eval('')"), oE)
	case 12:
		if len(v.g) == 0 {
			return always(r+".Name == 'x'", oE).bracket()
		}
		g := v.g[0].key
		return always(g+"("+pick(t, "args", r, r+", 1", "1, "+p, "true, "+p, r+", "+p+", 1", "")+")", oE)
	}
	x := pick(t, "no boolean", p, r, "'true'", "1", "1 + 2", "("+p+")")
	return always(x, oN, strings.TrimSuffix(map[bool]string{true: r, false: p}[x == r], " "))
}

func (e *ex) bracket() *ex {
	e.s = "(" + e.s + ")"
	return e
}

func TestC13_Errors(t *testing.T) {
	check(t, 5000, "random models whose matchers contain clauses which fail for some or all rules (errors, panics, wrong types, missing values, unknown names), requests with missing values; every answer has to be one which the sets of possible results allow; non-trivial: a failing clause was present and some rule may fail while another can not", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 3, maxRules: 5, nReq: 4, extra: genFault})
		if !s.m.has("atom") {
			s.m = X(pick(t, "join", "and", "or"), s.m, style(t, genFault(t, s.v)))
			if chance(t, "swap", 50) {
				s.m.kids[0], s.m.kids[1] = s.m.kids[1], s.m.kids[0]
			}
		}
		s.describe(c)
		e, err := s.build()
		if err != nil {
			// e.g. a constant operation with wrong types
			c.label("model refused")
			return
		}
		e.GetModel().SetFunction("fault", fault)
		addAll(t, e, s.rules...)
		addAll(t, e, s.links...)
		for _, req := range s.requests {
			if chance(t, "missing value", 15) {
				req = req[:num(t, "n", 0, len(req)-1)]
			}
			rules := s.rules
			if len(rules) == 0 {
				rules = [][]string{make([]string, len(s.pArgs)+1)}
			}
			os, efts := []outcome{}, []string{}
			may, not := false, false
			for _, r := range rules {
				v := s.env(req, r, s.links)
				v.fns["fault"] = func(args []interface{}) (interface{}, error) { return fault(args...) }
				o := s.m.outcomes(v)
				os = append(os, o)
				efts = append(efts, effectOf(s, r))
				may, not = may || o.has(oE), not || !o.has(oE)
			}
			c.nt(may && not)
			c.labelIf(may, "may fail")
			var got bool
			var err error
			if p := catch(func() { got, err = e.Enforce(req...) }); p != nil {
				t.Fatalf("Enforce(%s) panics: %v\n%s", showReq(req), p, c.desc.String())
			}
			c.labelIf(err != nil, "failed")
			if !acceptable(s.effect, efts, os, got, err) {
				t.Fatalf("Enforce(%s) = %v, %v; the rules have the effects %v and their matcher can be %v\n%s", showReq(req), got, err, efts, os, c.desc.String())
			}
			// Filter evaluates the matcher for all rules
			var found [][]string
			if p := catch(func() { found, err = e.Filter(req...) }); p != nil {
				t.Fatalf("Filter(%s) panics: %v\n%s", showReq(req), p, c.desc.String())
			}
			if len(s.rules) == 0 {
				if err == nil && len(found) > 0 {
					t.Fatalf("Filter(%s) = %q, although there are no rules\n%s", showReq(req), found, c.desc.String())
				}
				continue
			}
			if err != nil {
				if !may {
					t.Fatalf("Filter(%s): %v\n%s", showReq(req), err, c.desc.String())
				}
				continue
			}
			for i, r := range rules {
				want := oF | oN
				if contains(found, r) {
					want = oT
				}
				if !os[i].has(want) {
					t.Fatalf("Filter(%s) = %q without an error; for %q the matcher can be %v\n%s", showReq(req), found, r, os[i], c.desc.String())
				}
			}
		}
	})
}

// failing role managers
type badManager struct {
	rbac.IRoleManager
	mode string
	name string
}

func (b badManager) HasLink(a, r string, dom ...string) (bool, error) {
	if a == b.name {
		x, err := fault(1, 1, b.mode)
		res, _ := x.(bool)
		if err == nil {
			err = errFault
		}
		return res, err
	}
	return b.IRoleManager.HasLink(a, r, dom...)
}

func TestC13_RoleManagers(t *testing.T) {
	check(t, 1200, "role managers (with and without domains) which fail for one of the users; non-trivial: the failing user is asked for", func(t *rapid.T, c *Case) {
		m := pick(t, "matcher", "g(r.sub, p.sub) && r.obj == p.obj", "r.obj == p.obj && g(r.sub, p.sub)", "r.sub == p.sub || g(r.sub, p.sub)", "!g(r.sub, p.sub)", "g(r.sub, p.sub) ? r.obj == p.obj : true", "g(r.sub, p.sub)", "r.sub == p.sub || r.obj == p.obj && g(r.sub, p.sub)")
		effect := pick(t, "effect", effSome, effND, effSND)
		mo := model.NewModel()
		text, gdef, inner := m, "g = _, _", rbac.IRoleManager(rbac.NewRoleManager(10))
		dom := chance(t, "domain", 40)
		if dom {
			text, gdef, inner = strings.ReplaceAll(m, "g(r.sub, p.sub)", "g(r.sub, p.sub, r.obj)"), "g = _, _, _", rbac.NewDomainManager(10)
		}
		must(t, mo.LoadModelFromText(mdl("sub, obj", "sub, obj, eft", gdef, effect, text)))
		bad := badManager{inner, pick(t, "mode", "error", "true and error", "panic", "panic error", "runtime"), "mallory"}
		mo.SetRoleManager("g", bad)
		must(t, mo.BuildMatchers())
		e, err := fastac.NewEnforcer(mo, nil)
		must(t, err)
		subs, objs := []string{"mallory", "alice", "admin"}, []string{"x", "y"}
		rules, links := [][]string{}, [][]string{}
		for i := num(t, "rules", 1, 5); i > 0; i-- {
			r := []string{"p", pick(t, "sub", subs...), pick(t, "obj", objs...), pick(t, "eft", "allow", "deny", "other")}
			if !contains(rules, r) {
				rules = append(rules, r)
			}
		}
		for i := num(t, "links", 0, 3); i > 0; i-- {
			link := []string{"g", pick(t, "user", subs...), pick(t, "role", subs...)}
			if dom {
				link = append(link, pick(t, "dom", objs...))
			}
			links = append(links, link)
		}
		addAll(t, e, rules...)
		addAll(t, e, links...)
		c.logf("m = %s, e = %s, mode %s, rules %q, links %q", text, effect, bad.mode, rules, links)
		for _, sub := range subs {
			for _, obj := range objs {
				os, efts := []outcome{}, []string{}
				for _, r := range rules {
					args := []string{sub, r[1]}
					if dom {
						args = append(args, obj)
					}
					has, _ := refLinks(links).has("g", args)
					g := toOutcome(has, nil)
					if sub == "mallory" {
						g = oE
						c.nt(true)
					}
					eq := func(a, b string) *ex { return outEx(toOutcome(a == b, nil)) }
					gx := outEx(g)
					var x *ex
					switch m {
					case "g(r.sub, p.sub) && r.obj == p.obj", "r.obj == p.obj && g(r.sub, p.sub)":
						x = X("and", gx, eq(obj, r[2]))
					case "r.sub == p.sub || g(r.sub, p.sub)":
						x = X("or", eq(sub, r[1]), gx)
					case "!g(r.sub, p.sub)":
						x = X("not", gx)
					case "g(r.sub, p.sub)":
						x = gx
					case "g(r.sub, p.sub) ? r.obj == p.obj : true":
						x = X("tern", gx, eq(obj, r[2]), outEx(oT))
					default:
						x = X("or", eq(sub, r[1]), X("and", eq(obj, r[2]), gx))
					}
					os = append(os, x.outcomes(nil))
					efts = append(efts, map[string]string{"allow": "allow", "deny": "deny", "other": "indeterminate"}[r[3]])
				}
				var got bool
				var err error
				p := catch(func() { got, err = e.Enforce(sub, obj) })
				if p != nil || !acceptable(effect, efts, os, got, err) {
					t.Fatalf("Enforce(%s, %s) = %v, %v, panic %v; effects %v, the matcher can be %v\n%s", sub, obj, got, err, p, efts, os, c.desc.String())
				}
			}
		}
	})
}

func outEx(o outcome) *ex { return &ex{op: "atom", out: func(*env) outcome { return o }} }

// missing definitions, unknown names in context options
func TestC13_Definitions(t *testing.T) {
	check(t, 1500, "a model without one or more of its definitions, or a call which selects unknown ones: an error together with false, or the right decision if the missing part does not matter; never a panic; non-trivial: always", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 2, maxRules: 4, nReq: 3})
		s.describe(c)
		e, err := s.build()
		if err != nil {
			t.Fatalf("model was refused: %v", err)
		}
		addAll(t, e, s.rules...)
		addAll(t, e, s.links...)
		m := e.GetModel()
		params := []interface{}{}
		missing := []string{}
		for i := num(t, "n", 1, 2); i > 0; i-- {
			what := pick(t, "missing", "r", "p", "e", "m", "g", "option r", "option e", "option m", "fn", "eval", "unknown m")
			missing = append(missing, what)
			switch what {
			case "r", "p", "e", "m", "g":
				_ = m.RemoveDef(what[0], what)
			case "option r":
				params = append(params, fastac.SetRequestDef(pick(t, "name", "r9", "x", "p", "m")))
			case "option e":
				params = append(params, fastac.SetEffector(pick(t, "name", "e9", "x", "allow")))
			case "option m":
				params = append(params, fastac.SetMatcher(pick(t, "name", "m9", "p9.sub == r.sub", "((", "nope(p.sub)", "p.sub ==", "g9.user == 'x'", "'", "p9", "r9.sub == p.sub")))
			case "unknown m":
				params = append(params, fastac.SetMatcher("g9(r.sub, p.sub)"))
			case "fn":
				m.RemoveFunction("pathMatch")
				m.RemoveFunction("hasPrefix")
				m.RemoveFunction("regexMatch")
			case "eval":
				m.RemoveFunction("g")
			}
		}
		c.logf("missing: %v", missing)
		c.nt(true)
		certain := false // an error is certain
		for _, x := range missing {
			switch x {
			case "r", "p", "e", "m":
				certain = certain || len(params) == 0
			case "option r", "option e", "option m", "unknown m":
				certain = true
				c.label("unknown option")
			}
		}
		for _, req := range s.requests {
			var got bool
			var err error
			if p := catch(func() { got, err = e.Enforce(append(append([]interface{}{}, params...), req...)...) }); p != nil {
				t.Fatalf("Enforce(%s) panics: %v\n%s", showReq(req), p, c.desc.String())
			}
			if err != nil {
				if got {
					t.Fatalf("Enforce(%s) = true, %v\n%s", showReq(req), err, c.desc.String())
				}
				c.label("failed")
			} else if certain {
				t.Fatalf("Enforce(%s) = %v without an error\n%s", showReq(req), got, c.desc.String())
			} else if want, _, err := s.decide(req, s.rules, s.links); err != nil || got != want {
				t.Fatalf("Enforce(%s) = %v, want %v\n%s", showReq(req), got, want, c.desc.String())
			}
			if p := catch(func() { _, _ = e.Filter(append(append([]interface{}{}, params...), req...)...) }); p != nil {
				t.Fatalf("Filter(%s) panics: %v\n%s", showReq(req), p, c.desc.String())
			}
		}
	})
}

// Patterns of roles and domains are matched by functions of the user. If one
// of them panics for a name, every request of this name is an error, not just
// the first one.
func TestC13_PatternMatchers(t *testing.T) {
	check(t, 1200, "role and domain managers whose pattern matcher panics for one of the names or domains, repeated requests in random order; a twin has a matcher which does not panic; non-trivial: the matcher panics at least twice", func(t *rapid.T, c *Case) {
		dom := chance(t, "domain", 50)
		badDom := dom && chance(t, "bad domain", 50)
		clause := pick(t, "clause", "%s", "!%s", "!%s", "r.obj == p.obj && !%s", "!%s && r.obj == p.obj", "%s || r.obj == 'never'", "!(%s || r.obj == 'never')")
		effect := pick(t, "effect", effSome, effND, effSND)
		g, gdef, rdef := "g(r.sub, p.sub)", "g = _, _", "sub, obj"
		if dom {
			g, gdef, rdef = "g(r.sub, p.sub, r.dom)", "g = _, _, _", "sub, obj, dom"
		}
		bad, badPattern := "mallory", pick(t, "bad pattern", "m*", "mal*", "*")
		var es [2]*fastac.Enforcer
		panics := 0
		for i := range es {
			faulty := util.NewMatcher(starPattern, func(s, p string) bool {
				if s == bad && p == badPattern {
					panics++
					panic("fault of the matcher")
				}
				return starMatch(s, p)
			})
			mo := model.NewModel()
			must(t, mo.LoadModelFromText(mdl(rdef, "sub, obj, eft", gdef, effect, fmt.Sprintf(clause, g))))
			rm, _ := mo.GetRoleManager("g")
			var role, domain util.IMatcher = patterns[len(patterns)-1].sut(), patterns[len(patterns)-1].sut()
			if i == 0 && badDom {
				domain = faulty
			} else if i == 0 {
				role = faulty
			}
			rm.(rbac.IDefaultRoleManager).SetMatcher(role)
			if dom {
				rm.(rbac.IDefaultRoleManager).SetDomainMatcher(domain)
			}
			es[i], _ = fastac.NewEnforcer(mo, nil)
		}
		names := []string{"mary", "bob", "admin", "m*", "mal*", "*", "b*"}
		doms := []string{"main", "d1", "m*", "mal*", "*"}
		rules, linked := [][]string{}, map[string]bool{} // linked: domain -> is the bad pattern part of a link
		for i := num(t, "rules", 1, 4); i > 0; i-- {
			r := []string{"p", pick(t, "sub", "admin", "bob", "mary", "b*"), pick(t, "obj", "x", "y"), pick(t, "eft", "allow", "deny")}
			if !contains(rules, r) {
				rules = append(rules, r)
				addAll(t, es[0], r)
				addAll(t, es[1], r)
			}
		}
		for i := num(t, "links", 1, 5); i > 0; i-- {
			link := []string{"g", pick(t, "user", names...), pick(t, "role", names...)}
			d := ""
			if dom {
				d = pick(t, "dom", doms...)
				link = append(link, d)
			}
			if badDom {
				linked[d] = linked[d] || d == badPattern
			} else {
				linked[d] = linked[d] || link[1] == badPattern || link[2] == badPattern
			}
			c.logf("+%q", link)
			addAll(t, es[0], link)
			addAll(t, es[1], link)
		}
		c.logf("m = %s, e = %s, rules %q, the matcher fails for %q and %q", fmt.Sprintf(clause, g), effect, rules, bad, badPattern)
		for i := num(t, "requests", 2, 8); i > 0; i-- {
			sub, obj, d := pick(t, "r.sub", "mallory", "mallory", "mary", "bob"), pick(t, "r.obj", "x", "y"), ""
			req := []interface{}{sub, obj}
			if dom {
				d = pick(t, "r.dom", "main", "mallory", "d1", "mallory")
				req = append(req, d)
			}
			fails := false
			for from, has := range linked {
				if badDom {
					fails = fails || has && d == bad
				} else {
					fails = fails || has && sub == bad && (from == d || starMatch(d, from))
				}
			}
			evaluated := !strings.HasPrefix(clause, "r.obj")
			for _, r := range rules {
				evaluated = evaluated || r[2] == obj
			}
			var got bool
			var err error
			if p := catch(func() { got, err = es[0].Enforce(req...) }); p != nil {
				t.Fatalf("Enforce(%q) panics: %v\n%s", req, p, c.desc.String())
			}
			want, err2 := es[1].Enforce(req...)
			must(t, err2)
			if fails && evaluated {
				if err == nil || got {
					t.Fatalf("Enforce(%q) = %v, %v, although the matcher fails\n%s", req, got, err, c.desc.String())
				}
			} else if got != want || err != nil {
				t.Fatalf("Enforce(%q) = %v, %v, want %v\n%s", req, got, err, want, c.desc.String())
			}
		}
		c.nt(panics > 1)
	})
}
