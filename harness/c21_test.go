package harness

import (
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"pgregory.net/rapid"
)

// ---- logically equivalent matchers

func (e *ex) size() int {
	n := 1
	for _, k := range e.kids {
		n += k.size()
	}
	return n
}

func lbool(b bool) *ex {
	if b {
		return &ex{op: "true"}
	}
	return &ex{op: "false"}
}

func dual(op string) string {
	if op == "and" {
		return "or"
	}
	return "and"
}

var flipped = map[string]string{"eq": "eq", "ne": "ne", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
var negated = map[string]string{"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "re": "nre", "nre": "re", "beq": "bne", "bne": "beq"}

func par(e *ex) *ex { e.paren = true; return e }

// rewrite returns an expression with the same truth value and the name of the law
// e is a boolean expression, x generates any other one
func rewrite(t *rapid.T, e *ex, x func() *ex) (*ex, string) {
	type law struct {
		name string
		fn   func() *ex
	}
	laws := []law{}
	add := func(name string, fn func() *ex) { laws = append(laws, law{name, fn}) }
	k := e.copy().kids
	switch e.op {
	case "and", "or":
		add("commutativity", func() *ex {
			perm := rapid.Permutation(seq(len(k))).Draw(t, "perm")
			kids := []*ex{}
			for _, i := range perm {
				kids = append(kids, k[i])
			}
			return X(e.op, kids...)
		})
		add("associativity", func() *ex {
			for i := range k { // flatten
				if k[i].op == e.op {
					kids := append(append(append([]*ex{}, k[:i]...), k[i].kids...), k[i+1:]...)
					return X(e.op, kids...)
				}
			}
			if len(k) == 2 {
				return X(e.op, k[0], k[1])
			}
			if chance(t, "left", 50) {
				return X(e.op, append([]*ex{X(e.op, k[0], k[1])}, k[2:]...)...)
			}
			return X(e.op, k[0], X(e.op, k[1:]...))
		})
		add("De Morgan", func() *ex {
			kids := []*ex{}
			for _, x := range k {
				kids = append(kids, X("not", x))
			}
			return X("not", par(X(dual(e.op), kids...)))
		})
		for i := range k {
			i := i
			if k[i].op == dual(e.op) {
				add("distributivity", func() *ex {
					res := X(dual(e.op))
					for _, y := range k[i].kids {
						kids := X(e.op, k...).copy().kids
						kids[i] = y
						res.kids = append(res.kids, X(e.op, kids...))
					}
					return res
				})
			}
		}
	case "not":
		in := k[0]
		if in.op == "and" || in.op == "or" {
			add("De Morgan", func() *ex {
				kids := []*ex{}
				for _, x := range in.kids {
					kids = append(kids, X("not", x))
				}
				return X(dual(in.op), kids...)
			})
		}
		if in.op == "not" {
			add("double negation", func() *ex { return in.kids[0] })
		}
		if op, ok := negated[in.op]; ok {
			add("negated comparison", func() *ex { y := in.copy(); y.op = op; return y })
		}
	case "tern":
		add("ternary", func() *ex {
			return X("or", X("and", k[0], k[1]), X("and", X("not", k[0].copy()), k[2]))
		})
	case "beq", "bne":
		add("equivalence", func() *ex {
			a, b := k[0].copy(), k[1].copy()
			a.paren, b.paren = false, false
			n := X("not", b.copy())
			if e.op == "bne" {
				b, n = n, b
			}
			return X("or", X("and", a, b), X("and", X("not", a.copy()), n))
		})
	case "in":
		add("membership", func() *ex {
			res := X("or")
			for _, item := range k[1:] {
				res.kids = append(res.kids, X("eq", k[0].copy(), item.copy()))
			}
			for _, s := range e.list {
				res.kids = append(res.kids, X("eq", k[0].copy(), &ex{op: "lit", s: s}))
			}
			return res
		})
	}
	if op, ok := flipped[e.op]; ok {
		add("flipped comparison", func() *ex {
			a, b := k[0], k[1]
			return X(op, b, a)
		})
	}
	if op, ok := negated[e.op]; ok {
		add("negated comparison", func() *ex { y := e.copy(); y.op = op; y.paren = false; return X("not", y) })
	}
	c := func() *ex { y := e.copy(); y.paren = false; return y }
	add("double negation", func() *ex { return X("not", X("not", c())) })
	add("idempotence", func() *ex { return X(pick(t, "op", "and", "or"), c(), c()) })
	add("brackets", func() *ex { y := e.copy(); y.paren = !y.paren; return y })
	add("absorption", func() *ex {
		op := pick(t, "op", "and", "or")
		kids := []*ex{c(), X(dual(op), c(), x())}
		if chance(t, "swap", 50) {
			kids[0], kids[1] = kids[1], kids[0]
		}
		return X(op, kids...)
	})
	add("neutral element", func() *ex {
		op := pick(t, "op", "and", "or")
		kids := []*ex{c(), lbool(op == "and")}
		if chance(t, "swap", 50) {
			kids[0], kids[1] = kids[1], kids[0]
		}
		return X(op, kids...)
	})
	add("zero element", func() *ex {
		op := pick(t, "op", "and", "or")
		return X(op, c(), X(dual(op), x(), lbool(op == "and")))
	})
	add("excluded middle", func() *ex {
		y := x()
		return X("or", X("and", c(), y), X("and", c(), X("not", y.copy())))
	})
	add("ternary", func() *ex {
		y := x()
		switch num(t, "k", 0, 2) {
		case 0:
			return X("tern", c(), lbool(true), lbool(false))
		case 1:
			return X("tern", y, c(), c())
		}
		return X("not", par(X("tern", c(), lbool(false), lbool(true))))
	})
	l := laws[num(t, "law", 0, len(laws)-1)]
	return l.fn(), l.name
}

func isBool(e *ex) bool {
	switch e.op {
	case "lit", "ref", "nref", "num", "cat", "add", "sub", "mul":
		return false
	}
	return true
}

// positions returns pointers to all boolean subexpressions
func positions(e **ex) []**ex {
	res := []**ex{}
	if isBool(*e) {
		res = append(res, e)
	}
	if (*e).op == "call" {
		return res
	}
	for i := range (*e).kids {
		res = append(res, positions(&(*e).kids[i])...)
	}
	return res
}

// fixParens: comparisons of truth values need brackets around comparisons
func fixParens(e *ex) {
	for _, k := range e.kids {
		if (e.op == "beq" || e.op == "bne") && prec(k.op) <= 4 {
			k.paren = true
		}
		fixParens(k)
	}
}

// varyBlanks varies the blanks of an expression
func varyBlanks(t *rapid.T, s string) string {
	var b strings.Builder
	quote := byte(0)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case quote != 0 && ch == '\\':
			b.WriteByte(ch)
			i++
			ch = s[i]
		case quote != 0 && ch == quote:
			quote = 0
		case quote == 0 && (ch == '\'' || ch == '"'):
			quote = ch
		case quote == 0 && ch == ' ':
			b.WriteString(pick(t, "blank", " ", " ", "  ", "\t", "\n"))
			continue
		case quote == 0 && ch == '(':
			b.WriteByte(ch)
			b.WriteString(pick(t, "blank", "", "", " ", "\n"))
			continue
		case quote == 0 && ch == ')':
			b.WriteString(pick(t, "blank", "", "", " ", "\t"))
		}
		b.WriteByte(ch)
	}
	return b.String()
}

func TestC21_Rewritings(t *testing.T) {
	check(t, 2500, "a random matcher and one which was derived from it with 1 to 6 laws of logic, a random history of rules; decisions and matching rules of both are compared, in models and as ad hoc matchers; non-trivial: a request matches a proper, non-empty subset of the rules", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 3, eval: chance(t, "eval", 20), minRules: 1, maxRules: 7, nReq: 4})
		s.describe(c)
		m2 := s.m.copy()
		x := func() *ex { return s.v.genBool(t, num(t, "x depth", 0, 1)) }
		laws := []string{}
		for i := num(t, "rewritings", 1, 6); i > 0 && m2.size() < 120; i-- {
			ps := positions(&m2)
			p := ps[num(t, "position", 0, len(ps)-1)]
			y, law := rewrite(t, *p, x)
			*p = y
			laws = append(laws, law)
		}
		fixParens(m2)
		text := m2.String()
		if alternatives(m2) > 200 {
			c.label("too many alternatives")
			return
		}
		if chance(t, "blanks", 30) {
			text = varyBlanks(t, text)
			laws = append(laws, "blanks")
		}
		for _, l := range laws {
			c.label(l)
		}
		c.logf("%v\nm' = %s", laws, text)
		a, err := s.build()
		must(t, err)
		b, err := s.buildWith(text)
		if err != nil {
			t.Fatalf("equivalent matcher was refused: %v\n%s", err, c.desc.String())
		}
		all := append(append([][]string{}, s.rules...), s.links...)
		for _, i := range rapid.Permutation(seq(len(all))).Draw(t, "order") {
			addAll(t, a, all[i])
		}
		for _, i := range rapid.Permutation(seq(len(all))).Draw(t, "order") {
			addAll(t, b, all[i])
		}
		if len(s.rules) > 1 && keyOf(s.rules[0]) != keyOf(s.rules[1]) && chance(t, "remove", 30) { // eval fails without rules
			r := all[num(t, "removed", 0, len(all)-1)]
			c.logf("remove %q", r)
			for _, e := range []*fastac.Enforcer{a, b} {
				_, err := e.RemoveRule(clone(r))
				must(t, err)
			}
		}
		// the original, the same one as ad hoc matcher in the other model, and the other way round
		adhoc := m2.usesPolicy(s.v.pKey) && s.m.usesPolicy(s.v.pKey)
		for _, r := range s.requests {
			want, err := a.Enforce(r...)
			if err != nil {
				t.Fatalf("Enforce(%s): %v\n%s", showReq(r), err, c.desc.String())
			}
			rules, err := a.Filter(r...)
			if err != nil {
				t.Fatalf("Filter(%s): %v\n%s", showReq(r), err, c.desc.String())
			}
			c.nt(len(rules) > 0 && len(rules) < len(s.rules))
			compare := func(what string, e *fastac.Enforcer, opts ...interface{}) {
				req := append(append([]interface{}{}, opts...), r...)
				got, err := e.Enforce(req...)
				if err != nil || got != want {
					t.Fatalf("%s: Enforce(%s) = %v, %v, original: %v\n%s", what, showReq(r), got, err, want, c.desc.String())
				}
				m, err := e.Filter(req...)
				if err != nil || !sameRules(m, rules) {
					t.Fatalf("%s: Filter(%s) = %q, %v, original: %q\n%s", what, showReq(r), m, err, rules, c.desc.String())
				}
			}
			compare("rewritten", b)
			if adhoc {
				compare("rewritten, ad hoc", a, fastac.SetMatcher(text))
				compare("original, ad hoc", b, fastac.SetMatcher(s.m.String()))
			}
		}
	})
}

// alternatives is the number of leaves of the matcher, which multiply
func alternatives(e *ex) int {
	switch e.op {
	case "or":
		n := 0
		for _, k := range e.kids {
			n += alternatives(k)
		}
		return n
	case "and":
		n := 1
		for _, k := range e.kids {
			if n *= alternatives(k); n > 100000 {
				return n
			}
		}
		return n
	}
	return 1
}
