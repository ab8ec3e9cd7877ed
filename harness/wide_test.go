package harness

import (
	"fmt"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model/policy"
	"pgregory.net/rapid"
)

// wide models: many columns, many clauses, many alternatives

type wideClause struct {
	r, p    int // columns, r < 0: a literal
	literal string
	neg     bool
}

func (w wideClause) String() string {
	op := map[bool]string{false: "==", true: "!="}[w.neg]
	if w.r < 0 {
		return fmt.Sprintf("p.b%d %s '%s'", w.p, op, w.literal)
	}
	return fmt.Sprintf("r.a%d %s p.b%d", w.r, op, w.p)
}

func (w wideClause) holds(req []interface{}, rule []string) bool {
	var x interface{} = w.literal
	if w.r >= 0 {
		x = req[w.r]
	}
	return (x == rule[w.p]) != w.neg
}

type wide struct {
	nr, np, eft int // eft: position of the effect or -1
	effect      string
	alts        [][]wideClause
	e           *fastac.Enforcer
	rules       [][]string
}

func genWide(t *rapid.T, c *Case) *wide {
	w := &wide{nr: big(t, "request columns", 1, 60), np: big(t, "policy columns", 1, 60), eft: -1}
	w.effect = pick(t, "effect", effSome, effND, effSND)
	clause := func() wideClause {
		x := wideClause{r: num(t, "r", -1, w.nr-1), p: num(t, "p", 0, w.np-1), literal: pick(t, "literal", "x", "y"), neg: chance(t, "not", 40)}
		return x
	}
	text := ""
	if chance(t, "alternatives", 60) {
		for i := big(t, "alternatives", 1, 60); i > 0; i-- {
			alt, s := []wideClause{}, []string{}
			for k := num(t, "clauses", 1, 5); k > 0; k-- {
				x := clause()
				x.neg = chance(t, "negated", 10)
				alt, s = append(alt, x), append(s, x.String())
			}
			w.alts = append(w.alts, alt)
			if text != "" {
				text += " || "
			}
			text += strings.Join(s, " && ")
		}
	} else { // a long conjunction, most clauses hold for most rules
		alt, s := []wideClause{}, []string{}
		for k := big(t, "clauses", 1, 60); k > 0; k-- {
			x := clause()
			x.neg = chance(t, "negated", 95)
			if x.neg && x.r < 0 && chance(t, "rare", 80) {
				x.literal = "z"
			}
			alt, s = append(alt, x), append(s, x.String())
		}
		w.alts = append(w.alts, alt)
		text = strings.Join(s, " && ")
	}
	rcols, pcols := []string{}, []string{}
	for i := 0; i < w.nr; i++ {
		rcols = append(rcols, fmt.Sprint("a", i))
	}
	for i := 0; i < w.np; i++ {
		pcols = append(pcols, fmt.Sprint("b", i))
	}
	if chance(t, "effects", 60) {
		w.eft = num(t, "effect column", 0, w.np)
		pcols = append(append(append([]string{}, pcols[:w.eft]...), "eft"), pcols[w.eft:]...)
	}
	c.logf("%d request columns, policy %q, %s, m = %s", w.nr, pcols, w.effect, text)
	e, err := mkEnf(mdl(strings.Join(rcols, ", "), strings.Join(pcols, ", "), "", w.effect, text))
	must(t, err)
	w.e = e
	return w
}

func (w *wide) genRule(t *rapid.T) []string {
	r := []string{"p"}
	base := pick(t, "base", "x", "y", "z")
	for i := 0; i < w.np; i++ {
		r = append(r, base)
	}
	for k := num(t, "other values", 0, 3); k > 0; k-- {
		r[1+num(t, "column", 0, w.np-1)] = pick(t, "value", "x", "y", "z", "")
	}
	if w.eft >= 0 {
		r = append(append(append([]string{}, r[:1+w.eft]...), pick(t, "effect", "allow", "allow", "deny", "other", "")), r[1+w.eft:]...)
	}
	return r
}

func (w *wide) genRequest(t *rapid.T) []interface{} {
	r := []interface{}{}
	base := pick(t, "base", "x", "y", "w")
	for i := 0; i < w.nr; i++ {
		r = append(r, base)
	}
	for k := num(t, "other values", 0, 3); k > 0; k-- {
		r[num(t, "column", 0, w.nr-1)] = pick[interface{}](t, "value", "x", "y", "z", "w", "", nil, nil, 1, 2.5, true) // (a value that is no string equals none)
	}
	return r
}

// verify compares Enforce and Filter with the plain evaluation of the alternatives
func (w *wide) verify(t *rapid.T, c *Case, req []interface{}) {
	matching, effects := [][]string{}, []string{}
	for _, rule := range w.rules {
		vals, effect := rule[1:], "allow"
		if w.eft >= 0 {
			effect = vals[w.eft]
			if effect == "" {
				effect = "allow"
			}
			vals = append(append([]string{}, vals[:w.eft]...), vals[w.eft+1:]...)
		}
		for _, alt := range w.alts {
			all := true
			for _, x := range alt {
				all = all && x.holds(req, vals)
			}
			if all {
				matching, effects = append(matching, rule), append(effects, effect)
				break
			}
		}
	}
	c.nt(len(matching) > 0 && len(matching) < len(w.rules))
	if got, err := w.e.Filter(req...); err != nil || !sameRules(got, matching) {
		t.Fatalf("Filter(%s) = %q, %v\nwant %q\nrules %q\n%s", showReq(req), got, err, matching, w.rules, c.desc.String())
	}
	if len(w.rules) == 0 {
		return // (the matcher sees a made-up rule)
	}
	want := refMerge(w.effect, effects)
	if got, err := w.e.Enforce(req...); err != nil || got != want {
		t.Fatalf("Enforce(%s) = %v, %v, want %v\nmatching %q\nrules %q\n%s", showReq(req), got, err, want, matching, w.rules, c.desc.String())
	}
}

func TestC01_Wide(t *testing.T) {
	check(t, 250, "models with up to 60 columns of requests and of rules, and up to 60 alternatives or clauses; Enforce and Filter against the plain evaluation of all clauses; non-trivial: some, but not all rules match", func(t *rapid.T, c *Case) {
		w := genWide(t, c)
		for i := num(t, "rules", 1, 8); i > 0; i-- {
			r := w.genRule(t)
			w.rules = append(without(w.rules, r), r)
		}
		addAll(t, w.e, w.rules...)
		for i := 0; i < 4; i++ {
			w.verify(t, c, w.genRequest(t))
		}
	})
}

func TestC03_Wide(t *testing.T) {
	check(t, 250, "models with up to 60 columns and up to 60 alternatives or clauses, rules are added, removed and added again; Enforce and Filter against the plain evaluation for the rules which are left; non-trivial: some, but not all rules match", func(t *rapid.T, c *Case) {
		w := genWide(t, c)
		for i := num(t, "steps", 2, 14); i > 0; i-- {
			if len(w.rules) > 0 && chance(t, "remove", 40) {
				r := w.rules[num(t, "rule", 0, len(w.rules)-1)]
				ok, err := w.e.RemoveRule(clone(r))
				if err != nil || !ok {
					t.Fatalf("RemoveRule(%q) = %v, %v", r, ok, err)
				}
				w.rules = without(w.rules, r)
				c.logf("remove %q", r)
			} else {
				r := w.genRule(t)
				_, err := w.e.AddRule(clone(r))
				must(t, err)
				w.rules = append(without(w.rules, r), r)
				c.logf("add %q", r)
			}
			if chance(t, "ask", 40) {
				w.verify(t, c, w.genRequest(t))
			}
		}
		for i := 0; i < 3; i++ {
			w.verify(t, c, w.genRequest(t))
		}
	})
}

func TestC27_Wide(t *testing.T) {
	check(t, 300, "rules of up to 60 values, lists of up to 60 columns; non-trivial: more than one combination", func(t *rapid.T, c *Case) {
		n := big(t, "values", 1, 60)
		cols := []string{}
		for i := 0; i < n; i++ {
			cols = append(cols, fmt.Sprint("b", i))
		}
		e, err := mkEnf(mdl("a", strings.Join(cols, ", "), "", effSome, "r.a == p.b0"))
		must(t, err)
		rules := [][]string{}
		for i := num(t, "rules", 1, 6); i > 0; i-- {
			r := []string{"p"}
			for k := 0; k < n; k++ {
				r = append(r, fmt.Sprint("v", k))
			}
			for k := num(t, "other values", 0, 2); k > 0; k-- {
				r[num(t, "column", 1, n)] = pick(t, "value", "x", "y")
			}
			rules = append(without(rules, r), r)
		}
		addAll(t, e, rules...)
		pol, _ := e.GetModel().GetPolicy("p")
		for i := 0; i < 4; i++ {
			cols := []int{}
			for k := big(t, "columns", 0, 60); k > 0; k-- {
				cols = append(cols, num(t, "column", 0, n-1))
			}
			if chance(t, "all columns", 40) {
				cols = rapid.Permutation(seq(n)).Draw(t, "order")
			}
			want := [][]string{}
			for _, r := range rules {
				v := []string{}
				for _, col := range cols {
					v = append(v, r[col+1])
				}
				if !contains(want, v) {
					want = append(want, v)
				}
			}
			c.nt(len(want) > 1)
			got, err := policy.GetDistinct(pol, cols)
			if err != nil || !sameRules(got, want) {
				t.Fatalf("GetDistinct(%v) = %q, %v\nwant %q\nrules %q", cols, got, err, want, rules)
			}
		}
	})
}

// many definitions of every kind
func TestC19_ManySections(t *testing.T) {
	check(t, 60, "models with up to 45 policy, role, request, effect and matcher definitions; every matcher sees the rules and links of its own sections, all rules are listed, also after changes; non-trivial: more than ten definitions of each kind", func(t *rapid.T, c *Case) {
		n := big(t, "definitions", 1, 45)
		suffix := func(i int) string {
			if i == 0 {
				return ""
			}
			return fmt.Sprint(i + 1)
		}
		names := []string{"a", "b", "c"}
		effects := []string{}
		text := map[byte]string{}
		for i := 0; i < n; i++ {
			k := suffix(i)
			effects = append(effects, pick(t, "effect", effSome, effND))
			text['r'] += fmt.Sprintf("r%s = sub, obj\n", k)
			text['p'] += fmt.Sprintf("p%s = sub, obj, eft\n", k)
			text['g'] += fmt.Sprintf("g%s = _, _\n", k)
			text['e'] += fmt.Sprintf("e%s = %s\n", k, effects[i])
			text['m'] += fmt.Sprintf("m%s = g%s(r%s.sub, p%s.sub) && r%s.obj == p%s.obj\n", k, k, k, k, k, k)
		}
		all := ""
		for _, sec := range []byte("rpgem") {
			all += "[" + sectionNames[sec] + "]\n" + text[sec]
		}
		e, err := mkEnf(all)
		must(t, err)
		rules := [][]string{}
		change := func() {
			k := suffix(num(t, "definition", 0, n-1))
			r := []string{"p" + k, pick(t, "sub", names...), pick(t, "obj", names...), pick(t, "eft", "allow", "deny")}
			if chance(t, "link", 50) {
				r = []string{"g" + k, pick(t, "sub", names...), pick(t, "role", names...)}
			}
			if len(rules) > 0 && chance(t, "remove", 25) {
				r = rules[num(t, "rule", 0, len(rules)-1)]
				ok, err := e.RemoveRule(clone(r))
				if err != nil || !ok {
					t.Fatalf("RemoveRule(%q) = %v, %v\n%s", r, ok, err, c.desc.String())
				}
				rules = without(rules, r)
				c.logf("remove %q", r)
				return
			}
			ok, err := e.AddRule(clone(r))
			if err != nil || ok == contains(rules, r) {
				t.Fatalf("AddRule(%q) = %v, %v\n%s", r, ok, err, c.desc.String())
			}
			rules = append(without(rules, r), r)
			c.logf("add %q", r)
		}
		c.logf("%d definitions", n)
		verify := func(e *fastac.Enforcer) {
			if got := allRules(e.GetModel()); !sameRules(got, rules) {
				t.Fatalf("the model holds %q, want %q\n%s", got, rules, c.desc.String())
			}
			for i := 0; i < n; i++ {
				k := suffix(i)
				links := map[string][]string{}
				matching, effs := [][]string{}, []string{}
				for _, r := range rules {
					if r[0] == "g"+k {
						links[r[1]] = append(links[r[1]], r[2])
					}
				}
				sub, obj := pick(t, "sub", names...), pick(t, "obj", names...)
				reach := map[string]bool{sub: true}
				for todo := []string{sub}; len(todo) > 0; todo = todo[1:] {
					for _, x := range links[todo[0]] {
						if !reach[x] {
							reach[x] = true
							todo = append(todo, x)
						}
					}
				}
				empty := true
				for _, r := range rules {
					if r[0] == "p"+k {
						empty = false
						if reach[r[1]] && r[2] == obj {
							matching, effs = append(matching, r), append(effs, r[3])
						}
					}
				}
				opts := []interface{}{fastac.SetRequestDef("r" + k), fastac.SetMatcher("m" + k), fastac.SetEffector("e" + k), sub, obj}
				if got, err := e.Filter(opts...); err != nil || !sameRules(got, matching) {
					t.Fatalf("m%s: Filter(%q, %q) = %q, %v, want %q\n%s", k, sub, obj, got, err, matching, c.desc.String())
				}
				if empty {
					continue
				}
				want := refMerge(effects[i], effs)
				if got, err := e.Enforce(opts...); err != nil || got != want {
					t.Fatalf("m%s: Enforce(%q, %q) = %v, %v, want %v\n%s", k, sub, obj, got, err, want, c.desc.String())
				}
			}
		}
		for i := num(t, "changes", 0, 30) + 2*n; i > 0; i-- {
			change()
		}
		verify(e)
		for i := num(t, "more changes", 1, 10); i > 0; i-- {
			change()
		}
		verify(e)
		// printed and loaded again
		f, err := mkEnf(e.GetModel().String(), rules...)
		must(t, err)
		verify(f)
		c.nt(n > 10)
	})
}
