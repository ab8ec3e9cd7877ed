package harness

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/Knetic/govaluate"
	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage/adapter"
	"pgregory.net/rapid"
)

// ---- malformed texts

var exprTokens = []string{"(", ")", "((", "))", "&&", "||", "!", "==", "!=", "=~", "!~", " in ", ",", "+", "-", "*", "/", "%", "<", ">", "<=", "?", ":", "??", "&", "|", "^", "~", "**", "<<",
	"'", `"`, "\\", "''", "'a'", `"b"`, "'a' == 'a'", "1", "0", "true", "false", "0x", "1.", ".", "..", "r.sub", "p.sub", "r.obj", "p.obj", "r.", "p.", "r", "p", "g", "r_sub", "p_sub", "r2.sub", "p2.sub", "g2",
	"r.sub.Name", "r.sub.Nope()", "r.ent.Name", "g(", "g(r.sub, p.sub)", "g()", "g(r.sub)", "g(r.sub, p.sub, p.obj)", "keyMatch(r.obj, p.obj)", "pathMatch(", "pathMatch(r.obj, p.obj)", "regexMatch(r.obj, p.obj)", "eval(", "eval(p.sub)", "eval(r.sub)", "eval(r.obj)", "eval('r.sub == p.sub')", "nope(r.sub)",
	"[", "]", "[r.sub]", "{", "}", "#", ";", "`", "\n", "\t", " ", "\x00", "ü", "\xff", "2006-01-02", "'2006-01-02'", "(1, 2)", "('a', 'b')", "$", "@", "=", "%(m)s", "%(p)s", "p.eft", "&&&&", "|| ||", "() "}

var modelTokens = append([]string{"[", "]", "=", "\n", "\n\n", "[matchers]", "[policy_definition]", "[request_definition]", "[role_definition]", "[policy_effect]", "[x]", "[]", "m = ", "p = ", "r = ", "g = _, _", "g = _", "g2 = _, _, _", "e = ", "e2 = ", "m2 = ",
	"some(where (p.eft == allow))", "!some(where (p.eft == deny))", "p.eft", "\\\n", `"""`, "'''", "\r", "\r\n", "# ", "_, _", "sub, obj", ", ,", "\ufeff", "r3", "p = sub\np = obj", "m = m", "DEFAULT", "key"}, exprTokens...)

var policyTokens = []string{",", ", ", "p, ", "g, ", "p2, ", "g2, ", "x, ", "\"", "\"\"", "\n", "\r\n", "\r", "#", " ", "\t", "alice", "data1", "read", "allow", "\x00", "\ufeff", "ü", "\xff", "\"a\nb\"", "p", "g", "eval(r.sub)", "p, a, b", "p, a", "g, a, b", "g, a", "g,", "p,", ",p", "(", "'"}

// mutate changes s at some places, which are not inside of a rune
func mutate(t *rapid.T, s string, n int, tokens []string) string {
	cut := func(name string, hi int) int {
		i := num(t, name, 0, hi)
		for i > 0 && i < len(s) && !utf8.RuneStart(s[i]) {
			i--
		}
		return i
	}
	for ; n > 0; n-- {
		i := cut("at", len(s))
		switch num(t, "edit", 0, 6) {
		case 0, 1:
			s = s[:i] + pick(t, "token", tokens...) + s[i:]
		case 2: // replaced by a token
			s = s[:i] + pick(t, "token", tokens...) + s[min(len(s), i+num(t, "len", 1, 3)):]
		case 3:
			s = s[:i] + s[min(len(s), i+num(t, "len", 1, 8)):]
		case 4: // a part once more
			j := min(len(s), i+num(t, "len", 1, 20))
			k := cut("to", len(s))
			s = s[:k] + s[i:j] + s[k:]
		case 5:
			s = s[:i]
		case 6:
			if i < len(s) {
				s = s[:i] + rapid.StringN(1, 2, 8).Draw(t, "chars") + s[i+1:]
			}
		}
	}
	return s
}

func soup(t *rapid.T, tokens []string, max int) string {
	var b strings.Builder
	for i := num(t, "tokens", 0, max); i > 0; i-- {
		b.WriteString(pick(t, "token", tokens...))
	}
	return b.String()
}

// tooComplex texts are not judged
func tooComplex(s string) bool {
	return len(s) > 6000
}

func guarded(t *rapid.T, c *Case, what string, fn func()) {
	t.Helper()
	var stack string
	p := func() (p interface{}) {
		defer func() {
			if p = recover(); p != nil {
				stack = string(debug.Stack())
			}
		}()
		fn()
		return nil
	}()
	if p != nil {
		if strings.HasPrefix(fmt.Sprintf("%T", p), "rapid.") {
			panic(p) // a failure inside of fn
		}
		t.Fatalf("%s panics: %v\n%s\n%s", what, p, c.desc.String(), stack)
	}
}

var anyKeys = []string{"p", "p", "p", "g", "p2", "g2", "p3", "x", ""}
var anyVals = []string{"alice", "bob", "data1", "/a/b", "read", "", "r.sub == p.sub", "eval(p.sub)", "eval(p.obj)", "eval(r.sub)", "(", "r.sub ==", ")", "true", "'", "r.nope", "allow", "deny", "1", "g(r.sub, r.sub)", "g(", "r_sub == 'alice') || (true"}
var anyReq = []interface{}{"alice", "bob", "data1", "/a/b", "", 1, 2.5, true, nil, []string{"a"}, struct{ Name string }{"n"}, newEntity("n", "o"), map[string]interface{}{"a": 1}, errors.New("e"), "eval(r.sub)", "r.sub == p.sub", "(", "[", "*"}

// exercise uses a model which was accepted
func exercise(t *rapid.T, c *Case, m *model.Model, expressions int) {
	var e *fastac.Enforcer
	guarded(t, c, "NewEnforcer", func() {
		var err error
		e, err = fastac.NewEnforcer(m, nil)
		must(t, err)
	})
	for i := num(t, "uses", 2, 8); i > 0; i-- {
		switch num(t, "use", 0, 6) {
		case 0, 1:
			r := []string{}
			if chance(t, "key", 95) {
				r = append(r, pick(t, "rule key", anyKeys...))
			}
			n := num(t, "values", 0, 4)
			if len(r) > 0 && chance(t, "right", 80) { // as many as the definition has
				if d, ok := m.GetDef('p', r[0]); ok && r[0] != "" && r[0][0] == 'p' {
					n = strings.Count(d.String(), ",") + 1
				} else if r[0] != "" && r[0][0] == 'g' {
					n = 2
				}
			}
			for ; n > 0; n-- {
				r = append(r, pick(t, "value", anyVals...))
			}
			c.logf("AddRule %q", r)
			guarded(t, c, "AddRule", func() {
				ok, err := m.AddRule(clone(r))
				if ok && err != nil {
					t.Fatalf("AddRule(%q) = true, %v\n%s", r, err, c.desc.String())
				}
				has := false
				m.RangeRules(func(x []string) bool { has = has || keyOf(x) == keyOf(r); return true })
				plain := len(r) == 0 || len(r) == 3 || r[0] == "" || r[0][0] != 'g' // a domain is ignored by definitions without domains
				if err == nil && !has && plain {
					t.Fatalf("%q was accepted, but is not there\n%s", r, c.desc.String())
				}
				if err != nil && has && plain {
					t.Fatalf("%q was refused (%v), but is there\n%s", r, err, c.desc.String())
				}
				if err != nil {
					c.label("rule refused")
				}
			})
		case 2:
			guarded(t, c, "RangeRules, RemoveRule", func() {
				rules := [][]string{}
				m.RangeRules(func(r []string) bool { rules = append(rules, clone(r)); return true })
				if len(rules) > 0 {
					_, err := m.RemoveRule(rules[num(t, "rule", 0, len(rules)-1)])
					if err != nil {
						t.Fatalf("RemoveRule of a present rule: %v\n%s", err, c.desc.String())
					}
				}
			})
		case 3:
			guarded(t, c, "String", func() { _ = m.String() })
		default:
			req := []interface{}{}
			for j := num(t, "parameters", 0, 4); j > 0; j-- {
				req = append(req, pick(t, "parameter", anyReq...))
			}
			opts := []interface{}{}
			if chance(t, "options", 20) {
				text := soup(t, exprTokens, 6)
				if expressions > 0 && !tooComplex(text) {
					opts = append(opts, fastac.SetMatcher(text))
					c.logf("matcher %q", text)
				}
			} else if chance(t, "option", 10) {
				opts = append(opts, pick(t, "opt", fastac.SetMatcher("m"), fastac.SetMatcher("m2"), fastac.SetRequestDef("r2"), fastac.SetRequestDef(""), fastac.SetEffector("e"), fastac.SetEffector("e2"), fastac.SetEffector(""), fastac.SetEffector("some(where"), fastac.SetMatcher("")))
			}
			c.logf("Enforce(%s), %d options", showReq(req), len(opts))
			guarded(t, c, "Enforce", func() {
				ok, err := e.Enforce(append(opts, req...)...)
				if ok && err != nil {
					t.Fatalf("Enforce(%s) = true, %v\n%s", showReq(req), err, c.desc.String())
				}
				c.labelIf(ok, "permitted")
				c.labelIf(err == nil && !ok, "denied")
				c.labelIf(err != nil, "error")
			})
			guarded(t, c, "Filter", func() {
				rules, err := e.Filter(append(opts, req...)...)
				present := map[string]bool{}
				m.RangeRules(func(x []string) bool { present[keyOf(x)] = true; return true })
				for _, r := range rules {
					if err == nil && !present[keyOf(r)] {
						t.Fatalf("Filter(%s) returned %q, which is no rule\n%s", showReq(req), r, c.desc.String())
					}
				}
			})
		}
	}
}

const plainModel = `[request_definition]
r = sub, obj

[policy_definition]
p = sub, obj

[role_definition]
g = _, _

[policy_effect]
e = some(where (p.eft == allow))

[matchers]
m = g(r.sub, p.sub) && r.obj == p.obj
`

func TestC24_ModelText(t *testing.T) {
	check(t, 5000, "texts of random models with random edits, and random sequences of tokens, loaded as a model, which is then used; non-trivial: an edited text was accepted, or refused with more than half of it left", func(t *rapid.T, c *Case) {
		text, whole := "", 0
		switch num(t, "source", 0, 5) {
		case 0:
			text = soup(t, modelTokens, 30)
		case 1, 2:
			text, whole = mutate(t, plainModel, num(t, "edits", 1, 4), modelTokens), len(plainModel)
		default:
			s := genScenario(t, scenarioOpts{depth: 2, maxRules: 1, nReq: 1})
			m := writeText(t, s.definitions(s.m.String()))
			text, whole = mutate(t, m, num(t, "edits", 1, 4), modelTokens), len(m)
		}
		if tooComplex(text) {
			return
		}
		c.logf("%q", text)
		m := newModel()
		var err error
		guarded(t, c, "LoadModelFromText", func() { err = m.LoadModelFromText(text) })
		c.logf("%v", err)
		c.labelIf(err == nil, "accepted")
		c.labelIf(err != nil, "refused")
		c.nt(whole > 0 && (err == nil || len(text) > whole/2))
		if err == nil {
			exercise(t, c, m, 1)
			guarded(t, c, "String", func() { _ = m.String() })
		}
	})
}

func TestC24_Definitions(t *testing.T) {
	check(t, 3000, "a usable model gets definitions with malformed keys and values, or loses some, is rebuilt and used; a refused definition leaves the one before in force; non-trivial: a definition was refused", func(t *rapid.T, c *Case) {
		m := newModel()
		must(t, m.LoadModelFromText(plainModel))
		for i := num(t, "changes", 1, 4); i > 0; i-- {
			sec := pick(t, "section", byte('r'), 'p', 'g', 'e', 'm', 'm', 'm', 'x', 0)
			key := pick(t, "key", string(sec), string(sec), string(sec)+"2", "", "p", "m2", string(sec)+"x", "é", " "+string(sec), string(sec)+"_")
			var value string
			switch {
			case chance(t, "soup", 30):
				value = soup(t, modelTokens, 8)
			case sec == 'm':
				value = mutate(t, "g(r.sub, p.sub) && (r.obj == p.obj || r.sub == 'root')", num(t, "edits", 1, 3), exprTokens)
			case sec == 'e':
				value = mutate(t, "some(where (p.eft == allow)) && !some(where (p.eft == deny))", num(t, "edits", 0, 2), modelTokens)
			default:
				value = mutate(t, pick(t, "value", "sub, obj", "_, _", "sub, obj, eft", "_, _, _"), num(t, "edits", 0, 2), modelTokens)
			}
			if tooComplex(value) {
				continue
			}
			before := m.String()
			if chance(t, "remove", 20) {
				guarded(t, c, "RemoveDef", func() {
					err := m.RemoveDef(sec, key)
					c.logf("remove %c %q: %v", sec, key, err)
				})
				continue
			}
			guarded(t, c, "SetDef", func() {
				err := m.SetDef(sec, key, value)
				c.logf("set %c %q = %q: %v", sec, key, value, err)
				if err != nil {
					c.nt(true)
					if after := m.String(); after != before {
						t.Fatalf("a refused definition changed the model\n%s\nto\n%s\n%s", before, after, c.desc.String())
					}
				}
			})
		}
		var err error
		guarded(t, c, "BuildMatchers", func() { err = m.BuildMatchers() })
		c.logf("build: %v", err)
		c.labelIf(err == nil, "built")
		c.nt(err != nil)
		if err == nil {
			exercise(t, c, m, 0)
		}
	})
}

var exprParts = []struct {
	reg  *regexp.Regexp
	alts []string
}{
	{regexp.MustCompile(`r\.sub|r\.obj|p\.sub|p\.obj|'[^']*'|\btrue\b`), []string{"r.sub", "r.obj", "p.sub", "p.obj", "'root'", "'data1'", "'&&'", "'||'", "'('", "')'", "'r.sub'", "' '", "''", `"alice"`, "1", "true", "r_sub", "p_obj", "[r.sub]", "(r.sub)", "((p.sub))", "r.sub + p.sub", "(r.sub == p.sub)", "`a`", `'a\'b'`}},
	{regexp.MustCompile(`==|!=|=~`), []string{"==", "!=", "=~", "!~", "==", "<", ">=", "==!", "== (", ") =="}},
	{regexp.MustCompile(`&&|\|\|`), []string{"&&", "||", "&&", "||", "&& !", "|| !", "&& true &&", "|| false ||", "&& (true) ||", "?? ", "==", ") && (", ") || (", "\n&&\n", "? true :", "? r.sub == 'alice' :"}},
	{regexp.MustCompile(`keyMatch|g\(`), []string{"keyMatch", "g(", "keyMatch2(", "pathMatch(", "!g(", "!keyMatch("}},
}

// exchange replaces some parts of an expression by parts of the same kind
func exchange(t *rapid.T, s string, n int) string {
	for ; n > 0; n-- {
		p := exprParts[num(t, "kind", 0, len(exprParts)-1)]
		at := p.reg.FindAllStringIndex(s, -1)
		if len(at) == 0 {
			continue
		}
		x := at[num(t, "part", 0, len(at)-1)]
		s = s[:x[0]] + pick(t, "by", p.alts...) + s[x[1]:]
	}
	return s
}

var stringLit = regexp.MustCompile(`'(\\.|[^\\'])*'`)

// balanced: brackets outside of string literals
func balanced(expr string) bool {
	depth := 0
	for _, r := range stringLit.ReplaceAllString(expr, "s") {
		switch r {
		case '(':
			depth++
		case ')':
			if depth--; depth < 0 {
				return false
			}
		}
	}
	return depth == 0
}

var argName = regexp.MustCompile(`\b([rp])\.(sub|obj)\b`)

func TestC24_Expressions(t *testing.T) {
	check(t, 8000, "matchers with random edits, set in a model, ad hoc, and as eval rule: either refused or decided; if brackets do not match they are refused, and if govaluate evaluates the text to true or false for every rule, exactly the rules with true match; non-trivial: an edited matcher was decided or an unbalanced one refused", func(t *rapid.T, c *Case) {
		base := pick(t, "matcher",
			"g(r.sub, p.sub) && (r.obj == p.obj || r.sub == 'root')",
			"r.sub == p.sub && r.obj == p.obj",
			"(r.sub == p.sub || p.sub == '*') && (keyMatch(r.obj, p.obj) || r.obj == p.obj)",
			"!(r.sub != p.sub) && r.obj in (p.obj, 'data2')",
			"r.sub == p.sub && r.obj == p.obj || r.sub == 'root'",
			"(r.sub == 'root' ? true : r.sub == p.sub) && r.obj == p.obj",
			"r.sub =~ p.sub && r.obj + '1' == p.obj")
		text := base
		switch num(t, "source", 0, 6) {
		case 0:
			text = soup(t, exprTokens, 14)
		case 1:
			text = mutate(t, base, num(t, "edits", 1, 3), exprTokens)
		case 2:
			text = mutate(t, exchange(t, base, 2), 1, exprTokens)
		default:
			text = exchange(t, base, num(t, "edits", 1, 4))
		}
		if tooComplex(text) {
			return
		}
		c.logf("%q", text)
		m := newModel()
		must(t, m.LoadModelFromText(plainModel))
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		rules := [][]string{}
		for i := num(t, "rules", 1, 4); i > 0; i-- {
			r := []string{"p", pick(t, "sub", "alice", "bob", "*", "(r", "admin", ""), pick(t, "obj", "data1", "data2", "/a/b", "/a/*", "alice", "")}
			if !contains(rules, r) {
				rules = append(rules, r)
			}
		}
		addAll(t, e, rules...)
		addAll(t, e, []string{"g", "alice", "admin"})
		c.logf("%q", rules)
		req := []interface{}{pick(t, "r.sub", "alice", "bob", "root", ""), pick(t, "r.obj", "data1", "data2", "/a/b", "alice")}
		c.logf("%s", showReq(req))
		normal, err := e.Filter(req...)
		must(t, err)

		var got [][]string
		var ok bool
		how := pick(t, "how", "defined", "adhoc", "eval")
		ask := func(params ...interface{}) {
			guarded(t, c, "Enforce", func() { ok, err = e.Enforce(params...) })
			if ok && err != nil {
				t.Fatalf("permitted with %v\n%s", err, c.desc.String())
			}
			guarded(t, c, "Filter", func() {
				var err2 error
				got, err2 = e.Filter(params...)
				if err == nil && err2 != nil && !ok {
					t.Fatalf("Enforce = false without an error, but Filter fails: %v\n%s", err2, c.desc.String())
				}
				if err2 == nil && err == nil && ok != (len(got) > 0) {
					t.Fatalf("Enforce = %v, but Filter = %q\n%s", ok, got, c.desc.String())
				}
				if err == nil {
					err = err2
				}
			})
		}
		switch how {
		case "defined":
			guarded(t, c, "SetDef, BuildMatchers", func() {
				if err = m.SetDef('m', "m", text); err == nil {
					err = m.BuildMatchers()
				}
			})
			if err == nil {
				ask(req...)
			}
		case "adhoc":
			if key := strings.TrimSpace(text); key == "m" || regexp.MustCompile(`^m\d*$`).MatchString(text) {
				return
			}
			ask(append([]interface{}{fastac.SetMatcher(text)}, req...)...)
		case "eval":
			must(t, m.SetDef('p', "p2", "rule, sub, obj"))
			must(t, m.SetDef('m', "m2", "eval(p2.rule)"))
			must(t, m.BuildMatchers())
			for _, r := range rules {
				addAll(t, e, []string{"p2", strings.ReplaceAll(strings.ReplaceAll(text, "p.sub", "p2.sub"), "p.obj", "p2.obj"), r[1], r[2]})
			}
			ask(append([]interface{}{fastac.SetMatcher("m2")}, req...)...)
			for i, r := range got {
				got[i] = []string{"p", r[2], r[3]}
			}
		}
		c.logf("%s: %v, %v, %q", how, ok, err, got)
		c.label(how)
		c.labelIf(err != nil, "refused")
		c.labelIf(err == nil, "decided")
		if !strings.ContainsAny(text, `"\[]#`) && strings.Count(text, "'")%2 == 0 && !balanced(text) {
			if err == nil {
				t.Fatalf("a matcher with misplaced brackets is decided\n%s", c.desc.String())
			}
			c.label("unbalanced")
			c.nt(true)
		}
		if err == nil {
			c.nt(text != base)
			if want, fine := wholeText(text, req, rules); fine && !(how == "eval" && strings.Contains(text, "p_")) {
				c.label("against govaluate")
				if !sameRules(want, got) {
					t.Fatalf("Filter = %q, but the matcher holds for %q\n%s", got, want, c.desc.String())
				}
			}
		}
		if how != "defined" { // nothing else changed
			guarded(t, c, "Filter", func() {
				again, err := e.Filter(req...)
				if err != nil || !sameRules(again, normal) {
					t.Fatalf("the default matcher gives %q, %v instead of %q\n%s", again, err, normal, c.desc.String())
				}
			})
		}
	})
}

// wholeText evaluates text as one expression for each rule
// fine is false, if that is not possible for each of them
func wholeText(text string, req []interface{}, rules [][]string) (res [][]string, fine bool) {
	if strings.Contains(text, "eval") {
		return nil, false
	}
	// names outside of literals only
	if strings.ContainsAny(text, `"\[]`) || strings.Count(text, "'")%2 != 0 {
		return nil, false
	}
	parts := strings.Split(text, "'")
	for i := 0; i < len(parts); i += 2 {
		parts[i] = argName.ReplaceAllString(parts[i], "${1}_$2")
	}
	if regexp.MustCompile(`[rpg]\d*\.`).MatchString(strings.Join(parts, "''")) {
		return nil, false
	}
	functions := map[string]govaluate.ExpressionFunction{}
	for name, f := range newModelFunctions() {
		functions[name] = f
	}
	functions["g"] = func(args ...interface{}) (interface{}, error) {
		if len(args) != 2 {
			return nil, errors.New("arguments")
		}
		a, ok1 := args[0].(string)
		b, ok2 := args[1].(string)
		if !ok1 || !ok2 {
			return nil, errors.New("type")
		}
		return a == b || a == "alice" && b == "admin", nil
	}
	defer func() {
		if recover() != nil {
			res, fine = nil, false
		}
	}()
	x, err := govaluate.NewEvaluableExpressionWithFunctions(strings.Join(parts, "'"), functions)
	if err != nil {
		return nil, false
	}
	for _, r := range rules {
		v, err := x.Evaluate(map[string]interface{}{"r_sub": req[0], "r_obj": req[1], "p_sub": r[1], "p_obj": r[2]})
		b, isBool := v.(bool)
		if err != nil || !isBool {
			return nil, false
		}
		if b {
			res = append(res, r)
		}
	}
	return res, true
}

func newModelFunctions() map[string]govaluate.ExpressionFunction {
	res := map[string]govaluate.ExpressionFunction{}
	for name, f := range refFns() {
		f := f
		res[name] = func(args ...interface{}) (interface{}, error) { return f(args) }
	}
	return res
}

func TestC24_PolicyText(t *testing.T) {
	check(t, 5000, "policy files and lines with random edits are loaded; what was accepted is listed, queried, saved and loaded again; a text which is refused only for its form leaves no rule but those in front of it; non-trivial: some rules were loaded from an edited text", func(t *rapid.T, c *Case) {
		var b strings.Builder
		for i := num(t, "lines", 0, 5); i > 0; i-- {
			b.WriteString(pick(t, "line", "p, alice, data1", "g, alice, admin", "p, bob, \"a, b\"", "# comment", "", "  p , x ,y", "p, \"a\nb\", c", "g,a,b") + pick(t, "nl", "\n", "\n", "\r\n"))
		}
		text := mutate(t, b.String(), num(t, "edits", 0, 4), policyTokens)
		if chance(t, "soup", 20) {
			text = soup(t, policyTokens, 20)
		}
		c.logf("%q", text)
		m := newModel()
		must(t, m.LoadModelFromText(plainModel))
		if chance(t, "role patterns", 40) { // names of roles are not trusted either
			rm, _ := m.GetRoleManager("g")
			rm.(rbac.IDefaultRoleManager).SetMatcher(patterns[num(t, "which", 0, len(patterns)-1)].sut())
			text = strings.ReplaceAll(text, pick(t, "name", "alice", "bob", "admin"), pick(t, "pattern", "p'(", "p'^a", "p'[", "glob:[", "*", "/:x", "p'*", "/*/*"))
		}
		set := adapter.NewRuleSet()
		var err, err2 error
		if chance(t, "line", 30) {
			guarded(t, c, "LoadPolicyLine", func() { err = adapter.LoadPolicyLine(text, m) })
			guarded(t, c, "LoadPolicyLine", func() { err2 = adapter.LoadPolicyLine(text, set) })
		} else {
			path, cleanup := scratch(t)
			defer cleanup()
			must(t, os.WriteFile(path, []byte(text), 0o600))
			a := adapter.NewFileAdapter(path)
			guarded(t, c, "LoadPolicy", func() { err = a.LoadPolicy(m) })
			guarded(t, c, "LoadPolicy", func() { err2 = a.LoadPolicy(set) })
			if err2 != nil {
				// changes of a file which cannot be read are refused, the file is left as it is
				var err3 error
				r := []string{"p", "new", "rule"}
				op := pick(t, "change", "add", "remove")
				guarded(t, c, op, func() {
					if op == "add" {
						err3 = a.AddRule(r)
					} else {
						err3 = a.RemoveRule(r)
					}
				})
				now, err4 := os.ReadFile(path)
				must(t, err4)
				c.logf("%s: %v", op, err3)
				if err3 != nil && string(now) != text {
					t.Fatalf("a change was refused (%v), but the file is %q\n%s", err3, now, c.desc.String())
				}
				if err3 == nil && !strings.HasPrefix(string(now), text) {
					t.Fatalf("the content of an unreadable file is gone, left is %q\n%s", now, c.desc.String())
				}
			}
		}
		c.logf("%v, %v", err, err2)
		c.labelIf(err != nil, "refused")
		if err2 == nil && err != nil {
			c.label("refused by the model")
		}
		rules := [][]string{}
		guarded(t, c, "RangeRules", func() {
			m.RangeRules(func(r []string) bool { rules = append(rules, clone(r)); return true })
		})
		c.logf("%q", rules)
		c.nt(len(rules) > 0)
		for _, r := range rules {
			if len(r) < 1 || r[0] != "p" && r[0] != "g" {
				t.Fatalf("%q was loaded\n%s", r, c.desc.String())
			}
		}
		if err == nil {
			c.label("accepted")
			want := [][]string{}
			for _, r := range set.Rules() {
				if r[0] == "g" {
					r = r[:3] // g = _, _ ignores domains
				}
				if !contains(want, r) {
					want = append(want, r)
				}
			}
			if !sameRules(rules, want) {
				t.Fatalf("the model has %q, a rule set got %q\n%s", rules, set.Rules(), c.desc.String())
			}
			path, cleanup := scratch(t)
			defer cleanup()
			a := adapter.NewFileAdapter(path)
			guarded(t, c, "SavePolicy", func() { must(t, a.SavePolicy(m)) })
			m2 := newModel()
			must(t, m2.LoadModelFromText(plainModel))
			guarded(t, c, "LoadPolicy", func() { must(t, a.LoadPolicy(m2)) })
			again := [][]string{}
			m2.RangeRules(func(r []string) bool { again = append(again, clone(r)); return true })
			crlf := func(rules [][]string) [][]string {
				res := [][]string{}
				for _, r := range rules {
					x := []string{}
					for _, v := range r {
						x = append(x, strings.ReplaceAll(v, "\r\n", "\n")) // known finding of C10
					}
					if !contains(res, x) {
						res = append(res, x)
					}
				}
				return res
			}
			if !sameRules(crlf(rules), crlf(again)) {
				t.Fatalf("saved %q, loaded %q\n%s", rules, again, c.desc.String())
			}
		}
		exercise(t, c, m, 0)
	})
}

// TestC24_Files: a new enforcer from files and objects which exist, are missing, or are malformed
func TestC24_Files(t *testing.T) {
	check(t, 1500, "enforcers from a model file, model value or pointer and a policy file, adapter or none, with options; each of them may be missing, malformed or fail: then there is an error and no enforcer, otherwise it decides, holds the rules of the file, and stores changes as the options say; non-trivial: refused, or a file with rules was loaded", func(t *rapid.T, c *Case) {
		text := plainModel
		if chance(t, "edit model", 40) {
			text = mutate(t, plainModel, num(t, "edits", 1, 3), modelTokens)
		}
		policy := strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"p, alice, data1", "g, alice, admin", "p, admin, data2", "p, \"a, b\", x", "g, bob, admin"}), 0, 4).Draw(t, "policy"), "\n")
		if chance(t, "edit policy", 30) {
			policy = mutate(t, policy, num(t, "edits", 1, 3), policyTokens)
		}
		if tooComplex(text) {
			return
		}
		modelPath, cleanup := scratch(t)
		defer cleanup()
		must(t, os.WriteFile(modelPath, []byte(text), 0o600))
		policyPath, cleanup2 := scratch(t)
		defer cleanup2()
		must(t, os.WriteFile(policyPath, []byte(policy), 0o600))

		refused := false
		ref := newModel()
		if err := ref.LoadModelFromText(text); err != nil {
			refused = true
		}
		var modelArg, adapterArg interface{}
		kind := pick(t, "model", "file", "file", "value", "pointer", "missing", "directory", "nil", "other")
		switch kind {
		case "file":
			modelArg = modelPath
		case "value", "pointer":
			m := newModel()
			if err := m.LoadModelFromText(text); err != nil {
				return
			}
			modelArg = m
			if kind == "value" {
				modelArg = *m
			}
		case "missing":
			modelArg, refused = modelPath+".no", true
		case "directory":
			modelArg, refused = filepath.Dir(modelPath), true
		case "other":
			modelArg, refused = pick[interface{}](t, "object", 1, []byte(text), struct{}{}, ref.String), true
		default:
			refused = true
		}
		set := adapter.NewRuleSet()
		file := adapter.NewFileAdapter(policyPath)
		kindA := pick(t, "adapter", "file", "file", "object", "none", "missing", "directory")
		want := [][]string{}
		switch kindA {
		case "file":
			adapterArg = policyPath
			if !refused {
				refused = file.LoadPolicy(ref) != nil
				ref.RangeRules(func(r []string) bool { want = append(want, clone(r)); return true })
			}
		case "object":
			adapterArg = file
		case "missing":
			adapterArg, refused = policyPath+".no", true
		case "directory":
			adapterArg, refused = filepath.Dir(policyPath), true
		}
		var opts []fastac.Option
		autosave, storing := false, kindA != "none"
		for i := num(t, "options", 0, 3); i > 0; i-- {
			switch num(t, "option", 0, 4) {
			case 0, 1:
				autosave = chance(t, "autosave", 50)
				opts = append(opts, fastac.OptionAutosave(autosave))
			case 2, 3:
				storing = chance(t, "storage", 60)
				opts = append(opts, fastac.OptionStorage(storing))
			case 4:
				if chance(t, "failing option", 50) {
					refused = true
					opts = append(opts, func(e *fastac.Enforcer) error { return errors.New("option") })
				}
			}
		}
		c.logf("model %s %q, adapter %s %q, %d options, autosave %v, storage %v: refused %v", kind, text, kindA, policy, len(opts), autosave, storing, refused)
		var e *fastac.Enforcer
		var err error
		guarded(t, c, "NewEnforcer", func() { e, err = fastac.NewEnforcer(modelArg, adapterArg, opts...) })
		c.nt(refused || len(want) > 0)
		c.labelIf(refused, "refused")
		if refused != (err != nil) || refused != (e == nil) {
			t.Fatalf("NewEnforcer: enforcer %v, error %v\n%s", e != nil, err, c.desc.String())
		}
		if now, err := os.ReadFile(policyPath); err != nil || string(now) != policy {
			t.Fatalf("the policy file is %q, %v\n%s", now, err, c.desc.String())
		}
		if refused {
			return
		}
		rules := [][]string{}
		e.GetModel().RangeRules(func(r []string) bool { rules = append(rules, clone(r)); return true })
		if !sameRules(rules, want) {
			t.Fatalf("rules %q, want %q\n%s", rules, want, c.desc.String())
		}
		r := []string{"p", "new", "rule"}
		before := adapter.NewRuleSet()
		if file.LoadPolicy(before) != nil {
			return // cannot be changed
		}
		added, err := e.AddRule(clone(r))
		if err != nil || !added {
			c.label("no rule p, new, rule")
			return // the edited model has another policy definition, or there is such a rule
		}
		stored := func() bool {
			must(t, file.LoadPolicy(set))
			return contains(set.Rules(), r)
		}
		if in := stored(); !contains(before.Rules(), r) && in != (storing && autosave && kindA != "none") {
			t.Fatalf("after AddRule: stored %v\n%s", in, c.desc.String())
		}
		if err := e.Flush(); err != nil && !contains(before.Rules(), r) {
			t.Fatalf("Flush: %v\n%s", err, c.desc.String())
		}
		if in := stored(); !contains(before.Rules(), r) && in != (storing && kindA != "none") {
			t.Fatalf("after Flush: stored %v\n%s", in, c.desc.String())
		}
	})
}

// TestC24_Alternatives: the alternatives of (a || b) && (c || d) && ... multiply
func TestC24_Alternatives(t *testing.T) {
	check(t, 150, "matchers with up to 40 clauses, each with up to 4 alternatives, set in a model, ad hoc, and as eval rule: within 20 seconds they are refused, or decided like a plain evaluation of the text; matchers with at most 500 alternatives are not refused; non-trivial: more than 1000 alternatives", func(t *rapid.T, c *Case) {
		m := newModel()
		must(t, m.LoadModelFromText(plainModel))
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		objs := []string{"data1", "data2"}
		addAll(t, e, []string{"p", "alice", "data1"}, []string{"p", "alice", "data2"}, []string{"p", "bob", "data1"})
		sub, obj := pick(t, "r.sub", "alice", "bob"), pick(t, "r.obj", objs...)
		n := num(t, "clauses", 1, 12)
		if chance(t, "many", 40) {
			n = num(t, "more clauses", 10, 40)
		}
		total := 1
		parts := []string{}
		truth := map[string]bool{} // of the whole matcher, by rule
		rules := [][]string{{"alice", "data1"}, {"alice", "data2"}, {"bob", "data1"}}
		for _, r := range rules {
			truth[keyOf(r)] = true
		}
		for i := 0; i < n; i++ {
			k := num(t, "alternatives", 1, 4)
			alts := []string{}
			holds := map[string]bool{}
			for j := 0; j < k; j++ {
				a := pick(t, "alternative", "r.sub == p.sub", "r.obj == p.obj", "p.obj == 'data1'", "r.sub == 'bob'", "p.sub != 'bob'", "true")
				alts = append(alts, a)
				for _, r := range rules {
					switch a {
					case "r.sub == p.sub":
						holds[keyOf(r)] = holds[keyOf(r)] || sub == r[0]
					case "r.obj == p.obj":
						holds[keyOf(r)] = holds[keyOf(r)] || obj == r[1]
					case "p.obj == 'data1'":
						holds[keyOf(r)] = holds[keyOf(r)] || r[1] == "data1"
					case "r.sub == 'bob'":
						holds[keyOf(r)] = holds[keyOf(r)] || sub == "bob"
					case "p.sub != 'bob'":
						holds[keyOf(r)] = holds[keyOf(r)] || r[0] != "bob"
					default:
						holds[keyOf(r)] = true
					}
				}
			}
			for _, r := range rules {
				truth[keyOf(r)] = truth[keyOf(r)] && holds[keyOf(r)]
			}
			parts = append(parts, "("+strings.Join(alts, " || ")+")")
			if total < 1<<30 {
				total *= k
			}
		}
		text := strings.Join(parts, " && ")
		how := pick(t, "how", "defined", "adhoc", "eval")
		c.logf("%s, %d alternatives, request %s %s: %s", how, total, sub, obj, text)
		c.nt(total > 1000)

		var got [][]string
		w := limit(c, 20*time.Second)
		switch how {
		case "defined":
			if err = m.SetDef('m', "m", text); err == nil {
				err = m.BuildMatchers()
			}
			if err == nil {
				got, err = e.Filter(sub, obj)
			}
		case "adhoc":
			got, err = e.Filter(fastac.SetMatcher(text), sub, obj)
		default:
			if _, err = e.AddRule([]string{"p", text, "x"}); err == nil {
				got, err = e.Filter(fastac.SetMatcher("eval(p.sub)"), sub, obj)
			}
		}
		w.Stop()
		c.labelIf(err != nil, "refused")
		c.label(how)
		if err != nil {
			if total <= 500 && how != "eval" {
				t.Fatalf("refused: %v\n%s", err, c.desc.String())
			}
			return
		}
		if how == "eval" {
			return // p.sub and p.obj of the rule itself
		}
		want := [][]string{}
		for _, r := range rules {
			if truth[keyOf(r)] {
				want = append(want, append([]string{"p"}, r...))
			}
		}
		if !sameRules(got, want) {
			t.Fatalf("Filter = %q, expected %q\n%s", got, want, c.desc.String())
		}
	})
}

// TestC24_EvalFanOut: the eval calls of rules which refer to each other multiply
func TestC24_EvalFanOut(t *testing.T) {
	check(t, 40, "rules with up to 14 columns, each of which evaluates later columns up to 12 times, joined by && and || (the last one is a constant): within 10 seconds the request is refused with an error or answered correctly; fewer than 500 evaluations are never refused; other requests are answered as before; non-trivial: more than 10000 evaluations", func(t *rapid.T, c *Case) {
		heavy := chance(t, "heavy", 40) // every column evaluates all others
		n := num(t, "columns", 1, 14)
		if heavy {
			n = num(t, "more columns", 6, 14)
		}
		args, rule := []string{}, make([]string, n+1)
		rule[0] = "p"
		value := make([]bool, n)
		calls := make([]int, n) // upper bound of the evaluations
		rule[n], value[n-1], calls[n-1] = "true", true, 1
		if !heavy && chance(t, "false", 30) {
			rule[n], value[n-1] = "false", false
		}
		for i := n - 2; i >= 0; i-- {
			all := heavy || chance(t, "and", 50)
			op := map[bool]string{true: " && ", false: " || "}[all]
			value[i], calls[i] = all, 1
			parts := []string{}
			k := num(t, "branches", 1, 12)
			if heavy {
				k = num(t, "more branches", 6, 12)
			}
			for ; k > 0; k-- {
				j := i + 1
				if chance(t, "skip", 15) {
					j = num(t, "to", i+1, n-1)
				}
				not := ""
				v := value[j]
				if !heavy && chance(t, "not", 20) {
					not, v = "!", !v
				}
				parts = append(parts, fmt.Sprintf("%seval(p.c%d)", not, j))
				if all {
					value[i] = value[i] && v
				} else {
					value[i] = value[i] || v
				}
				if calls[i] += calls[j]; calls[i] > 1<<30 {
					calls[i] = 1 << 30
				}
			}
			rule[i+1] = strings.Join(parts, op)
		}
		for i := range value {
			args = append(args, fmt.Sprint("c", i))
		}
		c.logf("%q, at most %d evaluations", rule, calls[0])
		c.nt(calls[0] > 10000)
		m := newModel()
		must(t, m.LoadModelFromText("[request_definition]\nr = sub\n[policy_definition]\np = "+strings.Join(args, ", ")+", sub\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = r.sub == p.sub && eval(p.c0)\n"))
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		simple := []string{"p"}
		for range args {
			simple = append(simple, "true")
		}
		addAll(t, e, append(rule, "alice"), append(simple, "bob"))
		for i := 0; i < 2; i++ {
			w := limit(c, 10*time.Second)
			got, err := e.Enforce("alice")
			w.Stop()
			c.labelIf(err != nil, "refused")
			if err != nil && (got || calls[0] < 500) || err == nil && got != value[0] {
				t.Fatalf("Enforce(alice) = %v, %v, the rule means %v, at most %d evaluations\n%s", got, err, value[0], calls[0], c.desc.String())
			}
			if got, err := e.Enforce("bob"); err != nil || !got {
				t.Fatalf("Enforce(bob) = %v, %v\n%s", got, err, c.desc.String())
			}
		}
	})
}
