package harness

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"pgregory.net/rapid"
)

var sectionNames = map[byte]string{'r': "request_definition", 'p': "policy_definition", 'g': "role_definition", 'e': "policy_effect", 'm': "matchers"}

func newModel() *model.Model {
	m := model.NewModel()
	m.SetFunction("hasPrefix", func(args ...interface{}) (interface{}, error) {
		return strings.HasPrefix(args[0].(string), args[1].(string)), nil
	})
	return m
}

// oddLiteral generates a clause with a literal which means something in a model file
func oddLiteral(t *rapid.T, v *vocab) *ex {
	odd := pick(t, "odd", "a#b", "#", ";x", "a ; b", "`", "`a`", "x\ny", "#\n`", "[matchers]", "=", ":", "a = b", "'", `"`, `a\`, `\`, "$", "%", `"""`, "r.sub", "\t", "x\r")
	x := X("eq", ref(v.rn(pick(t, "rattr", byKind(v.r, "str")...))), &ex{op: "lit", s: odd, dq: chance(t, "dq", 50)})
	if chance(t, "flip", 40) {
		x.kids[0], x.kids[1] = x.kids[1], x.kids[0]
	}
	if chance(t, "not", 30) {
		x.op = "ne"
	}
	return x
}

// outside returns the positions of s which are blanks between tokens
func outside(s string) []int {
	res := []int{}
	quoted, escaped := false, false
	for i, r := range s {
		switch {
		case escaped:
			escaped = false
		case r == '\\':
			escaped = true
		case r == '\'' || r == '"':
			quoted = !quoted
		case r == ' ' && !quoted:
			res = append(res, i)
		}
	}
	return res
}

// writeText writes definitions as a model file, in a random layout
func writeText(t *rapid.T, ds []definition) string {
	bySec := map[byte][]definition{}
	for _, d := range ds {
		bySec[d.sec] = append(bySec[d.sec], d)
	}
	var b strings.Builder
	noise := func() {
		for chance(t, "noise", 20) {
			b.WriteString(pick(t, "line", "\n", "# comment\n", "; [matchers]\n", "   \n", "#\n"))
		}
	}
	unknown := func() { // ignored
		if chance(t, "unknown section", 10) {
			b.WriteString(pick(t, "unknown", "[extra]\n", "[Matchers]\n", "[matcher]\n", "[policy_effect2]\n", "[m]\n") + pick(t, "key", "m = nope(\n", "x = y\n", "r = a, b, c, d\np = p\n", ""))
		}
	}
	if chance(t, "before any section", 10) {
		b.WriteString(pick(t, "key", "m = nope(\n", "x = y\n", "r = a, b, c, d\np = p\n"))
	}
	nl := pick(t, "newline", "\n", "\n", "\r\n")
	for _, sec := range rapid.Permutation([]byte("rpgem")).Draw(t, "sections") {
		if len(bySec[sec]) == 0 {
			continue
		}
		noise()
		unknown()
		b.WriteString("[" + sectionNames[sec] + "]" + pick(t, "after section", "", " ", " # x") + nl)
		for _, d := range rapid.Permutation(bySec[sec]).Draw(t, "order") {
			noise()
			v := d.value
			trailing := pick(t, "trailing", "", "", "", " ", " # comment", " ; m = nope(", "#", "  #, x")
			special := strings.ContainsAny(v, "#;\n`") || strings.HasSuffix(v, `\`) || strings.IndexAny(v, `'"`) == 0
			switch {
			case sec == 'm' && strings.Contains(v, "\n"):
				v = `"""` + v + `"""`
				trailing = ""
			case sec == 'm' && (special || chance(t, "quoted", 20)):
				v = "`" + v + "`"
			case sec == 'm' && chance(t, "continued", 30):
				if o := outside(v); len(o) > 0 {
					i := o[num(t, "break", 0, len(o)-1)]
					v = v[:i] + " \\" + nl + v[i:]
					trailing = "" // (the reader keeps a comment behind continued lines)
				}
			case sec == 'p' || sec == 'r' || sec == 'g':
				v = strings.ReplaceAll(v, ", ", pick(t, "comma", ", ", ",", " , "))
			case sec == 'e':
				v = blanks(t, v)
			}
			b.WriteString(pick(t, "indent", "", "  ") + d.key + pick(t, "assign", " = ", "=", "  =") + v + trailing + nl)
		}
	}
	return b.String()
}

// compare asks two enforcers the same
func compare(t *rapid.T, c *Case, a, b *fastac.Enforcer, params ...interface{}) {
	x, err1 := a.Enforce(params...)
	y, err2 := b.Enforce(params...)
	if x != y || (err1 == nil) != (err2 == nil) {
		t.Fatalf("Enforce(%v) = %v, %v and %v, %v\n%s", showParams(params), x, err1, y, err2, c.desc.String())
	}
	f, err1 := a.Filter(params...)
	g, err2 := b.Filter(params...)
	if (err1 == nil) != (err2 == nil) || err1 == nil && !sameRules(f, g) {
		t.Fatalf("Filter(%v) = %q, %v and %q, %v\n%s", showParams(params), f, err1, g, err2, c.desc.String())
	}
}

func showParams(params []interface{}) string {
	req := []interface{}{}
	for _, p := range params {
		if _, ok := p.(fastac.ContextOption); !ok {
			req = append(req, p)
		}
	}
	return showReq(req)
}

func TestC18_Text(t *testing.T) {
	check(t, 2500, "random models of one or two groups of definitions, as text in random layouts (comments, continued lines, quotes, order), loaded, printed and loaded again; literals contain comment signs, quotes and line breaks; non-trivial: a matcher has such a literal or there are two groups", func(t *rapid.T, c *Case) {
		odd := false
		extra := func(t *rapid.T, v *vocab) *ex {
			odd = true
			return oddLiteral(t, v)
		}
		ss := []*scenario{genScenario(t, scenarioOpts{depth: 2, maxRules: 4, nReq: 3, extra: extra})}
		if chance(t, "two", 40) {
			ss = append(ss, genScenario(t, scenarioOpts{depth: 2, maxRules: 4, nReq: 3, extra: extra, suffix: pick(t, "suffix", "3", "10", "7")}))
		}
		ds := []definition{}
		for _, s := range ss {
			s.describe(c)
			ds = append(ds, s.definitions(s.m.String())...)
		}
		c.nt(odd || len(ss) > 1)
		// set one by one, in any order
		m1 := newModel()
		for _, d := range rapid.Permutation(ds).Draw(t, "order") {
			must(t, m1.SetDef(d.sec, d.key, d.value))
		}
		must(t, m1.BuildMatchers())
		printed := m1.String()
		models := []*model.Model{m1}
		load := func(text string) {
			m := newModel()
			var err error
			if chance(t, "file", 10) {
				path, cleanup := scratch(t)
				defer cleanup()
				must(t, os.WriteFile(path, []byte(text), 0o600))
				err = m.LoadModel(path)
			} else {
				err = m.LoadModelFromText(text)
			}
			if err != nil {
				t.Fatalf("cannot load %q: %v\n%s", text, err, c.desc.String())
			}
			if got := m.String(); got != printed {
				t.Fatalf("the model was loaded from\n%s\nand is printed as\n%s\ninstead of\n%s\n%s", text, got, printed, c.desc.String())
			}
			for _, d := range ds {
				a, ok1 := m1.GetDef(d.sec, d.key)
				b, ok2 := m.GetDef(d.sec, d.key)
				if !ok1 || !ok2 || a.String() != b.String() || b.GetKey() != d.key {
					t.Fatalf("definition %s: %v, %v\n%s", d.key, a, b, c.desc.String())
				}
				if d.sec == 'g' {
					n := strings.Count(d.value, "_")
					if got := b.(*defs.RoleDef).NArgs(); got != n {
						t.Fatalf("role definition %s has %d values after loading %q, want %d", d.key, got, text, n)
					}
				}
			}
			models = append(models, m)
		}
		load(printed)
		if text := writeText(t, ds); !strings.Contains(text, "\r") || !odd {
			load(text)
		}
		es := []*fastac.Enforcer{}
		for _, m := range models {
			e, err := fastac.NewEnforcer(m, nil)
			must(t, err)
			for _, s := range ss {
				addAll(t, e, s.rules...)
				addAll(t, e, s.links...)
			}
			es = append(es, e)
		}
		for i, s := range ss {
			for _, g := range s.v.g {
				cols := []string{"user", "role", "domain", "subdomain1"}[:g.arity]
				for _, col := range cols {
					for _, link := range s.links {
						for _, e := range es {
							got, err := e.Filter(fastac.SetMatcher(g.key+"."+col+" == r"+s.suffix+"."+s.rArgs[0]), fastac.SetRequestDef("r"+s.suffix), link[len(link)-1])
							want := [][]string{}
							for _, l := range s.links {
								if l[0] == g.key && l[1+index(cols, col)] == link[len(link)-1] && !contains(want, l) {
									want = append(want, l)
								}
							}
							if err != nil || !sameRules(got, want) {
								t.Fatalf("Filter of %s by %s == %q: %q, %v, want %q\n%s", g.key, col, link[len(link)-1], got, err, want, c.desc.String())
							}
						}
					}
				}
			}
			for _, req := range s.requests {
				params := req
				if i > 0 {
					params = append([]interface{}{fastac.SetMatcher("m" + s.suffix), fastac.SetRequestDef("r" + s.suffix), fastac.SetEffector("e" + s.suffix)}, req...)
				}
				for _, e := range es[1:] {
					compare(t, c, es[0], e, params...)
				}
				want, _, err := s.decide(req, s.rules, s.links)
				if got, err2 := es[1].Enforce(params...); err == nil && (err2 != nil || got != want) {
					t.Fatalf("Enforce(%s) = %v, %v, want %v\n%s", showReq(req), got, err2, want, c.desc.String())
				}
			}
		}
	})
}

// ---- edits

func TestC18_Edits(t *testing.T) {
	check(t, 1500, "random histories of setting, replacing and removing definitions, adding rules and rebuilding the matchers; after each rebuild the model, also with ad hoc matchers, is compared with one that was loaded from the text of just the current definitions and got just the current rules; non-trivial: a definition in use was replaced or removed", func(t *rapid.T, c *Case) {
		m := newModel()
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		cur := map[string]definition{}
		rules := [][]string{}
		forget := func(key string) {
			kept := [][]string{}
			for _, r := range rules {
				if r[0] != key {
					kept = append(kept, r)
				}
			}
			rules = kept
		}
		vals := []string{"a", "b", "c"}
		adHoc := rapid.SliceOfN(rapid.SampledFrom([]string{"p.sub == r.sub", "p.sub == 'a'", "p.obj == r.obj && p.sub != ''", "p2.sub == 'a' || p2.obj == 'a'", "g(r.sub, p.sub)", "g2(r.sub, p.obj)", "g(r.sub, p.obj, p.sub)", "g.user == 'a'", "g2.user == r.sub", "g.role == r.obj", "true"}), 1, 4).Draw(t, "ad hoc matchers")
		for i := num(t, "operations", 3, 25); i > 0; i-- {
			op := "set"
			if len(cur) > 4 {
				op = pick(t, "op", "set", "set", "remove", "rule", "rule", "rule", "unrule", "build", "build")
			}
			switch op {
			case "set":
				d := definition{sec: pick(t, "section", byte('r'), 'p', 'g', 'e', 'm', 'm', 'm')}
				if len(cur) <= 4 { // start with a usable model
					d.sec = "rpgem"[len(cur)]
				}
				d.key = string(d.sec)
				if len(cur) > 4 && chance(t, "second", 40) {
					d.key += "2"
				}
				switch d.sec {
				case 'r':
					d.value = pick(t, "value", "sub, obj", "obj, sub", "sub, obj")
				case 'p':
					d.value = pick(t, "value", "sub, obj", "sub, obj, eft", "obj, sub", "eft, sub, obj")
				case 'g':
					d.value = pick(t, "value", "_, _", "_, _, _")
				case 'e':
					d.value = pick(t, "value", effSome, effND, effSND)
				case 'm':
					d.value = pick(t, "value", "r.sub == p.sub", "r.obj == p.obj", "r.sub == p.sub && r.obj == p.obj", "r.sub == p.sub || r.obj == p.obj", "g(r.sub, p.sub)", "g2(r.sub, p.sub) && r.obj == p.obj", "p2.sub == r.sub", "p2.sub == r.sub && p2.obj == r.obj", "r2.sub == p.sub", "g(r.sub, p2.sub)", "true", "p.eft == 'allow'", "g.user == r.sub", "g2.role == r.sub")
				}
				c.logf("set %s = %s", d.key, d.value)
				must(t, m.SetDef(d.sec, d.key, d.value))
				if _, ok := cur[d.key]; ok {
					c.nt(len(rules) > 0)
				}
				cur[d.key] = d
				if d.sec == 'p' || d.sec == 'g' {
					forget(d.key)
				}
			case "remove":
				ks := sortedDefs(cur)
				k := ks[num(t, "key", 0, len(ks)-1)]
				c.logf("remove %s", k)
				c.nt(len(rules) > 0)
				must(t, m.RemoveDef(cur[k].sec, k))
				delete(cur, k)
				forget(k)
			case "rule", "unrule":
				if chance(t, "undefined", 15) { // refused, if there is no such definition
					k := pick(t, "key", "p", "p2", "g", "g2")
					r := []string{k, pick(t, "value", vals...), pick(t, "value", vals...)}
					if _, ok := cur[k]; !ok {
						c.logf("%s %q is refused", op, r)
						if op == "rule" {
							_, err = m.AddRule(r)
						} else {
							_, err = m.RemoveRule(r)
						}
						if err == nil {
							t.Fatalf("%s %q: no error\n%s", op, r, c.desc.String())
						}
					}
					continue
				}
				ks := []string{}
				for _, k := range sortedDefs(cur) {
					if cur[k].sec == 'p' || cur[k].sec == 'g' {
						ks = append(ks, k)
					}
				}
				if len(ks) == 0 {
					continue
				}
				k := ks[num(t, "key", 0, len(ks)-1)]
				r := []string{k}
				for _, col := range strings.Split(cur[k].value, ", ") {
					if col == "eft" {
						r = append(r, pick(t, "eft", "allow", "deny"))
					} else {
						r = append(r, pick(t, "value", vals...))
					}
				}
				c.logf("%s %q", op, r)
				var changed bool
				if op == "rule" {
					changed, err = m.AddRule(clone(r))
				} else {
					changed, err = m.RemoveRule(clone(r))
				}
				must(t, err)
				if want := contains(rules, r) != (op == "rule"); changed != want {
					t.Fatalf("%s %q: %v, want %v\n%s", op, r, changed, want, c.desc.String())
				}
				if changed && op == "rule" {
					rules = append(rules, r)
				} else if changed {
					kept := [][]string{}
					for _, x := range rules {
						if keyOf(x) != keyOf(r) {
							kept = append(kept, x)
						}
					}
					rules = kept
				}
			}
			if op != "build" && i > 1 {
				continue
			}
			err := m.BuildMatchers()
			ds := []definition{}
			for _, k := range sortedDefs(cur) {
				ds = append(ds, cur[k])
			}
			m2 := newModel()
			err2 := m2.LoadModelFromText(writeText(t, ds))
			c.logf("build: %v", err == nil)
			if (err == nil) != (err2 == nil) {
				t.Fatalf("building the matchers: %v, loading the same definitions: %v\n%s", err, err2, c.desc.String())
			}
			if err != nil {
				c.label("incomplete model")
				continue
			}
			if m.String() != m2.String() {
				t.Fatalf("the model is printed as\n%s\nloaded with the same definitions\n%s\n%s", m, m2, c.desc.String())
			}
			got := [][]string{}
			m.RangeRules(func(r []string) bool { got = append(got, clone(r)); return true })
			if !sameRules(got, rules) {
				t.Fatalf("rules %q, want %q\n%s", got, rules, c.desc.String())
			}
			e2, err := fastac.NewEnforcer(m2, nil)
			must(t, err)
			addAll(t, e2, rules...)
			for _, x := range adHoc {
				compare(t, c, e, e2, fastac.SetMatcher(x), "a", "b")
			}
			for _, a := range vals {
				for _, b := range vals {
					compare(t, c, e, e2, a, b)
					for _, k := range []string{"m2", "r2", "e2"} {
						if _, ok := cur[k]; ok {
							switch k[0] {
							case 'm':
								compare(t, c, e, e2, fastac.SetMatcher(k), a, b)
							case 'r':
								compare(t, c, e, e2, fastac.SetRequestDef(k), a, b)
							case 'e':
								compare(t, c, e, e2, fastac.SetEffector(k), a, b)
							}
						}
					}
				}
			}
		}
	})
}

func sortedDefs(m map[string]definition) []string {
	res := []string{}
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// ---- malformed definitions

func TestC18_Malformed(t *testing.T) {
	check(t, 1500, "random models with one definition damaged: wrong section or key, matchers with syntax errors, unknown functions or policies; loading and setting must fail with an error; non-trivial: always", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 2, maxRules: 1, nReq: 1})
		ds := s.definitions(s.m.String())
		text := s.m.String()
		c.nt(true)
		bad := ""
		switch kind := pick(t, "kind", "key", "section", "syntax", "function", "policy", "no policy", "text", "missing"); kind {
		case "key":
			i := num(t, "i", 0, len(ds)-1)
			key := pick(t, "key", "x", "", "1", "X", "_", " ") + ds[i].key
			if key == ds[i].key {
				key = pick(t, "other", "", "q", "s2")
			}
			c.logf("SetDef(%c, %q)", ds[i].sec, key)
			m := newModel()
			if err := m.SetDef(ds[i].sec, key, ds[i].value); err == nil {
				t.Fatalf("accepted\n%s", c.desc.String())
			}
			if _, ok := m.GetDef(ds[i].sec, key); ok {
				t.Fatalf("refused, but present\n%s", c.desc.String())
			}
			if strings.TrimSpace(key) == key && key != "" {
				ds[i].key = key
				if err := newModel().LoadModelFromText(writeText(t, ds)); err == nil {
					t.Fatalf("text accepted\n%s", c.desc.String())
				}
			}
			return
		case "section":
			sec := pick(t, "section", byte('x'), 0, 'R', ' ', 255, '[')
			c.logf("SetDef(%d)", sec)
			m := newModel()
			if err := m.SetDef(sec, string(rune(sec)), "a, b"); err == nil {
				t.Fatalf("accepted\n%s", c.desc.String())
			}
			if err := m.RemoveDef(sec, string(rune(sec))); err == nil {
				t.Fatalf("removed\n%s", c.desc.String())
			}
			return
		case "text":
			valid := writeText(t, ds)
			line := pick(t, "line", "no delimiter", "[matchers", "[", "= a, b", "r")
			broken := valid + "\n" + line + "\n"
			if chance(t, "first", 40) {
				broken = line + "\n" + valid
			}
			c.logf("text %q", broken)
			path, cleanup := scratch(t)
			defer cleanup()
			must(t, os.WriteFile(path, []byte(broken), 0o600))
			for name, load := range map[string]func() error{
				"LoadModelFromText":  func() error { return newModel().LoadModelFromText(broken) },
				"LoadModel":          func() error { return newModel().LoadModel(path) },
				"LoadModel, no file": func() error { return newModel().LoadModel(path + "x") },
				"NewModelFromFile":   func() error { _, err := model.NewModelFromFile(path); return err },
			} {
				var err error
				if p := catch(func() { err = load() }); p != nil || err == nil {
					t.Fatalf("%s: accepted (panic %v)\n%s", name, p, c.desc.String())
				}
			}
			return
		case "missing":
			key := pick(t, "missing", "m9", "m ", "", "M", "p", "r")
			c.logf("BuildMatcher(%q)", key)
			m := newModel()
			must(t, m.LoadModelFromText(writeText(t, ds)))
			var err error
			if p := catch(func() { err = m.BuildMatcher(key) }); p != nil || err == nil {
				t.Fatalf("accepted (panic %v)\n%s", p, c.desc.String())
			}
			return
		case "syntax":
			bad = pick(t, "damage", "("+text, text+")", text+" &&", "|| "+text, text+" ==", "'"+strings.Repeat("x", 1)+" && "+strings.ReplaceAll(strings.ReplaceAll(text, "'", ""), `"`, ""), text+" "+text, "! && "+text, text+" && (", text+" in", "()) && "+text)
			if strings.HasPrefix(bad, "'") && strings.Contains(bad, `\`) {
				bad = "'"
			}
		case "function":
			bad = pick(t, "call", "nope(r.sub)", "Nope()", "gx(r.sub, p.sub)", "pathmatch(r.obj, p.obj)", "g9(r.sub, p.sub)")
			bad = pick(t, "join", bad+" && "+s.m.bracketed(), s.m.bracketed()+" || "+bad, "!"+bad)
		case "policy":
			bad = strings.ReplaceAll(pick(t, "policy", "K.sub == r.sub", "r.sub == K.sub || r.obj == K.obj", "true && K.sub == 'a'"), "K", pick(t, "key", "p9", "p3", "g9", "p0"))
		case "no policy":
			for i, d := range ds {
				if d.sec == 'p' {
					ds = append(ds[:i:i], ds[i+1:]...)
					break
				}
			}
			if !s.m.usesPolicy("p") {
				return
			}
			bad = text
		}
		for i := range ds {
			if ds[i].sec == 'm' {
				ds[i].value = bad
			}
		}
		c.logf("m = %s", bad)
		m := newModel()
		for _, d := range ds {
			must(t, m.SetDef(d.sec, d.key, d.value))
		}
		var err error
		if p := catch(func() { err = m.BuildMatchers() }); p != nil || err == nil {
			t.Fatalf("accepted (panic %v)\n%s", p, c.desc.String())
		}
		if p := catch(func() { err = newModel().LoadModelFromText(m.String()) }); p != nil || err == nil {
			t.Fatalf("text accepted (panic %v)\n%s", p, c.desc.String())
		}
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		var ok bool
		if p := catch(func() { ok, err = e.Enforce(fmt.Sprint("a"), "b") }); p != nil || err == nil || ok {
			t.Fatalf("Enforce = %v, %v (panic %v)\n%s", ok, err, p, c.desc.String())
		}
	})
}

func (e *ex) bracketed() string { return "(" + e.String() + ")" }
