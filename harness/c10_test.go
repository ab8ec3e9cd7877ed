package harness

import (
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage/adapter"
	"pgregory.net/rapid"
)

// genFileValue generates any value. CR LF within a value is a known finding
// (encoding/csv reads it as LF), see known-findings.txt.
func genFileValue(t *rapid.T) string {
	v := genValue(t)
	switch num(t, "file value", 0, 9) {
	case 0:
		v = pick(t, "special", "#", "#a", "\n", "\r", "a\n", "\na", "\n\n", `"`, `""`, `"a"`, `a"`, `"a`, ",", ", ", " ", "  a", "a ", "\t", "\u00a0x", "\u2003", "\ufeff", "'", `\`, `\"`, `a"",b`, "\v", "\x00", "p, a, b", "\n#a", "a\n#b", "\u0085")
	case 1:
		v = string(rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "bytes"))
	}
	return withoutCRLF(v)
}

// withoutCRLF swaps CR and LF until there is no CR LF left (see known-findings.txt)
func withoutCRLF(v string) string {
	for strings.Contains(v, "\r\n") {
		v = strings.ReplaceAll(v, "\r\n", "\n\r")
	}
	return v
}

func genFileRule(t *rapid.T, max int) []string {
	r := []string{pick(t, "key", "p", "p", "g", "p2")}
	if chance(t, "any key", 8) { // the adapter does not know the sections of a model
		r[0] = genFileValue(t)
	}
	for i := num(t, "n", 1, max); i > 0; i-- {
		r = append(r, genFileValue(t))
	}
	return r
}

// clean removes CR LF, which variants may contain
func clean(r []string) []string {
	r = clone(r)
	for k := range r {
		r[k] = withoutCRLF(r[k])
	}
	return r
}

func special(r []string) bool {
	for _, v := range r {
		if strings.ContainsAny(v, ",\"\n\r#' \t") || v == "" {
			return true
		}
	}
	return false
}

func load(t *rapid.T, a *adapter.FileAdapter, c *Case) [][]string {
	rs := adapter.NewRuleSet()
	if err := a.LoadPolicy(rs); err != nil {
		t.Fatalf("the file can not be loaded: %v\n%s", err, c.desc.String())
	}
	return allRules(rs)
}

// scratch returns a path in a directory of its own and a function which removes it
func scratch(t *rapid.T) (string, func()) {
	dir, err := os.MkdirTemp("", "verif")
	must(t, err)
	return filepath.Join(dir, "policy.csv"), func() { _ = os.RemoveAll(dir) }
}

func TestC10_RoundTrip(t *testing.T) {
	check(t, 3000, "random rules with arbitrary values, saved to a file and loaded again (once and twice); non-trivial: some value has to be quoted", func(t *rapid.T, c *Case) {
		path, cleanup := scratch(t)
		defer cleanup()
		a := adapter.NewFileAdapter(path)
		rules := [][]string{}
		rs := adapter.NewRuleSet()
		for i := num(t, "rules", 0, 6); i > 0; i-- {
			r := genFileRule(t, 4)
			if len(rules) > 0 && chance(t, "variant", 20) {
				r = clean(variant(t, rules[0]))
			}
			rules = append(without(rules, r), r)
			c.logf("%q", r)
			c.nt(special(r))
			_, err := rs.AddRule(clone(r))
			must(t, err)
		}
		if chance(t, "exists", 50) {
			must(t, os.WriteFile(path, []byte("p, old, content\n"), 0o644))
		}
		for i := 0; i < 2; i++ {
			if err := a.SavePolicy(rs); err != nil {
				t.Fatalf("SavePolicy: %v\n%s", err, c.desc.String())
			}
			if got := load(t, a, c); !sameRules(got, rules) {
				b, _ := os.ReadFile(path)
				t.Fatalf("saved %q\nloaded %q\nfile %q\n%s", rules, got, b, c.desc.String())
			}
			rs = adapter.NewRuleSet()
			must(t, a.LoadPolicy(rs))
		}
	})
}

// a hand-written file: every way to write down a rule
func writeFile(t *rapid.T, rules [][]string) string {
	var b strings.Builder
	nl := pick(t, "newline", "\n", "\n", "\r\n")
	for i := 0; i <= len(rules); i++ {
		for k := pick(t, "extra lines", 0, 0, 0, 1, 2); k > 0; k-- {
			b.WriteString(pick(t, "line", "", "# comment", "#p, a, b, c", "#", "#\"", "   ") + nl)
		}
		if i == len(rules) {
			break
		}
		for k, v := range rules[i] {
			if k > 0 {
				b.WriteString(pick(t, "sep", ",", ", ", ",  "))
			}
			plain := !strings.ContainsAny(v, ",\"\n\r") && strings.TrimSpace(v) == v && !(k == 0 && strings.HasPrefix(v, "#"))
			if plain && chance(t, "plain", 70) {
				b.WriteString(v)
			} else {
				b.WriteString(`"` + strings.ReplaceAll(v, `"`, `""`) + `"`)
			}
		}
		b.WriteString(nl)
	}
	if chance(t, "no newline at the end", 30) {
		return strings.TrimSuffix(b.String(), nl)
	}
	return b.String()
}

func TestC10_FileEdits(t *testing.T) {
	check(t, 1500, "a hand-written file (comments, blank lines, quotes, either line end) and random additions and removals through the adapter, the file is loaded after every step; non-trivial: a rule was removed or added twice and the file has a value which has to be quoted", func(t *rapid.T, c *Case) {
		path, cleanup := scratch(t)
		defer cleanup()
		a := adapter.NewFileAdapter(path)
		rules := [][]string{}
		for i := num(t, "rules", 0, 5); i > 0; i-- {
			r := genFileRule(t, 3)
			for k := range r {
				if strings.HasSuffix(r[k], "\r") { // (in front of a CR LF line end)
					r[k] += "x"
				}
			}
			rules = append(without(rules, r), r)
		}
		text := writeFile(t, rules)
		c.logf("file %q", text)
		must(t, os.WriteFile(path, []byte(text), 0o644))
		beside := []string{}
		if chance(t, "files beside", 20) {
			beside = []string{path + ".tmp", path + ".0.tmp", path + ".1.tmp", path + ".new", path + ".bak", path + "~"}
			for _, x := range beside {
				must(t, os.WriteFile(x, []byte("p, other, file\n"), 0o644))
				defer os.Remove(x)
			}
		}
		if got := load(t, a, c); !sameRules(got, rules) {
			t.Fatalf("file %q\nloaded %q\nwant %q", text, got, rules)
		}
		quoted, changed := false, false
		gen := func() []string {
			if len(rules) > 0 && chance(t, "present", 50) {
				r := rules[num(t, "i", 0, len(rules)-1)]
				if chance(t, "variant", 25) {
					return variant(t, r)
				}
				return r
			}
			return genFileRule(t, 3)
		}
		for i := num(t, "steps", 1, 8); i > 0; i-- {
			rs := [][]string{}
			step := num(t, "step", 0, 3)
			n := 1
			if step > 1 {
				n = num(t, "n", 0, 3)
			}
			for ; n > 0; n-- {
				rs = append(rs, clean(gen()))
			}
			var err error
			arg := make([][]string, len(rs))
			for k, r := range rs {
				arg[k] = clone(r)
				quoted = quoted || special(r)
				changed = changed || contains(rules, r)
			}
			c.logf("%s %q", []string{"AddRule", "RemoveRule", "AddRules", "RemoveRules"}[step], rs)
			switch step {
			case 0:
				err = a.AddRule(arg[0])
			case 1:
				err = a.RemoveRule(arg[0])
			case 2:
				err = a.AddRules(arg)
			case 3:
				err = a.RemoveRules(arg)
			}
			if err != nil {
				t.Fatalf("%v\n%s", err, c.desc.String())
			}
			for _, r := range rs {
				rules = without(rules, r)
				if step%2 == 0 {
					rules = append(rules, r)
				}
			}
			if got := load(t, a, c); !sameRules(got, rules) {
				b, _ := os.ReadFile(path)
				t.Fatalf("file %q\nloaded %q\nwant %q\n%s", b, got, rules, c.desc.String())
			}
			for _, x := range beside {
				if b, err := os.ReadFile(x); err != nil || string(b) != "p, other, file\n" {
					t.Fatalf("the file %s beside it holds %q, %v\n%s", filepath.Base(x), b, err, c.desc.String())
				}
			}
		}
		c.nt(quoted && changed)
	})
}

// an enforcer with a policy file, and one which is started from that file
func TestC10_Enforcer(t *testing.T) {
	check(t, 600, "an enforcer with a policy file: random changes, with autosave, flushed or saved; then an enforcer is started from the file; non-trivial: three or more changes and at least one rule left", func(t *rapid.T, c *Case) {
		path, cleanup := scratch(t)
		defer cleanup()
		must(t, os.WriteFile(path, nil, 0o644))
		text := mdl("sub, obj, act", "sub, obj, act", "g = _, _", effSome, "(r.sub == p.sub || g(r.sub, p.sub)) && r.obj == p.obj && r.act == p.act")
		start := func(opts ...fastac.Option) *fastac.Enforcer {
			m := model.NewModel()
			must(t, m.LoadModelFromText(text))
			e, err := fastac.NewEnforcer(m, path, opts...)
			if err != nil {
				b, _ := os.ReadFile(path)
				t.Fatalf("NewEnforcer: %v\nfile %q\n%s", err, b, c.desc.String())
			}
			return e
		}
		autosave := chance(t, "autosave", 50)
		e := start(fastac.OptionAutosave(autosave))
		c.logf("autosave %v", autosave)
		rules := [][]string{}
		changes := 0
		vals := []string{"alice", "bob", "", "a,b", "#x", genFileValue(t), genFileValue(t)}
		gen := func() []string {
			if len(rules) > 0 && chance(t, "present", 40) {
				return rules[num(t, "i", 0, len(rules)-1)]
			}
			if chance(t, "g", 30) {
				return []string{"g", pick(t, "user", vals...), pick(t, "role", vals...)}
			}
			return []string{"p", pick(t, "sub", vals...), pick(t, "obj", vals...), pick(t, "act", vals...)}
		}
		for round := num(t, "rounds", 1, 3); round > 0; round-- {
			for i := num(t, "steps", 1, 6); i > 0; i-- {
				changes++
				r := gen()
				switch num(t, "step", 0, 5) {
				case 0, 1, 2:
					c.logf("add %q", r)
					_, err := e.AddRule(clone(r))
					must(t, err)
					rules = append(without(rules, r), r)
				case 3:
					c.logf("remove %q", r)
					_, err := e.RemoveRule(clone(r))
					must(t, err)
					rules = without(rules, r)
				case 4:
					r2 := gen()
					c.logf("add all %q %q", r, r2)
					must(t, e.AddRules([][]string{clone(r), clone(r2)}))
					rules = append(without(rules, r), r)
					rules = append(without(rules, r2), r2)
				case 5:
					r2 := gen()
					c.logf("remove all %q %q", r, r2)
					must(t, e.RemoveRules([][]string{clone(r), clone(r2)}))
					rules = without(without(rules, r), r2)
				}
			}
			if !autosave || chance(t, "save anyway", 30) {
				if chance(t, "save", 50) {
					c.logf("save")
					must(t, e.SavePolicy())
				} else {
					c.logf("flush")
					must(t, e.Flush())
				}
			}
			f := start()
			if got := allRules(f.GetModel()); !sameRules(got, rules) {
				b, _ := os.ReadFile(path)
				t.Fatalf("file %q\nloaded %q\nwant %q\n%s", b, got, rules, c.desc.String())
			}
			for i := 0; i < 3; i++ {
				req := []interface{}{pick(t, "sub", vals...), pick(t, "obj", vals...), pick(t, "act", vals...)}
				a, err1 := e.Enforce(req...)
				b, err2 := f.Enforce(req...)
				if a != b || err1 != nil || err2 != nil {
					t.Fatalf("Enforce(%q) = %v, %v, started from the file: %v, %v\n%s", req, a, err1, b, err2, c.desc.String())
				}
			}
		}
		c.nt(changes >= 3 && len(rules) > 0)
	})
}

// LoadPolicyLine reads one line like a file with this line
func TestC10_Line(t *testing.T) {
	check(t, 1500, "random lines, well-formed and not: LoadPolicyLine and loading a file with this line give the same rules or both fail; non-trivial: the line is not a plain list of words", func(t *rapid.T, c *Case) {
		var line string
		if chance(t, "well-formed", 50) {
			line = strings.TrimRight(writeFile(t, [][]string{genFileRule(t, 3)}), "\r\n")
		} else {
			line = rapid.StringOfN(rapid.SampledFrom([]rune("pg, \"#a'\\\t")), 0, 12, -1).Draw(t, "line")
		}
		if strings.ContainsAny(line, "\n\r") {
			return
		}
		c.logf("%q", line)
		c.nt(strings.ContainsAny(line, `"#`+"\t") || strings.HasPrefix(line, " "))
		path, cleanup := scratch(t)
		defer cleanup()
		must(t, os.WriteFile(path, []byte(line+"\n"), 0o644))
		a, b := adapter.NewRuleSet(), adapter.NewRuleSet()
		var err1, err2 error
		p := catch(func() {
			err1 = adapter.LoadPolicyLine(line, a)
			err2 = adapter.NewFileAdapter(path).LoadPolicy(b)
		})
		if p != nil || (err1 == nil) != (err2 == nil) || err1 == nil && !sameRules(allRules(a), allRules(b)) {
			t.Fatalf("line %q: %q %v, file: %q %v, panic %v", line, allRules(a), err1, allRules(b), err2, p)
		}
	})
}

var _ = fmt.Sprint

// interrupted is a rule set during whose enumeration something happens
type interrupted struct {
	rules [][]string
	at    func(i int)
}

func (x *interrupted) RangeRules(fn func(rule []string) bool) {
	for i, r := range x.rules {
		x.at(i)
		if !fn(r) {
			return
		}
	}
	x.at(len(x.rules))
}

// limited runs fn while no file can grow beyond n bytes, like on a full disk
func limited(t *rapid.T, n int, fn func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	must(t, syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(t, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
	defer func() { _ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }()
	fn()
}

func TestC10_Interrupted(t *testing.T) {
	check(t, 700, "a policy file which is replaced or changed while writing fails at any byte, or the program panics or is looked at after any rule; the file holds the previous or the new rules, never anything else; non-trivial: writing was interrupted", func(t *rapid.T, c *Case) {
		path, cleanup := scratch(t)
		defer cleanup()
		a := adapter.NewFileAdapter(path)
		set := func(what string, min int) [][]string {
			rules := [][]string{}
			for i := num(t, what, min, 8); i > 0; i-- {
				r := genFileRule(t, 4)
				rules = append(without(rules, r), r)
			}
			if chance(t, "large", 15) { // more than a write buffer
				for i := num(t, "rules", 100, 300); i > 0; i-- {
					rules = append(rules, []string{"p", fmt.Sprint("user", i), strings.Repeat("x", 20)})
				}
			}
			return rules
		}
		old := set("old rules", 1)
		must(t, a.SavePolicy(&interrupted{old, func(int) {}}))
		direct := a
		if chance(t, "link", 10) {
			c.logf("by a symbolic link")
			link := filepath.Join(filepath.Dir(path), "link.csv")
			must(t, os.Symlink(path, link))
			defer os.Remove(link)
			if chance(t, "of a link", 40) {
				link2 := filepath.Join(filepath.Dir(path), "link2.csv")
				must(t, os.Symlink("link.csv", link2))
				defer os.Remove(link2)
				link = link2
			}
			a = adapter.NewFileAdapter(link)
		}
		b, err := os.ReadFile(path)
		must(t, err)
		holds := func(what string, want ...[][]string) {
			got := load(t, direct, c)
			for _, w := range want {
				if sameRules(got, w) {
					return
				}
			}
			b, _ := os.ReadFile(path)
			t.Fatalf("%s: file %q\nloaded %q\nwant one of %q\n%s", what, b, got, want, c.desc.String())
		}
		c.logf("%d old rules %q", len(old), old[:1])
		switch pick(t, "kind", "look", "panic", "full", "edit", "enforcer") {
		case "look":
			rules := set("new rules", 0)
			c.logf("save %d rules, look at the file all the time", len(rules))
			c.nt(len(rules) > 0)
			must(t, a.SavePolicy(&interrupted{rules, func(i int) {
				if len(rules) < 20 || i%37 == 0 || i == len(rules) {
					holds(fmt.Sprint("after rule ", i), old, rules)
				}
			}}))
			holds("saved", rules)
		case "panic":
			rules := set("new rules", 0)
			at := num(t, "at", 0, len(rules))
			c.logf("save %d rules, panic at %d", len(rules), at)
			c.nt(true)
			if p := catch(func() {
				_ = a.SavePolicy(&interrupted{rules, func(i int) {
					if i == at {
						panic("interrupted")
					}
				}})
			}); p == nil {
				t.Fatalf("no panic\n%s", c.desc.String())
			}
			holds("panic", old)
			must(t, a.SavePolicy(&interrupted{rules, func(int) {}}))
			holds("saved afterwards", rules)
		case "full":
			rules := set("new rules", 0)
			n := num(t, "limit", 0, len(b)+40)
			c.logf("save %d rules, limit %d bytes", len(rules), n)
			limited(t, n, func() { err = a.SavePolicy(&interrupted{rules, func(int) {}}) })
			c.nt(err != nil)
			if err != nil {
				holds("failed", old)
			} else {
				holds("saved", rules)
			}
			must(t, a.SavePolicy(&interrupted{rules, func(int) {}}))
			holds("saved afterwards", rules)
		case "edit":
			rules := old
			for i := num(t, "edits", 1, 5); i > 0; i-- {
				rs := set("changed rules", 1)
				if chance(t, "present", 50) && len(rules) > 0 {
					rs[0] = rules[num(t, "i", 0, len(rules)-1)]
				}
				next := rules
				var edit func() error
				switch num(t, "edit", 0, 3) {
				case 0:
					rs = rs[:1]
					next, edit = append(without(next, rs[0]), rs[0]), func() error { return a.AddRule(clone(rs[0])) }
				case 1:
					rs = rs[:1]
					next, edit = without(next, rs[0]), func() error { return a.RemoveRule(clone(rs[0])) }
				case 2:
					for _, r := range rs {
						next = append(without(next, r), r)
					}
					edit = func() error { return a.AddRules(rs) }
				case 3:
					for _, r := range rs {
						next = without(next, r)
					}
					edit = func() error { return a.RemoveRules(rs) }
				}
				n := num(t, "limit", 0, len(b)+80)
				c.logf("change %d rules, limit %d", len(rs), n)
				limited(t, n, func() { err = edit() })
				if err != nil {
					c.nt(true)
					holds("failed change", rules)
				} else {
					rules = next
					holds("changed", rules)
				}
			}
		case "enforcer":
			m := model.NewModel()
			must(t, m.LoadModelFromText(mdl("a", "a", "g = _, _", effSome, "r.a == p.a")))
			must(t, m.SetDef('p', "p2", "a"))
			must(t, os.WriteFile(path, []byte("p, alice\ng, bob, admin\n"), 0o644))
			kept := []string{"g", "bob", "admin"}
			e, err := fastac.NewEnforcer(m, path, fastac.OptionAutosave(chance(t, "autosave", 50)))
			must(t, err)
			for i := num(t, "steps", 1, 8); i > 0; i-- {
				rules := [][]string{}
				for k := num(t, "rules", 1, 3); k > 0; k-- {
					rules = append(rules, []string{pick(t, "key", "p", "p2"), pick(t, "value", "alice", "bob", "x,y", "#")})
				}
				n := pick(t, "limit", -1, 0, 3, 10, 25, 1000)
				what := pick(t, "step", "add", "remove", "add all", "remove all", "flush", "save")
				c.logf("%s %q limit %d", what, rules, n)
				do := func() {
					switch what {
					case "add":
						_, err = e.AddRule(clone(rules[0]))
					case "remove":
						_, err = e.RemoveRule(clone(rules[0]))
					case "add all":
						err = e.AddRules(rules)
					case "remove all":
						err = e.RemoveRules(rules)
					case "flush":
						err = e.Flush()
					case "save":
						err = e.SavePolicy()
					}
				}
				if n < 0 {
					do()
					must(t, err)
				} else {
					limited(t, n, do)
				}
				if got := load(t, a, c); len(without(got, kept)) != len(got)-1 { // never touched
					t.Fatalf("rule %q is lost: %q\n%s", kept, got, c.desc.String())
				}
				if err != nil {
					c.nt(true)
				} else if what == "flush" || what == "save" {
					holds(what, allRules(m))
				}
			}
			must(t, e.Flush())
			holds("flushed", allRules(m))
		}
	})
}

func TestC10_Large(t *testing.T) {
	check(t, 30, "up to 3000 rules with up to 40 values, some of them up to 300 KB (one up to 5 MB) long, saved, loaded, and changed through the adapter; non-trivial: the file has more than 64 KB", func(t *rapid.T, c *Case) {
		rnd := rand.New(rand.NewSource(int64(num(t, "seed", 0, 1<<30))))
		path, cleanup := scratch(t)
		defer cleanup()
		a := adapter.NewFileAdapter(path)
		n, long := big(t, "rules", 1, 3000), big(t, "long values", 0, 6)
		width := big(t, "values", 1, 40)
		huge := chance(t, "huge", 15)
		if huge {
			c.label("more than 1 MiB")
			long++
		}
		if n > 300 {
			width = 1 + width%5
		}
		letters := []rune("abcdefgh0123456789/:*.-_ ,\"#'\n\u00e4\u4e16")
		value := func(n int) string {
			r := make([]rune, n)
			for i := range r {
				r[i] = letters[rnd.Intn(len(letters))]
			}
			return string(r)
		}
		rules, seen := [][]string{}, map[string]bool{}
		for i := 0; i < n; i++ {
			r := []string{"p"}
			for k := 1 + rnd.Intn(width); k > 0; k-- {
				r = append(r, value(rnd.Intn(12)))
			}
			if seen[keyOf(r)] {
				continue
			}
			seen[keyOf(r)] = true
			rules = append(rules, r)
		}
		for i := 0; i < long; i++ {
			size := []int{4094, 4095, 4096, 4097, 65534, 65535, 65536, 65537, rnd.Intn(300000)}[rnd.Intn(9)]
			if huge && i == 0 {
				size = 1<<20 + rnd.Intn(4<<20)
			}
			r := []string{"p", value(rnd.Intn(5)), fmt.Sprint(i) + value(size), value(rnd.Intn(5))}
			rules = append(rules, r)
		}
		k := rnd.Intn(len(rules) + 1) // the adapter gets the rest
		rs := adapter.NewRuleSet()
		for _, r := range rules[:k] {
			_, err := rs.AddRule(clone(r))
			must(t, err)
		}
		must(t, a.SavePolicy(rs))
		c.logf("%d rules, %d of them saved, %d values at most, %d long values", len(rules), k, width, long)
		verify := func(what string, rules [][]string) {
			if got := load(t, a, c); !sameRules(got, rules) {
				t.Fatalf("%s: %d rules in the file, want %d\n%s", what, len(got), len(rules), c.desc.String())
			}
		}
		verify("saved", rules[:k])
		must(t, a.AddRules(rules[k:]))
		verify("added", rules)
		info, err := os.Stat(path)
		must(t, err)
		c.nt(info.Size() > 1<<16)
		if k > 0 {
			must(t, a.RemoveRules(rules[:k]))
			verify("removed", rules[k:])
		}
	})
}
