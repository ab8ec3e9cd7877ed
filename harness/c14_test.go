package harness

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"pgregory.net/rapid"
)

// marks are the markers of named segments, 0 means any byte
type marks struct{ prefix, suffix byte }

func (m marks) named(s string) bool {
	if s == "" {
		return false
	}
	return (m.prefix == 0 || s[0] == m.prefix) && (m.suffix == 0 || s[len(s)-1] == m.suffix)
}

// refPathSep is the reference: the segments of the path and of the pattern are aligned
func refPathSep(p, pattern, sep string, m marks) bool {
	return refPath(strings.Split(p, sep), strings.Split(pattern, sep), m.named)
}

func refIsPathPattern(s, sep string, m marks) bool {
	for _, x := range strings.Split(s, sep) {
		if x == "*" || m.named(x) {
			return true
		}
	}
	return false
}

var separators = []string{"/", ":", ".", "//", "::", "-", "ab", "aa", "→", " ", "\\", "{", "/:"}
var markers = []marks{{':', 0}, {'{', '}'}, {'<', '>'}, {'%', '%'}, {0, '?'}, {'$', 0}, {'*', 0}, {0, '*'}, {'/', 0}, {0, 0}, {0xe2, 0}, {'{', 0}}

func genSegment(t *rapid.T, m marks) string {
	switch num(t, "segment", 0, 9) {
	case 0, 1:
		s := pick(t, "name", "", "x", "id", "a b", ":")
		if m.prefix != 0 {
			s = string([]byte{m.prefix}) + s
		}
		if m.suffix != 0 {
			s += string([]byte{m.suffix})
		}
		return s
	case 2, 3:
		return "*"
	case 4:
		return pick(t, "odd", "", "", "**", "a*", "*a", ":", "{", "}", "{}", "}{", "{x", "x}", ":x:", "x:", "*:", "%", "%%", "ü", "\x00", "$", "<", "<>")
	}
	return pick(t, "plain", "a", "b", "c", "aa", "ab", "a", "b")
}

func genPattern(t *rapid.T, sep string, m marks) string {
	parts := []string{}
	for i := num(t, "segments", 1, 6); i > 0; i-- {
		parts = append(parts, genSegment(t, m))
	}
	return strings.Join(parts, sep)
}

// genPath generates a path which the pattern describes, and may change it afterwards
func genPath(t *rapid.T, pattern, sep string, m marks) string {
	plain := func() string { return pick(t, "plain", "a", "b", "c", "aa", "", "*", ":x", "{x}", "x") }
	parts := []string{}
	for _, x := range strings.Split(pattern, sep) {
		switch {
		case x == "*":
			for i := num(t, "covered", 1, 3); i > 0; i-- {
				parts = append(parts, plain())
			}
		case m.named(x):
			parts = append(parts, plain())
		default:
			parts = append(parts, x)
		}
	}
	switch num(t, "change", 0, 7) {
	case 0: // drop a segment
		i := num(t, "i", 0, len(parts)-1)
		parts = append(parts[:i], parts[i+1:]...)
	case 1: // add a segment
		i := num(t, "i", 0, len(parts))
		parts = append(parts[:i], append([]string{plain()}, parts[i:]...)...)
	case 2: // change a segment
		parts[num(t, "i", 0, len(parts)-1)] = plain()
	case 3:
		return genPattern(t, sep, m)
	case 4:
		i := num(t, "i", 0, len(parts)-1)
		parts[i] = pick(t, "blur", strings.ToUpper(parts[i]), parts[i]+" ", " "+parts[i], parts[i]+sep, sep+parts[i], parts[i]+parts[i])
	}
	return strings.Join(parts, sep)
}

func TestC14_Helper(t *testing.T) {
	check(t, 30000, "random separators, markers and patterns (adjacent and inner *, empty segments, segments which look like markers), paths derived from the pattern and changed at random; non-trivial: the pattern has a * or a named segment and more than one segment", func(t *rapid.T, c *Case) {
		sep := pick(t, "sep", separators...)
		m := pick(t, "markers", markers...)
		if chance(t, "usual", 40) {
			sep, m = "/", pick(t, "usual markers", marks{':', 0}, marks{'{', '}'})
		}
		pattern := genPattern(t, sep, m)
		p := genPath(t, pattern, sep, m)
		c.logf("path %q, pattern %q, separator %q, markers %q", p, pattern, sep, []byte{m.prefix, m.suffix})
		isPat := refIsPathPattern(pattern, sep, m)
		c.nt(isPat && strings.Contains(pattern, sep))
		want := refPathSep(p, pattern, sep, m)
		c.labelIf(want, "match")
		c.labelIf(!want, "no match")
		if got := util.PathMatchHelper(p, pattern, sep, m.prefix, m.suffix); got != want {
			t.Fatalf("PathMatchHelper = %v, want %v\n%s", got, want, c.desc.String())
		}
		if got := util.IsPathPatternHelper(pattern, sep, m.prefix, m.suffix); got != isPat {
			t.Fatalf("IsPathPatternHelper(%q) = %v, want %v\n%s", pattern, got, isPat, c.desc.String())
		}
		if got, want := util.IsPathPatternHelper(p, sep, m.prefix, m.suffix), refIsPathPattern(p, sep, m); got != want {
			t.Fatalf("IsPathPatternHelper(%q) = %v, want %v\n%s", p, got, want, c.desc.String())
		}
		if sep == "/" {
			for _, x := range []struct {
				m     marks
				match func(a, b string) bool
				is    func(a string) bool
				im    util.IMatcher
			}{{marks{':', 0}, util.PathMatch, util.IsPathPattern, util.PathMatcher}, {marks{'{', '}'}, util.PathMatch2, util.IsPathPattern2, util.PathMatcher2}} {
				want, isPat := refPathSep(p, pattern, "/", x.m), refIsPathPattern(pattern, "/", x.m)
				if got := x.match(p, pattern); got != want {
					t.Fatalf("match = %v, want %v (%q)\n%s", got, want, x.m, c.desc.String())
				}
				if got := x.im.Match(p, pattern); got != want {
					t.Fatalf("matcher = %v, want %v (%q)\n%s", got, want, x.m, c.desc.String())
				}
				if x.is(pattern) != isPat || x.im.IsPattern(pattern) != isPat {
					t.Fatalf("%q is a pattern: %v, %v, want %v\n%s", pattern, x.is(pattern), x.im.IsPattern(pattern), isPat, c.desc.String())
				}
			}
		}
	})
}

// many stars and long paths: an answer in reasonable time
func TestC14_Long(t *testing.T) {
	check(t, 400, "patterns with many stars and paths of up to 3000 segments over few names, so that there are many ways to align them; the answer has to come within 20 s; non-trivial: five or more stars and no match", func(t *rapid.T, c *Case) {
		sep := pick(t, "sep", "/", "/", "::", ".")
		m := marks{':', 0}
		names := []string{"a", "b", "aa"}[:num(t, "names", 1, 3)]
		parts, stars := []string{}, 0
		for i := num(t, "groups", 1, 60); i > 0; i-- {
			parts = append(parts, "*")
			stars++
			for k := num(t, "between", 0, 2); k > 0; k-- {
				parts = append(parts, pick(t, "segment", append(names, ":x")...))
			}
		}
		parts = append(parts, pick(t, "end", "*", "a", "b", "zz"))
		n := pick(t, "length", 10, 100, 1000, 3000)
		if n > 100 && len(parts) > 40 {
			n = 100 // the reference takes n times the pattern
		}
		path := []string{}
		for i := num(t, "length", n/2, n); i > 0; i-- {
			path = append(path, names[(i*i+i/3)%len(names)])
		}
		if chance(t, "suffix", 50) {
			path = append(path, parts[len(parts)-1])
		}
		p, pattern := strings.Join(path, sep), strings.Join(parts, sep)
		want := refPathSep(p, pattern, sep, m)
		c.logf("%d segments of %q, pattern %q, %v", len(path), names, pattern, want)
		c.nt(stars >= 5 && !want)
		done := make(chan bool, 1)
		go func() { done <- util.PathMatchHelper(p, pattern, sep, m.prefix, m.suffix) }()
		select {
		case got := <-done:
			if got != want {
				t.Fatalf("PathMatchHelper = %v, want %v\n%s", got, want, c.desc.String())
			}
		case <-time.After(20 * time.Second):
			t.Fatalf("no answer for %d segments, pattern %q\n%s", len(path), pattern, c.desc.String())
		}
	})
}

// all short paths and patterns
func TestC14_Short(t *testing.T) {
	n := 4
	if thorough {
		n = 5
	}
	words := func(alphabet string) []string {
		all := []string{""}
		for last := all; len(last[0]) < n; {
			next := []string{}
			for _, w := range last {
				for _, r := range alphabet {
					next = append(next, w+string(r))
				}
			}
			all = append(all, next...)
			last = next
		}
		return all
	}
	paths := words("a/b")
	for _, k := range []struct {
		alphabet string
		match    func(a, b string) bool
		ref      func(a, b string) bool
	}{{"a/*:", util.PathMatch, refPathMatch}, {"a/{}*", util.PathMatch2, refPathMatch2}} {
		for _, pattern := range words(k.alphabet) {
			for _, p := range paths {
				if got, want := k.match(p, pattern), k.ref(p, pattern); got != want {
					t.Fatalf("path %q, pattern %q: %v, want %v", p, pattern, got, want)
				}
			}
		}
	}
}

func TestC14_Matchers(t *testing.T) {
	check(t, 2500, "rules with path patterns, pathMatch or pathMatch2 in different positions of a matcher, Enforce and Filter; non-trivial: a rule with a pattern matches and another one does not", func(t *rapid.T, c *Case) {
		fn := pick(t, "fn", "pathMatch", "pathMatch2")
		mk, ref := marks{':', 0}, refPathMatch
		if fn == "pathMatch2" {
			mk, ref = marks{'{', '}'}, refPathMatch2
		}
		lit := genPattern(t, "/", mk)
		forms := []struct {
			text string
			ref  func(sub, obj, psub, pobj string) bool
		}{
			{"r.sub == p.sub && %s(r.obj, p.obj)", func(a, b, c, d string) bool { return a == c && ref(b, d) }},
			{"%s(r.obj, p.obj)", func(a, b, c, d string) bool { return ref(b, d) }},
			{"%s(r.sub, p.sub) && %[1]s(r.obj, p.obj)", func(a, b, c, d string) bool { return ref(a, c) && ref(b, d) }},
			{"%s(r.sub, p.sub) || %[1]s(r.obj, p.obj)", func(a, b, c, d string) bool { return ref(a, c) || ref(b, d) }},
			{"r.sub == p.sub && !%s(r.obj, p.obj)", func(a, b, c, d string) bool { return a == c && !ref(b, d) }},
			{"%s(p.obj, r.obj)", func(a, b, c, d string) bool { return ref(d, b) }},
			{"%s(r.obj, " + strings.ReplaceAll(quoteLit(lit, false), "%", "%%") + ") && r.sub == p.sub", func(a, b, c, d string) bool { return ref(b, lit) && a == c }},
			{"%s(p.obj, " + strings.ReplaceAll(quoteLit(lit, false), "%", "%%") + ") && r.sub == p.sub", func(a, b, c, d string) bool { return ref(d, lit) && a == c }},
			{"%s(r.sub + '/' + r.obj, p.sub + '/' + p.obj)", func(a, b, c, d string) bool { return ref(a+"/"+b, c+"/"+d) }},
		}
		f := forms[num(t, "form", 0, len(forms)-1)]
		m := fmt.Sprintf(f.text, fn)
		c.logf("m = %s", m)
		s := &scenario{v: &vocab{rKey: "r", pKey: "p"}, rArgs: []string{"sub", "obj"}, pArgs: []string{"sub", "obj"}, effect: effSome}
		e, err := s.buildWith(m)
		if err != nil {
			t.Fatalf("%v\n%s", err, c.desc.String())
		}
		rules := [][]string{}
		for i := num(t, "rules", 1, 6); i > 0; i-- {
			r := []string{"p", pick(t, "sub", "a", "b", ":x", "*", "{x}"), genPattern(t, "/", mk)}
			if !contains(rules, r) {
				rules = append(rules, r)
				c.logf("%q", r)
				addAll(t, e, r)
			}
		}
		for i := 0; i < 4; i++ {
			sub := pick(t, "r.sub", "a", "b", "c")
			obj := genPath(t, rules[num(t, "rule", 0, len(rules)-1)][2], "/", mk)
			want := [][]string{}
			for _, r := range rules {
				if f.ref(sub, obj, r[1], r[2]) {
					want = append(want, r)
					c.nt(refIsPathPattern(r[2], "/", mk) && len(rules) > len(want))
				}
			}
			got, err := e.Filter(sub, obj)
			if err != nil || !sameRules(got, want) {
				t.Fatalf("Filter(%q, %q) = %q, %v, want %q\n%s", sub, obj, got, err, want, c.desc.String())
			}
			if ok, err := e.Enforce(sub, obj); err != nil || ok != (len(want) > 0) {
				t.Fatalf("Enforce(%q, %q) = %v, %v, want %v\n%s", sub, obj, ok, err, len(want) > 0, c.desc.String())
			}
		}
	})
}

// path patterns as roles and as domains, for any separator and markers
func TestC14_Roles(t *testing.T) {
	check(t, 4000, "one link from, to, or in the domain of a path pattern, with random separators and markers; a name inherits the role exactly if the reference matches; non-trivial: the link has a pattern", func(t *rapid.T, c *Case) {
		sep := pick(t, "sep", separators...)
		mk := pick(t, "markers", markers...)
		if chance(t, "usual", 40) {
			sep, mk = "/", pick(t, "usual markers", marks{':', 0}, marks{'{', '}'})
		}
		im := util.NewMatcher(func(s string) bool { return util.IsPathPatternHelper(s, sep, mk.prefix, mk.suffix) },
			func(s, p string) bool { return util.PathMatchHelper(s, p, sep, mk.prefix, mk.suffix) })
		pattern := genPattern(t, sep, mk)
		name := genPath(t, pattern, sep, mk)
		c.logf("name %q, pattern %q, separator %q, markers %q", name, pattern, sep, []byte{mk.prefix, mk.suffix})
		isPat := refIsPathPattern(pattern, sep, mk)
		want := name == pattern || isPat && refPathSep(name, pattern, sep, mk)
		c.nt(isPat)
		c.labelIf(want && isPat, "match")
		c.labelIf(!want, "no match")
		kind := pick(t, "kind", "user", "role", "domain")
		c.label(kind)
		for _, x := range []string{name, "user\x01", "role\x01", "another"} {
			if refIsPathPattern(x, sep, mk) && x != pattern {
				return // the names must not be patterns themselves
			}
		}
		late := chance(t, "late matcher", 30)
		// the link itself may use a separator which is meaningful for the manager, hence the fixed names
		var got bool
		var err error
		if kind == "domain" {
			dm := rbac.NewDomainManager(10)
			if !late {
				dm.SetDomainMatcher(im)
			}
			_, err = dm.AddLink("user\x01", "role\x01", pattern)
			must(t, err)
			if late {
				dm.SetDomainMatcher(im)
			}
			if chance(t, "known", 30) {
				_, err = dm.AddLink("other", "another", name)
				must(t, err)
			}
			got, err = dm.HasLink("user\x01", "role\x01", name)
		} else {
			rm := rbac.NewRoleManager(10)
			if !late {
				rm.SetMatcher(im)
			}
			ask := func() (bool, error) { return rm.HasLink(name, "role\x01") }
			if kind == "user" {
				_, err = rm.AddLink(pattern, "role\x01")
			} else {
				_, err = rm.AddLink("user\x01", pattern)
				ask = func() (bool, error) { return rm.HasLink("user\x01", name) }
			}
			must(t, err)
			if late {
				rm.SetMatcher(im)
			}
			if chance(t, "known", 30) {
				if kind == "user" {
					_, err = rm.AddLink("another", name)
				} else {
					_, err = rm.AddLink(name, "another")
				}
				must(t, err)
			}
			got, err = ask()
		}
		if err != nil || got != want {
			t.Fatalf("%s: %v, %v, want %v\n%s", kind, got, err, want, c.desc.String())
		}
	})
}
