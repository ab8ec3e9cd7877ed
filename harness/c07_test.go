package harness

import (
	"fmt"
	"math/rand"
	"path"
	"regexp"
	"strings"
	"testing"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"pgregory.net/rapid"
)

// pattern is a matcher with its own reference
type pattern struct {
	name  string
	sut   func() util.IMatcher
	is    func(s string) bool
	match func(s, pattern string) bool
	names []string
}

func segs(s string) []string { return strings.Split(s, "/") }

func isPath(dyn func(string) bool) func(string) bool {
	return func(s string) bool {
		for _, x := range segs(s) {
			if x == "*" || dyn(x) {
				return true
			}
		}
		return false
	}
}

func starPattern(s string) bool { return strings.HasSuffix(s, "*") }
func starMatch(s, p string) bool {
	return starPattern(p) && strings.HasPrefix(s, p[:len(p)-1])
}

// another matcher to replace p, often one with the same patterns and different answers
func otherMatcher(t *rapid.T, p *pattern) *pattern {
	i := num(t, "other matcher", 0, len(patterns)-1)
	if strings.HasSuffix(p.name, "regex") && chance(t, "other regex", 70) {
		i = 2
		if p.name == "regex" {
			i = 3
		}
	}
	return &patterns[i]
}

var patterns = []pattern{
	{"path", func() util.IMatcher { return util.PathMatcher }, isPath(dyn1), refPathMatch,
		[]string{"a", "b", "/a", "/b", "/a/b", "/a/c", "/:x", "/a/:x", "/*", "*", "/:x/b", ":r", "/a/*", "/a/b/c"}},
	{"path2", func() util.IMatcher { return util.PathMatcher2 }, isPath(dyn2), refPathMatch2,
		[]string{"a", "b", "/a", "/b", "/a/b", "/a/c", "/{x}", "/a/{x}", "/*", "*", "/{x}/b", "{r}", "/a/*", "/a/:x"}},
	{"regex", func() util.IMatcher { return util.RegexMatcher }, func(s string) bool { return strings.HasPrefix(s, "p'") },
		func(s, p string) bool {
			if !strings.HasPrefix(p, "p'") {
				return false
			}
			m, err := regexp.MatchString(p[2:], s)
			return err == nil && m
		}, []string{"a", "b", "ab", "aa", "p'^a", "p'b$", "p'^.$", "p'", "abc", "p'^ab*$", "p'c", "p'(", "p'a["}},
	{"full regex", func() util.IMatcher { // same patterns, other answers
		return util.NewPrefixMatcher("p'", func(s, p string) bool { m, err := regexp.MatchString("^(?:"+p+")$", s); return err == nil && m })
	}, func(s string) bool { return strings.HasPrefix(s, "p'") },
		func(s, p string) bool {
			if !strings.HasPrefix(p, "p'") {
				return false
			}
			m, err := regexp.MatchString("^(?:"+p[2:]+")$", s)
			return err == nil && m
		}, []string{"a", "b", "ab", "aa", "p'^a", "p'b$", "p'^.$", "p'", "abc", "p'^ab*$", "p'c", "p'a.*", "p'("}},
	{"prefix glob", func() util.IMatcher {
		return util.NewPrefixMatcher("glob:", func(s, p string) bool { m, err := path.Match(p, s); return err == nil && m })
	}, func(s string) bool { return strings.HasPrefix(s, "glob:") },
		func(s, p string) bool {
			if !strings.HasPrefix(p, "glob:") {
				return false
			}
			m, err := path.Match(p[5:], s)
			return err == nil && m
		}, []string{"a", "b", "ab", "glob:a*", "glob:*", "glob:?", "glob:*b", "abc", "glob:[ab]", "glob", "glob:", "glob:["}},
	{"star", func() util.IMatcher { return util.NewMatcher(starPattern, starMatch) }, starPattern, starMatch,
		[]string{"a", "b", "ab", "abc", "b c", "a*", "*", "ab*", "b*", "", "a,b", "a,*", "1,a", "1,*"}},
}

// joinedNames is a matcher whose names are confused if they are joined by j
func joinedNames(j string) *pattern {
	p := patterns[5]
	p.name = "star, joined by " + j
	p.names = []string{"b", "b" + j + "b", "b*", "b" + j + "b*", "b" + j + "b" + j + "b", "b" + j + "*", "a*", "b" + j + "b" + j + "*", "a" + j + "b"}
	if j == "" {
		p.names = append(p.names[:7:7], "bbb*", "a")
	}
	return &p
}

// genMatcher returns one of the patterns, or one whose names are confused if they are joined by the returned string
func genMatcher(t *rapid.T, label string) (*pattern, string) {
	if chance(t, "confusable names", 20) {
		j := pick(t, "joiner", append([]string{"", "->", "@", "#", "."}, joiners...)...)
		return joinedNames(j), j
	}
	return &patterns[num(t, label, 0, len(patterns)-1)], ""
}

// pgraph is the reference for role patterns: for every name it has a set of
// roles which are certain (low) and a set of roles which are defensible (high)
type pgraph struct {
	links edges
	p     *pattern // may be nil
}

func (g pgraph) nodes(extra ...string) map[string]bool {
	n := map[string]bool{}
	for l := range g.links {
		n[l[0]], n[l[1]] = true, true
	}
	for _, x := range extra {
		n[x] = true
	}
	return n
}

// covers: is s a name which pattern stands for
func (g pgraph) covers(pat, s string) bool {
	return g.p != nil && pat != s && g.p.is(pat) && g.p.match(s, pat)
}

func side(l [2]string, up bool) (from, to string) {
	if up {
		return l[0], l[1]
	}
	return l[1], l[0]
}

// step returns the direct roles (up) or users of name
func (g pgraph) step(name string, up, high bool, nodes map[string]bool) map[string]bool {
	res := map[string]bool{}
	for l := range g.links {
		from, to := side(l, up)
		if from == name {
			res[to] = true
			for z := range nodes {
				if g.covers(to, z) {
					res[z] = true
				}
			}
		} else if g.covers(from, name) {
			res[to] = true
			if high { // pattern to pattern
				for z := range nodes {
					if g.covers(to, z) {
						res[z] = true
					}
				}
			}
		}
	}
	return res
}

func (g pgraph) has(a, b string, high bool) bool {
	if a == b || g.covers(b, a) {
		return true
	}
	nodes := g.nodes(a, b)
	seen := map[string]bool{a: true}
	todo := []string{a}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if x == b || g.covers(b, x) {
			return true
		}
		for y := range g.step(x, true, high, nodes) {
			if !seen[y] {
				seen[y] = true
				todo = append(todo, y)
			}
		}
	}
	return false
}

// between checks low <= got <= high
func (g pgraph) between(got []string, name string, up bool) error {
	nodes := g.nodes(name)
	low, high := g.step(name, up, false, nodes), g.step(name, up, true, nodes)
	set := map[string]bool{}
	for _, x := range got {
		set[x] = true
		if !high[x] {
			return fmt.Errorf("%q is no direct role/user of %q", x, name)
		}
	}
	for x := range low {
		if !set[x] {
			return fmt.Errorf("%q is missing, it is a direct role/user of %q", x, name)
		}
	}
	return nil
}

type linker interface {
	rbac.IRoleManager
}

// same compares all answers of two role managers
func same(a, b linker, names []string, dom ...string) error {
	for _, x := range names {
		r1, e1 := a.GetRoles(x, dom...)
		r2, e2 := b.GetRoles(x, dom...)
		if sorted(r1) != sorted(r2) || e1 != nil || e2 != nil {
			return fmt.Errorf("GetRoles(%q, %q): %q %v, fresh: %q %v", x, dom, r1, e1, r2, e2)
		}
		r1, e1 = a.GetUsers(x, dom...)
		r2, e2 = b.GetUsers(x, dom...)
		if sorted(r1) != sorted(r2) || e1 != nil || e2 != nil {
			return fmt.Errorf("GetUsers(%q, %q): %q %v, fresh: %q %v", x, dom, r1, e1, r2, e2)
		}
		for _, y := range names {
			h1, e1 := a.HasLink(x, y, dom...)
			h2, e2 := b.HasLink(x, y, dom...)
			if h1 != h2 || e1 != nil || e2 != nil {
				return fmt.Errorf("HasLink(%q, %q, %q): %v %v, fresh: %v %v", x, y, dom, h1, e1, h2, e2)
			}
		}
	}
	return nil
}

func genPatternNames(t *rapid.T, p *pattern) []string {
	names := rapid.Permutation(p.names).Draw(t, "names")
	return names[:num(t, "number of names", 3, 7)]
}

func TestC07_RolePatterns(t *testing.T) {
	check(t, 3000, "random links between names and patterns (paths, regular expressions, globs, own matchers), added, deleted and queried in any order, matcher set before, between or after; non-trivial: some link of a pattern covers another name", func(t *rapid.T, c *Case) {
		p, _ := genMatcher(t, "matcher")
		names := genPatternNames(t, p)
		ps := []*pattern{p}
		if chance(t, "two matchers", 30) {
			q := otherMatcher(t, p)
			ps = append(ps, q)
			names = append(names, genPatternNames(t, q)[:3]...)
		}
		c.logf("%s matcher, names %q", p.name, names)
		rm := rbac.NewRoleManager(10)
		g := pgraph{links: edges{}}
		set := func(on bool) {
			if on {
				p = pick(t, "which", ps...)
			}
			c.logf("set matcher: %v %s", on, p.name)
			if on {
				rm.SetMatcher(p.sut())
				g.p = p
			} else {
				rm.SetMatcher(nil)
				g.p = nil
			}
		}
		verify := func(what string) {
			ask := append(names, pick(t, "unknown", p.names...))
			for _, a := range ask {
				got, err := rm.GetRoles(a)
				if err == nil {
					err = g.between(got, a, true)
				}
				if err != nil {
					t.Fatalf("%s: GetRoles(%q) = %q: %v\n%s", what, a, got, err, c.desc.String())
				}
				got, err = rm.GetUsers(a)
				if err == nil {
					err = g.between(got, a, false)
				}
				if err != nil {
					t.Fatalf("%s: GetUsers(%q) = %q: %v\n%s", what, a, got, err, c.desc.String())
				}
				for _, b := range ask {
					low, high := g.has(a, b, false), g.has(a, b, true)
					got, err := rm.HasLink(a, b)
					if err != nil || got && !high || !got && low {
						t.Fatalf("%s: HasLink(%q, %q) = %v, %v, want %v\n%s", what, a, b, got, err, low, c.desc.String())
					}
				}
			}
			seen := edges{}
			rm.Range(func(a, b string, dom ...string) bool {
				k := [2]string{a, b}
				if !g.links[k] || seen[k] || len(dom) > 0 {
					t.Fatalf("Range yields %q, which is no link or was reported before\n%s", k, c.desc.String())
				}
				seen[k] = true
				return true
			})
			if len(seen) != len(g.links) {
				t.Fatalf("Range yields %v, want %v\n%s", seen, g.links, c.desc.String())
			}
		}
		if chance(t, "early", 60) {
			set(true)
		}
		for i := num(t, "steps", 1, 14); i > 0; i-- {
			a, b := pick(t, "a", names...), pick(t, "b", names...)
			k := [2]string{a, b}
			switch num(t, "step", 0, 11) {
			case 0, 1, 2, 3, 4, 5:
				c.logf("add %q", k)
				if got, err := rm.AddLink(a, b); err != nil || got == g.links[k] {
					t.Fatalf("AddLink(%q) = %v, %v\n%s", k, got, err, c.desc.String())
				}
				g.links[k] = true
			case 6, 7, 8:
				if r := sortedKeys(g.links, a); len(r) > 0 && chance(t, "present", 80) {
					b = r[num(t, "i", 0, len(r)-1)]
					k = [2]string{a, b}
				}
				c.logf("delete %q", k)
				if got, err := rm.DeleteLink(a, b); err != nil || got != g.links[k] {
					t.Fatalf("DeleteLink(%q) = %v, %v\n%s", k, got, err, c.desc.String())
				}
				delete(g.links, k)
			case 9, 10:
				c.logf("query")
				verify("between")
			case 11:
				set(chance(t, "on", 75))
			}
		}
		if g.p == nil {
			set(true)
		}
		p = g.p
		verify("at the end")
		for l := range g.links {
			for _, n := range names {
				c.nt(g.covers(l[0], n) || g.covers(l[1], n))
			}
		}
		// a role manager which was built from what is left
		f := rbac.NewRoleManager(10)
		ls := [][2]string{}
		for _, a := range names {
			for _, b := range sortedKeys(g.links, a) {
				ls = append(ls, [2]string{a, b})
			}
		}
		at := num(t, "set matcher at", 0, len(ls))
		for i, l := range rapid.Permutation(ls).Draw(t, "order") {
			if i == at {
				f.SetMatcher(p.sut())
			}
			_, err := f.AddLink(l[0], l[1])
			must(t, err)
		}
		if at >= len(ls) {
			f.SetMatcher(p.sut())
		}
		if err := same(rm, f, append(names, "unknown", p.names[0], p.names[6])); err != nil {
			t.Fatalf("%v\n%s", err, c.desc.String())
		}
	})
}

// the same, seen by a matcher
func TestC07_PatternDecisions(t *testing.T) {
	check(t, 1000, "grouping rules with patterns, added and removed around setting the matcher, decided by a matcher with a role function for subjects and objects; non-trivial: a request is permitted which would be denied without patterns", func(t *rapid.T, c *Case) {
		p := &patterns[num(t, "matcher", 0, len(patterns)-1)]
		names := genPatternNames(t, p)
		e, err := mkEnf(mdl("sub, obj", "sub, obj", "g = _, _\ng2 = _, _", effSome, "g(r.sub, p.sub) && g2(r.obj, p.obj)"))
		must(t, err)
		g := map[string]pgraph{"g": {links: edges{}}, "g2": {links: edges{}}}
		set := func(key string) {
			rm, _ := e.GetModel().GetRoleManager(key)
			rm.(rbac.IDefaultRoleManager).SetMatcher(p.sut())
			g[key] = pgraph{g[key].links, p}
			c.logf("%s: set matcher", key)
		}
		rules := [][]string{}
		for i := num(t, "rules", 1, 3); i > 0; i-- {
			r := []string{"p", pick(t, "sub", names...), pick(t, "obj", names...)}
			rules = append(rules, r)
			c.logf("%q", r)
			_, err := e.AddRule(clone(r))
			must(t, err)
		}
		for i := num(t, "steps", 1, 12); i > 0; i-- {
			key := pick(t, "key", "g", "g2")
			l := [2]string{pick(t, "a", names...), pick(t, "b", names...)}
			switch num(t, "step", 0, 7) {
			case 0, 1, 2, 3:
				c.logf("add %s %q", key, l)
				_, err := e.AddRule([]string{key, l[0], l[1]})
				must(t, err)
				g[key].links[l] = true
			case 4, 5:
				c.logf("remove %s %q", key, l)
				_, err := e.RemoveRule([]string{key, l[0], l[1]})
				must(t, err)
				delete(g[key].links, l)
			case 6:
				set(key)
			case 7:
				_, err := e.Enforce(l[0], l[1])
				must(t, err)
			}
		}
		for i := 0; i < 6; i++ {
			sub, obj := pick(t, "sub", p.names...), pick(t, "obj", p.names...)
			low, high, plain := false, false, false
			for _, r := range rules {
				low = low || g["g"].has(sub, r[1], false) && g["g2"].has(obj, r[2], false)
				high = high || g["g"].has(sub, r[1], true) && g["g2"].has(obj, r[2], true)
				plain = plain || pgraph{g["g"].links, nil}.has(sub, r[1], false) && pgraph{g["g2"].links, nil}.has(obj, r[2], false)
			}
			c.nt(low && !plain)
			got, err := e.Enforce(sub, obj)
			if err != nil || got && !high || !got && low {
				t.Fatalf("Enforce(%q, %q) = %v, %v, want %v\n%s", sub, obj, got, err, low, c.desc.String())
			}
		}
	})
}

func TestC07_Large(t *testing.T) {
	check(t, 25, "hundreds of names, roles and path patterns with links between them, added and removed; the roles of a name are those it is linked to, and those of the patterns which cover it; non-trivial: 100 or more links remain, and links of patterns were removed", func(t *rapid.T, c *Case) {
		p := &patterns[0]
		rm := rbac.NewRoleManager(100)
		early := chance(t, "early", 60)
		if early {
			rm.SetMatcher(p.sut())
		}
		rnd := rand.New(rand.NewSource(int64(num(t, "seed", 0, 1<<30))))
		n := big(t, "names", 20, 300)
		user := func() string {
			i := rnd.Intn(n)
			switch rnd.Intn(8) {
			case 0:
				return fmt.Sprintf("/g%d/*", i%12)
			case 1:
				return fmt.Sprintf("/:g/u%d", i/12)
			}
			return fmt.Sprintf("/g%d/u%d", i%12, i/12)
		}
		role := func() string {
			if rnd.Intn(12) == 0 {
				return fmt.Sprintf("/role/%d/:x", rnd.Intn(3))
			}
			return fmt.Sprintf("/role/%d/%d", rnd.Intn(3), rnd.Intn(10))
		}
		g := pgraph{links: edges{}, p: p}
		ls := [][2]string{}
		removed := 0
		for i := big(t, "changes", 100, 800); i > 0; i-- {
			if rnd.Intn(3) > 0 || len(ls) == 0 {
				l := [2]string{user(), role()}
				if rnd.Intn(8) == 0 {
					l[0] = role()
				}
				if ok, err := rm.AddLink(l[0], l[1]); err != nil || ok == g.links[l] {
					t.Fatalf("AddLink(%q) = %v, %v\n%s", l, ok, err, c.desc.String())
				}
				if !g.links[l] {
					ls = append(ls, l)
				}
				g.links[l] = true
				continue
			}
			k := rnd.Intn(len(ls))
			l := ls[k]
			ls[k] = ls[len(ls)-1]
			ls = ls[:len(ls)-1]
			if ok, err := rm.DeleteLink(l[0], l[1]); err != nil || !ok {
				t.Fatalf("DeleteLink(%q) = %v, %v\n%s", l, ok, err, c.desc.String())
			}
			delete(g.links, l)
			if p.is(l[0]) || p.is(l[1]) {
				removed++
			}
		}
		if !early {
			rm.SetMatcher(p.sut())
		}
		c.logf("%d names, %d links, %d links of patterns were removed", n, len(g.links), removed)
		for i := 0; i < 10; i++ {
			a := user()
			got, err := rm.GetRoles(a)
			if err == nil {
				err = g.between(got, a, true)
			}
			if err != nil {
				t.Fatalf("GetRoles(%q) = %q: %v\n%s", a, got, err, c.desc.String())
			}
			low, high := g.reach(a, false), g.reach(a, true)
			for k := 0; k < 30; k++ {
				b := fmt.Sprintf("/role/%d/%d", k/10, k%10)
				if got, err := rm.HasLink(a, b); err != nil || got && !high[b] || !got && low[b] {
					t.Fatalf("HasLink(%q, %q) = %v, %v, want %v\n%s", a, b, got, err, low[b], c.desc.String())
				}
			}
		}
		c.nt(len(g.links) >= 100 && removed > 0)
	})
}

// reach returns all names which are at the end of a chain from a
func (g pgraph) reach(a string, high bool) map[string]bool {
	nodes := g.nodes(a)
	for k := 0; k < 30; k++ {
		nodes[fmt.Sprintf("/role/%d/%d", k/10, k%10)] = true
	}
	seen := map[string]bool{a: true}
	for todo := []string{a}; len(todo) > 0; todo = todo[1:] {
		for y := range g.step(todo[0], true, high, nodes) {
			if !seen[y] {
				seen[y] = true
				todo = append(todo, y)
			}
		}
	}
	return seen
}
