package harness

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/abichinger/fastac/rbac"
	"pgregory.net/rapid"
)

// edges is a reference role graph
type edges map[[2]string]bool

// dist returns the length of the shortest chain from a to b, -1 if there is none
func (g edges) dist(a, b string) int {
	cur := map[string]bool{a: true}
	for n := 0; n <= len(g)+1; n++ {
		if cur[b] {
			return n
		}
		next := map[string]bool{}
		for k := range cur {
			next[k] = true
		}
		for e := range g {
			if cur[e[0]] {
				next[e[1]] = true
			}
		}
		cur = next
	}
	return -1
}

func (g edges) roles(a string) []string {
	res := []string{}
	for e := range g {
		if e[0] == a {
			res = append(res, e[1])
		}
	}
	return res
}

func (g edges) users(a string) []string {
	res := []string{}
	for e := range g {
		if e[1] == a {
			res = append(res, e[0])
		}
	}
	return res
}

func sorted(xs []string) string {
	ys := append([]string{}, xs...)
	sort.Strings(ys)
	return fmt.Sprintf("%q", ys)
}

// (a test counts as failed if the role manager returns a name twice)

func TestC05_RoleManager(t *testing.T) {
	check(t, 4000, "random link graphs built by adding and deleting links, hierarchy levels 1 to 12; non-trivial: the graph has a chain of two or more links and some link was deleted or added twice", func(t *rapid.T, c *Case) {
		max := num(t, "max", 1, 12)
		c.logf("level %d", max)
		var rm rbac.IDefaultRoleManager = rbac.NewRoleManager(max)
		dom := []string{}
		if chance(t, "domain manager", 40) {
			rm = rbac.NewDomainManager(max)
			dom = rapid.SliceOfN(rapid.SampledFrom([]string{"d1", "d2", "", "a,b"}), 0, 3).Draw(t, "domain")
			c.logf("domain %q", dom)
			c.label("domain manager")
		}
		gfn, noRoles := rbac.GenerateGFunction(rm), rbac.GenerateGFunction(nil)
		names := append([]string{"a", "b", "c", "d"}, rapid.SliceOfNDistinct(rapid.OneOf(rapid.SampledFrom(tricky), rapid.SampledFrom([]string{"e", "f", "h", "i", "j", "k", "l", "m"})), 0, 9, rapid.ID[string]).Draw(t, "names")...)
		if chance(t, "nearly equal names", 15) {
			for _, x := range nearPool(t, names[num(t, "near", 0, len(names)-1)]) {
				if index(names, x) < 0 {
					names = append(names, x)
				}
			}
		}
		g := edges{}
		touched := false
		verify := func() {
			seen := edges{}
			rm.Range(func(n1, n2 string, domain ...string) bool {
				k := [2]string{n1, n2}
				if !g[k] || seen[k] || !sameValues(domain, dom) {
					t.Fatalf("Range yields %q twice, or it is no link, or has domains %q\nlinks %v\n%s", k, domain, g, c.desc.String())
				}
				seen[k] = true
				return true
			})
			if len(seen) != len(g) {
				t.Fatalf("Range yields %v, want %v\n%s", seen, g, c.desc.String())
			}
			if len(g) > 0 {
				k := num(t, "stop", 1, len(g))
				n := 0
				rm.Range(func(n1, n2 string, domain ...string) bool {
					n++
					return n < k
				})
				if n != k {
					t.Fatalf("Range called the callback %d times, stopped at %d", n, k)
				}
			}
			longest := 0
			for _, a := range append(names, "unknown") {
				if got, err := rm.GetRoles(a, dom...); err != nil || sorted(got) != sorted(g.roles(a)) {
					t.Fatalf("GetRoles(%q) = %q, %v, want %q\n%s", a, got, err, g.roles(a), c.desc.String())
				}
				if got, err := rm.GetUsers(a, dom...); err != nil || sorted(got) != sorted(g.users(a)) {
					t.Fatalf("GetUsers(%q) = %q, %v, want %q\n%s", a, got, err, g.users(a), c.desc.String())
				}
				for _, b := range append(names, "unknown", "unknown2") {
					d := g.dist(a, b)
					if d > longest {
						longest = d
					}
					// a chain of n links spans n+1 levels
					want := d == 0 || d > 0 && d < max
					if got, err := rm.HasLink(a, b, dom...); err != nil || got != want {
						t.Fatalf("HasLink(%q, %q) = %v, %v, want %v (%d links apart)\n%s", a, b, got, err, want, d, c.desc.String())
					}
					args := []interface{}{a, b}
					for _, x := range dom {
						args = append(args, x)
					}
					if got, err := gfn(args...); err != nil || got != want {
						t.Fatalf("g(%q) = %v, %v, want %v (%d links apart)\n%s", args, got, err, want, d, c.desc.String())
					}
					if got, err := noRoles(args...); err != nil || got != (a == b) {
						t.Fatalf("without a role manager, g(%q) = %v, %v\n%s", args, got, err, c.desc.String())
					}
				}
			}
			c.labelIf(longest >= max, "chain beyond the level")
			c.nt(longest >= 2 && touched)
		}
		add := func(a, b string) {
			k := [2]string{a, b}
			c.logf("add %q", k)
			touched = touched || g[k]
			if got, err := rm.AddLink(a, b, dom...); err != nil || got == g[k] {
				t.Fatalf("AddLink(%q) = %v, %v, present before: %v\n%s", k, got, err, g[k], c.desc.String())
			}
			g[k] = true
		}
		del := func(a, b string) {
			k := [2]string{a, b}
			c.logf("delete %q", k)
			touched = touched || g[k]
			if got, err := rm.DeleteLink(a, b, dom...); err != nil || got != g[k] {
				t.Fatalf("DeleteLink(%q) = %v, %v, present before: %v\n%s", k, got, err, g[k], c.desc.String())
			}
			delete(g, k)
		}
		if chance(t, "chain", 50) { // a chain through all names
			for i := 1; i < len(names); i++ {
				if !chance(t, "gap", 10) {
					add(names[i-1], names[i])
				}
			}
		}
		for i := num(t, "steps", 0, 20); i > 0; i-- {
			a, b := pick(t, "a", names...), pick(t, "b", names...)
			switch num(t, "step", 0, 9) {
			case 0, 1, 2, 3, 4:
				add(a, b)
			case 5, 6:
				del(a, b)
			case 7:
				if r := sortedKeys(g, a); len(r) > 0 {
					del(a, r[0])
				}
			case 8:
				if chance(t, "clear", 15) {
					c.logf("clear")
					must(t, rm.Clear())
					g = edges{}
				}
			case 9:
				verify()
			}
		}
		verify()
	})
}

// TestC05_Large: wide and deep graphs
func TestC05_Large(t *testing.T) {
	check(t, 60, "graphs of up to 400 names with wide levels, many shortcuts and long chains, hierarchy levels up to 150, some links removed again; distances of random pairs; non-trivial: more than 100 links and a pair which is two or more links apart", func(t *rapid.T, c *Case) {
		max := num(t, "max", 1, 6)
		if chance(t, "high", 40) {
			max = num(t, "high max", 7, 150)
		}
		var rm rbac.IDefaultRoleManager = rbac.NewRoleManager(max)
		dom := []string{}
		if chance(t, "domain manager", 30) {
			rm, dom = rbac.NewDomainManager(max), []string{"d1", "d2"}[:num(t, "domains", 0, 2)]
		}
		name := func(i int) string { return fmt.Sprint("n", i) }
		g := map[int]map[int]bool{}
		n := 0
		links := 0
		add := func(a, b int) {
			if g[a] == nil {
				g[a] = map[int]bool{}
			}
			if got, err := rm.AddLink(name(a), name(b), dom...); err != nil || got == g[a][b] {
				t.Fatalf("AddLink(%s, %s) = %v, %v\n%s", name(a), name(b), got, err, c.desc.String())
			}
			if !g[a][b] {
				links++
			}
			g[a][b] = true
		}
		// parts: levels, each name has links to the next level, shortcuts and links within a level
		rnd := rand.New(rand.NewSource(int64(num(t, "graph", 0, 1<<30))))
		for k := big(t, "parts", 1, 3); k > 0; k-- {
			levels, width := big(t, "levels", 2, 6), big(t, "width", 1, 90)
			if chance(t, "chain", 30) {
				levels, width = big(t, "length", 20, 160), num(t, "thickness", 1, 2)
			}
			c.logf("%d levels of %d names", levels, width)
			start := n
			for l := 0; l < levels; l++ {
				w := width
				if l == 0 || l == levels-1 {
					w = 1 + width/10
				}
				for i := 0; i < w; i++ {
					x := n
					n++
					if x == 0 {
						continue
					}
					for j := 0; j < 1+w/8 && x > start; j++ {
						add(x-1-rnd.Intn(min(x-start, 1+w)), x) // from the level before, or this one
					}
					if start > 0 && rnd.Intn(10) == 0 {
						add(rnd.Intn(start), x)
					}
				}
			}
		}
		for i := num(t, "shortcuts and cycles", 0, 6); i > 0; i-- {
			add(rnd.Intn(n), rnd.Intn(n))
		}
		for a, bs := range g { // the order does not matter
			for b := range bs {
				if (a*31+b)%7 == 0 {
					if ok, err := rm.DeleteLink(name(a), name(b), dom...); err != nil || !ok {
						t.Fatalf("DeleteLink(%s, %s) = %v, %v\n%s", name(a), name(b), ok, err, c.desc.String())
					}
					delete(bs, b)
					links--
				}
			}
		}
		c.logf("%d names, %d links, level %d, domain %q", n, links, max, dom)
		far := 0
		for i := 0; i < 8; i++ {
			a := rnd.Intn(n)
			if i < 3 {
				a = i
			}
			dist := map[int]int{a: 0}
			for queue := []int{a}; len(queue) > 0; queue = queue[1:] {
				for b := range g[queue[0]] {
					if _, ok := dist[b]; !ok {
						dist[b] = dist[queue[0]] + 1
						queue = append(queue, b)
					}
				}
			}
			for b := 0; b < n; b++ {
				d, ok := dist[b]
				if d > far {
					far = d
				}
				if n > 50 && rnd.Intn(n) > 30 && !(ok && (d == max || d == max-1) && rnd.Intn(3) == 0) {
					continue
				}
				want := a == b || ok && d < max
				if got, err := rm.HasLink(name(a), name(b), dom...); err != nil || got != want {
					t.Fatalf("HasLink(%s, %s) = %v, %v, want %v (%d links apart, linked: %v)\n%s", name(a), name(b), got, err, want, d, ok, c.desc.String())
				}
			}
			if got, err := rm.GetRoles(name(a), dom...); err != nil || len(got) != len(g[a]) {
				t.Fatalf("GetRoles(%s) returned %d roles, %v, want %d\n%s", name(a), len(got), err, len(g[a]), c.desc.String())
			}
		}
		c.labelIf(far >= max, "beyond the level")
		c.nt(links > 100 && far >= 2)
	})
}

func sortedKeys(g edges, a string) []string {
	res := g.roles(a)
	sort.Strings(res)
	return res
}

// the role function of a matcher, with the default hierarchy level of 10
func TestC05_RoleFunction(t *testing.T) {
	check(t, 1000, "link graphs of a model, queried by a matcher which calls the role function; non-trivial: a chain of two or more links", func(t *rapid.T, c *Case) {
		dom := rapid.SliceOfN(rapid.SampledFrom([]string{"d1", "d2", "x y"}), 0, 2).Draw(t, "domain")
		args := ""
		for _, d := range dom {
			args += ", '" + d + "'"
		}
		c.logf("domain %q", dom)
		e, err := mkEnf(mdl("sub, obj", "sub, obj", "g = _, _"+strings.Repeat(", _", len(dom)), effSome, "g(r.sub, p.sub"+args+") && r.obj == p.obj"))
		must(t, err)
		names := []string{"a", "b", "c", "d", "e", "f", "h", "i", "j", "k", "l", "m", "n"}
		g := edges{}
		add := func(a, b string) {
			g[[2]string{a, b}] = true
			c.logf("%s -> %s", a, b)
			_, err := e.AddRule(append([]string{"g", a, b}, dom...))
			must(t, err)
		}
		names = rapid.Permutation(names).Draw(t, "names")
		for i := num(t, "chain", 0, len(names)-1); i > 0; i-- {
			add(names[i-1], names[i])
		}
		for i := num(t, "links", 0, 6); i > 0; i-- {
			add(pick(t, "a", names...), pick(t, "b", names...))
		}
		role := pick(t, "role", names...)
		_, err = e.AddRule([]string{"p", role, "x"})
		must(t, err)
		for _, a := range names {
			d := g.dist(a, role)
			want := d >= 0 && d < 10
			c.nt(d >= 2)
			c.labelIf(d >= 9, "chain at the limit")
			if got, err := e.Enforce(a, "x"); err != nil || got != want {
				t.Fatalf("Enforce(%s) = %v, %v, want %v: %d links to %s\n%s", a, got, err, want, d, role, c.desc.String())
			}
			rm, _ := e.GetModel().GetRoleManager("g")
			if got, err := rm.HasLink(a, role, dom...); err != nil || got != want {
				t.Fatalf("HasLink(%s, %s) = %v, %v, want %v: %d links\n%s", a, role, got, err, want, d, c.desc.String())
			}
		}
	})
}

func sameValues(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}
