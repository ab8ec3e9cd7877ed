package harness

import (
	"fmt"
	"github.com/abichinger/fastac/util"
	"math/rand"
	"strings"
	"testing"

	"github.com/abichinger/fastac/rbac"
	"pgregory.net/rapid"
)

// dgraph is the reference for domain patterns
type dgraph struct {
	links []dlink
	p     *pattern // roles
	dp    *pattern // domains
}

func (g *dgraph) find(l dlink) int {
	for i, x := range g.links {
		if x.String() == l.String() {
			return i
		}
	}
	return -1
}

// applies: is a link of domain d in force in domain q (which is no pattern)
func (g *dgraph) applies(d, q []string) bool {
	if len(d) != len(q) {
		return false
	}
	for i := range d {
		if d[i] != q[i] && !(g.dp != nil && g.dp.is(d[i]) && g.dp.match(q[i], d[i])) {
			return false
		}
	}
	return true
}

func (g *dgraph) isPattern(d []string) bool {
	for _, x := range d {
		if g.dp != nil && g.dp.is(x) {
			return true
		}
	}
	return false
}

// in returns the links which are in force in domain q
func (g *dgraph) in(q []string) pgraph {
	res := pgraph{links: edges{}, p: g.p}
	for _, l := range g.links {
		if g.applies(l.dom, q) {
			res.links[[2]string{l.a, l.b}] = true
		}
	}
	return res
}

// disagree lists pairs of a name and a pattern which only one of the matchers matches
func disagree(p, q *pattern) [][2]string {
	res := [][2]string{}
	for _, pat := range append(append([]string{}, p.names...), q.names...) {
		for _, n := range append(append([]string{}, p.names...), q.names...) {
			if n != pat && p.is(pat) && q.is(pat) && !p.is(n) && !q.is(n) && p.match(n, pat) != q.match(n, pat) {
				res = append(res, [2]string{n, pat})
			}
		}
	}
	return res
}

func TestC08_DomainPatterns(t *testing.T) {
	check(t, 2500, "random links in explicit, pattern and nested domains, added, deleted and queried in any order, domain and role matchers set at any time; non-trivial: a link of a pattern domain is in force in another domain", func(t *rapid.T, c *Case) {
		p, j := genMatcher(t, "domain matcher")
		var rp *pattern
		if chance(t, "role matcher", 30) {
			rp = &patterns[num(t, "role matcher", 0, len(patterns)-1)]
		}
		pool := rapid.Permutation(p.names).Draw(t, "domain names")[:num(t, "n", 3, 6)]
		pair := []string{}
		ps := []*pattern{p} // a domain matcher may be replaced by another one
		if chance(t, "two matchers", 30) {
			q := otherMatcher(t, p)
			ps = append(ps, q)
			pool = append(pool, rapid.Permutation(q.names).Draw(t, "domain names")[:3]...)
			// names about which the matchers disagree
			if d := disagree(p, q); len(d) > 0 && chance(t, "disagree", 60) {
				pair = d[num(t, "pair", 0, len(d)-1)][:]
			}
		}
		nested := chance(t, "nested", 35)
		doms := [][]string{}
		for i := num(t, "domains", 2, 5); i > 0; i-- {
			d := []string{pick(t, "domain", pool...)}
			if nested {
				for k := pick(t, "depth", 0, 1, 1, 2); k > 0; k-- {
					d = append(d, pick(t, "subdomain", pool...))
				}
			}
			doms = append(doms, d)
		}
		for _, x := range pair {
			doms = append(doms, []string{x})
		}
		if chance(t, "default", 20) {
			doms = append(doms, []string{})
		}
		names := []string{"u", "v", "w"}
		if j != "" {
			names = []string{"u", "v", "u" + j + "v", "v" + j + "v"}
		}
		if rp != nil {
			names = genPatternNames(t, rp)
			if len(names) > 4 {
				names = names[:4]
			}
			c.logf("role matcher %s", rp.name)
		}
		c.logf("domain matcher %s", p.name)
		dm := rbac.NewDomainManager(20)
		g := &dgraph{}
		setD := func(on bool) {
			if on && len(ps) > 1 && (g.dp == nil || chance(t, "switch", 70)) {
				if p == ps[0] {
					p = ps[1]
				} else {
					p = ps[0]
				}
			}
			c.logf("set domain matcher: %v %s", on, p.name)
			if on {
				dm.SetDomainMatcher(p.sut())
				g.dp = p
			} else {
				dm.SetDomainMatcher(nil)
				g.dp = nil
			}
		}
		setR := func() {
			if rp == nil {
				return
			}
			if chance(t, "other role matcher", 10) {
				rp = otherMatcher(t, rp)
			}
			c.logf("set role matcher %s", rp.name)
			dm.SetMatcher(rp.sut())
			g.p = rp
		}
		genQueried := func() [][]string {
			q := append([][]string{}, doms...)
			for i := 0; i < 3; i++ { // domains which were never used
				d := []string{pick(t, "other domain", p.names...)}
				if nested && chance(t, "sub", 50) {
					d = append(d, pick(t, "other domain", p.names...))
				}
				q = append(q, d)
			}
			return q
		}
		verify := func(what string) {
			for _, q := range genQueried() {
				if g.isPattern(q) {
					continue
				}
				in := g.in(q)
				for _, l := range g.links {
					c.nt(g.applies(l.dom, q) && domKey(l.dom) != domKey(q))
				}
				for _, a := range append(names, "unknown") {
					got, err := dm.GetRoles(a, q...)
					if err == nil {
						err = in.between(got, a, true)
					}
					if err != nil {
						t.Fatalf("%s: GetRoles(%q, %q) = %q: %v\n%s", what, a, q, got, err, c.desc.String())
					}
					got, err = dm.GetUsers(a, q...)
					if err == nil {
						err = in.between(got, a, false)
					}
					if err != nil {
						t.Fatalf("%s: GetUsers(%q, %q) = %q: %v\n%s", what, a, q, got, err, c.desc.String())
					}
					for _, b := range names {
						low, high := in.has(a, b, false), in.has(a, b, true)
						got, err := dm.HasLink(a, b, q...)
						if err != nil || got && !high || !got && low {
							t.Fatalf("%s: HasLink(%q, %q, %q) = %v, %v, want %v\n%s", what, a, b, q, got, err, low, c.desc.String())
						}
					}
				}
			}
			got, want := []string{}, []string{}
			dm.Range(func(a, b string, dom ...string) bool {
				got = append(got, dlink{a, b, dom}.String())
				return true
			})
			for _, l := range g.links {
				want = append(want, l.String())
			}
			if sorted(got) != sorted(want) {
				t.Fatalf("%s: Range yields %q\nwant %q\n%s", what, got, want, c.desc.String())
			}
		}
		order := chance(t, "matchers first", 50)
		if order {
			setR()
			setD(true)
		}
		for i := num(t, "steps", 1, 16); i > 0; i-- {
			switch num(t, "step", 0, 13) {
			case 0, 1, 2, 3, 4, 5, 6:
				l := dlink{pick(t, "a", names...), pick(t, "b", names...), pick(t, "domain", doms...)}
				if len(g.links) > 0 && chance(t, "same names", 40) { // overlapping links
					x := g.links[num(t, "i", 0, len(g.links)-1)]
					l.a, l.b = x.a, x.b
				} else if len(g.links) > 0 && j != "" && chance(t, "same when joined", 60) {
					x := g.links[num(t, "i", 0, len(g.links)-1)]
					parts := strings.Split(x.a+j+x.b, j)
					k := num(t, "split", 1, len(parts)-1)
					l = dlink{strings.Join(parts[:k], j), strings.Join(parts[k:], j), x.dom}
				}
				c.logf("add %s", l)
				has := g.find(l) >= 0
				if got, err := dm.AddLink(l.a, l.b, clone(l.dom)...); err != nil || got == has {
					t.Fatalf("AddLink(%s) = %v, %v, present before: %v\n%s", l, got, err, has, c.desc.String())
				}
				if !has {
					g.links = append(g.links, l)
				}
			case 7, 8, 9, 10:
				l := dlink{pick(t, "a", names...), pick(t, "b", names...), pick(t, "domain", doms...)}
				if len(g.links) > 0 && chance(t, "present", 75) {
					l = g.links[num(t, "i", 0, len(g.links)-1)]
				} else if len(g.links) > 0 { // implied by a pattern, but not listed
					x := g.links[num(t, "i", 0, len(g.links)-1)]
					l.a, l.b = x.a, x.b
				}
				c.logf("delete %s", l)
				k := g.find(l)
				if got, err := dm.DeleteLink(l.a, l.b, clone(l.dom)...); err != nil || got != (k >= 0) {
					t.Fatalf("DeleteLink(%s) = %v, %v, present before: %v\n%s", l, got, err, k >= 0, c.desc.String())
				}
				if k >= 0 {
					g.links = append(append([]dlink{}, g.links[:k]...), g.links[k+1:]...)
				}
			case 11:
				c.logf("query")
				verify("between")
			case 12:
				ask := len(ps) > 1 && chance(t, "query before", 50)
				if ask {
					c.logf("query")
					verify("before another domain matcher")
				}
				setD(chance(t, "on", 80))
				if ask {
					verify("after setting the domain matcher")
				}
			case 13:
				setR()
			}
		}
		if g.dp == nil {
			setD(true)
		}
		if g.p == nil {
			setR()
		}
		p, rp = g.dp, g.p
		verify("at the end")
		if rp == nil {
			verifyDomains(t, c, dm, g, names)
		}
		// another order: links shuffled, matchers set anywhere
		f := rbac.NewDomainManager(20)
		ls := rapid.Permutation(g.links).Draw(t, "order")
		atD, atR := num(t, "set domain matcher at", 0, len(ls)), num(t, "set role matcher at", 0, len(ls))
		for i := 0; i <= len(ls); i++ {
			if i == atD {
				f.SetDomainMatcher(p.sut())
			}
			if i == atR && rp != nil {
				f.SetMatcher(rp.sut())
			}
			if i < len(ls) {
				_, err := f.AddLink(ls[i].a, ls[i].b, clone(ls[i].dom)...)
				must(t, err)
			}
		}
		for _, q := range genQueried() {
			if err := same(dm, f, append(names, "unknown"), q...); err != nil {
				t.Fatalf("other order: %v\n%s", err, c.desc.String())
			}
		}
	})
}

func verifyDomains(t *rapid.T, c *Case, dm *rbac.DomainManager, g *dgraph, names []string) {
	count := func(xs []string) map[string]int {
		m := map[string]int{}
		for _, x := range xs {
			m[x]++
		}
		return m
	}
	used := map[string][]string{}
	for _, l := range g.links {
		used[domKey(l.dom)] = l.dom
	}
	show := func(d []string) string {
		s := ""
		for i, x := range d {
			if i > 0 {
				s += "/"
			}
			s += x
		}
		return s
	}
	want := []string{}
	for _, d := range used {
		want = append(want, show(d))
	}
	got, err := dm.GetAllDomains()
	if err != nil || sorted(got) != sorted(want) {
		t.Fatalf("GetAllDomains() = %q, %v, want %q\n%s", got, err, want, c.desc.String())
	}
	for _, a := range names {
		low, high := []string{}, []string{}
		for _, d := range used {
			in := pgraph{links: edges{}}
			explicit := false
			if !g.isPattern(d) {
				in = g.in(d)
				explicit = len(in.links.roles(a))+len(in.links.users(a)) > 0
			} else {
				for _, l := range g.links {
					explicit = explicit || domKey(l.dom) == domKey(d) && (l.a == a || l.b == a)
				}
			}
			if explicit {
				low = append(low, show(d))
			}
			if explicit || g.isPattern(d) {
				high = append(high, show(d))
			}
		}
		got, err := dm.GetDomains(a)
		n, lo, hi := count(got), count(low), count(high)
		bad := err != nil
		for x, k := range lo {
			bad = bad || n[x] < k
		}
		for x, k := range n {
			bad = bad || k > hi[x]
		}
		if bad {
			t.Fatalf("GetDomains(%q) = %q, %v, want %q\n%s", a, got, err, low, c.desc.String())
		}
	}
}

// the same, seen by a matcher
func TestC08_DomainPatternDecisions(t *testing.T) {
	check(t, 1000, "grouping rules with pattern domains around setting the domain matcher, decided by a matcher; non-trivial: a request is permitted by a grouping rule of a pattern domain", func(t *rapid.T, c *Case) {
		p := &patterns[num(t, "domain matcher", 0, len(patterns)-1)]
		e, err := mkEnf(mdl("sub, dom, obj", "sub, obj", "g = _, _, _", effSome, "g(r.sub, p.sub, r.dom) && r.obj == p.obj"), []string{"p", "admin", "x"}, []string{"p", "reader", "y"})
		must(t, err)
		g := &dgraph{}
		users, roles := []string{"alice", "bob"}, []string{"admin", "reader", "alice"}
		pool := rapid.Permutation(p.names).Draw(t, "domains")[:4]
		for i := num(t, "steps", 2, 14); i > 0; i-- {
			l := dlink{pick(t, "user", users...), pick(t, "role", roles...), []string{pick(t, "domain", pool...)}}
			switch num(t, "step", 0, 7) {
			case 0, 1, 2, 3:
				c.logf("add %s", l)
				_, err := e.AddRule([]string{"g", l.a, l.b, l.dom[0]})
				must(t, err)
				if g.find(l) < 0 {
					g.links = append(g.links, l)
				}
			case 4, 5:
				if len(g.links) == 0 {
					break
				}
				k := num(t, "i", 0, len(g.links)-1)
				l = g.links[k]
				c.logf("remove %s", l)
				ok, err := e.RemoveRule([]string{"g", l.a, l.b, l.dom[0]})
				if !ok || err != nil {
					t.Fatalf("RemoveRule = %v, %v\n%s", ok, err, c.desc.String())
				}
				g.links = append(append([]dlink{}, g.links[:k]...), g.links[k+1:]...)
			case 6:
				c.logf("set domain matcher")
				rm, _ := e.GetModel().GetRoleManager("g")
				rm.(rbac.IDefaultRoleManager).SetDomainMatcher(p.sut())
				g.dp = p
			case 7:
				_, err := e.Enforce(l.a, l.dom[0], "x")
				must(t, err)
			}
		}
		for _, d := range p.names {
			if g.isPattern([]string{d}) {
				continue
			}
			in := g.in([]string{d})
			for _, u := range users {
				for obj, role := range map[string]string{"x": "admin", "y": "reader"} {
					want := in.has(u, role, false)
					if want {
						for _, l := range g.links {
							c.nt(l.dom[0] != d && g.applies(l.dom, []string{d}))
						}
					}
					got, err := e.Enforce(u, d, obj)
					if err != nil || got != want {
						t.Fatalf("Enforce(%s, %q, %s) = %v, %v, want %v\n%s", u, d, obj, got, err, want, c.desc.String())
					}
				}
			}
		}
	})
}

var _ = fmt.Sprint

// matchers which disagree about a domain, set in turns
func TestC08_ReplacedMatchers(t *testing.T) {
	check(t, 600, "a domain manager whose domain matcher is replaced again and again by one that answers differently for the names of its domains, links added, deleted and queried in between; non-trivial: a link of a pattern domain starts or stops being in force in another domain", func(t *rapid.T, c *Case) {
		p := &patterns[num(t, "domain matcher", 0, len(patterns)-1)]
		q := otherMatcher(t, p)
		pairs := disagree(p, q)
		if len(pairs) == 0 {
			return
		}
		doms := []string{}
		for i := num(t, "pairs", 1, 3); i > 0; i-- {
			x := pairs[num(t, "pair", 0, len(pairs)-1)]
			doms = append(doms, x[0], x[1])
		}
		dm, g := rbac.NewDomainManager(20), &dgraph{}
		names := []string{"u", "v", "w"}
		for i := num(t, "steps", 3, 14); i > 0; i-- {
			switch num(t, "step", 0, 5) {
			case 0, 1:
				l := dlink{pick(t, "a", names...), pick(t, "b", names...), []string{pick(t, "domain", doms...)}}
				c.logf("add %s", l)
				has := g.find(l) >= 0
				if got, err := dm.AddLink(l.a, l.b, l.dom...); err != nil || got == has {
					t.Fatalf("AddLink(%s) = %v, %v\n%s", l, got, err, c.desc.String())
				}
				if !has {
					g.links = append(g.links, l)
				}
			case 2:
				if len(g.links) == 0 {
					break
				}
				k := num(t, "i", 0, len(g.links)-1)
				l := g.links[k]
				c.logf("delete %s", l)
				if got, err := dm.DeleteLink(l.a, l.b, l.dom...); err != nil || !got {
					t.Fatalf("DeleteLink(%s) = %v, %v\n%s", l, got, err, c.desc.String())
				}
				g.links = append(append([]dlink{}, g.links[:k]...), g.links[k+1:]...)
			case 3, 4, 5:
				p, q = q, p
				c.logf("set domain matcher %s", p.name)
				dm.SetDomainMatcher(p.sut())
				g.dp = p
			}
			for _, d := range doms {
				if g.isPattern([]string{d}) {
					continue
				}
				in := g.in([]string{d})
				before := dgraph{links: g.links, dp: q}
				c.nt(len(in.links) != len(before.in([]string{d}).links))
				for _, a := range names {
					for _, b := range names {
						want := in.has(a, b, false)
						got, err := dm.HasLink(a, b, d)
						if err != nil || got != want {
							t.Fatalf("HasLink(%q, %q, %q) = %v, %v, want %v\n%s", a, b, d, got, err, want, c.desc.String())
						}
					}
					got, err := dm.GetRoles(a, d)
					if err == nil {
						err = in.between(got, a, true)
					}
					if err != nil {
						t.Fatalf("GetRoles(%q, %q) = %q: %v\n%s", a, d, got, err, c.desc.String())
					}
				}
			}
		}
	})
}

func TestC08_Large(t *testing.T) {
	check(t, 25, "hundreds of links in up to 250 domains, some of them patterns, added and removed; the roles in every domain are those of its own links and the links of the patterns it matches; non-trivial: 100 or more domains, and links of patterns were removed", func(t *rapid.T, c *Case) {
		dm := rbac.NewDomainManager(10)
		early := chance(t, "early", 60)
		if early {
			dm.SetDomainMatcher(util.PathMatcher)
		}
		rnd := rand.New(rand.NewSource(int64(num(t, "seed", 0, 1<<30))))
		n := big(t, "domains", 20, 250)
		domain := func() string {
			i := rnd.Intn(n)
			switch rnd.Intn(8) {
			case 0:
				return fmt.Sprintf("/o%d/*", i%12)
			case 1:
				return fmt.Sprintf("/:o/d%d", i/12)
			}
			return fmt.Sprintf("/o%d/d%d", i%12, i/12)
		}
		g := map[string]edges{} // by domain
		removed := 0
		names := []string{"u", "v", "w", "x", "y"}
		for i := big(t, "changes", 100, 900); i > 0; i-- {
			d := domain()
			l := [2]string{names[rnd.Intn(5)], names[rnd.Intn(5)]}
			if g[d] == nil {
				g[d] = edges{}
			}
			if rnd.Intn(3) > 0 {
				if ok, err := dm.AddLink(l[0], l[1], d); err != nil || ok == g[d][l] {
					t.Fatalf("AddLink(%q, %q) = %v, %v\n%s", l, d, ok, err, c.desc.String())
				}
				g[d][l] = true
				continue
			}
			if ls := sortedKeys(g[d], l[0]); len(ls) > 0 {
				l[1] = ls[rnd.Intn(len(ls))]
			}
			if ok, err := dm.DeleteLink(l[0], l[1], d); err != nil || ok != g[d][l] {
				t.Fatalf("DeleteLink(%q, %q) = %v, %v\n%s", l, d, ok, err, c.desc.String())
			}
			if g[d][l] && util.IsPathPattern(d) {
				removed++
			}
			delete(g[d], l)
		}
		if !early {
			dm.SetDomainMatcher(util.PathMatcher)
		}
		for i := 0; i < 60; i++ {
			q := fmt.Sprintf("/o%d/d%d", rnd.Intn(13), rnd.Intn(n/12+2))
			in := edges{}
			for d, ls := range g {
				if d == q || util.IsPathPattern(d) && refPathMatch(q, d) {
					for l := range ls {
						in[l] = true
					}
				}
			}
			for _, a := range names {
				if got, err := dm.GetRoles(a, q); err != nil || sorted(got) != sorted(in.roles(a)) {
					t.Fatalf("GetRoles(%q, %q) = %q, %v, want %q\n%s", a, q, got, err, in.roles(a), c.desc.String())
				}
				for _, b := range names {
					if got, err := dm.HasLink(a, b, q); err != nil || got != (in.dist(a, b) >= 0) {
						t.Fatalf("HasLink(%q, %q, %q) = %v, %v, links %v\n%s", a, b, q, got, err, in, c.desc.String())
					}
				}
			}
		}
		all, err := dm.GetAllDomains()
		want := []string{}
		for d, ls := range g {
			if len(ls) > 0 && !util.IsPathPattern(d) {
				want = append(want, d)
			}
		}
		listed := map[string]bool{}
		for _, d := range all {
			listed[d] = true
		}
		for _, d := range want {
			if !listed[d] || err != nil {
				t.Fatalf("GetAllDomains: %q is missing, %v\n%s", d, err, c.desc.String())
			}
		}
		c.logf("%d domains with links of %d, %d links of patterns were removed", len(want), n, removed)
		c.nt(len(want) >= 100 && removed > 0)
	})
}

// few names, many overlapping patterns on every level
func TestC08_Overlap(t *testing.T) {
	check(t, 150, "20 to 80 changes of one or two links in nested domains of which most are overlapping patterns on every level; HasLink in all domains after every change; non-trivial: a link in force in a domain was deleted there or in a pattern, and is still in force", func(t *rapid.T, c *Case) {
		p := &patterns[5]
		rnd := rand.New(rand.NewSource(int64(num(t, "seed", 0, 1<<30))))
		depth := pick(t, "depth", 1, 2, 2, 2, 3)
		mixed := chance(t, "mixed depths", 30)
		segments := []string{"a", "ab", "b", "*", "a*", "ab*"}
		segments = segments[:big(t, "segments", 4, 6)]
		pairs := [][2]string{{"u", "v"}, {"v", "w"}}[:pick(t, "pairs", 1, 2)]
		dm := rbac.NewDomainManager(10)
		g := &dgraph{dp: p}
		set := num(t, "set domain matcher at", 0, 5)
		queried := [][]string{{}}
		for i := 0; i < depth; i++ {
			next := [][]string{}
			for _, q := range queried {
				for _, s := range []string{"a", "ab", "b", "x"} {
					next = append(next, append(append([]string{}, q...), s))
				}
			}
			queried = next
		}
		for i, n := 0, big(t, "steps", 20, 80); i < n; i++ {
			if i == set || i > set && rnd.Intn(40) == 0 {
				c.logf("set domain matcher")
				dm.SetDomainMatcher(p.sut())
			}
			k := depth
			if mixed {
				k = 1 + rnd.Intn(depth)
			}
			l := dlink{pairs[rnd.Intn(len(pairs))][0], "", nil}
			for _, x := range pairs {
				if x[0] == l.a {
					l.b = x[1]
				}
			}
			for ; k > 0; k-- {
				l.dom = append(l.dom, segments[rnd.Intn(len(segments))])
			}
			if len(g.links) > 0 && rnd.Intn(2) == 0 {
				if rnd.Intn(8) > 0 {
					l = g.links[rnd.Intn(len(g.links))]
				}
				x := g.find(l)
				c.logf("delete %s", l)
				if got, err := dm.DeleteLink(l.a, l.b, clone(l.dom)...); err != nil || got != (x >= 0) {
					t.Fatalf("DeleteLink(%s) = %v, %v, present before: %v\n%s", l, got, err, x >= 0, c.desc.String())
				}
				if x >= 0 {
					g.links = append(append([]dlink{}, g.links[:x]...), g.links[x+1:]...)
					for _, q := range queried {
						c.nt(g.applies(l.dom, q) && g.in(q).links[[2]string{l.a, l.b}])
					}
				}
			} else {
				has := g.find(l) >= 0
				c.logf("add %s", l)
				if got, err := dm.AddLink(l.a, l.b, clone(l.dom)...); err != nil || got == has {
					t.Fatalf("AddLink(%s) = %v, %v, present before: %v\n%s", l, got, err, has, c.desc.String())
				}
				if !has {
					g.links = append(g.links, l)
				}
			}
			if i < set {
				continue
			}
			for _, q := range queried {
				if len(queried) > 20 && i < n-1 && rnd.Intn(4) > 0 {
					continue
				}
				in := g.in(q).links
				for _, x := range pairs {
					if got, err := dm.HasLink(x[0], x[1], q...); err != nil || got != in[x] {
						t.Fatalf("HasLink(%q, %q) = %v, %v, want %v\n%s", x, q, got, err, in[x], c.desc.String())
					}
				}
			}
			n := 0
			dm.Range(func(string, string, ...string) bool { n++; return true })
			if n != len(g.links) {
				t.Fatalf("Range yields %d links, want %d\n%s", n, len(g.links), c.desc.String())
			}
		}
	})
}
