package harness

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/abichinger/fastac/rbac"
	"pgregory.net/rapid"
)

// domainGraph is a reference domain manager without patterns
type domainGraph map[string]edges // by domain key

type dlink struct {
	a, b string
	dom  []string
}

func (l dlink) String() string { return fmt.Sprintf("%q -> %q in %q", l.a, l.b, l.dom) }

func domKey(dom []string) string { return fmt.Sprintf("%q", dom) }

var domainNames = []string{"d1", "d2", "", "a", "b", "a/b", "*", "/", "RoleManager", "redundant_role", "d1/d2", ":d", "a,b", "1,a", "default", "\x00", "d1\x00d2", "d", "1"}

func genDomains(t *rapid.T) [][]string {
	// few different names, nested in different ways
	names := rapid.SliceOfNDistinct(rapid.SampledFrom(domainNames), 2, 3, rapid.ID[string]).Draw(t, "domain names")
	if chance(t, "nearly equal names", 20) {
		names = nearPool(t, names[0])
	}
	res := [][]string{{}}
	for i := num(t, "domains", 1, 5); i > 0; i-- {
		d := []string{}
		for k := pick(t, "depth", 1, 1, 1, 2, 2, 3); k > 0; k-- {
			d = append(d, pick(t, "domain", names...))
		}
		res = append(res, d)
		if len(d) > 1 && chance(t, "flat", 30) {
			res = append(res, []string{strings.Join(d, "/")})
		}
	}
	return res
}

func TestC06_Domains(t *testing.T) {
	check(t, 3000, "random links in up to six domains (none, named, nested up to three levels, confusable names), added and deleted in any order; non-trivial: links in two or more different domains", func(t *rapid.T, c *Case) {
		dm := rbac.NewDomainManager(10)
		doms := genDomains(t)
		names := []string{"a", "b", "c", "d"}
		g := domainGraph{}
		doc := map[string][]string{}
		for _, d := range doms {
			g[domKey(d)] = edges{}
			doc[domKey(d)] = d
		}
		queried := append([][]string{{"never used"}, {"never", "used"}, {"d1", "never"}}, doms...)
		for _, d := range doms { // parents, children
			if len(d) > 0 {
				queried = append(queried, d[:len(d)-1], append(clone(d), d[0]))
			}
		}
		verify := func() {
			used := 0
			want := []string{}
			wantAll := []string{}
			for k, e := range g {
				for l := range e {
					want = append(want, dlink{l[0], l[1], doc[k]}.String())
				}
				if len(e) > 0 {
					used++
					wantAll = append(wantAll, strings.Join(doc[k], "/"))
				}
			}
			got := []string{}
			dm.Range(func(a, b string, dom ...string) bool {
				got = append(got, dlink{a, b, dom}.String())
				return true
			})
			if sorted(got) != sorted(want) {
				t.Fatalf("Range yields %s\nwant %s\n%s", sorted(got), sorted(want), c.desc.String())
			}
			if len(want) > 0 {
				k := num(t, "stop", 1, len(want))
				n := 0
				dm.Range(func(a, b string, dom ...string) bool {
					n++
					return n < k
				})
				if n != k {
					t.Fatalf("Range called the callback %d times, stopped at %d of %d\n%s", n, k, len(want), c.desc.String())
				}
			}
			c.nt(used > 1)
			all, err := dm.GetAllDomains()
			if err != nil || sorted(all) != sorted(wantAll) {
				t.Fatalf("GetAllDomains() = %q, %v, want %q\n%s", all, err, wantAll, c.desc.String())
			}
			for _, a := range append(names, "unknown") {
				want := []string{}
				for k, e := range g {
					if len(e.roles(a))+len(e.users(a)) > 0 {
						want = append(want, strings.Join(doc[k], "/"))
					}
				}
				if got, err := dm.GetDomains(a); err != nil || sorted(got) != sorted(want) {
					t.Fatalf("GetDomains(%q) = %q, %v, want %q\n%s", a, got, err, want, c.desc.String())
				}
			}
			for _, d := range queried {
				e := g[domKey(d)]
				for _, a := range append(names, "unknown") {
					if got, err := dm.GetRoles(a, d...); err != nil || sorted(got) != sorted(e.roles(a)) {
						t.Fatalf("GetRoles(%q, %q) = %q, %v, want %q\n%s", a, d, got, err, e.roles(a), c.desc.String())
					}
					if got, err := dm.GetUsers(a, d...); err != nil || sorted(got) != sorted(e.users(a)) {
						t.Fatalf("GetUsers(%q, %q) = %q, %v, want %q\n%s", a, d, got, err, e.users(a), c.desc.String())
					}
					for _, b := range names {
						want := e.dist(a, b) >= 0
						if got, err := dm.HasLink(a, b, d...); err != nil || got != want {
							t.Fatalf("HasLink(%q, %q, %q) = %v, %v, want %v\n%s", a, b, d, got, err, want, c.desc.String())
						}
					}
				}
			}
		}
		for i := num(t, "steps", 1, 16); i > 0; i-- {
			a, b := pick(t, "a", names...), pick(t, "b", names...)
			d := pick(t, "domain", doms...)
			k := [2]string{a, b}
			e := g[domKey(d)]
			switch num(t, "step", 0, 9) {
			case 0, 1, 2, 3, 4, 5:
				c.logf("add %s", dlink{a, b, d})
				if got, err := dm.AddLink(a, b, clone(d)...); err != nil || got == e[k] {
					t.Fatalf("AddLink = %v, %v, present before: %v\n%s", got, err, e[k], c.desc.String())
				}
				e[k] = true
			case 6, 7:
				c.logf("delete %s", dlink{a, b, d})
				if got, err := dm.DeleteLink(a, b, clone(d)...); err != nil || got != e[k] {
					t.Fatalf("DeleteLink = %v, %v, present before: %v\n%s", got, err, e[k], c.desc.String())
				}
				delete(e, k)
			case 8:
				if chance(t, "clear", 10) {
					c.logf("clear")
					must(t, dm.Clear())
					for k := range g {
						g[k] = edges{}
					}
				}
			case 9:
				verify()
			}
		}
		verify()
	})
}

// the same through grouping rules and a matcher
func TestC06_DomainDecisions(t *testing.T) {
	check(t, 800, "grouping rules with a domain (and subdomain), decided by a matcher; non-trivial: some request is permitted in one domain and denied in another", func(t *rapid.T, c *Case) {
		sub := chance(t, "subdomain", 40)
		r, p, g, m := "sub, dom, obj", "sub, obj", "g = _, _, _", "g(r.sub, p.sub, r.dom) && r.obj == p.obj"
		if sub {
			r, g, m = "sub, dom, subdom, obj", "g = _, _, _, _", "g(r.sub, p.sub, r.dom, r.subdom) && r.obj == p.obj"
		}
		e, err := mkEnf(mdl(r, p, g, effSome, m), []string{"p", "admin", "x"}, []string{"p", "reader", "y"})
		must(t, err)
		dn := rapid.SliceOfNDistinct(rapid.SampledFrom(domainNames), 2, 4, rapid.ID[string]).Draw(t, "domains")
		if chance(t, "nearly equal names", 20) {
			dn = nearPool(t, dn[0])
		}
		names := []string{"alice", "bob", "admin", "reader"}
		links := [][]string{}
		gen := func() []string {
			l := []string{"g", pick(t, "user", names...), pick(t, "role", names...), pick(t, "dom", dn...)}
			if sub {
				l = append(l, pick(t, "subdom", dn...))
			}
			return l
		}
		for i := num(t, "links", 1, 8); i > 0; i-- {
			if len(links) > 0 && chance(t, "remove", 25) {
				l := links[num(t, "i", 0, len(links)-1)]
				c.logf("remove %q", l)
				_, err := e.RemoveRule(clone(l))
				must(t, err)
				links = without(links, l)
				continue
			}
			l := gen()
			c.logf("add %q", l)
			_, err := e.AddRule(clone(l))
			must(t, err)
			links = append(without(links, l), l)
		}
		doms := [][]string{}
		for _, d := range append(dn, "other") {
			if !sub {
				doms = append(doms, []string{d})
				continue
			}
			for _, d2 := range append(dn, "other") {
				doms = append(doms, []string{d, d2})
			}
		}
		for _, a := range names {
			for k, role := range map[string]string{"x": "admin", "y": "reader"} {
				yes, no := false, false
				for _, d := range doms {
					want, _ := refLinks(links).has("g", append([]string{a, role}, d...))
					yes, no = yes || want, no || !want
					req := []interface{}{a}
					for _, x := range d {
						req = append(req, x)
					}
					got, err := e.Enforce(append(req, k)...)
					if err != nil || got != want {
						t.Fatalf("Enforce(%q, %q, %s) = %v, %v, want %v\n%s", a, d, k, got, err, want, c.desc.String())
					}
				}
				c.nt(yes && no)
			}
		}
	})
}

var _ = sort.Strings

func TestC06_Large(t *testing.T) {
	check(t, 40, "up to 1500 changes of links in up to 200 domains, nested up to three levels; roles, users, domains and decisions of random names and domains; non-trivial: links remain in 20 or more domains, and links were removed", func(t *rapid.T, c *Case) {
		rnd := rand.New(rand.NewSource(int64(num(t, "seed", 0, 1<<30))))
		dm := rbac.NewDomainManager(big(t, "level", 4, 200))
		n, nd := big(t, "names", 2, 40), big(t, "domains", 1, 60)
		name := func() string { return fmt.Sprint("n", rnd.Intn(n)) }
		domain := func() []string {
			d := []string{}
			for k := []int{0, 1, 1, 1, 1, 2, 2, 3}[rnd.Intn(8)]; k > 0; k-- {
				d = append(d, fmt.Sprint("d", rnd.Intn(1+nd/(1+len(d)))))
			}
			return d
		}
		g := domainGraph{}
		doc := map[string][]string{}
		ls := []dlink{}
		removed := 0
		for i := big(t, "changes", 50, 1500); i > 0; i-- {
			if rnd.Intn(4) > 0 || len(ls) == 0 {
				l := dlink{name(), name(), domain()}
				e := g[domKey(l.dom)]
				if e == nil {
					e = edges{}
					g[domKey(l.dom)], doc[domKey(l.dom)] = e, l.dom
				}
				if ok, err := dm.AddLink(l.a, l.b, clone(l.dom)...); err != nil || ok == e[[2]string{l.a, l.b}] {
					t.Fatalf("AddLink %s = %v, %v\n%s", l, ok, err, c.desc.String())
				}
				if !e[[2]string{l.a, l.b}] {
					ls = append(ls, l)
				}
				e[[2]string{l.a, l.b}] = true
				continue
			}
			k := rnd.Intn(len(ls))
			l := ls[k]
			ls[k] = ls[len(ls)-1]
			ls = ls[:len(ls)-1]
			removed++
			if ok, err := dm.DeleteLink(l.a, l.b, clone(l.dom)...); err != nil || !ok {
				t.Fatalf("DeleteLink %s = %v, %v\n%s", l, ok, err, c.desc.String())
			}
			delete(g[domKey(l.dom)], [2]string{l.a, l.b})
		}
		want, got := []string{}, []string{}
		keys := []string{}
		for k, e := range g {
			if len(e) > 0 {
				want = append(want, strings.Join(doc[k], "/"))
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		c.logf("%d names, %d links in %d domains, %d were removed", n, len(ls), len(keys), removed)
		c.nt(len(keys) >= 20 && removed > 0)
		if got, err := dm.GetAllDomains(); err != nil || sorted(got) != sorted(want) {
			t.Fatalf("GetAllDomains() = %q, %v, want %q\n%s", got, err, want, c.desc.String())
		}
		want = want[:0]
		for _, l := range ls {
			want = append(want, l.String())
		}
		dm.Range(func(a, b string, dom ...string) bool {
			got = append(got, dlink{a, b, dom}.String())
			return true
		})
		if sorted(got) != sorted(want) {
			t.Fatalf("Range yields %s\nwant %s\n%s", sorted(got), sorted(want), c.desc.String())
		}
		for i := 0; i < 40; i++ {
			a, b, d := name(), name(), domain()
			if len(keys) > 0 && rnd.Intn(4) > 0 {
				d = doc[keys[rnd.Intn(len(keys))]]
			}
			e := g[domKey(d)]
			if got, err := dm.GetRoles(a, d...); err != nil || sorted(got) != sorted(e.roles(a)) {
				t.Fatalf("GetRoles(%q, %q) = %q, %v, want %q\n%s", a, d, got, err, e.roles(a), c.desc.String())
			}
			if got, err := dm.GetUsers(a, d...); err != nil || sorted(got) != sorted(e.users(a)) {
				t.Fatalf("GetUsers(%q, %q) = %q, %v, want %q\n%s", a, d, got, err, e.users(a), c.desc.String())
			}
			if dist := e.dist(a, b); dist < 4 { // within all hierarchy levels
				if got, err := dm.HasLink(a, b, d...); err != nil || got != (dist >= 0) {
					t.Fatalf("HasLink(%q, %q, %q) = %v, %v, want %v\n%s", a, b, d, got, err, dist >= 0, c.desc.String())
				}
			}
			want := []string{}
			for _, k := range keys {
				if len(g[k].roles(a))+len(g[k].users(a)) > 0 {
					want = append(want, strings.Join(doc[k], "/"))
				}
			}
			if got, err := dm.GetDomains(a); err != nil || sorted(got) != sorted(want) {
				t.Fatalf("GetDomains(%q) = %q, %v, want %q\n%s", a, got, err, want, c.desc.String())
			}
		}
	})
}
