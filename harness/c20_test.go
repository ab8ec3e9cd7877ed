package harness

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/casbin/casbin/v2"
	cmodel "github.com/casbin/casbin/v2/model"
	"pgregory.net/rapid"
)

func init() { log.SetOutput(io.Discard) }

type person struct {
	Name string
	Age  int
	Role string
}

type thing struct {
	Name  string
	Owner string
}

// family is a model both libraries support
type family struct {
	name    string
	r, p, g string // g: role definitions, separated by ;
	e       string
	m       []string
	reqs    map[string][]interface{}
	vals    map[string][]string
}

var subs = []string{"alice", "bob", "root", "admin", "ops", "reader"}
var objs = []string{"data1", "data2", "res", "group"}
var acts = []string{"read", "write"}
var doms = []string{"d1", "d2", "d11"}

func setKeys(m map[string]bool) []string {
	res := []string{}
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func anys(xs []string) []interface{} {
	res := []interface{}{}
	for _, x := range xs {
		res = append(res, x)
	}
	return res
}

var baseReqs = map[string][]interface{}{"sub": anys(subs), "obj": anys(objs), "act": anys(acts), "dom": anys(doms)}
var baseVals = map[string][]string{"sub": subs, "obj": objs, "act": acts, "dom": doms, "eft": {"allow", "allow", "deny", "other"}}

var families = []family{
	{name: "ACL", r: "sub, obj, act", p: "sub, obj, act", e: effSome, m: []string{"r.sub == p.sub && r.obj == p.obj && r.act == p.act"}},
	{name: "ACL with superuser", r: "sub, obj, act", p: "sub, obj, act", e: effSome, m: []string{`r.sub == p.sub && r.obj == p.obj && r.act == p.act || r.sub == "root"`, `r.sub == "root" || r.sub == p.sub && r.obj == p.obj && r.act == p.act`}},
	{name: "ACL without users", r: "obj, act", p: "obj, act", e: effSome, m: []string{"r.obj == p.obj && r.act == p.act"}},
	{name: "ACL without resources", r: "sub, act", p: "sub, act", e: effSome, m: []string{"r.sub == p.sub && r.act == p.act"}},
	{name: "RBAC", r: "sub, obj, act", p: "sub, obj, act", g: "g = _, _", e: effSome, m: []string{"g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act", "r.obj == p.obj && g(r.sub, p.sub) && r.act == p.act"}},
	{name: "RBAC with resource roles", r: "sub, obj, act", p: "sub, obj, act", g: "g = _, _;g2 = _, _", e: effSome, m: []string{"g(r.sub, p.sub) && g2(r.obj, p.obj) && r.act == p.act"}},
	{name: "RBAC with domains", r: "sub, dom, obj, act", p: "sub, dom, obj, act", g: "g = _, _, _", e: effSome, m: []string{"g(r.sub, p.sub, r.dom) && r.dom == p.dom && r.obj == p.obj && r.act == p.act", "r.dom == p.dom && g(r.sub, p.sub, r.dom) && r.obj == p.obj && r.act == p.act"}},
	{name: "RBAC with deny", r: "sub, obj, act", p: "sub, obj, act, eft", g: "g = _, _", e: effSND, m: []string{"g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act"}},
	{name: "deny override", r: "sub, obj, act", p: "sub, obj, act, eft", g: "g = _, _", e: effND, m: []string{"g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act"}},
	{name: "allow override", r: "sub, obj, act", p: "eft, sub, obj, act", e: effSome, m: []string{"r.sub == p.sub && r.obj == p.obj && r.act == p.act", "r.sub == p.sub && (r.obj == p.obj || r.act == p.act)"}},
	{name: "in operator", r: "sub, obj, act", p: "sub, obj, act", g: "g = _, _", e: effSome, m: []string{`r.obj in ("data2", "data3") && g(r.sub, p.sub) && r.act == p.act`, `g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act || r.obj in ('data2', 'data3')`}},
	{name: "ABAC owner", r: "sub, obj, act", p: "sub, obj, act", e: effSome, m: []string{"r.sub == r.obj.Owner && r.act == p.act", "r.sub == r.obj.Owner", "r.sub == r.obj.Owner || r.sub == p.sub && r.obj.Name == p.obj"},
		reqs: map[string][]interface{}{"obj": {thing{"data1", "alice"}, thing{"data2", "bob"}, &thing{"res", "root"}}}},
	{name: "ABAC rule", r: "sub, obj, act", p: "rule, obj, act", e: effSome, m: []string{"eval(p.rule) && r.obj == p.obj && r.act == p.act", "r.obj == p.obj && eval(p.rule)"},
		reqs: map[string][]interface{}{"sub": {person{"alice", 16, "admin"}, person{"bob", 30, "user"}, person{"root", 60, "admin"}}},
		vals: map[string][]string{"rule": {"r.sub.Age > 18", "r.sub.Age > 18 && r.sub.Age < 60", "r.sub.Name == 'alice'", "r.sub.Role == 'admin' || r.sub.Age == 30", "r.sub.Age >= 16 && r.act == 'read'", "true", "false", "r.sub.Name in ('alice', 'bob')", "!(r.sub.Role == 'admin')"}}},
	{name: "regular expressions", r: "sub, obj, act", p: "sub, obj, act", e: effSome, m: []string{"r.sub == p.sub && regexMatch(r.obj, p.obj) && regexMatch(r.act, p.act)"},
		reqs: map[string][]interface{}{"obj": anys([]string{"/a", "/a/b", "/b/1", "/a/b/c", ""})},
		vals: map[string][]string{"obj": {"^/a", "/a/[a-z]$", "b", "^/b/[0-9]+$", "", "/a/b"}, "act": {"read", "(read)|(write)", "^w"}}},
	{name: "addresses", r: "sub, obj, act", p: "sub, obj, act", e: effSome, m: []string{"ipMatch(r.sub, p.sub) && r.obj == p.obj && r.act == p.act"},
		reqs: map[string][]interface{}{"sub": anys([]string{"10.0.0.1", "10.0.1.1", "192.168.2.3", "::1"})},
		vals: map[string][]string{"sub": {"10.0.0.0/24", "10.0.0.0/8", "192.168.2.3", "::1", "::/64", "0.0.0.0/0"}}},
	{name: "globs", r: "sub, obj, act", p: "sub, obj, act", e: effSome, m: []string{"r.sub == p.sub && globMatch(r.obj, p.obj) && r.act == p.act"},
		reqs: map[string][]interface{}{"obj": anys([]string{"/foo", "/foo/bar", "/foobar", "/prefix/foo"})},
		vals: map[string][]string{"obj": {"/foo", "/foo*", "/foo/*", "*/foo", "*/foo*", "/*/*"}}},
}

func (f family) pool(col string) []string {
	if v, ok := f.vals[col]; ok {
		return v
	}
	return baseVals[col]
}

func (f family) reqPool(col string) []interface{} {
	if v, ok := f.reqs[col]; ok {
		return v
	}
	return baseReqs[col]
}

type pair struct {
	t *rapid.T
	c *Case
	f *fastac.Enforcer
	k *casbin.Enforcer
}

func newPair(t *rapid.T, c *Case, r, p, g, e, m string) *pair {
	c.logf("r = %s; p = %s; %s; e = %s; m = %s", r, p, g, e, m)
	fm, cm := newModel(), cmodel.NewModel()
	set := func(sec byte, key, value string) {
		must(t, fm.SetDef(sec, key, value))
		cm.AddDef(string(sec), key, value)
	}
	set('r', "r", r)
	set('p', "p", p)
	if g != "" {
		for _, x := range strings.Split(g, ";") {
			kv := strings.SplitN(x, " = ", 2)
			set('g', kv[0], kv[1])
		}
	}
	set('e', "e", e)
	set('m', "m", m)
	must(t, fm.BuildMatchers())
	fe, err := fastac.NewEnforcer(fm, nil)
	must(t, err)
	ke, err := casbin.NewEnforcer()
	must(t, err)
	if err := ke.InitWithModelAndAdapter(cm, nil); err != nil {
		t.Fatalf("casbin: %v\n%s", err, c.desc.String())
	}
	ke.AddFunction("hasPrefix", func(args ...interface{}) (interface{}, error) {
		return strings.HasPrefix(args[0].(string), args[1].(string)), nil
	})
	for name, fn := range refFns() {
		fn := fn
		if name == "pathMatch" || name == "pathMatch2" {
			ke.AddFunction(name, func(args ...interface{}) (interface{}, error) { return fn(args) })
		}
	}
	return &pair{t, c, fe, ke}
}

func (x *pair) change(add bool, rule []string) {
	x.c.logf("%v %q", add, rule)
	var a, b bool
	var err1, err2 error
	switch {
	case add:
		a, err1 = x.f.AddRule(clone(rule))
	default:
		a, err1 = x.f.RemoveRule(clone(rule))
	}
	vals := anys(rule[1:])
	switch {
	case add && rule[0][0] == 'p':
		b, err2 = x.k.AddNamedPolicy(rule[0], vals...)
	case add:
		b, err2 = x.k.AddNamedGroupingPolicy(rule[0], vals...)
	case rule[0][0] == 'p':
		b, err2 = x.k.RemoveNamedPolicy(rule[0], vals...)
	default:
		b, err2 = x.k.RemoveNamedGroupingPolicy(rule[0], vals...)
	}
	if a != b || err1 != nil || err2 != nil {
		x.t.Fatalf("%v %q: %v, %v, casbin: %v, %v\n%s", add, rule, a, err1, b, err2, x.c.desc.String())
	}
}

// ask compares the decisions, and says whether they could be compared
func (x *pair) ask(req []interface{}) (bool, bool) {
	a, err1 := x.f.Enforce(req...)
	b, err2 := x.k.Enforce(req...)
	if err2 != nil {
		x.c.label("error in casbin")
		return false, false
	}
	if err1 != nil || a != b {
		x.t.Fatalf("Enforce(%s) = %v, %v, casbin: %v\n%s", showReq(req), a, err1, b, x.c.desc.String())
	}
	return a, true
}

func TestC20_Families(t *testing.T) {
	check(t, 1500, "the model families of the documentation with random rules and links which come and go; all decisions are compared with those of casbin; non-trivial: some request was permitted and another one was not", func(t *rapid.T, c *Case) {
		f := families[num(t, "family", 0, len(families)-1)]
		c.label(f.name)
		x := newPair(t, c, f.r, f.p, f.g, f.e, pick(t, "matcher", f.m...))
		cols := strings.Split(f.p, ", ")
		// values of a column: the usual ones or ones which are nearly the same
		swapped := map[string][]string{}
		if chance(t, "near values", 25) {
			c.label("near values")
			for _, col := range []string{"sub", "obj", "act", "dom"} {
				_, special := f.vals[col]
				_, special2 := f.reqs[col]
				if !special && !special2 && chance(t, "near "+col, 60) {
					pool := []string{}
					for _, v := range nearPool(t, baseVals[col][0]) {
						if !strings.Contains(v, ",") { // casbin joins values by commas
							pool = append(pool, v)
						}
					}
					if len(pool) > 1 {
						swapped[col] = pool
					}
				}
			}
		}
		values := func(col string) []string {
			if v, ok := swapped[col]; ok {
				return v
			}
			return f.pool(col)
		}
		subs, objs, doms := subs, objs, doms
		for col, pool := range map[string]*[]string{"sub": &subs, "obj": &objs, "dom": &doms} {
			if v, ok := swapped[col]; ok {
				*pool = v
			}
		}
		present := [][]string{}
		allowed, denied := false, false
		if f.g != "" && chance(t, "long chain", 20) { // up to both limits of the hierarchy and beyond
			n := num(t, "length", 6, 12)
			dom := pick(t, "domain", doms...)
			c.label("long chain")
			for i := 0; i <= n; i++ {
				name := func(i int) string {
					switch {
					case i == 0:
						return subs[0]
					case i > n:
						return pick(t, "top", subs[1:]...)
					}
					return fmt.Sprintf("level%d", i)
				}
				r := []string{"g", name(i), name(i + 1)}
				if strings.Count(strings.Split(f.g, ";")[0], "_") > 2 {
					r = append(r, dom)
				}
				present = append(present, r)
				x.change(true, r)
			}
		}
		for i := num(t, "operations", 1, 14); i > 0; i-- {
			if len(present) > 1 && chance(t, "remove", 25) {
				k := num(t, "rule", 0, len(present)-1)
				r := present[k]
				n := 0
				for _, p := range present {
					if p[0] == "p" {
						n++
					}
				}
				if r[0] == "p" && n < 2 {
					continue // an empty policy is decided differently in casbin
				}
				present = append(present[:k:k], present[k+1:]...)
				x.change(false, r)
			} else {
				r := []string{"p"}
				if f.g != "" && i > 1 && chance(t, "link", 45) {
					gs := strings.Split(f.g, ";")
					g := gs[num(t, "g", 0, len(gs)-1)]
					pool := subs
					if strings.HasPrefix(g, "g2") {
						pool = objs
					}
					r = []string{strings.SplitN(g, " ", 2)[0], pick(t, "user", pool...), pick(t, "role", pool...)}
					if strings.Count(g, "_") > 2 {
						r = append(r, pick(t, "domain", doms...))
					}
				} else {
					for _, col := range cols {
						r = append(r, pick(t, col, values(col)...))
					}
				}
				if contains(present, r) {
					continue
				}
				present = append(present, r)
				x.change(true, r)
			}
			any := false
			for _, r := range present {
				any = any || r[0] == "p"
			}
			if !any {
				continue
			}
			for j := 0; j < 6; j++ {
				req := []interface{}{}
				for _, col := range strings.Split(f.r, ", ") {
					p := f.reqPool(col)
					if v, ok := swapped[col]; ok {
						p = anys(v)
					}
					req = append(req, p[num(t, "r."+col, 0, len(p)-1)])
				}
				got, ok := x.ask(req)
				allowed, denied = allowed || ok && got, denied || ok && !got
			}
		}
		c.nt(allowed && denied)
	})
}

func TestC20_Random(t *testing.T) {
	check(t, 1500, "random matchers, rules and requests (as for C01), decisions compared with casbin; non-trivial: some request was permitted and another one was not", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 2, minRules: 1, maxRules: 5, nReq: 5, noTricky: true, noSubdomains: true})
		g := strings.ReplaceAll(strings.TrimSpace(s.gdefs()), "\n", ";")
		m := strings.NewReplacer("[ab]", "a|b", "[^/]", ".").Replace(s.m.String()) // casbin replaces square brackets
		if !strings.Contains(m, "p.") {
			m = "(" + m + ") && p.sub == p.sub" // casbin ignores the policy, if the matcher does not refer to it
		}
		x := newPair(t, c, strings.Join(s.rArgs, ", "), strings.Join(s.pArgs, ", "), g, s.effect, m)
		seen := map[string]bool{}
		for _, r := range append(append([][]string{}, s.rules...), s.links...) {
			for i, v := range r {
				if v == "" {
					r[i] = "other" // an empty effect is indeterminate in casbin
				}
			}
			if !seen[keyOf(r)] {
				x.change(true, r)
			}
			seen[keyOf(r)] = true
		}
		allowed, denied := false, false
		for _, req := range s.requests {
			got, ok := x.ask(req)
			allowed, denied = allowed || ok && got, denied || ok && !got
		}
		c.nt(allowed && denied)
	})
}

// the example models and policies of the repository, which come from casbin
func TestC20_Examples(t *testing.T) {
	dir := "/repo/examples"
	pairs := [][2]string{{"basic_model.conf", "basic_policy.csv"}, {"basic_with_root_model.conf", "basic_policy.csv"}, {"basic_without_users_model.conf", "basic_without_users_policy.csv"}, {"basic_without_resources_model.conf", "basic_without_resources_policy.csv"},
		{"rbac_model.conf", "rbac_policy.csv"}, {"rbac_with_resource_roles_model.conf", "rbac_with_resource_roles_policy.csv"}, {"rbac_with_domains_model.conf", "rbac_with_domains_policy.csv"}, {"rbac_with_deny_model.conf", "rbac_with_deny_policy.csv"},
		{"rbac_with_not_deny_model.conf", "rbac_with_deny_policy.csv"}, {"rbac_model_matcher_using_in_op.conf", "rbac_policy.csv"}, {"rbac_model_in_multi_line.conf", "rbac_policy.csv"}, {"rbac_model.conf", "rbac_with_hierarchy_policy.csv"}, {"rbac_with_domains_model.conf", "rbac_with_hierarchy_with_domains_policy.csv"}}
	for _, p := range pairs {
		p := p
		mpath, ppath := filepath.Join(dir, p[0]), filepath.Join(dir, p[1])
		if _, err := os.Stat(mpath); err != nil {
			continue
		}
		if _, err := os.Stat(ppath); err != nil {
			continue
		}
		k, err := casbin.NewEnforcer(mpath, ppath)
		if err != nil {
			continue
		}
		f, err := fastac.NewEnforcer(mpath, ppath)
		if err != nil {
			t.Fatalf("%v: %v", p, err)
		}
		k.ClearPolicy()
		must(t, k.LoadPolicy())
		vals := map[string]bool{"root": true, "nobody": true}
		f.GetModel().RangeRules(func(r []string) bool {
			for _, v := range r[1:] {
				vals[v] = true
			}
			return true
		})
		pool := setKeys(vals)
		def, ok := f.GetModel().GetRequestDef("r")
		if !ok {
			t.Fatalf("%v: no request definition", p)
		}
		n := strings.Count(def.String(), ",") + 1
		check(t, 60, "the example models and policies of the repository, requests of random values of the policy; non-trivial: always", func(t *rapid.T, c *Case) {
			c.nt(true)
			x := &pair{t, c, f, k}
			c.logf("%v", p)
			for i := 0; i < 20; i++ {
				req := []interface{}{}
				for j := 0; j < n; j++ {
					req = append(req, pick(t, fmt.Sprint("r", j), pool...))
				}
				c.logf("%s", showReq(req))
				x.ask(req)
			}
		})
	}
}

func TestC20_Large(t *testing.T) {
	check(t, 25, "the model families of the documentation with up to 300 rules and links, some removed again; non-trivial: 100 or more rules", func(t *rapid.T, c *Case) {
		f := families[num(t, "family", 0, len(families)-1)]
		c.label(f.name)
		x := newPair(t, c, f.r, f.p, f.g, f.e, pick(t, "matcher", f.m...))
		rnd := rand.New(rand.NewSource(int64(num(t, "seed", 0, 1<<30))))
		n := big(t, "names", 3, 40)
		names := func(prefix string) string { return fmt.Sprint(prefix, rnd.Intn(n)) }
		one := func(xs []string) string { return xs[rnd.Intn(len(xs))] }
		policy := func(col string) string {
			_, special := f.vals[col]
			switch {
			case col == "sub" && !special:
				return names("s")
			case col == "obj" && !special:
				return names("o")
			}
			return one(f.pool(col))
		}
		present := [][]string{}
		seen := map[string]bool{}
		for i := big(t, "rules", 50, 300); i > 0; i-- {
			r := []string{"p"}
			if f.g != "" && rnd.Intn(3) == 0 {
				g := one(strings.Split(f.g, ";"))
				// links lead to names with a greater number, at most 8 in a row (both have limits)
				a := rnd.Intn(n)
				prefix := "s"
				if strings.HasPrefix(g, "g2") {
					prefix = "o"
				}
				level := a * 8 / n
				b := a + 1 + rnd.Intn(n)
				if b >= n || b*8/n == level {
					continue
				}
				r = []string{strings.SplitN(g, " ", 2)[0], fmt.Sprint(prefix, a), fmt.Sprint(prefix, b)}
				if strings.Count(g, "_") > 2 {
					r = append(r, one(doms))
				}
			} else {
				for _, col := range strings.Split(f.p, ", ") {
					r = append(r, policy(col))
				}
			}
			if seen[keyOf(r)] {
				continue
			}
			seen[keyOf(r)] = true
			present = append(present, r)
			x.change(true, r)
		}
		for i, r := range present {
			if i%5 == 4 {
				x.change(false, r)
			}
		}
		c.nt(len(present) >= 100)
		for j := 0; j < 40; j++ {
			req := []interface{}{}
			for _, col := range strings.Split(f.r, ", ") {
				_, special := f.reqs[col]
				if !special && (col == "sub" || col == "obj") {
					req = append(req, policy(col))
					continue
				}
				p := f.reqPool(col)
				req = append(req, p[rnd.Intn(len(p))])
			}
			x.ask(req)
		}
	})
}
