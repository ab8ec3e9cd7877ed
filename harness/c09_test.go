package harness

import (
	"errors"
	"fmt"
	"sort"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"pgregory.net/rapid"
)

// recorder is a storage which logs all operations it receives
type op struct {
	add  bool
	rule []string
}

func (o op) String() string {
	if o.add {
		return fmt.Sprintf("+%q", o.rule)
	}
	return fmt.Sprintf("-%q", o.rule)
}

var errStorage = errors.New("storage failure")

type recorder struct {
	ops    []op       // received operations
	rules  [][]string // stored rules
	calls  int
	failAt int // call which fails, counted from 1
	failed bool
	noLoad bool // LoadPolicy fails after the first rule
}

func (r *recorder) call() error {
	r.calls++
	if r.calls == r.failAt {
		r.failed = true
		return errStorage
	}
	return nil
}

func (r *recorder) apply(add bool, rules ...[]string) {
	for _, x := range rules {
		r.ops = append(r.ops, op{add, clone(x)})
		r.rules = without(r.rules, x)
		if add {
			r.rules = append(r.rules, clone(x))
		}
	}
}

func (r *recorder) LoadPolicy(m api.IAddRuleBool) error {
	if err := r.call(); err != nil {
		for _, x := range r.rules {
			_, _ = m.AddRule(clone(x))
			break
		}
		return err
	}
	for _, x := range r.rules {
		if _, err := m.AddRule(clone(x)); err != nil {
			return err
		}
	}
	return nil
}

func (r *recorder) SavePolicy(m api.IRangeRules) error {
	if err := r.call(); err != nil {
		return err
	}
	r.rules = [][]string{}
	m.RangeRules(func(x []string) bool {
		r.rules = append(r.rules, clone(x))
		return true
	})
	return nil
}

type simpleRecorder struct{ *recorder }

func (r simpleRecorder) AddRule(rule []string) error {
	if err := r.call(); err != nil {
		return err
	}
	r.apply(true, rule)
	return nil
}

func (r simpleRecorder) RemoveRule(rule []string) error {
	if err := r.call(); err != nil {
		return err
	}
	r.apply(false, rule)
	return nil
}

type batchRecorder struct{ *recorder }

func (r batchRecorder) AddRules(rules [][]string) error {
	if err := r.call(); err != nil {
		return err
	}
	r.apply(true, rules...)
	return nil
}

func (r batchRecorder) RemoveRules(rules [][]string) error {
	if err := r.call(); err != nil {
		return err
	}
	r.apply(false, rules...)
	return nil
}

func allRules(m interface {
	RangeRules(func([]string) bool)
}) [][]string {
	res := [][]string{}
	m.RangeRules(func(r []string) bool {
		res = append(res, clone(r))
		return true
	})
	return res
}

// snapshot writes down everything which is observable
func (s *scenario) snapshot(e *fastac.Enforcer) string {
	m := e.GetModel()
	res := m.String()
	for _, k := range keys(allRules(m)) {
		res += k + "\n"
	}
	for _, req := range s.requests {
		b, err := e.Enforce(req...)
		f, err2 := e.Filter(req...)
		res += fmt.Sprintf("%s: %v %v, %v %v\n", showReq(req), b, err != nil, keys(f), err2 != nil)
	}
	for _, key := range []string{"p", "g", "g2"} {
		p, ok := m.GetPolicy(key)
		if !ok || p == nil {
			continue
		}
		d, err := policy.GetDistinct(p, []int{1, 0})
		res += fmt.Sprintf("%s: %v %v\n", key, keys(d), err)
	}
	for _, g := range s.v.g {
		rm, _ := m.GetRoleManager(g.key)
		a, _ := find(s.v.r, g.col)
		doms := [][]string{nil}
		if g.arity > 2 {
			d, _ := find(s.v.r, "dom")
			for _, x := range d.pool {
				doms = append(doms, []string{x})
			}
			dm := rm.(*rbac.DomainManager)
			all, err := dm.GetAllDomains()
			res += fmt.Sprintf("%s: %s %v\n", g.key, sorted(all), err)
			for _, x := range a.pool {
				all, err := dm.GetDomains(x)
				res += fmt.Sprintf("%s %q: %s %v\n", g.key, x, sorted(all), err)
			}
		}
		for _, dom := range doms {
			for _, x := range a.pool {
				roles, err := rm.GetRoles(x, dom...)
				users, err2 := rm.GetUsers(x, dom...)
				res += fmt.Sprintf("%s %q %q: %s %v %s %v", g.key, x, dom, sorted(roles), err, sorted(users), err2)
				for _, y := range a.pool {
					h, err := rm.HasLink(x, y, dom...)
					res += fmt.Sprintf(" %v %v", h, err)
				}
				res += "\n"
			}
		}
		links := []string{}
		rm.Range(func(a, b string, dom ...string) bool {
			links = append(links, dlink{a, b, dom}.String())
			return true
		})
		sort.Strings(links)
		res += fmt.Sprintf("%s: %v\n", g.key, links)
	}
	return res
}

func TestC09_ReadOnly(t *testing.T) {
	check(t, 1500, "random model, rules, links and role/domain matchers; up to three times a random sequence of queries, many of them failing or about unknown names and patterns, and some changes, which may empty a section; compared with a twin which was never queried; non-trivial: at least three queries, one of them failed or was about an unknown name", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 2, maxRules: 5, nReq: 2})
		s.describe(c)
		rec := [2]*recorder{{}, {}}
		es := [2]*fastac.Enforcer{}
		matchers := []util.IMatcher{nil, nil}
		for i := range matchers {
			if chance(t, "matcher", 50) {
				matchers[i] = patterns[num(t, "which", 0, len(patterns)-1)].sut()
			}
		}
		for i := range es {
			e, err := s.build()
			if err != nil {
				t.Fatalf("model was refused: %v", err)
			}
			for _, g := range s.v.g {
				rm, _ := e.GetModel().GetRoleManager(g.key)
				d := rm.(rbac.IDefaultRoleManager)
				if matchers[0] != nil {
					d.SetMatcher(matchers[0])
				}
				if matchers[1] != nil {
					d.SetDomainMatcher(matchers[1])
				}
			}
			e.SetAdapter(batchRecorder{rec[i]})
			es[i] = e
		}
		e, twin := es[0], es[1]
		for _, x := range es {
			addAll(t, x, s.rules...)
			addAll(t, x, s.links...)
		}
		any := func(label string) interface{} {
			switch num(t, label, 0, 5) {
			case 0:
				return 1
			case 1:
				return nil
			case 2:
				return newEntity("x", "y")
			case 3:
				return []string{"a"}
			}
			return genValue(t)
		}
		name := func(pool []string) string {
			if chance(t, "unknown", 50) {
				c.label("unknown name")
				return pick(t, "name", "never", "/x/:y", "*", "/a/*", "ab*", "{x}", "glob:*", "p'^a", "p'(", "glob:[", "")
			}
			return pick(t, "name", pool...)
		}
		failed := false
		note := func(what string, err error, p interface{}) {
			if err != nil || p != nil {
				failed = true
				c.label("query failed")
			}
			c.logf("%s (failed: %v)", what, err != nil || p != nil)
		}
		queries := 0
		query := func() {
			queries++
			m := e.GetModel()
			var err error
			switch num(t, "query", 0, 10) {
			case 0:
				req := s.genRequest(t)
				_, err = e.Enforce(req...)
				note("Enforce("+showReq(req)+")", err, nil)
			case 1: // wrong number or types of values
				req := []interface{}{}
				for k := num(t, "n", 0, len(s.rArgs)); k > 0; k-- {
					req = append(req, any("any"))
				}
				_, err = e.Enforce(req...)
				note("Enforce("+showReq(req)+")", err, nil)
				_, err = e.Filter(req...)
				note("Filter", err, nil)
			case 2: // a matcher made for this call
				x := pick(t, "expr", `p.sub == "alice"`, `r.sub == p.sub || r.obj == p.obj`, `g.user == "alice"`, `p.nope == "x"`, `nope(p.sub)`, `((`, `p.sub`, `regexMatch(p.sub, "(")`, `ipMatch(p.sub, "x")`, `g(p.sub, "ops")`, `g(p.sub, 1)`, `m9`, `p.sub == 1`, `true`, `eval(p.sub)`)
				req := s.genRequest(t)
				_, err = e.Filter(append([]interface{}{fastac.SetMatcher(x)}, req...)...)
				note("Filter "+x, err, nil)
			case 3:
				opt := pick(t, "option", fastac.SetRequestDef("r9"), fastac.SetEffector("nope"), fastac.SetMatcher(""), fastac.SetEffector(effND), fastac.SetRequestDef("r"))
				req := s.genRequest(t)
				_, err = e.Enforce(append(req, opt)...)
				note("Enforce with an option", err, nil)
			case 4:
				k := num(t, "stop", 0, 3)
				err = e.RangeMatches(s.genRequest(t), func(rule []string) bool {
					k--
					return k > 0
				})
				note("RangeMatches", err, nil)
			case 5:
				k := num(t, "stop", 0, 3)
				m.RangeRules(func([]string) bool { k--; return k > 0 })
				note("RangeRules", nil, nil)
			case 6:
				_ = m.String()
				note("String", nil, nil)
				m.GetDef('p', "p9")
				m.GetPolicy("p9")
				m.GetRoleManager("g9")
				m.GetMatcher("m9")
				m.GetEffector("e9")
				m.GetRequestDef("r9")
			case 7:
				if pol, ok := m.GetPolicy(pick(t, "policy", "p", "p", "g")); ok {
					cols := rapid.SliceOfN(rapid.IntRange(0, 1), 0, 3).Draw(t, "columns")
					_, err = policy.GetDistinct(pol, cols)
					note("GetDistinct", err, nil)
				}
			default:
				if len(s.v.g) == 0 {
					return
				}
				g := pick(t, "g", s.v.g...)
				rm, _ := m.GetRoleManager(g.key)
				a, _ := find(s.v.r, g.col)
				x, y := name(a.pool), name(a.pool)
				dom := []string{}
				if g.arity > 2 || chance(t, "domain", 20) {
					for k := num(t, "depth", 0, 2); k > 0; k-- {
						dom = append(dom, name([]string{"d1", "d2"}))
					}
				}
				switch num(t, "rm query", 0, 3) {
				case 0:
					_, err = rm.HasLink(x, y, dom...)
					note(fmt.Sprintf("HasLink(%q, %q, %q)", x, y, dom), err, nil)
				case 1:
					_, err = rm.GetRoles(x, dom...)
					note(fmt.Sprintf("GetRoles(%q, %q)", x, dom), err, nil)
				case 2:
					_, err = rm.GetUsers(x, dom...)
					note(fmt.Sprintf("GetUsers(%q, %q)", x, dom), err, nil)
				case 3:
					if dm, ok := rm.(*rbac.DomainManager); ok {
						_, err = dm.GetDomains(x)
						note(fmt.Sprintf("GetDomains(%q)", x), err, nil)
						_, err = dm.GetAllDomains()
						note("GetAllDomains", err, nil)
					}
				}
			}
		}
		compare := func(when string) {
			a, b := s.snapshot(e), s.snapshot(twin)
			if a != b {
				t.Fatalf("%s: queried enforcer:\n%s\ntwin:\n%s\n%s", when, a, b, c.desc.String())
			}
			for i, x := range es {
				if err := x.Flush(); err != nil {
					t.Fatal(err)
				}
				if i == 1 && fmt.Sprint(rec[0].ops) != fmt.Sprint(rec[1].ops) {
					t.Fatalf("%s: storage received %v, that of the twin %v\n%s", when, rec[0].ops, rec[1].ops, c.desc.String())
				}
			}
		}
		all := append(append([][]string{}, s.rules...), s.links...)
		remove := func(r []string) {
			c.logf("remove %q", r)
			a, err1 := e.RemoveRule(clone(r))
			b, err2 := twin.RemoveRule(clone(r))
			if a != b || err1 != nil || err2 != nil {
				t.Fatalf("RemoveRule(%q) = %v, %v, twin %v, %v\n%s", r, a, err1, b, err2, c.desc.String())
			}
		}
		change := func() {
			switch {
			case chance(t, "empty a section", 15): // the last rule of a section is a special case
				c.label("emptied section")
				sec := pick(t, "section", "p", "p", "g")
				if chance(t, "clear", 30) {
					c.logf("clear %s", sec)
					for _, x := range es {
						_ = x.GetModel().ClearPolicy(sec)
					}
					return
				}
				for _, r := range allRules(twin.GetModel()) {
					if r[0] == sec {
						remove(r)
					}
				}
			case len(all) > 0 && chance(t, "remove", 50):
				remove(all[num(t, "i", 0, len(all)-1)])
			default:
				r := s.genRule(t)
				if len(s.v.g) > 0 && chance(t, "link", 60) {
					r = s.genLink(t)
				}
				all = append(all, r)
				c.logf("add %q", r)
				a, err1 := e.AddRule(clone(r))
				b, err2 := twin.AddRule(clone(r))
				if a != b || err1 != nil || err2 != nil {
					t.Fatalf("AddRule(%q) = %v, %v, twin %v, %v\n%s", r, a, err1, b, err2, c.desc.String())
				}
			}
		}
		for phase := num(t, "phases", 1, 3); phase > 0; phase-- {
			for i := num(t, "queries", 1, 8); i > 0; i-- {
				query()
			}
			if phase == 1 {
				compare("after the queries") // asks both of them
			}
			for i := num(t, "changes", 0, 4); i > 0; i-- {
				change()
			}
		}
		c.nt(queries >= 3 && (failed || c.labels["unknown name"]))
		compare("after later changes")
	})
}

func TestC09_RoleManager(t *testing.T) {
	check(t, 1500, "random links of a role or domain manager with pattern matchers, interrupted by queries, also for names and patterns which are part of no link, and queries during which a matcher panics; a twin gets the same links but no queries; non-trivial: a query for an unknown pattern", func(t *rapid.T, c *Case) {
		p := &patterns[num(t, "matcher", 0, len(patterns)-1)]
		names := genPatternNames(t, p)
		withDomains := chance(t, "domain manager", 40)
		rms := [2]rbac.IDefaultRoleManager{}
		for i := range rms {
			rms[i] = rbac.NewRoleManager(10)
			if withDomains {
				rms[i] = rbac.NewDomainManager(10)
			}
		}
		// the matcher of the first one may panic while it is asked for something
		faults := chance(t, "faults", 60)
		fuse := -1
		faulty := func(m util.IMatcher) util.IMatcher {
			step := func() {
				if fuse == 0 {
					fuse = -1
					panic("fault of the matcher")
				}
				if fuse > 0 {
					fuse--
				}
			}
			return util.NewMatcher(func(s string) bool { step(); return m.IsPattern(s) }, func(s, p string) bool { step(); return m.Match(s, p) })
		}
		set := func() {
			rms[0].SetMatcher(faulty(p.sut()))
			rms[1].SetMatcher(p.sut())
		}
		if withDomains && chance(t, "domain matcher", 60) {
			rms[0].SetDomainMatcher(faulty(p.sut()))
			rms[1].SetDomainMatcher(p.sut())
		}
		domain := func() []string {
			if !withDomains {
				return nil
			}
			return []string{pick(t, "domain", p.names...)}[:num(t, "domains", 0, 1)]
		}
		early := chance(t, "early", 70)
		if early {
			set()
		}
		c.logf("%s matcher, names %q", p.name, names)
		doms := [][]string{nil}
		type link struct {
			a, b string
			dom  []string
		}
		links := []link{}
		for i := num(t, "steps", 3, 20); i > 0; i-- {
			if chance(t, "query", 50) {
				x, y, dom := pick(t, "x", p.names...), pick(t, "y", p.names...), domain()
				q := pick(t, "ask", "HasLink", "HasLink", "GetRoles", "GetUsers", "GetDomains", "Range")
				c.logf("%s %q %q %q", q, x, y, dom)
				for _, n := range append(dom, x, y) {
					known := false
					for _, l := range links {
						known = known || l.a == n || l.b == n || len(l.dom) > 0 && l.dom[0] == n
					}
					c.nt(!known && p.is(n))
				}
				n := num(t, "stop", 0, 3)
				if faults && chance(t, "fault", 60) {
					fuse = num(t, "fuse", 0, 8)
				}
				failed := catch(func() {
					switch q {
					case "HasLink":
						_, _ = rms[0].HasLink(x, y, dom...)
					case "GetRoles":
						_, _ = rms[0].GetRoles(x, dom...)
					case "GetUsers":
						_, _ = rms[0].GetUsers(x, dom...)
					case "GetDomains":
						if dm, ok := rms[0].(*rbac.DomainManager); ok {
							_, _ = dm.GetDomains(x)
							_, _ = dm.GetAllDomains()
						}
					case "Range":
						rms[0].Range(func(string, string, ...string) bool { n--; return n > 0 })
					}
				})
				fuse = -1
				if failed != nil {
					c.logf("=> %v", failed)
					c.label("a matcher panics while a role manager is asked")
					if fmt.Sprint(failed) != "fault of the matcher" {
						t.Fatalf("panic: %v\n%s", failed, c.desc.String())
					}
				}
				continue
			}
			l := link{pick(t, "a", names...), pick(t, "b", names...), domain()}
			add := chance(t, "add", 70)
			if !add && len(links) > 0 {
				l = links[num(t, "i", 0, len(links)-1)]
			}
			c.logf("add: %v %q", add, l)
			links = append(links, l)
			doms = append(doms, l.dom)
			var ok [2]bool
			for i, rm := range rms {
				if add {
					ok[i], _ = rm.AddLink(l.a, l.b, l.dom...)
				} else {
					ok[i], _ = rm.DeleteLink(l.a, l.b, l.dom...)
				}
			}
			if ok[0] != ok[1] {
				t.Fatalf("AddLink/DeleteLink(%q) = %v, without queries %v\n%s", l, ok[0], ok[1], c.desc.String())
			}
		}
		if !early {
			set()
		}
		ask := rapid.Permutation(p.names).Draw(t, "ask")
		for _, dom := range doms {
			// what is listed shows names which were not removed
			for _, x := range ask[:5] {
				for i, list := range []func(rbac.IDefaultRoleManager) ([]string, error){
					func(rm rbac.IDefaultRoleManager) ([]string, error) { return rm.GetRoles(x, dom...) },
					func(rm rbac.IDefaultRoleManager) ([]string, error) { return rm.GetUsers(x, dom...) },
				} {
					a, err := list(rms[0])
					b, err2 := list(rms[1])
					if sorted(a) != sorted(b) || err != nil || err2 != nil {
						t.Fatalf("%s of %q %q: %q %v, without queries %q %v\n%s", []string{"roles", "users"}[i], x, dom, a, err, b, err2, c.desc.String())
					}
				}
			}
			if err := same(rms[0], rms[1], ask[:5], dom...); err != nil {
				t.Fatalf("without queries: %v\n%s", err, c.desc.String())
			}
		}
		all := func(rm rbac.IDefaultRoleManager) []string {
			res := []string{}
			rm.Range(func(a, b string, dom ...string) bool {
				res = append(res, dlink{a, b, clone(dom)}.String())
				return true
			})
			sort.Strings(res)
			if dm, ok := rm.(*rbac.DomainManager); ok {
				d, _ := dm.GetAllDomains()
				res = append(res, sorted(d))
				for _, x := range ask[:5] {
					d, _ := dm.GetDomains(x)
					res = append(res, sorted(d))
				}
			}
			return res
		}
		if a, b := all(rms[0]), all(rms[1]); fmt.Sprint(a) != fmt.Sprint(b) {
			t.Fatalf("links and domains %q, without queries %q\n%s", a, b, c.desc.String())
		}
	})
}

var _ = model.NewModel
