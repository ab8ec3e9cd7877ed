package harness

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/fm"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	em "github.com/vansante/go-event-emitter"
	"pgregory.net/rapid"
)

// fnLog records the calls of all functions of a case
type fnLog struct {
	calls map[string]bool
}

func showArgs(args []interface{}) string {
	parts := []string{}
	for _, a := range args {
		parts = append(parts, fmt.Sprintf("%T %#v", a, a))
	}
	return strings.Join(parts, ", ")
}

// instance returns function number id: it decides by its id and its arguments
func (l *fnLog) instance(id int) func(args ...interface{}) (interface{}, error) {
	return func(args ...interface{}) (interface{}, error) {
		if l != nil {
			l.calls[fmt.Sprintf("#%d(%s)", id, showArgs(args))] = true
		}
		return verdict(id, args), nil
	}
}

func verdict(id int, args []interface{}) bool {
	n := id
	for _, a := range args {
		for _, r := range fmt.Sprint(a) {
			n = n*7 + int(r)
		}
	}
	return n%3 != 0
}

var fnPool = []string{"fn", "fn2", "pathMatch", "globMatch", "g", "isOwner"}

type subjectModel struct {
	e     *fastac.Enforcer
	m     *model.Model
	fns   map[string]int // 0: built in or role function
	calls []string       // calls of the matcher: f, nested f
	args  [][]string
	join  string
	rules []string
	eval  bool // the calls are stored in the rules
}

// expression returns the calls as text, all in brackets or none
func (s *subjectModel) expression(open, close string) string {
	parts := []string{}
	for i, f := range s.calls {
		parts = append(parts, open+f+"("+strings.Join(s.args[i], ", ")+")"+close)
	}
	return strings.Join(parts, s.join)
}

func TestC23_Functions(t *testing.T) {
	check(t, 1500, "histories of setting, replacing and removing functions of several models and global ones (also the names of built in functions and of a role function), with rebuilds, new models and requests in between; called functions, arguments and decisions are compared with the registry of the reference; non-trivial: a function was replaced or removed between two requests", func(t *rapid.T, c *Case) {
		log := &fnLog{calls: map[string]bool{}}
		ids := 0
		next := func() int { ids++; return ids }
		globals := map[string]int{}
		for _, n := range fnPool[:2] { // globals can not be removed, every case sets its own ones
			globals[n] = next()
			fm.SetFunction(n, log.instance(globals[n]))
		}
		defer func() {
			for _, n := range fnPool[:2] {
				fm.SetFunction(n, (*fnLog)(nil).instance(0))
			}
			fm.SetFunction("pathMatch", util.PathMatchFunc)
			fm.SetFunction("globMatch", util.GlobMatchFunc)
		}()
		ms := []*subjectModel{}
		newSubject := func() {
			s := &subjectModel{fns: map[string]int{}}
			for n, id := range globals {
				s.fns[n] = id
			}
			s.m = newModel()
			s.join = pick(t, "join", " && ", " || ")
			if len(ms) > 0 && chance(t, "like another", 50) {
				o := ms[num(t, "other", 0, len(ms)-1)]
				s.calls, s.args, s.join = o.calls, o.args, o.join
			}
			copied := len(s.calls) > 0
			for i := num(t, "calls", 1, 2); i > 0 && !copied; i-- {
				s.calls = append(s.calls, pick(t, "function", fnPool...))
				n := num(t, "args", 1, 4)
				if s.calls[len(s.calls)-1] == "g" {
					n = 2
				}
				as := []string{}
				for k := 0; k < n; k++ {
					as = append(as, pick(t, "arg", "r.sub", "p.obj", "p.obj", "'lit'", `"p.obj, r.sub"`, "1.5", "true", "r.ent", "r.ent.Name", "r.sub + 'x'", "r.sub == p.obj", "-1", "''"))
				}
				if s.calls[len(s.calls)-1] == "g" {
					as = []string{"r.sub", "p.obj"}
				}
				s.args = append(s.args, as)
			}
			s.eval = chance(t, "eval", 40)
			text := s.expression("", "")
			c.logf("model %d: m = %s (in the rules: %v)", len(ms), text, s.eval)
			must(t, s.m.SetDef('r', "r", "sub, ent"))
			must(t, s.m.SetDef('p', "p", "obj, rule"))
			must(t, s.m.SetDef('g', "g", "_, _"))
			must(t, s.m.SetDef('e', "e", effSome))
			if s.eval {
				must(t, s.m.SetDef('m', "m", pick(t, "eval matcher", "eval(p.rule)", "p.obj == p.obj && eval(p.rule)")))
			} else {
				must(t, s.m.SetDef('m', "m", text))
			}
			missing := ""
			for _, f := range s.calls {
				if _, ok := s.fns[f]; !ok && f == "isOwner" {
					missing = f
				}
			}
			err := s.m.BuildMatchers()
			if (err == nil) != (missing == "" || s.eval) {
				t.Fatalf("BuildMatchers = %v, unknown function %q\n%s", err, missing, c.desc.String())
			}
			if missing != "" {
				s.fns[missing] = next()
				s.m.SetFunction(missing, log.instance(s.fns[missing]))
				must(t, s.m.BuildMatchers())
			}
			var e2 error
			s.e, e2 = fastac.NewEnforcer(s.m, nil)
			must(t, e2)
			for i := num(t, "rules", 1, 4); i > 0; i-- {
				v := pick(t, "value", "x", "y", "z", "it's", "lit", "alice")
				s.rules = append(s.rules, v)
				addAll(t, s.e, []string{"p", v, text})
			}
			c.logf("rules %q", s.rules)
			ms = append(ms, s)
		}
		newSubject()
		changed, asked := false, false
		for i := num(t, "steps", 2, 12); i > 0; i-- {
			k := num(t, "model", 0, len(ms)-1)
			s := ms[k]
			switch num(t, "step", 0, 11) {
			case 0:
				if len(ms) < 3 {
					newSubject()
				}
			case 1, 2:
				n := pick(t, "name", fnPool...)
				if chance(t, "used", 70) {
					n = s.calls[num(t, "call", 0, len(s.calls)-1)]
				}
				s.fns[n] = next()
				c.logf("model %d: set %s #%d", k, n, s.fns[n])
				s.m.SetFunction(n, log.instance(s.fns[n]))
				changed = changed || asked
			case 3:
				n := fnPool[num(t, "name", 0, 3)]
				globals[n] = next()
				c.logf("global: set %s #%d", n, globals[n])
				fm.SetFunction(n, log.instance(globals[n]))
			case 4:
				n := pick(t, "name", append([]string{"unknown"}, fnPool...)...)
				id, set := s.fns[n]
				want := set && id >= 0 || !set && n != "unknown" && n != "isOwner"
				got := s.m.RemoveFunction(n)
				c.logf("model %d: remove %s", k, n)
				if got != want {
					t.Fatalf("RemoveFunction(%s) = %v, want %v\n%s", n, got, want, c.desc.String())
				}
				if n != "unknown" {
					s.fns[n] = -1
				}
				changed = changed || asked
			case 5:
				missing := false
				for _, f := range s.calls {
					missing = missing || s.fns[f] < 0
				}
				c.logf("model %d: rebuild", k)
				if err := s.m.BuildMatchers(); (err != nil) != (missing && !s.eval) {
					t.Fatalf("BuildMatchers = %v, function missing: %v\n%s", err, missing, c.desc.String())
				}
			default:
				sub, ent := pick(t, "sub", "alice", "bob", "x", "1"), newEntity(pick(t, "ent", "x", "alice"), "bob")
				asked = true
				c.label("request")
				missing, builtin := false, false
				for _, f := range s.calls {
					missing = missing || s.fns[f] < 0
					builtin = builtin || s.fns[f] == 0
				}
				log.calls = map[string]bool{}
				var opts []interface{}
				if chance(t, "ad hoc", 25) && !missing {
					opts = append(opts, fastac.SetMatcher(pick(t, "ad hoc matcher", "("+s.expression("(", ")")+") && p.obj == p.obj", "eval(p.rule)", "p.obj == p.obj && eval(p.rule)")))
				}
				c.logf("model %d: %q %q (ad hoc %v)", k, sub, ent.Name, len(opts) > 0)
				req := append([]interface{}{sub, ent}, opts...)
				got, err := s.e.Enforce(req...)
				if missing {
					if err == nil && got == (s.join == " || ") && others(s, sub, ent, got) {
						break // the other function decides
					}
					if err == nil || got {
						t.Fatalf("Enforce = %v, %v, a function is missing\n%s", got, err, c.desc.String())
					}
					break
				}
				if builtin {
					if err != nil { // wrong arguments of a built in function
						if got {
							t.Fatalf("Enforce = true, %v\n%s", err, c.desc.String())
						}
						break
					}
				}
				if builtin {
					break
				}
				want := false
				expected := map[string]bool{}
				for _, obj := range s.rules {
					res := []bool{}
					for i, f := range s.calls {
						args := values(s.args[i], sub, obj, ent)
						res = append(res, verdict(s.fns[f], args))
						expected[fmt.Sprintf("#%d(%s)", s.fns[f], showArgs(args))] = true
					}
					ok := res[0]
					if len(res) > 1 && s.join == " && " {
						ok = ok && res[1]
					} else if len(res) > 1 {
						ok = ok || res[1]
					}
					want = want || ok
				}
				if err != nil || got != want {
					t.Fatalf("Enforce = %v, %v, want %v, called %v\n%s", got, err, want, setKeys(log.calls), c.desc.String())
				}
				if _, err := s.e.Filter(req...); err != nil {
					t.Fatalf("Filter: %v\n%s", err, c.desc.String())
				}
				for call := range log.calls {
					if !expected[call] {
						t.Fatalf("called %s, expected %v\n%s", call, setKeys(expected), c.desc.String())
					}
				}
				if len(s.calls) == 1 { // Filter needs every call
					for call := range expected {
						if !log.calls[call] {
							t.Fatalf("did not call %s\n%s", call, c.desc.String())
						}
					}
				}
			}
		}
		c.nt(changed && asked)
	})
}

// others: can the functions which are not missing lead to the decision got
func others(s *subjectModel, sub string, ent entity, got bool) bool {
	some, n := false, 0
	for i, f := range s.calls {
		if s.fns[f] < 0 {
			continue
		}
		n++
		for _, obj := range s.rules {
			some = some || s.fns[f] > 0 && verdict(s.fns[f], values(s.args[i], sub, obj, ent))
		}
		if s.fns[f] == 0 {
			return true // built in
		}
	}
	return n > 0 && some == got
}

// values evaluates the arguments
func values(args []string, sub, obj string, ent entity) []interface{} {
	res := []interface{}{}
	for _, a := range args {
		var v interface{}
		switch a {
		case "r.sub":
			v = sub
		case "p.obj":
			v = obj
		case "'lit'":
			v = "lit"
		case `"p.obj, r.sub"`:
			v = "p.obj, r.sub"
		case "1.5":
			v = 1.5
		case "-1":
			v = -1.0
		case "true":
			v = true
		case "r.ent":
			v = ent
		case "r.ent.Name":
			v = ent.Name
		case "r.sub + 'x'":
			v = sub + "x"
		case "r.sub == p.obj":
			v = sub == obj
		case "''":
			v = ""
		}
		res = append(res, v)
	}
	return res
}

// spyManager is a role manager which inherits only to explicit, direct roles, or fails
type spyManager struct {
	id    int
	links [][]string
	fail  bool
	calls []string
	stop  bool
}

func (r *spyManager) note(format string, args ...interface{}) {
	r.calls = append(r.calls, fmt.Sprintf(format, args...))
}

func (r *spyManager) find(l []string) int {
	for i, x := range r.links {
		if keyOf(x) == keyOf(l) {
			return i
		}
	}
	return -1
}

var errManager = errors.New("role manager fails")

func (r *spyManager) Clear() error {
	r.note("clear")
	if r.fail {
		return errManager
	}
	r.links = nil
	return nil
}

func (r *spyManager) AddLink(a, b string, dom ...string) (bool, error) {
	l := append([]string{a, b}, dom...)
	r.note("add %q", l)
	if r.fail {
		return false, errManager
	}
	if r.find(l) >= 0 {
		return false, nil
	}
	r.links = append(r.links, l)
	return true, nil
}

func (r *spyManager) DeleteLink(a, b string, dom ...string) (bool, error) {
	l := append([]string{a, b}, dom...)
	r.note("delete %q", l)
	if r.fail {
		return false, errManager
	}
	i := r.find(l)
	if i < 0 {
		return false, nil
	}
	r.links = append(append([][]string{}, r.links[:i]...), r.links[i+1:]...)
	return true, nil
}

func (r *spyManager) has(a, b string, dom ...string) bool {
	return r.find(append([]string{a, b}, dom...)) >= 0
}

func (r *spyManager) HasLink(a, b string, dom ...string) (bool, error) {
	r.note("has %q", append([]string{a, b}, dom...))
	if r.fail {
		return true, errManager
	}
	return r.has(a, b, dom...), nil
}

func (r *spyManager) GetRoles(name string, dom ...string) ([]string, error) { return nil, nil }
func (r *spyManager) GetUsers(name string, dom ...string) ([]string, error) { return nil, nil }

func (r *spyManager) Range(fn func(a, b string, dom ...string) bool) {
	for _, l := range r.links {
		if !fn(l[0], l[1], l[2:]...) {
			return
		}
	}
}

func TestC23_RoleManagers(t *testing.T) {
	check(t, 1500, "histories of grouping rules and requests with custom role managers which get replaced (and sometimes fail); the manager that was set last receives all rules and questions, also in ad hoc matchers and filters of grouping rules; non-trivial: a manager was replaced after it had received rules", func(t *rapid.T, c *Case) {
		key := pick(t, "key", "g", "g2", "g31")
		defined := chance(t, "defined", 80)
		arity := num(t, "arity", 2, 4)
		m := newModel()
		doms := ""
		rargs := "sub"
		for i := 2; i < arity; i++ {
			doms += fmt.Sprintf(", r.d%d", i)
			rargs += fmt.Sprintf(", d%d", i)
		}
		must(t, m.SetDef('r', "r", rargs))
		must(t, m.SetDef('p', "p", "role"))
		must(t, m.SetDef('e', "e", effSome))
		call := key + "(r.sub, p.role" + doms + ")"
		must(t, m.SetDef('m', "m", call))
		if defined {
			must(t, m.SetDef('g', key, "_"+strings.Repeat(", _", arity-1)))
		}
		c.logf("%s, defined %v", call, defined)
		managers := []*spyManager{}
		var cur *spyManager
		set := func() {
			cur = &spyManager{id: len(managers)}
			if len(managers) > 0 && chance(t, "known", 30) {
				cur = managers[num(t, "manager", 0, len(managers)-1)]
			} else {
				managers = append(managers, cur)
				for i := num(t, "own links", 0, 2); i > 0; i-- {
					cur.links = append(cur.links, []string{pick(t, "a", "alice", "bob"), pick(t, "b", "admin", "ops")})
					for k := 2; k < arity; k++ {
						cur.links[len(cur.links)-1] = append(cur.links[len(cur.links)-1], pick(t, "d", "x", "y"))
					}
				}
				links := cur.links
				cur.links = nil
				for _, l := range links {
					if cur.find(l) < 0 {
						cur.links = append(cur.links, l)
					}
				}
			}
			c.logf("set manager %d with %q", cur.id, cur.links)
			m.SetRoleManager(key, cur)
			must(t, m.BuildMatchers())
			if got, ok := m.GetRoleManager(key); !ok || got != rbac.IRoleManager(cur) {
				t.Fatalf("GetRoleManager = %v, %v\n%s", got, ok, c.desc.String())
			}
		}
		set()
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		addAll(t, e, []string{"p", "admin"}, []string{"p", "ops"}, []string{"p", "alice"})
		events := []string{}
		for _, evt := range []string{model.RULE_ADDED, model.RULE_REMOVED} {
			evt := evt
			m.AddListener(em.EventType(evt), func(args ...interface{}) { events = append(events, evt+keyOf(args[0].([]string))) })
		}
		received := false
		fresh := func() {
			events = nil
			for _, x := range managers {
				x.calls = nil
			}
		}
		others := []*spyManager{} // of another section
		otherKey := map[string]string{"g": "g2", "g2": "g", "g31": "g3"}[key]
		setOther := func() {
			if chance(t, "other definition", 40) {
				must(t, m.SetDef('g', otherKey, pick(t, "other arguments", "_, _", "_, _, _")))
				c.logf("define %s", otherKey)
				return
			}
			o := &spyManager{id: 100 + len(others)}
			others = append(others, o)
			m.SetRoleManager(otherKey, o)
			c.logf("set manager %d of %s", o.id, otherKey)
			must(t, m.BuildMatchers())
		}
		onlyCurrent := func(what string, want ...string) {
			for _, x := range others {
				if len(x.calls) > 0 {
					t.Fatalf("%s: manager of %s was called: %v\n%s", what, otherKey, x.calls, c.desc.String())
				}
			}
			for _, x := range managers {
				if x != cur && len(x.calls) > 0 {
					t.Fatalf("%s: manager %d was replaced, but called: %v\n%s", what, x.id, x.calls, c.desc.String())
				}
			}
			if len(want) > 0 && fmt.Sprint(cur.calls) != fmt.Sprint(want) {
				t.Fatalf("%s: manager was called %v, want %v\n%s", what, cur.calls, want, c.desc.String())
			}
		}
		for i := num(t, "steps", 2, 14); i > 0; i-- {
			link := []string{pick(t, "a", "alice", "bob"), pick(t, "b", "admin", "ops")}
			for k := 2; k < arity; k++ {
				link = append(link, pick(t, "d", "x", "y"))
			}
			rule := append([]string{key}, link...)
			fresh()
			cur.fail = chance(t, "fail", 10)
			has := cur.find(link) >= 0
			switch num(t, "step", 0, 10) {
			case 0:
				cur.fail = false
				c.nt(received)
				set()
			case 10:
				setOther()
				if got, ok := m.GetRoleManager(key); !ok || got != rbac.IRoleManager(cur) {
					t.Fatalf("GetRoleManager = %v, %v\n%s", got, ok, c.desc.String())
				}
			case 1, 2, 3:
				got, err := e.AddRule(clone(rule))
				c.logf("add %q (fail %v)", rule, cur.fail)
				received = true
				onlyCurrent("AddRule", fmt.Sprintf("add %q", link))
				if got != (!has && !cur.fail) || (err != nil) != cur.fail || (len(events) == 1) != got {
					t.Fatalf("AddRule = %v, %v, events %v\n%s", got, err, events, c.desc.String())
				}
			case 4:
				got, err := e.RemoveRule(clone(rule))
				c.logf("remove %q (fail %v)", rule, cur.fail)
				onlyCurrent("RemoveRule", fmt.Sprintf("delete %q", link))
				if got != (has && !cur.fail) || (err != nil) != cur.fail || (len(events) == 1) != got {
					t.Fatalf("RemoveRule = %v, %v, events %v\n%s", got, err, events, c.desc.String())
				}
			case 5:
				cur.fail = false
				want := append([][]string{}, cur.links...)
				got, err := e.Filter(fastac.SetMatcher(key + ".user == " + key + ".user"))
				for i := range want {
					want[i] = append([]string{key}, want[i]...)
				}
				if err != nil || !sameRules(got, want) {
					t.Fatalf("Filter = %q, %v, want %q\n%s", got, err, want, c.desc.String())
				}
				rules := [][]string{}
				m.RangeRules(func(r []string) bool {
					if r[0] == key {
						rules = append(rules, clone(r))
					}
					return true
				})
				if !sameRules(rules, want) {
					t.Fatalf("RangeRules = %q, want %q\n%s", rules, want, c.desc.String())
				}
			default:
				req := []interface{}{link[0]}
				for _, d := range link[2:] {
					req = append(req, d)
				}
				want := false
				for _, role := range []string{"admin", "ops", "alice"} {
					want = want || cur.has(link[0], role, link[2:]...)
				}
				if chance(t, "ad hoc", 30) {
					req = append(req, fastac.SetMatcher(call+" && p.role != ''"))
				}
				got, err := e.Enforce(req...)
				c.logf("%q (fail %v) => %v, %v", link, cur.fail, got, err)
				onlyCurrent("Enforce")
				if cur.fail {
					if got || err == nil {
						t.Fatalf("Enforce = %v, %v, the role manager fails\n%s", got, err, c.desc.String())
					}
				} else if err != nil || got != want || len(cur.calls) == 0 {
					t.Fatalf("Enforce = %v, %v, want %v, calls %v\n%s", got, err, want, cur.calls, c.desc.String())
				}
			}
		}
	})
}
