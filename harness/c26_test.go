package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage"
	em "github.com/vansante/go-event-emitter"
	"pgregory.net/rapid"
)

// mirror applies events to a set of rules
type mirror struct {
	t        *rapid.T
	name     string
	rules    [][]string
	detached bool
	remove   func()
	holds    func() [][]string // the rules of the source
}

// inForce: at the time of the event, the set of the listener equals the rules of the source
func (m *mirror) inForce(event string, r []string) {
	if got := m.holds(); !sameRules(got, m.rules) {
		m.t.Fatalf("%s: %q was reported as %s, while the rules were %q instead of %q", m.name, r, event, got, m.rules)
	}
}

func (m *mirror) added(args ...interface{}) {
	r := clone(args[0].([]string))
	if m.detached {
		m.t.Fatalf("%s: removed listener received %q", m.name, r)
	}
	if contains(m.rules, r) {
		m.t.Fatalf("%s: %q was reported as added twice", m.name, r)
	}
	m.rules = append(m.rules, r)
	m.inForce("added", r)
}

func (m *mirror) removed(args ...interface{}) {
	r := clone(args[0].([]string))
	if m.detached {
		m.t.Fatalf("%s: removed listener received %q", m.name, r)
	}
	if !contains(m.rules, r) {
		m.t.Fatalf("%s: %q was reported as removed, but was not present", m.name, r)
	}
	m.rules = without(m.rules, r)
	m.inForce("removed", r)
}

type emitter interface {
	AddListener(event em.EventType, handler em.HandleFunc) *em.Listener
	RemoveListener(event em.EventType, listener *em.Listener)
}

func TestC26_Events(t *testing.T) {
	check(t, 2500, "random sequences of rule changes (single, bulk, loading a file, refused ones) with listeners at the model and at every section which come and go, sections get replaced; non-trivial: events were received by a listener which was added later than others, or removed before the end", func(t *rapid.T, c *Case) {
		m := model.NewModel()
		must(t, m.LoadModelFromText("[request_definition]\nr = a, b\n[policy_definition]\np = a, b\np2 = a, b\n[role_definition]\ng = _, _\ng2 = _, _, _\n[policy_effect]\ne = "+effSome+"\n[matchers]\nm = r.a == p.a && g(r.b, p.b)\n"))
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		width := map[string]int{"p": 2, "p2": 2, "g": 2, "g2": 3, "p3": 1, "g3": 2}
		// sections without a definition
		m.SetPolicy("p3", policy.NewPolicy(defs.NewPolicyDef("p3", "a")))
		m.SetRoleManager("g3", rbac.NewRoleManager(5))
		rules := [][]string{}
		section := func(key string) [][]string {
			res := [][]string{}
			for _, r := range rules {
				if r[0] == key {
					res = append(res, r[1:])
				}
			}
			return res
		}
		mirrors := map[string][]*mirror{}
		attach := func(key string) {
			mi := &mirror{t: t, name: key}
			var src emitter = m
			add, del := em.EventType(model.RULE_ADDED), em.EventType(model.RULE_REMOVED)
			mi.rules = append([][]string{}, rules...)
			if key != "model" {
				p, _ := m.GetPolicy(key)
				src = p
				add, del = policy.EVT_RULE_ADDED, policy.EVT_RULE_REMOVED
				mi.rules = section(key)
			}
			mi.holds = func() [][]string {
				res := [][]string{}
				m.RangeRules(func(r []string) bool {
					if key == "model" {
						res = append(res, clone(r))
					} else if r[0] == key {
						res = append(res, clone(r[1:]))
					}
					return true
				})
				return res
			}
			l1 := src.AddListener(add, mi.added)
			l2 := src.AddListener(del, mi.removed)
			var l3 *em.Listener
			if key != "model" {
				l3 = src.AddListener(policy.EVT_CLEARED, func(...interface{}) {
					if mi.detached {
						t.Fatalf("%s: removed listener was told about clearing", key)
					}
					mi.rules = [][]string{}
				})
			}
			mi.remove = func() {
				src.RemoveListener(add, l1)
				src.RemoveListener(del, l2)
				if l3 != nil {
					src.RemoveListener(policy.EVT_CLEARED, l3)
				}
				mi.detached = true
			}
			mirrors[key] = append(mirrors[key], mi)
		}
		verify := func() {
			for key, ms := range mirrors {
				want := rules
				if key != "model" {
					want = section(key)
				}
				for i, mi := range ms {
					if !sameRules(mi.rules, want) {
						t.Fatalf("listener %d of %s holds %q, rules are %q\n%s", i, key, mi.rules, want, c.desc.String())
					}
				}
			}
		}
		keysAll := []string{"model", "p", "p2", "g", "g2", "p3", "g3"}
		for _, k := range keysAll {
			attach(k)
		}
		gen := func() []string {
			k := pick(t, "section", "p", "p", "p2", "g", "g2", "p3", "g3")
			r := []string{k}
			for i := width[k]; i > 0; i-- {
				r = append(r, pick(t, "value", "a", "b", "", "a,b", "x y"))
			}
			return r
		}
		present := func() []string {
			if len(rules) > 0 && chance(t, "present", 70) {
				return rules[num(t, "i", 0, len(rules)-1)]
			}
			return gen()
		}
		for i := num(t, "steps", 1, 20); i > 0; i-- {
			switch num(t, "step", 0, 12) {
			case 12: // replaces a section by an empty one
				k := pick(t, "replace", "p", "p2", "g", "g2", "p3", "g3")
				how := pick(t, "how", "definition", "object")
				c.logf("replace %s by another %s", k, how)
				switch {
				case how == "object" && k[0] == 'p':
					m.SetPolicy(k, policy.NewPolicy(defs.NewPolicyDef(k, []string{"", "a", "a, b"}[width[k]])))
				case how == "object" && width[k] == 2:
					m.SetRoleManager(k, rbac.NewRoleManager(5))
				case how == "object":
					m.SetRoleManager(k, rbac.NewDomainManager(5))
				case k[0] == 'p':
					must(t, m.SetDef('p', k, []string{"", "a", "a, b"}[width[k]]))
				default:
					must(t, m.SetDef('g', k, "_"+strings.Repeat(", _", width[k]-1)))
				}
				must(t, m.BuildMatchers())
				c.label("section replaced")
				mirrors[k] = nil // they listen to the former section
				attach(k)
				rest := [][]string{}
				for _, r := range rules {
					if r[0] != k {
						rest = append(rest, r)
					}
				}
				rules = rest
				mirrors[k][0].rules = nil
				for _, mi := range mirrors["model"] {
					mi.rules = append([][]string{}, rules...)
				}
			case 0, 1, 2, 3:
				r := gen()
				c.logf("add %q", r)
				_, err := e.AddRule(clone(r))
				must(t, err)
				c.nt(c.labels["section replaced"])
				rules = append(without(rules, r), r)
			case 4, 5:
				r := present()
				c.logf("remove %q", r)
				_, err := e.RemoveRule(clone(r))
				must(t, err)
				rules = without(rules, r)
			case 6:
				rs := [][]string{gen(), gen(), gen()}
				c.logf("add all %q", rs)
				must(t, e.AddRules(rs))
				for _, r := range rs {
					rules = append(without(rules, r), r)
				}
			case 7:
				rs := [][]string{present(), gen(), present()}
				c.logf("remove all %q", rs)
				must(t, e.RemoveRules(rs))
				for _, r := range rs {
					rules = without(rules, r)
				}
			case 8:
				c.logf("refused")
				for _, r := range [][]string{{"p9", "a", "b"}, {"g"}, {}, {"x", "a"}} {
					if _, err := e.AddRule(r); err == nil {
						t.Fatalf("%q was accepted", r)
					}
					if _, err := e.RemoveRule(r); err == nil {
						t.Fatalf("%q was accepted", r)
					}
				}
			case 9:
				k := pick(t, "listen to", keysAll...)
				c.logf("new listener of %s", k)
				attach(k)
				c.label("listener added later")
				c.nt(true)
			case 10:
				k := pick(t, "detach from", keysAll...)
				if ms := mirrors[k]; len(ms) > 0 {
					j := num(t, "j", 0, len(ms)-1)
					c.logf("remove listener %d of %s", j, k)
					ms[j].remove()
					mirrors[k] = append(append([]*mirror{}, ms[:j]...), ms[j+1:]...)
					c.label("listener removed")
					c.nt(true)
				}
			case 11:
				if chance(t, "load", 40) {
					r1, r2 := gen(), gen()
					dir, err := os.MkdirTemp("", "c26")
					must(t, err)
					path := filepath.Join(dir, "policy.csv")
					text := ""
					for _, r := range [][]string{r1, r2} {
						for k, v := range r {
							if k > 0 {
								text += ","
							}
							text += `"` + v + `"`
						}
						text += "\n"
					}
					must(t, os.WriteFile(path, []byte(text), 0o644))
					c.logf("load %q", [][]string{r1, r2})
					f, err := fastac.NewEnforcer(m, path)
					must(t, os.RemoveAll(dir))
					must(t, err)
					must(t, f.SetOption(fastac.OptionStorage(false)))
					for _, r := range [][]string{r1, r2} {
						rules = append(without(rules, r), r)
					}
				} else {
					// a cleared section is reported to listeners of the section only
					k := pick(t, "clear", "p", "p2", "g", "g2", "p3", "g3")
					c.logf("clear %s", k)
					must(t, m.ClearPolicy(k))
					rest := [][]string{}
					for _, r := range rules {
						if r[0] != k {
							rest = append(rest, r)
						}
					}
					rules = rest
					for _, mi := range mirrors["model"] {
						mi.rules = append([][]string{}, rules...)
					}
				}
			}
			verify()
		}
	})
}

func TestC26_Large(t *testing.T) {
	check(t, 60, "50 to 2100 random changes; listeners of the model and the sections receive exactly the effective ones, in order; non-trivial: 200 or more events", func(t *rapid.T, c *Case) {
		h := newLargeHistory(t, c)
		got := []op{}
		perKey := map[string][]op{}
		for _, add := range []bool{true, false} {
			add := add
			h.m.AddListener(map[bool]em.EventType{true: model.RULE_ADDED, false: model.RULE_REMOVED}[add], func(args ...interface{}) {
				got = append(got, op{add, clone(args[0].([]string))})
			})
			for _, key := range []string{"p", "g"} {
				key := key
				pol, _ := h.m.GetPolicy(key)
				pol.AddListener(map[bool]em.EventType{true: policy.EVT_RULE_ADDED, false: policy.EVT_RULE_REMOVED}[add], func(args ...interface{}) {
					perKey[key] = append(perKey[key], op{add, append([]string{key}, args[0].([]string)...)})
				})
			}
		}
		h.random()
		if fmt.Sprint(got) != fmt.Sprint(h.ops) {
			t.Fatalf("events %v\nwant %v\n%s", got, h.ops, c.desc.String())
		}
		for _, key := range []string{"p", "g"} {
			want := []op{}
			for _, o := range h.ops {
				if o.rule[0] == key {
					want = append(want, o)
				}
			}
			if fmt.Sprint(append([]op{}, perKey[key]...)) != fmt.Sprint(want) {
				t.Fatalf("events of %s %v\nwant %v\n%s", key, perKey[key], want, c.desc.String())
			}
		}
		c.nt(len(got) >= 200)
	})
}

// TestC26_Cascade: listeners change other rules
func TestC26_Cascade(t *testing.T) {
	check(t, 600, "listeners of the model or a section add or remove permissions when roles are given or taken; rules, decisions, the storage (autosave or flushed) and another listener agree with a plain set to which the same reactions are applied; non-trivial: three or more reactions changed a rule", func(t *rapid.T, c *Case) {
		m := newModel()
		must(t, m.LoadModelFromText(plainModel))
		rec := &recorder{}
		var a storage.Adapter = simpleRecorder{rec}
		if chance(t, "batch", 50) {
			a = batchRecorder{rec}
		}
		e, err := fastac.NewEnforcer(m, a, fastac.OptionAutosave(chance(t, "autosave", 40)))
		must(t, err)
		mir := &mirror{t: t, name: "model", holds: func() [][]string { return nil }}
		early := chance(t, "early", 50)
		mirrored := func() {
			m.AddListener(model.RULE_ADDED, func(args ...interface{}) { mir.rules = append(mir.rules, clone(args[0].([]string))) })
			m.AddListener(model.RULE_REMOVED, func(args ...interface{}) { mir.rules = without(mir.rules, args[0].([]string)) })
		}
		if early {
			mirrored()
		}
		type reaction struct{ on, do bool } // on: a role is given, do: add the permission
		reactions := []reaction{}
		rules := [][]string{}
		changed := 0
		var apply func(add bool, r []string)
		apply = func(add bool, r []string) {
			if contains(rules, r) == add {
				return
			}
			if add {
				rules = append(rules, r)
			} else {
				rules = without(rules, r)
			}
			if r[0] == "g" {
				for _, x := range reactions {
					if x.on == add {
						n := len(rules)
						apply(x.do, []string{"p", r[2], "data"})
						if n != len(rules) {
							changed++
						}
					}
				}
			}
		}
		level := pick(t, "level", "model", "section")
		for i := num(t, "reactions", 1, 2); i > 0; i-- {
			x := reaction{chance(t, "on", 50), chance(t, "do", 50)}
			reactions = append(reactions, x)
			react := func(role string) {
				var err error
				if x.do {
					_, err = e.AddRule([]string{"p", role, "data"})
				} else {
					_, err = e.RemoveRule([]string{"p", role, "data"})
				}
				must(t, err)
			}
			c.logf("%s listener: given %v => add %v", level, x.on, x.do)
			if level == "model" {
				m.AddListener(map[bool]em.EventType{true: model.RULE_ADDED, false: model.RULE_REMOVED}[x.on], func(args ...interface{}) {
					if r := args[0].([]string); r[0] == "g" {
						react(r[2])
					}
				})
			} else {
				pol, _ := m.GetPolicy("g")
				pol.AddListener(map[bool]em.EventType{true: policy.EVT_RULE_ADDED, false: policy.EVT_RULE_REMOVED}[x.on], func(args ...interface{}) {
					react(args[0].([]string)[1])
				})
			}
		}
		if !early {
			mirrored()
		}
		names := []string{"alice", "bob", "admin", "staff"}
		for i := num(t, "steps", 1, 15); i > 0; i-- {
			r := []string{"g", pick(t, "user", names...), pick(t, "role", names[2:]...)}
			if chance(t, "permission", 30) {
				r = []string{"p", r[2], "data"}
			}
			add := chance(t, "add", 60)
			c.logf("add %v %q", add, r)
			if add {
				_, err = e.AddRule(clone(r))
			} else {
				_, err = e.RemoveRule(clone(r))
			}
			must(t, err)
			apply(add, r)
			if chance(t, "flush", 30) {
				must(t, e.Flush())
			}
		}
		must(t, e.Flush())
		got := [][]string{}
		m.RangeRules(func(r []string) bool { got = append(got, clone(r)); return true })
		stored := [][]string{}
		for _, o := range rec.ops {
			if o.add {
				stored = append(stored, o.rule)
			} else {
				stored = without(stored, o.rule)
			}
		}
		for _, x := range []struct {
			name  string
			rules [][]string
		}{{"the model", got}, {"the storage", stored}, {"the listener", mir.rules}} {
			if !sameRules(x.rules, rules) {
				t.Fatalf("%s holds %q, want %q\n%s", x.name, x.rules, rules, c.desc.String())
			}
		}
		g := edges{}
		for _, r := range rules {
			if r[0] == "g" {
				g[[2]string{r[1], r[2]}] = true
			}
		}
		for _, n := range names {
			want := false
			for _, r := range rules {
				want = want || r[0] == "p" && (pgraph{g, nil}).has(n, r[1], false)
			}
			if got, err := e.Enforce(n, "data"); err != nil || got != want {
				t.Fatalf("Enforce(%q) = %v, %v, want %v\n%s", n, got, err, want, c.desc.String())
			}
		}
		c.nt(changed >= 3)
	})
}
