package harness

import (
	"fmt"
	"math/rand"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage"
	"pgregory.net/rapid"
)

const largeModel = `[request_definition]
r = sub, obj, act
[policy_definition]
p = sub, obj, act, eft
[role_definition]
g = _, _
[policy_effect]
e = ` + effSND + `
[matchers]
m = g(r.sub, p.sub) && r.obj == p.obj && (r.act == p.act || p.act == '*') || p.sub == 'anybody' && r.act == p.act && r.obj != 'secret'
`

// largeHistory is an enforcer after hundreds of changes, together with a plain set of its rules
type largeHistory struct {
	t       *rapid.T
	c       *Case
	e       *fastac.Enforcer
	m       *model.Model
	rec     *recorder
	rnd     *rand.Rand
	rules   map[string][]string
	order   []string         // keys of rules
	index   map[string]int   // of a key in order
	ops     []op             // effective changes
	changed func(op, string) // called after each effective change
	subs    int
	objs    int
}

// big draws a number between lo and hi, all of them are equally likely (other draws prefer small numbers)
func big(t *rapid.T, label string, lo, hi int) int {
	return lo + rand.New(rand.NewSource(int64(num(t, label, 0, 1<<30)))).Intn(hi-lo+1)
}

func newLargeHistory(t *rapid.T, c *Case) *largeHistory {
	h := &largeHistory{t: t, c: c, m: model.NewModel(), rec: &recorder{}, rules: map[string][]string{}, index: map[string]int{}}
	must(t, h.m.LoadModelFromText(largeModel))
	var a storage.Adapter = simpleRecorder{h.rec}
	if chance(t, "batch", 50) {
		a = batchRecorder{h.rec}
	}
	var err error
	h.e, err = fastac.NewEnforcer(h.m, a)
	must(t, err)
	h.rnd = rand.New(rand.NewSource(int64(num(t, "history", 0, 1<<30))))
	h.subs, h.objs = big(t, "subjects", 1, 60), big(t, "objects", 1, 30)
	return h
}

func (h *largeHistory) sub() string {
	switch i := h.rnd.Intn(h.subs + 2); i {
	case h.subs:
		return "anybody"
	case h.subs + 1:
		return fmt.Sprint("role", h.rnd.Intn(12))
	default:
		return fmt.Sprint("s", i)
	}
}

func (h *largeHistory) obj() string {
	if h.rnd.Intn(20) == 0 {
		return "secret"
	}
	return fmt.Sprint("o", h.rnd.Intn(h.objs))
}

func (h *largeHistory) act() string { return []string{"read", "write", "delete", "*"}[h.rnd.Intn(4)] }

func (h *largeHistory) gen() []string {
	if h.rnd.Intn(4) == 0 { // roles inherit roles with a greater number
		a := h.rnd.Intn(11)
		if x := h.sub(); x[0] == 's' {
			return []string{"g", x, fmt.Sprint("role", h.rnd.Intn(12))}
		}
		return []string{"g", fmt.Sprint("role", a), fmt.Sprint("role", a+1+h.rnd.Intn(11-a))}
	}
	return []string{"p", h.sub(), h.obj(), h.act(), []string{"allow", "allow", "", "deny", "maybe"}[h.rnd.Intn(5)]}
}

// run does n changes, growing is the percentage of rules which are added
func (h *largeHistory) run(n, growing int) {
	for ; n > 0; n-- {
		add := h.rnd.Intn(100) < growing
		r := h.gen()
		if len(h.order) > 0 && h.rnd.Intn(100) < 80 && !add {
			r = h.rules[h.order[h.rnd.Intn(len(h.order))]]
		}
		h.change(add, r)
	}
}

// purge removes all rules about some of the values
func (h *largeHistory) purge() {
	col, keep := 1+h.rnd.Intn(3), h.rnd.Intn(100)
	gone := map[string]bool{}
	for _, r := range h.all() {
		v := r[min(col, len(r)-1)]
		if _, ok := gone[v]; !ok {
			gone[v] = h.rnd.Intn(100) >= keep
		}
		if gone[v] {
			h.change(false, r)
		}
	}
	h.c.logf("removed the rules with %d%% of the values at %d: %d rules", 100-keep, col, len(h.rules))
}

func (h *largeHistory) change(add bool, r []string) {
	key := keyOf(r)
	_, has := h.rules[key]
	var ok bool
	var err error
	if add {
		ok, err = h.e.AddRule(clone(r))
	} else {
		ok, err = h.e.RemoveRule(clone(r))
	}
	if err != nil || ok == (has == add) {
		h.t.Fatalf("add: %v %q = %v, %v, present before: %v, %d rules\n%s", add, r, ok, err, has, len(h.rules), h.c.desc.String())
	}
	if !ok {
		return
	}
	if add {
		h.rules[key], h.index[key] = r, len(h.order)
		h.order = append(h.order, key)
	} else {
		last := h.order[len(h.order)-1]
		i := h.index[key]
		h.order[i], h.index[last] = last, i
		h.order = h.order[:len(h.order)-1]
		delete(h.rules, key)
		delete(h.index, key)
	}
	h.ops = append(h.ops, op{add, r})
	if h.changed != nil {
		h.changed(h.ops[len(h.ops)-1], key)
	}
}

func (h *largeHistory) random() {
	for i := num(h.t, "phases", 1, 3); i > 0; i-- {
		n, growing := big(h.t, "changes", 50, 700), pick(h.t, "growing", 100, 90, 60, 50, 20, 0)
		h.run(n, growing)
		h.c.logf("%d changes, %d%% of them added: %d rules", n, growing, len(h.rules))
		if chance(h.t, "purge", 25) {
			h.purge()
		}
	}
	h.c.logf("%d subjects, %d objects", h.subs, h.objs)
}

// all returns all rules
func (h *largeHistory) all() [][]string {
	res := make([][]string, len(h.order))
	for i, key := range h.order {
		res[i] = h.rules[key]
	}
	return res
}

// roles returns everything sub inherits, including itself
func (h *largeHistory) roles(sub string) map[string]bool {
	next := map[string][]string{}
	for _, r := range h.rules {
		if r[0] == "g" {
			next[r[1]] = append(next[r[1]], r[2])
		}
	}
	res := map[string]bool{sub: true}
	for todo := []string{sub}; len(todo) > 0; todo = todo[1:] {
		for _, x := range next[todo[0]] {
			if !res[x] {
				res[x] = true
				todo = append(todo, x)
			}
		}
	}
	return res
}

func (h *largeHistory) matching(sub, obj, act string) (rules [][]string, permitted bool) {
	roles := h.roles(sub)
	effects := []string{}
	rules = [][]string{}
	for _, r := range h.rules {
		if r[0] != "p" || !(roles[r[1]] && r[2] == obj && (r[3] == act || r[3] == "*") || r[1] == "anybody" && r[3] == act && obj != "secret") {
			continue
		}
		rules = append(rules, r)
		switch r[4] {
		case "", "allow":
			effects = append(effects, "allow")
		case "deny":
			effects = append(effects, "deny")
		}
	}
	return rules, refMerge(effSND, effects)
}
