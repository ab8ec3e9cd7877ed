package harness

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/model/types"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"pgregory.net/rapid"
)

// a query, its answer is comparable
type query struct {
	name string
	ask  func() string
}

func answer(v interface{}, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprint(v)
}

func rulesAnswer(rules [][]string, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprint(keys(rules))
}

func setAnswer(xs []string, err error) string {
	if err != nil {
		return "error"
	}
	set := map[string]bool{}
	for _, x := range xs {
		set[x] = true
	}
	return fmt.Sprintf("%q", setKeys(set))
}

// yielder gives way to other goroutines now and then
type yielder struct {
	n    int64
	mode int64
}

func (y *yielder) step() {
	if y != nil && y.mode > 0 && atomic.AddInt64(&y.n, 1)%y.mode == 0 {
		runtime.Gosched()
	}
}

func (y *yielder) wrap(m util.IMatcher) util.IMatcher {
	return util.NewMatcher(func(s string) bool { y.step(); return m.IsPattern(s) }, func(s, p string) bool { y.step(); return m.Match(s, p) })
}

// simultaneously asks all queries in several goroutines, each in its own order
func simultaneously(t *rapid.T, c *Case, subject, twin []query) {
	want := []string{}
	for _, q := range twin {
		want = append(want, q.ask())
	}
	n := num(t, "goroutines", 2, 6)
	rounds := num(t, "rounds", 1, 3)
	orders := [][]int{}
	for i := 0; i < n; i++ {
		idx := []int{}
		for k := range subject {
			idx = append(idx, k)
		}
		if chance(t, "own order", 60) {
			idx = rapid.Permutation(idx).Draw(t, "order")
		}
		if chance(t, "a single query", 25) {
			k := idx[0]
			for i := range idx {
				idx[i] = k
			}
		}
		orders = append(orders, idx)
	}
	c.logf("%d goroutines, %d rounds, orders %v", n, rounds, orders)
	var wg sync.WaitGroup
	start := make(chan struct{})
	wrong := make([]string, n)
	for i := range orders {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					wrong[i] = fmt.Sprintf("panic: %v", p)
				}
			}()
			<-start
			for r := 0; r < rounds; r++ {
				for _, k := range orders[i] {
					if got := subject[k].ask(); got != want[k] && wrong[i] == "" {
						wrong[i] = fmt.Sprintf("%s = %s, sequentially: %s", subject[k].name, got, want[k])
					}
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for _, w := range wrong {
		if w != "" {
			t.Fatalf("%s\n%s", w, c.desc.String())
		}
	}
	for k, q := range subject { // nothing has changed
		if got := q.ask(); got != want[k] {
			t.Fatalf("afterwards: %s = %s, before: %s\n%s", q.name, got, want[k], c.desc.String())
		}
	}
}

func TestC17_Enforcer(t *testing.T) {
	check(t, 250, "2 to 6 goroutines ask Enforce, Filter, RangeMatches (default and ad hoc matchers, shared contexts and definitions), role functions and listings of one enforcer; answers are compared with a twin that is asked sequentially, in a race detecting build; non-trivial: the answers are not all alike", func(t *rapid.T, c *Case) {
		y := &yielder{mode: int64(pick(t, "yield", 0, 1, 2, 7))}
		s := genScenario(t, scenarioOpts{depth: 2, eval: chance(t, "eval", 30), minRules: 0, maxRules: 7, nReq: 4})
		s.describe(c)
		ms := []*ex{}
		for i := num(t, "ad hoc matchers", 0, 3); i > 0; i-- {
			x := s.v.genMatcher(t, num(t, "depth", 0, 2))
			if x.usesPolicy(s.v.pKey) {
				ms = append(ms, x)
				c.logf("ad hoc: %s", x)
			}
		}
		pi := num(t, "role matcher", -3, len(patterns)-1)
		var rules [][]string
		rules = append(append(rules, s.rules...), s.links...)
		build := func(y *yielder) []query {
			e, err := s.build()
			must(t, err)
			e.GetModel().SetFunction("hasPrefix", func(args ...interface{}) (interface{}, error) {
				y.step()
				return strings.HasPrefix(args[0].(string), args[1].(string)), nil
			})
			for _, g := range s.v.g {
				if rm, ok := e.GetModel().GetRoleManager(g.key); ok && pi >= 0 {
					rm.(rbac.IDefaultRoleManager).SetMatcher(y.wrap(patterns[pi].sut()))
				}
			}
			addAll(t, e, rules...)
			qs := []query{}
			add := func(name string, ask func() string) { qs = append(qs, query{name, ask}) }
			for _, r := range s.requests {
				r := r
				show := showReq(r)
				add("Enforce("+show+")", func() string { b, err := e.Enforce(r...); return answer(b, err) })
				add("Filter("+show+")", func() string { return rulesAnswer(e.Filter(r...)) })
				add("RangeMatches("+show+")", func() string {
					rules := [][]string{}
					err := e.RangeMatches(r, func(rule []string) bool {
						y.step()
						rules = append(rules, clone(rule))
						return true
					})
					return rulesAnswer(rules, err)
				})
				for i, x := range ms {
					text := x.String()
					opts := []fastac.ContextOption{fastac.SetMatcher(text)}
					if i%2 == 1 {
						opts[0] = fastac.SetMatcher(defs.NewMatcherDef("m7", text)) // shared by all goroutines
					}
					if i == 2 {
						opts = append(opts, fastac.SetEffector(defs.NewEffectDef("e7", effND)))
					}
					params := append([]interface{}{opts[0]}, r...)
					if len(opts) > 1 {
						params = append(params, opts[1])
					}
					add(fmt.Sprintf("Enforce(ad hoc %d, %s)", i, show), func() string { b, err := e.Enforce(params...); return answer(b, err) })
					add(fmt.Sprintf("Filter(ad hoc %d, %s)", i, show), func() string { return rulesAnswer(e.Filter(params...)) })
					ctx, err := fastac.NewContext(e.GetModel(), opts...)
					must(t, err)
					add(fmt.Sprintf("EnforceWithContext(%d, %s)", i, show), func() string { b, err := e.EnforceWithContext(ctx, r...); return answer(b, err) })
					add(fmt.Sprintf("FilterWithContext(%d, %s)", i, show), func() string { return rulesAnswer(e.FilterWithContext(ctx, r...)) })
				}
			}
			for _, g := range s.v.g {
				g := g
				a, _ := find(s.v.r, g.col)
				dom := []string{}
				if g.arity > 2 {
					d, _ := find(s.v.r, "dom")
					dom = []string{d.pool[0]}
				}
				rm, _ := e.GetModel().GetRoleManager(g.key)
				for i, x := range a.pool {
					x, z := x, a.pool[(i+1)%len(a.pool)]
					add(fmt.Sprintf("HasLink(%q, %q)", x, z), func() string { b, err := rm.HasLink(x, z, dom...); return answer(b, err) })
					add(fmt.Sprintf("GetRoles(%q)", x), func() string { return setAnswer(rm.GetRoles(x, dom...)) })
					add(fmt.Sprintf("GetUsers(%q)", x), func() string { return setAnswer(rm.GetUsers(x, dom...)) })
				}
				add("Filter("+g.key+")", func() string {
					return rulesAnswer(e.Filter(fastac.SetMatcher(g.key+`.user != "nobody"`), fastac.SetRequestDef(s.v.rKey)))
				})
			}
			add("RangeRules", func() string {
				rules := [][]string{}
				e.GetModel().RangeRules(func(r []string) bool { y.step(); rules = append(rules, clone(r)); return true })
				return rulesAnswer(rules, nil)
			})
			p, _ := e.GetModel().GetPolicy(s.v.pKey)
			add("GetDistinct", func() string { return rulesAnswer(policy.GetDistinct(p, []int{0, 1})) })
			add("String", func() string { return fmt.Sprint(e.GetModel()) })
			return qs
		}
		subject, twin := build(y), build(nil)
		kinds := map[string]bool{}
		for _, q := range twin {
			kinds[q.ask()] = true
		}
		c.nt(len(kinds) > 3)
		c.labelIf(pi >= 0 && len(s.v.g) > 0, "role matcher")
		c.labelIf(len(ms) > 0, "ad hoc matcher")
		simultaneously(t, c, subject, twin)
	})
}

// gate holds back its callers until n of them are inside, or until it seems that more can't come in
type gate struct {
	n    int64
	done chan struct{}
	once sync.Once
	full bool
}

func (g *gate) open(full bool) {
	g.once.Do(func() {
		g.full = full
		close(g.done)
	})
}

func (g *gate) enter() {
	if atomic.AddInt64(&g.n, -1) == 0 {
		g.open(true)
	}
	select {
	case <-g.done:
	case <-time.After(2 * time.Second):
		g.open(false)
	}
}

// holding is an effector, whose callers have to pass a gate
type holding struct {
	effector.IEffector
	inside func()
}

func (h holding) MergeEffects(effects []types.Effect, matches [][]string, complete bool) (types.Effect, []string, error) {
	h.inside()
	return h.IEffector.MergeEffects(effects, matches, complete)
}

func TestC17_Inside(t *testing.T) {
	check(t, 150, "2 to 60 goroutines ask one enforcer, and all of them are in the middle of an evaluation at the same time: in a function called by the matcher, or through eval of a value, perhaps nested, in a role manager's matcher, in an effector or in a callback of RangeMatches; answers are compared with those of a sequential twin; non-trivial: all of them were inside, more than 8", func(t *rapid.T, c *Case) {
		n, users := num(t, "goroutines", 2, 60), num(t, "users", 1, 6)
		nest := num(t, "nested eval calls", 0, 6)
		place := pick(t, "inside of", "function", "eval", "matcher", "effector", "callback")
		matcher := map[string]string{
			"function": `r.sub == p.sub && hold() && r.obj == p.obj`,
			"eval":     fmt.Sprintf(`r.sub == p.sub && eval(p.e%d)`, nest),
			"matcher":  `g(r.sub, p.sub) && r.obj == p.obj`,
			"effector": `r.sub == p.sub && r.obj == p.obj`,
			"callback": `r.sub == p.sub && r.obj == p.obj`,
		}[place]
		args, vals := "sub, obj, e0", []string{"p", "", "o", `hold() && r.obj == "o"`}
		for i := 1; i <= nest; i++ {
			args += fmt.Sprint(", e", i)
			vals = append(vals, fmt.Sprintf("eval(p.e%d)", i-1))
		}
		text := "[request_definition]\nr = sub, obj\n[policy_definition]\np = " + args + "\n[role_definition]\ng = _, _\n[policy_effect]\ne = " + effSome + "\n[matchers]\nm = " + matcher + "\n"
		c.logf("%d goroutines inside of %s, %d users\n%s", n, place, users, text)
		g := &gate{n: int64(n), done: make(chan struct{})}
		var hold int32 // whether callers have to pass the gate
		inside := func() {
			if atomic.LoadInt32(&hold) == 1 {
				g.enter()
			}
		}
		build := func() *fastac.Enforcer {
			m := model.NewModel()
			m.SetFunction("hold", func(...interface{}) (interface{}, error) { inside(); return true, nil })
			must(t, m.LoadModelFromText(text))
			rm, _ := m.GetRoleManager("g")
			if place == "matcher" {
				rm.(rbac.IDefaultRoleManager).SetMatcher(util.NewMatcher(
					func(s string) bool { return strings.HasSuffix(s, "*") },
					func(a, b string) bool { inside(); return strings.HasPrefix(a, b[:len(b)-1]) }))
			}
			if place == "effector" {
				m.SetEffector("e", holding{effector.NewEffector(defs.NewEffectDef("e", effSome)), inside})
			}
			e, err := fastac.NewEnforcer(m, nil)
			must(t, err)
			for i := 0; i < users; i++ {
				vals[1] = fmt.Sprint("s", i)
				addAll(t, e, clone(vals))
				if place == "matcher" {
					addAll(t, e, []string{"g", fmt.Sprint("u", i, "*"), vals[1]})
				}
			}
			return e
		}
		ask := func(e *fastac.Enforcer, i int) string {
			sub := fmt.Sprint("s", i%users)
			if place == "matcher" {
				sub = fmt.Sprint("u", i%users, "x", i)
			}
			switch {
			case place == "callback":
				res := [][]string{}
				err := e.RangeMatches([]interface{}{sub, "o"}, func(r []string) bool { inside(); res = append(res, clone(r)); return true })
				return rulesAnswer(res, err)
			case i%3 == 2 && place != "effector":
				return rulesAnswer(e.Filter(sub, "o"))
			default:
				b, err := e.Enforce(sub, "o")
				return answer(b, err)
			}
		}
		subject, twin := build(), build()
		atomic.StoreInt32(&hold, 1)
		got := make([]string, n)
		var wg sync.WaitGroup
		for i := range got {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						got[i] = fmt.Sprint("panic: ", p)
					}
				}()
				got[i] = ask(subject, i)
			}(i)
		}
		wg.Wait()
		atomic.StoreInt32(&hold, 0)
		for i := range got {
			if want := ask(twin, i); got[i] != want {
				t.Fatalf("goroutine %d: %s, sequentially: %s\n%s", i, got[i], want, c.desc.String())
			}
			if again := ask(subject, i); again != got[i] {
				t.Fatalf("goroutine %d: %s, afterwards: %s\n%s", i, got[i], again, c.desc.String())
			}
		}
		c.nt(g.full && n > 8)
		c.labelIf(g.full, "all inside of "+place)
	})
}

func TestC17_RoleManagers(t *testing.T) {
	check(t, 400, "2 to 6 goroutines ask one role or domain manager with role and domain patterns for known and unknown names and domains; answers are compared with a twin that is asked sequentially, in a race detecting build, with matchers that yield; non-trivial: a link is in force through a pattern", func(t *rapid.T, c *Case) {
		y := &yielder{mode: int64(pick(t, "yield", 0, 1, 2, 5))}
		p := &patterns[num(t, "patterns", 0, len(patterns)-1)]
		names := genPatternNames(t, p)
		domains := chance(t, "domains", 60)
		domMatcher := domains && chance(t, "domain matcher", 70)
		doms := [][]string{{}}
		if domains {
			pool := rapid.Permutation(p.names).Draw(t, "domain names")[:3]
			for i := num(t, "n domains", 1, 3); i > 0; i-- {
				d := []string{pick(t, "domain", pool...)}
				if chance(t, "sub", 25) {
					d = append(d, pick(t, "domain", pool...))
				}
				doms = append(doms, d)
			}
		}
		links := []dlink{}
		for i := num(t, "links", 1, 8); i > 0; i-- {
			l := dlink{pick(t, "a", names...), pick(t, "b", names...), pick(t, "in", doms...)}
			links = append(links, l)
			c.logf("%s", l)
		}
		c.logf("matcher %s, domains %v, domain matcher %v", p.name, domains, domMatcher)
		asked := append([]string{}, names...)
		for i := num(t, "unknown names", 1, 4); i > 0; i-- {
			asked = append(asked, pick(t, "name", p.names...))
		}
		askedDoms := append([][]string{}, doms...)
		if domains {
			askedDoms = append(askedDoms, []string{pick(t, "unknown domain", p.names...)})
		}
		type manager interface {
			rbac.IDefaultRoleManager
			GetDomains(name string) ([]string, error)
			GetAllDomains() ([]string, error)
		}
		shuffle := rapid.Permutation(seq(len(asked)*len(asked)*len(askedDoms))).Draw(t, "queries")
		if len(shuffle) > 30 {
			shuffle = shuffle[:30]
		}
		build := func(y *yielder) []query {
			var rm manager = rbac.NewRoleManager(10)
			if domains {
				rm = rbac.NewDomainManager(10)
			}
			rm.SetMatcher(y.wrap(p.sut()))
			if domMatcher {
				rm.SetDomainMatcher(y.wrap(p.sut()))
			}
			for _, l := range links {
				_, err := rm.AddLink(l.a, l.b, clone(l.dom)...)
				must(t, err)
			}
			qs := []query{}
			add := func(name string, ask func() string) { qs = append(qs, query{name, ask}) }
			for _, k := range shuffle {
				a, b, d := asked[k%len(asked)], asked[k/len(asked)%len(asked)], askedDoms[k/len(asked)/len(asked)]
				add(fmt.Sprintf("HasLink(%q, %q, %q)", a, b, d), func() string { x, err := rm.HasLink(a, b, d...); return answer(x, err) })
				add(fmt.Sprintf("GetRoles(%q, %q)", a, d), func() string { return setAnswer(rm.GetRoles(a, d...)) })
				add(fmt.Sprintf("GetUsers(%q, %q)", b, d), func() string { return setAnswer(rm.GetUsers(b, d...)) })
			}
			add("GetDomains", func() string { return setAnswer(rm.GetDomains(asked[0])) })
			add("GetAllDomains", func() string { return setAnswer(rm.GetAllDomains()) })
			add("Range", func() string {
				res := []string{}
				rm.Range(func(a, b string, dom ...string) bool {
					y.step()
					res = append(res, dlink{a, b, dom}.String())
					return true
				})
				return sorted(res)
			})
			return qs
		}
		subject, twin := build(y), build(nil)
		g := dgraph{links: links, p: p}
		if domMatcher {
			g.dp = p
		}
		for _, d := range askedDoms {
			in := g.in(d)
			for _, a := range asked {
				for _, b := range asked {
					_, direct := in.links[[2]string{a, b}]
					c.nt(a != b && !direct && in.has(a, b, false))
				}
			}
		}
		simultaneously(t, c, subject, twin)
	})
}

// event is one call of the shared cache with logical times of its start and its end
type event struct {
	op         cacheOp
	value      interface{}
	ok         bool
	start, end int64
}

// linearizable searches an order of the events which respects their times and is possible for a cache
func linearizable(events []event, capacity int) bool {
	failed := map[string]bool{}
	var search func(done uint32, l *lru) bool
	search = func(done uint32, l *lru) bool {
		if done == 1<<len(events)-1 {
			return true
		}
		k := fmt.Sprint(done, *l)
		if failed[k] {
			return false
		}
		first := int64(1 << 62)
		for i, e := range events {
			if done&(1<<i) == 0 && e.end < first {
				first = e.end
			}
		}
		for i, e := range events {
			if done&(1<<i) != 0 || e.start > first {
				continue
			}
			next := &lru{l.capacity, append([]interface{}{}, l.keys...), append([]interface{}{}, l.values...)}
			if e.op.put {
				next.Put(e.op.key, e.op.value)
			} else if v, ok := next.Get(e.op.key); ok != e.ok || v != e.value {
				continue
			}
			if search(done|1<<i, next) {
				return true
			}
		}
		failed[k] = true
		return false
	}
	return search(0, &lru{capacity: capacity})
}

func TestC17_Cache(t *testing.T) {
	check(t, 1500, "2 to 4 goroutines read and write one shared cache; the history has to be one of a sequential cache (linearizability), and the cache still works afterwards, in a race detecting build; non-trivial: calls have overlapped", func(t *rapid.T, c *Case) {
		capacity := num(t, "capacity", 0, 3)
		sut := util.NewSyncLRUCache(capacity)
		n := num(t, "goroutines", 2, 4)
		ops := make([][]cacheOp, n)
		total := 0
		gen := func() cacheOp {
			total++
			return cacheOp{put: chance(t, "put", 55), key: num(t, "key", 0, 4), value: total}
		}
		for i := range ops {
			for k := num(t, "calls", 1, 5); k > 0; k-- {
				ops[i] = append(ops[i], gen())
			}
		}
		c.logf("capacity %d: %v", capacity, ops)
		var clock int64
		call := func(op cacheOp) event {
			e := event{op: op, start: atomic.AddInt64(&clock, 1)}
			if op.put {
				sut.Put(op.key, op.value)
			} else {
				e.value, e.ok = sut.Get(op.key)
			}
			e.end = atomic.AddInt64(&clock, 1)
			return e
		}
		events := make([][]event, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		var panicked atomic.Value
		for i := range ops {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						panicked.Store(fmt.Sprint(p))
					}
				}()
				<-start
				for _, op := range ops[i] {
					events[i] = append(events[i], call(op))
				}
			}(i)
		}
		close(start)
		wg.Wait()
		if p := panicked.Load(); p != nil {
			t.Fatalf("panic: %v\n%s", p, c.desc.String())
		}
		all := []event{}
		for _, e := range events {
			all = append(all, e...)
		}
		for k := 0; k < 5; k++ { // the state afterwards
			all = append(all, call(cacheOp{key: k}))
		}
		overlap := false
		sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
		for i := 1; i < len(all); i++ {
			overlap = overlap || all[i].start < all[i-1].end
		}
		c.labelIf(overlap, "overlap")
		c.nt(overlap || n > 2)
		if !linearizable(all, capacity) {
			t.Fatalf("not the history of a cache: %+v\n%s", all, c.desc.String())
		}
	})
}
