package harness

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/storage/adapter"
	"pgregory.net/rapid"
)

// one step of a storage history
type sstep struct {
	kind  string
	rules [][]string
	on    bool
	n     int
}

func (s sstep) String() string {
	switch s.kind {
	case "add", "remove", "add all", "remove all", "refused", "add mixed", "remove mixed":
		return fmt.Sprintf("%s %q", s.kind, s.rules)
	case "autosave", "storage":
		return fmt.Sprintf("%s %v", s.kind, s.on)
	case "wait":
		return fmt.Sprintf("wait for %d changes", s.n)
	}
	return s.kind
}

const c11model = "[request_definition]\nr = a, b\n[policy_definition]\np = a, b\np2 = a, b\n[role_definition]\ng = _, _\ng2 = _, _, _\n[policy_effect]\ne = " + effSome + "\n[matchers]\nm = r.a == p.a && g(r.b, p.b)\n"

func newStorageModel(t *rapid.T) *model.Model {
	m := model.NewModel()
	must(t, m.LoadModelFromText(c11model))
	return m
}

func genSteps(t *rapid.T, max int) []sstep {
	pool := [][]string{}
	gen := func() []string {
		if len(pool) > 0 && chance(t, "known", 60) {
			return pool[num(t, "i", 0, len(pool)-1)]
		}
		vals := []string{"a", "b", "", "a,b"}
		r := []string{pick(t, "key", "p", "p", "p2", "g", "g2")}
		n := 2
		if r[0] == "g2" {
			n = 3
		}
		for ; n > 0; n-- {
			r = append(r, pick(t, "value", vals...))
		}
		pool = append(pool, r)
		return r
	}
	many := func() [][]string {
		rs := [][]string{}
		for i := num(t, "n", 0, 4); i > 0; i-- {
			rs = append(rs, gen())
		}
		return rs
	}
	res := []sstep{}
	for i := num(t, "steps", 1, max); i > 0; i-- {
		switch num(t, "step", 0, 19) {
		case 0, 1, 2, 3, 4:
			res = append(res, sstep{kind: "add", rules: [][]string{gen()}})
		case 5, 6, 7:
			res = append(res, sstep{kind: "remove", rules: [][]string{gen()}})
		case 8:
			res = append(res, sstep{kind: "add all", rules: many()})
		case 9:
			res = append(res, sstep{kind: "remove all", rules: many()})
		case 10:
			if chance(t, "mixed", 50) { // a refused rule between others
				res = append(res, sstep{kind: pick(t, "kind", "add mixed", "remove mixed"), rules: [][]string{gen(), pick(t, "bad", []string{"p9", "a", "b"}, []string{"g"}, []string{}), gen()}})
				break
			}
			res = append(res, sstep{kind: "refused", rules: [][]string{{"p9", "a", "b"}, {"g"}, {"x", "y"}}})
		case 11, 12, 13:
			res = append(res, sstep{kind: "flush"})
		case 14:
			res = append(res, sstep{kind: "autosave", on: chance(t, "on", 60)})
		case 15:
			res = append(res, sstep{kind: "storage", on: chance(t, "on", 50)})
		case 16:
			res = append(res, sstep{kind: "load"})
		case 17:
			res = append(res, sstep{kind: "save"})
		case 18:
			if chance(t, "set model while disabled", 15) {
				res = append(res, sstep{kind: "storage"}, sstep{kind: "set model"}, sstep{kind: "add", rules: [][]string{gen()}},
					sstep{kind: "storage", on: true}, sstep{kind: "add", rules: [][]string{gen()}})
				break
			}
			res = append(res, sstep{kind: pick(t, "kind", "set model", "set adapter", "query", "set adapter")})
		case 19:
			res = append(res, sstep{kind: "wait", n: num(t, "n", 1, 3)})
		}
	}
	return res
}

// storageRun executes a history and checks what the storage received
type storageRun struct {
	t        *rapid.T
	c        *Case
	e        *fastac.Enforcer
	rec      *recorder
	expect   []op // everything the storage has to receive, in order
	enabled  bool
	autosave bool
	waiting  int // changes which autosave waits for
	batch    bool
	initial  [][]string
	former   []model.IModel // models the enforcer had
}

func (s *storageRun) adapter() storage.Adapter {
	if s.batch {
		return batchRecorder{s.rec}
	}
	return simpleRecorder{s.rec}
}

func (s *storageRun) fail(format string, args ...interface{}) {
	s.t.Fatalf("%s\nbatch adapter: %v, failing call: %d\nexpected operations %v\nreceived operations %v\n%s", fmt.Sprintf(format, args...), s.batch, s.rec.failAt, s.expect, s.rec.ops, s.c.desc.String())
}

// received checks that the storage received a prefix of the expected operations, or all
func (s *storageRun) received(all bool) {
	if len(s.rec.ops) > len(s.expect) || fmt.Sprint(s.rec.ops) != fmt.Sprint(s.expect[:len(s.rec.ops)]) {
		s.fail("the storage received other operations than expected")
	}
	if all && len(s.rec.ops) != len(s.expect) {
		s.fail("the storage did not receive all operations")
	}
}

// run calls fn, which fails exactly if the storage failed meanwhile
func (s *storageRun) run(what string, fn func() error) bool {
	before := s.rec.failed
	var err error
	p := catch(func() { err = fn() })
	failed := err != nil || p != nil
	if injected := s.rec.failed && !before; failed != injected {
		s.fail("%s: error %v, panic %v, but storage failure: %v", what, err, p, injected)
	}
	if p != nil && !strings.Contains(fmt.Sprint(p), errStorage.Error()) {
		s.fail("%s: panic %v", what, p)
	}
	return !failed
}

func (s *storageRun) change(add bool, r []string) {
	if s.enabled {
		s.expect = append(s.expect, op{add, r})
	}
}

func (s *storageRun) step(st sstep) {
	m := s.e.GetModel()
	present := allRules(m)
	switch st.kind {
	case "add", "remove":
		add := st.kind == "add"
		r := st.rules[0]
		effective := contains(present, r) != add
		if effective {
			s.change(add, r)
		}
		var ok bool
		done := s.run(st.String(), func() (err error) {
			if add {
				ok, err = s.e.AddRule(clone(r))
			} else {
				ok, err = s.e.RemoveRule(clone(r))
			}
			return err
		})
		if done && ok != effective {
			s.fail("%s returned %v", st, ok)
		}
		if effective && contains(allRules(m), r) != add {
			s.fail("%s had no effect on the model", st)
		}
		if done && effective && s.enabled && s.autosave {
			if s.waiting--; s.waiting <= 0 {
				s.received(true)
			}
		}
	case "add all", "remove all":
		add := st.kind == "add all"
		cur := present
		for _, r := range st.rules {
			if contains(cur, r) != add {
				s.change(add, r)
			}
			cur = without(cur, r)
			if add {
				cur = append(cur, r)
			}
		}
		rs := [][]string{}
		for _, r := range st.rules {
			rs = append(rs, clone(r))
		}
		done := s.run(st.String(), func() error {
			if add {
				return s.e.AddRules(rs)
			}
			return s.e.RemoveRules(rs)
		})
		if !sameRules(allRules(m), cur) {
			s.fail("%s: model holds %q, want %q", st, allRules(m), cur)
		}
		if done && s.autosave {
			s.waiting = 0
			s.received(true)
		}
	case "add mixed", "remove mixed":
		// the error is reported; whatever was done gets stored
		add := st.kind == "add mixed"
		rs := [][]string{}
		for _, r := range st.rules {
			rs = append(rs, clone(r))
		}
		failedBefore := s.rec.failed
		var err error
		p := catch(func() {
			if add {
				err = s.e.AddRules(rs)
			} else {
				err = s.e.RemoveRules(rs)
			}
		})
		if err == nil && p == nil {
			s.fail("%s reported no error", st)
		}
		if p != nil && (s.rec.failed == failedBefore || !strings.Contains(fmt.Sprint(p), errStorage.Error())) {
			s.fail("%s: panic %v", st, p)
		}
		after := allRules(m)
		for i, r := range [][]string{st.rules[0], st.rules[2]} {
			if contains(present, r) != add && contains(after, r) == add && (i == 0 || keyOf(r) != keyOf(st.rules[0])) {
				s.change(add, r)
			}
		}
		if s.e.GetStorageController().AutosaveEnabled() != s.autosave {
			s.fail("%s changed autosave", st)
		}
		if s.autosave && s.rec.failed == failedBefore {
			s.waiting = 0
			s.received(true)
		}
	case "refused":
		for _, r := range st.rules {
			if _, err := s.e.AddRule(clone(r)); err == nil {
				s.fail("%q was accepted", r)
			}
			if _, err := s.e.RemoveRule(clone(r)); err == nil {
				s.fail("%q was accepted", r)
			}
		}
	case "flush":
		if s.run("Flush", s.e.Flush) {
			s.waiting = 0
			s.received(true)
		}
	case "autosave":
		must(s.t, s.e.SetOption(fastac.OptionAutosave(st.on)))
		s.autosave = st.on
		if s.e.GetStorageController().AutosaveEnabled() != st.on {
			s.fail("autosave is not %v", st.on)
		}
	case "storage":
		must(s.t, s.e.SetOption(fastac.OptionStorage(st.on)))
		s.enabled = st.on
		if s.e.GetStorageController().Enabled() != st.on {
			s.fail("storage is not %v", st.on)
		}
	case "load":
		want := present
		for _, r := range s.rec.rules {
			want = append(without(want, r), r)
		}
		if s.run("LoadPolicy", s.e.LoadPolicy) && !sameRules(allRules(m), want) {
			s.fail("LoadPolicy: the model holds %q, want %q", allRules(m), want)
		}
		if s.e.GetStorageController().Enabled() != s.enabled {
			s.fail("LoadPolicy changed whether the storage is enabled")
		}
	case "save":
		if s.run("SavePolicy", s.e.SavePolicy) && !sameRules(s.rec.rules, present) {
			s.fail("SavePolicy: the storage holds %q, want %q", s.rec.rules, present)
		}
	case "set model":
		s.e.SetModel(newStorageModel(s.t))
		// changes of the former model are none of our business
		_, err := m.AddRule([]string{"p", "former", "model"})
		must(s.t, err)
		s.former = append(s.former, m)
	case "set adapter":
		// (the queue is lost)
		if !s.enabled || len(s.rec.ops) != len(s.expect) {
			return
		}
		old := s.rec
		s.rec = &recorder{rules: append([][]string{}, old.rules...), calls: old.calls, failAt: old.failAt, failed: old.failed}
		s.expect = nil
		s.waiting = 0
		s.batch = !s.batch
		s.e.SetAdapter(s.adapter())
		if s.e.GetStorageController().AutosaveEnabled() != s.autosave {
			s.fail("SetAdapter changed autosave")
		}
	case "query":
		for _, f := range s.former {
			if _, err := f.RemoveRule([]string{"p", "former", "model"}); err != nil {
				s.fail("%v", err)
			}
			_, err := f.AddRule([]string{"p", "former", "model"})
			must(s.t, err)
		}
		_, err := s.e.Enforce("a", "b")
		must(s.t, err)
		_, err = s.e.Filter("a", "b")
		must(s.t, err)
	case "wait":
		s.e.GetStorageController().AddWait(st.n)
		if s.waiting < 0 {
			s.waiting = 0
		}
		s.waiting += st.n
	}
	s.received(false)
}

func (s *storageRun) history(steps []sstep) {
	m := newStorageModel(s.t)
	e, err := fastac.NewEnforcer(m, s.adapter(), fastac.OptionAutosave(s.autosave))
	must(s.t, err)
	s.e, s.enabled = e, true
	for _, st := range steps {
		s.step(st)
	}
	// whatever happened: the storage is in order again and gets everything
	s.rec.failAt = 0
	if err := s.e.Flush(); err != nil {
		s.fail("Flush: %v", err)
	}
	s.received(true)
	// nothing is left in the queue
	n := s.rec.calls
	if err := s.e.Flush(); err != nil || s.rec.calls != n {
		s.fail("Flush with an empty queue called the adapter %d times, %v", s.rec.calls-n, err)
	}
}

func TestC11_Storage(t *testing.T) {
	check(t, 1500, "random histories of changes, flushes, options, loading, saving, replaced models and adapters with a recording adapter (simple or batch); every history is repeated once per adapter call with this call failing; non-trivial: two or more operations reached the storage", func(t *rapid.T, c *Case) {
		steps := genSteps(t, 14)
		batch, autosave := chance(t, "batch", 50), chance(t, "autosave", 40)
		c.logf("batch adapter: %v, autosave: %v", batch, autosave)
		for _, s := range steps {
			c.logf("%s", s)
		}
		newRun := func(failAt int) *storageRun {
			return &storageRun{t: t, c: c, rec: &recorder{failAt: failAt}, batch: batch, autosave: autosave}
		}
		s := newRun(0)
		s.history(steps)
		calls := s.rec.calls
		c.nt(len(s.rec.ops) > 1)
		for i := 1; i <= calls; i++ {
			newRun(i).history(steps)
			c.label("with a storage failure")
		}
	})
}

// with nothing but changes and flushes the storage equals the model
func TestC11_StorageEqualsModel(t *testing.T) {
	check(t, 1500, "random changes, autosave and flushes with random storage failures; after a successful flush the stored rules are the rules of the model; non-trivial: some call failed and three or more operations reached the storage", func(t *rapid.T, c *Case) {
		rec := &recorder{}
		var a storage.Adapter = simpleRecorder{rec}
		if chance(t, "batch", 50) {
			a = batchRecorder{rec}
		}
		e, err := fastac.NewEnforcer(newStorageModel(t), a)
		must(t, err)
		for _, st := range genSteps(t, 20) {
			switch st.kind {
			case "add", "remove", "add all", "remove all", "flush", "autosave":
			default:
				continue
			}
			c.logf("%s", st)
			rec.failAt = 0
			if chance(t, "fail", 20) {
				rec.failAt = rec.calls + num(t, "call", 1, 3)
			}
			ok := true
			err = nil
			p := catch(func() {
				switch st.kind {
				case "add":
					_, err = e.AddRule(clone(st.rules[0]))
				case "remove":
					_, err = e.RemoveRule(clone(st.rules[0]))
				case "add all":
					err = e.AddRules(st.rules)
				case "remove all":
					err = e.RemoveRules(st.rules)
				case "flush":
					err = e.Flush()
				case "autosave":
					err = e.SetOption(fastac.OptionAutosave(st.on))
				}
				ok = err == nil
			})
			ok = ok && p == nil
			if ok != (rec.calls < rec.failAt || rec.failAt == 0) {
				t.Fatalf("%s: %v, panic %v, calls %d, failing call %d\n%s", st, err, p, rec.calls, rec.failAt, c.desc.String())
			}
			c.labelIf(!ok, "with a storage failure")
			if st.kind == "flush" && ok && !sameRules(rec.rules, allRules(e.GetModel())) {
				t.Fatalf("the storage holds %q, the model %q\n%s", rec.rules, allRules(e.GetModel()), c.desc.String())
			}
		}
		rec.failAt = 0
		must(t, e.Flush())
		if !sameRules(rec.rules, allRules(e.GetModel())) {
			t.Fatalf("the storage holds %q, the model %q\n%s", rec.rules, allRules(e.GetModel()), c.desc.String())
		}
		c.nt(c.labels["with a storage failure"] && len(rec.ops) > 2)
	})
}

// without an adapter there is nothing to store, every operation succeeds
func TestC11_NoAdapter(t *testing.T) {
	check(t, 500, "random histories with an enforcer which has no adapter, and gets one later or not; every operation succeeds, the model holds the right rules, the later adapter receives just the later changes; non-trivial: there was a change before and after setting the adapter", func(t *rapid.T, c *Case) {
		autosave := chance(t, "autosave", 40)
		e, err := fastac.NewEnforcer(newStorageModel(t), nil, fastac.OptionAutosave(autosave))
		must(t, err)
		rec := &recorder{}
		want := [][]string{}
		early, late := 0, 0
		expect := []op{}
		set := false
		change := func(add bool, r []string) {
			if contains(want, r) == add {
				return
			}
			want = without(want, r)
			if add {
				want = append(want, r)
			}
			if set {
				late++
				expect = append(expect, op{add, r})
			} else {
				early++
			}
		}
		for _, st := range genSteps(t, 16) {
			if set && (st.kind == "storage" || st.kind == "load" || st.kind == "save") {
				continue // see TestC11_Storage
			}
			err = nil
			c.logf("%s", st)
			switch st.kind {
			case "add", "add all":
				for _, r := range st.rules {
					change(true, r)
				}
				if err = e.AddRules(st.rules); st.kind == "add" {
					_, err = e.AddRule(st.rules[0])
				}
			case "remove", "remove all":
				for _, r := range st.rules {
					change(false, r)
				}
				if err = e.RemoveRules(st.rules); st.kind == "remove" {
					_, err = e.RemoveRule(st.rules[0])
				}
			case "flush":
				err = e.Flush()
			case "load":
				err = e.LoadPolicy()
			case "save":
				err = e.SavePolicy()
			case "autosave":
				autosave = st.on
				err = e.SetOption(fastac.OptionAutosave(st.on))
			case "storage":
				err = e.SetOption(fastac.OptionStorage(st.on))
			case "query":
				_, err = e.Filter("a", "b")
			case "set adapter":
				if set {
					continue
				}
				set = true
				if chance(t, "batch", 50) {
					e.SetAdapter(batchRecorder{rec})
				} else {
					e.SetAdapter(simpleRecorder{rec})
				}
			}
			if err != nil {
				t.Fatalf("%s: %v\n%s", st, err, c.desc.String())
			}
			if e.GetStorageController().AutosaveEnabled() != autosave {
				t.Fatalf("%s changed autosave\n%s", st, c.desc.String())
			}
			if got := allRules(e.GetModel()); !sameRules(got, want) {
				t.Fatalf("%s: the model holds %q, want %q\n%s", st, got, want, c.desc.String())
			}
		}
		must(t, e.Flush())
		if fmt.Sprint(rec.ops) != fmt.Sprint(expect) {
			t.Fatalf("the storage received %v, want %v\n%s", rec.ops, expect, c.desc.String())
		}
		c.nt(early > 0 && late > 0)
	})
}

// lightRecorder stores nothing but the operations
type lightRecorder struct {
	ops           []string
	calls, failAt int
}

func (r *lightRecorder) LoadPolicy(api.IAddRuleBool) error { return nil }
func (r *lightRecorder) SavePolicy(api.IRangeRules) error  { return nil }
func (r *lightRecorder) record(add bool, rules ...[]string) error {
	if r.calls++; r.calls == r.failAt {
		return errStorage
	}
	for _, x := range rules {
		r.ops = append(r.ops, op{add, x}.String())
	}
	return nil
}

type lightSimple struct{ *lightRecorder }

func (r lightSimple) AddRule(rule []string) error    { return r.record(true, rule) }
func (r lightSimple) RemoveRule(rule []string) error { return r.record(false, rule) }

type lightBatch struct{ *lightRecorder }

func (r lightBatch) AddRules(rules [][]string) error    { return r.record(true, rules...) }
func (r lightBatch) RemoveRules(rules [][]string) error { return r.record(false, rules...) }

// many operations at once
func TestC11_Huge(t *testing.T) {
	checkAtMost(t, 1, 6, "70000 to 140000 changes before the first flush, which may fail in the middle; the storage received all of them in order; non-trivial: all", func(t *rapid.T, c *Case) {
		rec := &lightRecorder{}
		var a storage.Adapter = lightSimple{rec}
		if chance(t, "batch", 50) {
			a = lightBatch{rec}
		}
		m := newStorageModel(t)
		e, err := fastac.NewEnforcer(m, a)
		must(t, err)
		n := num(t, "rules", 70000, 100000)
		want := []string{}
		for i := 0; i < n; i++ {
			r := []string{"p", fmt.Sprint("user", i), "obj"}
			ok, err := e.AddRule(r)
			if !ok || err != nil {
				t.Fatalf("AddRule(%q) = %v, %v", r, ok, err)
			}
			want = append(want, op{true, r}.String())
			if i%5 == 4 {
				r := []string{"p", fmt.Sprint("user", i-3), "obj"}
				ok, err := e.RemoveRule(r)
				if !ok || err != nil {
					t.Fatalf("RemoveRule(%q) = %v, %v", r, ok, err)
				}
				want = append(want, op{false, r}.String())
			}
		}
		if len(rec.ops) != 0 {
			t.Fatalf("%d operations were sent before the flush", len(rec.ops))
		}
		if chance(t, "fail", 60) {
			rec.failAt = num(t, "fail at", 1, n/10)
			if err := e.Flush(); err == nil {
				t.Fatal("Flush reports no error")
			}
			rec.failAt = 0
		}
		must(t, e.Flush())
		if len(rec.ops) != len(want) {
			t.Fatalf("the storage received %d operations of %d", len(rec.ops), len(want))
		}
		for i, o := range rec.ops {
			if o != want[i] {
				t.Fatalf("operation %d is %v, want %v", i, o, want[i])
			}
		}
		c.nt(true)
	})
}

func TestC11_Large(t *testing.T) {
	checkAtMost(t, 30, 100, "50 to 2100 random changes, flushed at the end or every now and then, some flushes fail; the storage received every effective change once, in order; non-trivial: more than 100 operations were pending at once", func(t *rapid.T, c *Case) {
		h := newLargeHistory(t, c)
		pending, most := 0, 0
		every := big(t, "flush every", 10, 1500)
		h.changed = func(op, string) {
			if pending++; pending > most {
				most = pending
			}
			if pending >= every {
				h.rec.failAt = 0
				if h.rnd.Intn(3) == 0 {
					h.rec.failAt = h.rec.calls + 1 + h.rnd.Intn(pending)
				}
				if h.e.Flush() == nil {
					pending = 0
				}
			}
		}
		h.random()
		h.rec.failAt = 0
		must(t, h.e.Flush())
		if fmt.Sprint(h.rec.ops) != fmt.Sprint(h.ops) {
			t.Fatalf("the storage received %v\nwant %v\n%s", h.rec.ops, h.ops, c.desc.String())
		}
		c.nt(most > 100)
		// loaded into another model
		m := model.NewModel()
		must(t, m.LoadModelFromText(largeModel))
		must(t, h.rec.LoadPolicy(m))
		if got := allRules(m); !sameRules(got, h.all()) {
			t.Fatalf("loaded %q, want %q\n%s", got, h.all(), c.desc.String())
		}
		calls := len(h.rec.ops)
		must(t, h.e.Flush())
		if len(h.rec.ops) != calls {
			t.Fatalf("another flush sent %v\n%s", h.rec.ops[calls:], c.desc.String())
		}
	})
}

// an enforcer which was created with the name of a policy file
func TestC11_File(t *testing.T) {
	check(t, 300, "an enforcer created with a policy file, which other programs change as well: loading is never written back (a flush without changes leaves the file as it is), each change is applied to the file exactly once; non-trivial: the file was changed from outside before a flush", func(t *rapid.T, c *Case) {
		path, cleanup := scratch(t)
		defer cleanup()
		gen := func() []string {
			return []string{pick(t, "key", "p", "p2", "g"), pick(t, "value", "a", "b", "c"), pick(t, "value", "a", "b", "")}
		}
		outside := func() {
			rs := adapter.NewRuleSet()
			for i := num(t, "rules outside", 0, 4); i > 0; i-- {
				_, err := rs.AddRule(gen())
				must(t, err)
			}
			must(t, adapter.NewFileAdapter(path).SavePolicy(rs))
			c.logf("the file is replaced by %q", rs.Rules())
		}
		stored := func() [][]string {
			rs := adapter.NewRuleSet()
			must(t, adapter.NewFileAdapter(path).LoadPolicy(rs))
			return rs.Rules()
		}
		outside()
		opts := []fastac.Option{}
		if chance(t, "option", 50) {
			opts = append(opts, fastac.OptionAutosave(chance(t, "autosave", 50)))
		}
		if chance(t, "storage option", 20) {
			opts = append(opts, fastac.OptionStorage(true))
		}
		e, err := fastac.NewEnforcer(newStorageModel(t), path, opts...)
		must(t, err)
		want := stored() // rules of the model
		file := append([][]string{}, want...)
		pending := []op{}
		flushed := func() {
			for _, o := range pending {
				file = without(file, o.rule)
				if o.add {
					file = append(file, o.rule)
				}
			}
			pending = nil
		}
		for i := num(t, "steps", 1, 8); i > 0; i-- {
			switch num(t, "step", 0, 5) {
			case 0, 1:
				outside()
				file = stored()
				before, err := os.ReadFile(path)
				must(t, err)
				n := len(pending)
				must(t, e.Flush())
				after, err := os.ReadFile(path)
				must(t, err)
				if n == 0 && !bytes.Equal(before, after) {
					t.Fatalf("a flush without changes wrote %q, before it was %q\n%s", after, before, c.desc.String())
				}
				flushed()
				c.nt(len(file) > 0)
			case 2:
				r := gen()
				c.logf("add %q", r)
				added, err := e.AddRule(clone(r))
				if err != nil || added == contains(want, r) {
					t.Fatalf("AddRule(%q) = %v, %v\n%s", r, added, err, c.desc.String())
				}
				if added {
					want = append(want, r)
					pending = append(pending, op{true, r})
				}
			case 3:
				r := gen()
				if len(want) > 0 && chance(t, "present", 60) {
					r = want[num(t, "i", 0, len(want)-1)]
				}
				c.logf("remove %q", r)
				removed, err := e.RemoveRule(clone(r))
				if err != nil || removed != contains(want, r) {
					t.Fatalf("RemoveRule(%q) = %v, %v\n%s", r, removed, err, c.desc.String())
				}
				if removed {
					want = without(want, r)
					pending = append(pending, op{false, r})
				}
			case 4:
				c.logf("load")
				must(t, e.LoadPolicy())
				for _, r := range file {
					want = append(without(want, r), r)
				}
			case 5:
				c.logf("flush")
				must(t, e.Flush())
				flushed()
			}
			if e.GetStorageController().AutosaveEnabled() {
				flushed()
			}
			if got := allRules(e.GetModel()); !sameRules(got, want) {
				t.Fatalf("the model holds %q, want %q\n%s", got, want, c.desc.String())
			}
			if got := stored(); !sameRules(got, file) {
				t.Fatalf("the file holds %q, want %q\n%s", got, file, c.desc.String())
			}
		}
	})
}
