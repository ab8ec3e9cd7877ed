package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/types"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/storage/adapter"
	"github.com/abichinger/fastac/util"
)

var _ = fmt.Sprint
var _ = os.Getenv
var _ = reflect.DeepEqual
var _ api.IAddRule
var _ = filepath.Join

func must(t interface {
	Helper()
	Fatal(...interface{})
}, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

type L = []string

func enforceIs(t *testing.T, e *fastac.Enforcer, want bool, req ...interface{}) {
	t.Helper()
	for i := 0; i < 12; i++ {
		got, err := e.Enforce(req...)
		if err != nil {
			t.Fatalf("Enforce(%v): error %v", req, err)
		}
		if got != want {
			t.Fatalf("Enforce(%v) = %v, want %v", req, got, want)
		}
	}
}

func filterIs(t *testing.T, e *fastac.Enforcer, want []string, req ...interface{}) {
	t.Helper()
	rules, err := e.Filter(req...)
	if err != nil {
		t.Fatalf("Filter(%v): error %v", req, err)
	}
	got := []string{}
	for _, r := range rules {
		got = append(got, strings.Join(r, "|"))
	}
	sort.Strings(got)
	sort.Strings(want)
	if !reflect.DeepEqual(got, want) {
		t.Fatalf("Filter(%v) = %q, want %q", req, got, want)
	}
}

func enf(t *testing.T, text string, rules ...[]string) *fastac.Enforcer {
	t.Helper()
	e, err := mkEnf(text, rules...)
	must(t, err)
	return e
}

// (a||b) && (c && d): both branches need c and d
func TestReg_C01_AndAlias(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "", effSome,
		`(r.sub == p.sub || r.sub == "root") && (r.obj == p.obj && r.act == p.act)`),
		L{"p", "alice", "data1", "read"})
	enforceIs(t, e, true, "alice", "data1", "read")
	enforceIs(t, e, true, "root", "data1", "read")
	enforceIs(t, e, false, "alice", "data9", "read")
	enforceIs(t, e, false, "root", "data9", "read")
}

func TestReg_C01_ThreeWayOr(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "", effSome,
		`r.sub == p.sub || r.obj == p.obj || r.act == p.act`),
		L{"p", "alice", "data1", "read"})
	enforceIs(t, e, true, "x", "y", "read")
	enforceIs(t, e, false, "x", "y", "z")
}

func TestReg_C03_RemovedRuleStillMatches(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "", effSome,
		`r.sub == p.sub && r.act != "delete"`),
		L{"p", "alice", "data1", "read"}, L{"p", "bob", "data1", "read"})
	enforceIs(t, e, true, "alice", "d", "read")
	_, err := e.RemoveRule(L{"p", "alice", "data1", "read"})
	must(t, err)
	filterIs(t, e, []string{}, "alice", "d", "read")
	enforceIs(t, e, false, "alice", "d", "read")
}

func TestReg_C13_NestedErrorSwallowed(t *testing.T) {
	m := model.NewModel()
	m.SetFunction("fails", func(args ...interface{}) (interface{}, error) { return nil, fmt.Errorf("boom") })
	must(t, m.LoadModelFromText(mdl("sub, obj, act", "sub, obj, act, eft", "", effND, `r.sub == p.sub && fails(r.obj, p.obj) && r.act == p.act`)))
	e, err := fastac.NewEnforcer(m, nil)
	must(t, err)
	_, _ = e.AddRule(L{"p", "alice", "data1", "read", "deny"})
	got, err := e.Enforce("alice", "data1", "read")
	if err == nil || got {
		t.Fatalf("Enforce = %v, %v: want an error and no permission", got, err)
	}
}

func TestReg_C22_EvalGrouping(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "rule, obj, act", "", effSome,
		`eval(p.rule) && r.obj == p.obj && r.act == p.act`),
		L{"p", `r.act == p.act && p.obj == "data1"`, "data1", "read"},
		L{"p", `r.act == p.act && p.obj == "data1"`, "data2", "read"})
	enforceIs(t, e, true, "x", "data1", "read")
	enforceIs(t, e, false, "x", "data2", "read")
}

func TestReg_C02_FilterDup(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "", effSome,
		`r.sub == p.sub || r.obj == p.obj`),
		L{"p", "alice", "data1", "read"})
	filterIs(t, e, []string{"p|alice|data1|read"}, "alice", "data1", "x")
}

func TestReg_C02_FilterEmpty(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "", effSome,
		`r.sub == p.sub && r.obj == p.obj || r.sub == "root"`))
	filterIs(t, e, []string{}, "root", "data1", "x")
	filterIs(t, e, []string{}, fastac.SetMatcher(`p.sub != "x"`))
	enforceIs(t, e, true, "root", "data1", "x")
}

func TestReg_C01_StringLiteralDots(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "", effSome,
		`r.sub == "user.name" && r.obj == p.obj`),
		L{"p", "alice", "data1", "read"})
	enforceIs(t, e, true, "user.name", "data1", "x")
	enforceIs(t, e, false, "user_name", "data1", "x")
	e = enf(t, mdl("sub, obj, act", "sub, obj, act", "", effSome,
		`r.sub != "grp_admin" && r.obj == p.obj`),
		L{"p", "alice", "data1", "read"}, L{"p", "alice", "data2", "read"}, L{"p", "alice", "data3", "read"})
	enforceIs(t, e, true, "x", "data1", "x")
	enforceIs(t, e, true, "x", "data2", "x")
	enforceIs(t, e, true, "x", "data3", "x")
	e = enf(t, mdl("sub, obj, act", "sub, obj, act", "", effSome,
		`(r.sub != "grp_admin" || r.sub == p.sub) && r.obj == p.obj`),
		L{"p", "alice", "data1", "read"}, L{"p", "alice", "data2", "read"}, L{"p", "alice", "data3", "read"})
	enforceIs(t, e, true, "x", "data1", "x")
	enforceIs(t, e, true, "x", "data2", "x")
	enforceIs(t, e, true, "x", "data3", "x")
	filterIs(t, e, []string{"p|alice|data1|read"}, "alice", "data1", "x")
}

type owner struct{ Name string }
type subj struct {
	Owner owner
	Age   int
}

func TestReg_C01_NestedAccessor(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "", effSome,
		`r.sub.Owner.Name == p.sub`), L{"p", "alice", "data1", "read"})
	enforceIs(t, e, true, subj{owner{"alice"}, 3}, "data1", "x")
	enforceIs(t, e, false, subj{owner{"bob"}, 3}, "data1", "x")
}

func TestReg_C01_Reprint(t *testing.T) {
	for _, c := range []struct {
		m    string
		req  []interface{}
		want bool
	}{
		{`r.sub == "it\'s" && r.obj == p.obj`, []interface{}{"it's", "data1", "x"}, true},
		{`r.sub == "a\\b" && r.obj == p.obj`, []interface{}{`a\b`, "data1", "x"}, true},
		{`r.sub == 'say \"hi\"' && r.obj == p.obj`, []interface{}{`say "hi"`, "data1", "x"}, true},
		{`r.sub =~ '^al.*$' && r.obj == p.obj`, []interface{}{`alice`, "data1", "x"}, true},
		{`r.sub !~ '^al.*$' && r.obj == p.obj`, []interface{}{`alice`, "data1", "x"}, false},
		{`r.sub > 12345678 && r.obj == p.obj`, []interface{}{12345679.0, "data1", "x"}, true},
		{`r.sub > 12345678 && r.obj == p.obj`, []interface{}{12345677.0, "data1", "x"}, false},
		{`r.sub == '2014-01-02' && r.obj == p.obj`, []interface{}{float64(1388620800), "data1", "x"}, true},
		{`r.sub in ('a', 'b') && r.obj == p.obj`, []interface{}{"b", "data1", "x"}, true},
		{`!(r.sub == 'a' || r.sub == "b") && r.obj == p.obj`, []interface{}{"b", "data1", "x"}, false},
		{`!(r.sub == 'a' && r.sub == "b") && r.obj == p.obj`, []interface{}{"b", "data1", "x"}, true},
		{`(r.sub == 'a' && r.act == "x" ? r.obj == p.obj : r.obj == "no")`, []interface{}{"a", "data1", "x"}, true},
		{`r.sub == 'a' && r.act == "x" ? r.obj == p.obj : r.obj == "no"`, []interface{}{"b", "data1", "x"}, false},
		{`r.sub == 'a' && r.act == "x" ? r.obj == p.obj : r.obj == "no"`, []interface{}{"b", "no", "x"}, true},
		{`r.sub + 1 == 3 && -r.sub == -2 && r.obj == p.obj`, []interface{}{2.0, "data1", "x"}, true},
		{`(r.sub + 1) * 2 == 6 && r.obj == p.obj`, []interface{}{2.0, "data1", "x"}, true},
	} {
		e, err := mkEnf(mdl("sub, obj, act", "sub, obj, act", "", effSome, "`"+c.m+"`"), L{"p", "alice", "data1", "read"})
		if err != nil {
			t.Errorf("%s: build: %v", c.m, err)
			continue
		}
		got, err := e.Enforce(c.req...)
		if err != nil || got != c.want {
			t.Errorf("%s %v: got %v, %v want %v", c.m, c.req, got, err, c.want)
		}
	}
}

func TestReg_C04_HashCollision(t *testing.T) {
	e := enf(t, mdl("sub, obj", "sub, obj", "", effSome, `r.sub == p.sub && r.obj == p.obj`), L{"p", "a,b", "c"})
	added, err := e.AddRule(L{"p", "a", "b,c"})
	must(t, err)
	if !added {
		t.Fatal("distinct rule reported as present")
	}
	enforceIs(t, e, true, "a,b", "c")
	enforceIs(t, e, true, "a", "b,c")
}

func TestReg_C12_UnsupportedEffect(t *testing.T) {
	for _, rules := range [][][]string{nil, {{"p", "alice", "data1", "read"}}} {
		e := enf(t, mdl("sub, obj, act", "sub, obj, act", "", "some(where (p.eft == maybe))", `r.sub == p.sub && r.obj == p.obj && r.act == p.act`), rules...)
		got, err := e.Enforce("alice", "data1", "read")
		if got || err == nil {
			t.Fatalf("got %v, %v; want an error", got, err)
		}
		got, err = e.Enforce("bob", "data1", "read")
		if got || err == nil {
			t.Fatalf("got %v, %v; want an error", got, err)
		}
	}
}

func TestReg_C12_IndeterminateOrder(t *testing.T) {
	ef := effector.NewEffector(defs.NewEffectDef("e", effSND))
	got, _, err := ef.MergeEffects([]types.Effect{eft.Indeterminate, eft.Allow}, [][]string{{"p", "1"}, {"p", "2"}}, true)
	if err != nil || got != eft.Allow {
		t.Fatalf("got %v %v", got, err)
	}
	got, _, err = ef.MergeEffects([]types.Effect{eft.Indeterminate}, [][]string{{"p", "1"}}, true)
	if err != nil || got == eft.Allow {
		t.Fatalf("got %v %v", got, err)
	}
}

func TestReg_C13_MissingDefs(t *testing.T) {
	text := "[request_definition]\nr = sub, obj, act\n[policy_definition]\np = sub, obj, act\n[policy_effect]\ne = " + effSome + "\n"
	e := enf(t, text)
	if ok, err := e.Enforce("a", "b", "c"); ok || err == nil {
		t.Fatalf("missing matcher: %v %v", ok, err)
	}
	text = "[policy_definition]\np = sub, obj, act\n[policy_effect]\ne = " + effSome + "\n[matchers]\nm = r.sub == p.sub\n"
	e = enf(t, text)
	if ok, err := e.Enforce("a", "b", "c"); ok || err == nil {
		t.Fatalf("missing request def: %v %v", ok, err)
	}
	if _, ok := e.GetModel().GetRequestDef("r"); ok {
		t.Fatal("r found")
	}
	text = "[request_definition]\nr = sub, obj, act\n[policy_definition]\np = sub, obj, act\n[matchers]\nm = r.sub == p.sub\n"
	e = enf(t, text)
	if ok, err := e.Enforce("a", "b", "c"); ok || err == nil {
		t.Fatalf("missing effect: %v %v", ok, err)
	}
	if _, ok := e.GetModel().GetRoleManager("g"); ok {
		t.Fatal("g found")
	}
	if ok, err := e.Enforce(fastac.SetRequestDef("r7"), "a", "b", "c"); ok || err == nil {
		t.Fatalf("unknown r7: %v %v", ok, err)
	}
	if ok, err := e.Enforce(fastac.SetMatcher("m7"), "a", "b", "c"); ok || err == nil {
		t.Fatalf("unknown m7: %v %v", ok, err)
	}
}

func TestReg_C04_RangeRulesStop(t *testing.T) {
	m := model.NewModel()
	must(t, m.LoadModelFromText("[request_definition]\nr = sub, obj, act\n[policy_definition]\np = sub, obj, act\np2 = sub, act\n[role_definition]\ng = _, _\ng2 = _, _, _\n[policy_effect]\ne = "+effSome+"\n[matchers]\nm = r.sub == p.sub\n"))
	for _, r := range [][]string{{"p", "a", "b", "c"}, {"p2", "a", "b"}, {"g", "a", "b"}, {"g", "b", "c"}, {"g2", "a", "b", "d1"}, {"g2", "a", "b", "d2"}, {"g2", "a", "c", "d2"}} {
		_, err := m.AddRule(r)
		must(t, err)
	}
	n := 0
	m.RangeRules(func(rule []string) bool { n++; return false })
	if n != 1 {
		t.Fatalf("callback ran %d times after asking to stop", n)
	}
	rm, _ := m.GetRoleManager("g2")
	n = 0
	rm.Range(func(a, b string, d ...string) bool { n++; return false })
	if n != 1 {
		t.Fatalf("rm callback ran %d times after asking to stop", n)
	}
}

func TestReg_C11_StringAdapter(t *testing.T) {
	dir := t.TempDir()
	mf, pf := filepath.Join(dir, "m.conf"), filepath.Join(dir, "p.csv")
	must(t, os.WriteFile(mf, []byte(mdl("sub, obj, act", "sub, obj, act", "", effSome, "r.sub == p.sub")), 0o600))
	must(t, os.WriteFile(pf, []byte("p, alice, data1, read\n"), 0o600))
	e, err := fastac.NewEnforcer(mf, pf)
	must(t, err)
	_, err = e.AddRule(L{"p", "bob", "data1", "read"})
	must(t, err)
	must(t, e.Flush())
	b, _ := os.ReadFile(pf)
	if !strings.Contains(string(b), "bob") || !strings.Contains(string(b), "alice") {
		t.Fatalf("not flushed: %q", b)
	}
	must(t, e.SavePolicy())
	must(t, e.LoadPolicy())
}

type memAdapter struct {
	ops []string
}

func (a *memAdapter) LoadPolicy(m api.IAddRuleBool) error { return nil }
func (a *memAdapter) SavePolicy(m api.IRangeRules) error  { return nil }
func (a *memAdapter) AddRule(r []string) error {
	a.ops = append(a.ops, "+"+strings.Join(r, ","))
	return nil
}
func (a *memAdapter) RemoveRule(r []string) error {
	a.ops = append(a.ops, "-"+strings.Join(r, ","))
	return nil
}

func TestReg_C11_SetModelRewires(t *testing.T) {
	text := mdl("sub, obj, act", "sub, obj, act", "", effSome, "r.sub == p.sub")
	m1, m2 := model.NewModel(), model.NewModel()
	must(t, m1.LoadModelFromText(text))
	must(t, m2.LoadModelFromText(text))
	ad := &memAdapter{}
	e, err := fastac.NewEnforcer(m1, ad, fastac.OptionAutosave(true))
	must(t, err)
	e.SetModel(m2)
	_, err = e.AddRule(L{"p", "a", "b", "c"})
	must(t, err)
	if len(ad.ops) != 1 {
		t.Fatalf("rule added after SetModel not stored: %v", ad.ops)
	}
	_, _ = m1.AddRule(L{"p", "x", "b", "c"})
	if len(ad.ops) != 1 {
		t.Fatalf("old model still wired: %v", ad.ops)
	}
}

func TestReg_C03_ClearGEvent(t *testing.T) {
	m := model.NewModel()
	must(t, m.LoadModelFromText("[request_definition]\nr = sub\n[policy_definition]\np = sub, obj\n[role_definition]\ng = _, _\n[policy_effect]\ne = "+effSome+"\n[matchers]\nm = r.sub == p.sub\nm2 = g.user == r.sub\n"))
	e, err := fastac.NewEnforcer(m, nil)
	must(t, err)
	_, _ = e.AddRule(L{"g", "alice", "admin"})
	filterIs(t, e, []string{"g|alice|admin"}, fastac.SetMatcher("m2"), "alice")
	must(t, m.ClearPolicy("g"))
	filterIs(t, e, []string{}, fastac.SetMatcher("m2"), "alice")
}

func noPanic(t *testing.T, name string, f func() error) {
	t.Helper()
	defer func() {
		t.Helper()
		if r := recover(); r != nil {
			t.Errorf("%s: panic %v", name, r)
		}
	}()
	if err := f(); err == nil {
		t.Errorf("%s: no error", name)
	}
}

func TestReg_C04_BadRules(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "g = _, _", effSome, "r.sub == p.sub"))
	noPanic(t, "empty rule", func() error { _, err := e.AddRule(nil); return err })
	noPanic(t, "empty key", func() error { _, err := e.AddRule(L{"", "a"}); return err })
	noPanic(t, "short g", func() error { _, err := e.AddRule(L{"g", "a"}); return err })
	noPanic(t, "rm empty rule", func() error { _, err := e.RemoveRule(nil); return err })
	noPanic(t, "rm empty key", func() error { _, err := e.RemoveRule(L{"", "a"}); return err })
	noPanic(t, "rm short g", func() error { _, err := e.RemoveRule(L{"g", "a"}); return err })
	m := model.NewModel()
	noPanic(t, "empty def key", func() error { return m.SetDef('p', "", "sub") })
}

func TestReg_C24_WhitespaceLine(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "g = _, _", effSome, "r.sub == p.sub"))
	must(t, adapter.LoadPolicyLine("   ", e.GetModel()))
}

func TestReg_C13_EnforcePanics(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "g = _, _", effSome, "g(r.sub, p.sub) && regexMatch(r.obj, p.obj) && ipMatch(r.act, p.act)"), L{"p", "alice", "(", "zz"}, L{"p", "alice", "b", "zz"})
	noPanic(t, "regex", func() error { _, err := e.Enforce("alice", "x", "1.1.1.1"); return err })
	noPanic(t, "ip", func() error { _, err := e.Enforce("alice", "b", "1.1.1.1"); return err })
	noPanic(t, "g type", func() error { _, err := e.Enforce(7, "b", "1.1.1.1"); return err })
	noPanic(t, "nargs", func() error { _, err := e.Enforce("alice"); return err })
	noPanic(t, "g matcher", func() error {
		_, err := e.Enforce(fastac.SetMatcher("g.user == r.sub && r.obj > 3"), "alice", "b", "c")
		return err
	})
}

func TestReg_C13_GMatcherEnforce(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "sub, obj, act", "g = _, _", effSome, "r.sub == p.sub"), L{"g", "alice", "b"})
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic %v", r)
		}
	}()
	_, _ = e.Enforce(fastac.SetMatcher("g.user == r.sub"), "alice", "b", "c")
}

func TestReg_C12_ArityPEft(t *testing.T) {
	// a rule without the trailing eft column is an allow rule
	e := enf(t, mdl("sub, act", "sub, act, eft", "", effSome, "r.sub == p.sub && r.act == p.act"), L{"p", "alice", "deny"})
	enforceIs(t, e, true, "alice", "deny")
}

// ---- rbac

func hasLink(t *testing.T, rm rbac.IRoleManager, want bool, a, b string, d ...string) {
	t.Helper()
	got, err := rm.HasLink(a, b, d...)
	must(t, err)
	if got != want {
		t.Errorf("HasLink(%s,%s,%v) = %v want %v", a, b, d, got, want)
	}
}

func links(rm rbac.IRoleManager) []string {
	res := []string{}
	rm.Range(func(a, b string, d ...string) bool {
		res = append(res, strings.Join(append([]string{a, b}, d...), "|"))
		return true
	})
	sort.Strings(res)
	return res
}

func linksAre(t *testing.T, rm rbac.IRoleManager, want ...string) {
	t.Helper()
	sort.Strings(want)
	got := links(rm)
	if len(got) == 0 && len(want) == 0 {
		return
	}
	if !reflect.DeepEqual(got, want) {
		t.Errorf("links %q want %q", got, want)
	}
}

func TestReg_C08_RedundantOverlap(t *testing.T) {
	dm := rbac.NewDomainManager(10)
	dm.SetDomainMatcher(util.PathMatcher)
	_, _ = dm.AddLink("alice", "admin", "d1")
	_, _ = dm.AddLink("alice", "admin", "*")
	linksAre(t, dm, "alice|admin|d1", "alice|admin|*")
	_, _ = dm.DeleteLink("alice", "admin", "*")
	hasLink(t, dm, true, "alice", "admin", "d1")
	hasLink(t, dm, false, "alice", "admin", "d2")
	linksAre(t, dm, "alice|admin|d1")

	dm = rbac.NewDomainManager(10)
	dm.SetDomainMatcher(util.PathMatcher)
	_, _ = dm.AddLink("x", "y", "d1") // create the domain
	_, _ = dm.AddLink("alice", "admin", "*")
	added, _ := dm.AddLink("alice", "admin", "d1")
	if !added {
		t.Error("explicit link over a pattern link: not reported as added")
	}
	linksAre(t, dm, "x|y|d1", "alice|admin|d1", "alice|admin|*")
	removed, _ := dm.DeleteLink("alice", "admin", "d1")
	if !removed {
		t.Error("explicit link not removed")
	}
	hasLink(t, dm, true, "alice", "admin", "d1")
	removed, _ = dm.DeleteLink("alice", "admin", "d1")
	if removed {
		t.Error("removed twice")
	}
	hasLink(t, dm, true, "alice", "admin", "d1")
	_, _ = dm.AddLink("alice", "admin", ":any")
	_, _ = dm.DeleteLink("alice", "admin", "*")
	hasLink(t, dm, true, "alice", "admin", "d1")
	removed, _ = dm.DeleteLink("alice", "admin", "*")
	if removed {
		t.Error("removed twice")
	}
	hasLink(t, dm, true, "alice", "admin", "d1")
	_, _ = dm.DeleteLink("alice", "admin", ":any")
	hasLink(t, dm, false, "alice", "admin", "d1")
	linksAre(t, dm, "x|y|d1")
}

func TestReg_C08_PatternDomainQuery(t *testing.T) {
	dm := rbac.NewDomainManager(10)
	dm.SetDomainMatcher(util.PathMatcher)
	_, _ = dm.HasLink("alice", "admin", "*")
	_, _ = dm.AddLink("alice", "admin", "d1")
	hasLink(t, dm, true, "alice", "admin", "d1")
	_, _ = dm.GetRoles("alice", "*")
	hasLink(t, dm, false, "alice", "admin", "d2")
}

func TestReg_C08_SetMatcherAfter(t *testing.T) {
	dm := rbac.NewDomainManager(10)
	dm.SetDomainMatcher(util.PathMatcher)
	_, _ = dm.AddLink("bob", "admin", "d1")
	_, _ = dm.AddLink("alice", "admin", "*")
	hasLink(t, dm, true, "alice", "admin", "d1")
	dm.SetMatcher(util.PathMatcher)
	hasLink(t, dm, true, "alice", "admin", "d1")
	linksAre(t, dm, "bob|admin|d1", "alice|admin|*")
}

func TestReg_C08_NestedPatternDomains(t *testing.T) {
	dm := rbac.NewDomainManager(10)
	dm.SetDomainMatcher(util.PathMatcher)
	_, _ = dm.AddLink("alice", "admin", "*", "sub")
	hasLink(t, dm, true, "alice", "admin", "d1", "sub")
	_, _ = dm.AddLink("x", "y", "d1")
	hasLink(t, dm, true, "alice", "admin", "d1", "sub")
	_, _ = dm.AddLink("alice", "root", "*", "*")
	hasLink(t, dm, true, "alice", "root", "d1", "sub2")
	_, _ = dm.AddLink("x", "y", "d1", "sub2")
	hasLink(t, dm, true, "alice", "root", "d1", "sub2")
	_, _ = dm.AddLink("bob", "root", "*")
	hasLink(t, dm, true, "bob", "root", "d1")
	hasLink(t, dm, false, "bob", "root", "d1", "sub2")
}

func TestReg_C07_PatternOrder(t *testing.T) {
	m := util.RegexMatcher
	perm := [][2]string{{"a", "p'^d"}, {"p'.*", "top"}}
	for i := 0; i < 2; i++ {
		rm := rbac.NewRoleManager(10)
		rm.SetMatcher(m)
		for j := 0; j < 2; j++ {
			l := perm[(i+j)%2]
			_, _ = rm.AddLink(l[0], l[1])
		}
		hasLink(t, rm, true, "a", "top")
		r, _ := rm.GetRoles("a")
		sort.Strings(r)
		t.Log(i, r)
	}
}

func TestReg_C07_OrphanNames(t *testing.T) {
	m := util.PathMatcher
	rm := rbac.NewRoleManager(10)
	rm.SetMatcher(m)
	_, _ = rm.AddLink("u", "/x/:id")
	_, _ = rm.AddLink("/x/1", "z")
	_, _ = rm.DeleteLink("/x/1", "z")
	_, _ = rm.DeleteLink("/x/7", "z")
	r, _ := rm.GetRoles("u")
	if len(r) != 1 {
		t.Errorf("GetRoles after delete: %v", r)
	}
}

func TestReg_C07_CacheKey(t *testing.T) {
	rm := rbac.NewRoleManager(10)
	rm.SetMatcher(util.NewMatcher(func(s string) bool { return strings.Contains(s, "*") }, func(s, p string) bool {
		return strings.Contains(p, "*") && strings.HasPrefix(s, strings.TrimSuffix(p, "*"))
	}))
	hasLink(t, rm, false, "a", "b$$*")
	hasLink(t, rm, false, "a$$b", "*x")
	a, _ := rm.HasLink("a$$b", "*")
	b, _ := rm.HasLink("a", "b$$*")
	if !a || b {
		t.Error(a, b)
	}
}

func TestReg_C06_DefaultDomain(t *testing.T) {
	dm := rbac.NewDomainManager(10)
	dm.SetDomainMatcher(util.PathMatcher)
	_, _ = dm.AddLink("alice", "admin")
	_, _ = dm.AddLink("bob", "admin", "*")
	hasLink(t, dm, false, "bob", "admin")
	hasLink(t, dm, true, "alice", "admin")
	linksAre(t, dm, "alice|admin", "bob|admin|*")
	dm = rbac.NewDomainManager(10)
	_, _ = dm.AddLink("alice", "admin")
	_, _ = dm.AddLink("bob", "admin", "RoleManager")
	hasLink(t, dm, false, "bob", "admin")
	hasLink(t, dm, true, "bob", "admin", "RoleManager")
	linksAre(t, dm, "alice|admin", "bob|admin|RoleManager")
	_, _ = dm.AddLink("bob", "admin", "redundant_role")
	linksAre(t, dm, "alice|admin", "bob|admin|RoleManager", "bob|admin|redundant_role")
}

// ---- util

func TestReg_C16_LRUPut(t *testing.T) {
	c := util.NewLRUCache(2)
	c.Put("a", 1)
	c.Put("a", 2)
	if v, _ := c.Get("a"); v != 2 {
		t.Fatal(v)
	}
}

func TestReg_C14_PathStar(t *testing.T) {
	for _, c := range []struct {
		p, pat string
		want   bool
	}{
		{"/a/*/b/c", "/a/*/c", true},
		{"*/b/c", "*/c", true},
		{"*/c", "*/c", true},
		{"/a/b", "/*", true},
	} {
		if got := util.PathMatch(c.p, c.pat); got != c.want {
			t.Errorf("PathMatch(%q,%q)=%v", c.p, c.pat, got)
		}
	}
	if !util.PathMatchHelper("a::b::c", "a::*::c", "::", ':', 0) {
		t.Error("multi char sep")
	}
	if !util.PathMatchHelper("a--b--c", "a--:x--c", "--", ':', 0) {
		t.Error("multi char sep 2")
	}
}

// ---- storage

type ruleList struct{ rules [][]string }

func (l *ruleList) RangeRules(fn func(r []string) bool) {
	for _, r := range l.rules {
		if !fn(r) {
			return
		}
	}
}
func (l *ruleList) AddRule(r []string) (bool, error) { l.rules = append(l.rules, r); return true, nil }

func TestReg_C10_FileRoundTrip(t *testing.T) {
	for i, rules := range [][][]string{
		{{"p", "alice", "data1", "read"}},
		{{"p", "a,b", "c"}},
		{{"p", `a"b`, "c"}},
		{{"p", `"ab"`, "c"}},
		{{"p", ` ab `, "c"}},
		{{"p", `#ab `, "#c"}},
		{{"p", `ab`, ""}},
		{{"p", "a\nb", "c"}},
		{{"p", "", ""}},
		{{"p", `r.sub.Age > 18 && r.sub.Name == "x, y"`, ""}},
		{{"p", strings.Repeat("x", 100000), ""}},
		{{"p", "äöü", "\u00a0x"}, {"p2", "\tx", "y\t"}, {"g", "x", "y"}},
	} {
		a := adapter.NewFileAdapter(filepath.Join(t.TempDir(), "p.csv"))
		must(t, a.SavePolicy(&ruleList{rules}))
		got := &ruleList{}
		if err := a.LoadPolicy(got); err != nil {
			t.Errorf("%d: %v", i, err)
			continue
		}
		if !reflect.DeepEqual(got.rules, rules) {
			t.Errorf("%d: %q want %q", i, got.rules, rules)
		}
	}
}

type failAdapter struct {
	memAdapter
	fail map[int]bool
	n    int
}

func (a *failAdapter) AddRule(r []string) error {
	a.n++
	if a.fail[a.n] {
		return fmt.Errorf("fail")
	}
	return a.memAdapter.AddRule(r)
}

type failBatch struct {
	failAdapter
}

func (a *failBatch) AddRules(rs [][]string) error {
	a.n++
	if a.fail[a.n] {
		return fmt.Errorf("fail")
	}
	for _, r := range rs {
		_ = a.memAdapter.AddRule(r)
	}
	return nil
}
func (a *failBatch) RemoveRules(rs [][]string) error {
	a.n++
	if a.fail[a.n] {
		return fmt.Errorf("fail")
	}
	for _, r := range rs {
		_ = a.memAdapter.RemoveRule(r)
	}
	return nil
}

func TestReg_C11_FlushFailure(t *testing.T) {
	text := mdl("sub", "sub", "", effSome, "r.sub == p.sub")
	fa := &failAdapter{fail: map[int]bool{2: true}}
	fb := &failBatch{failAdapter{fail: map[int]bool{2: true}}}
	for i, ad := range []storage.Adapter{fa, fb} {
		m := model.NewModel()
		must(t, m.LoadModelFromText(text))
		e, err := fastac.NewEnforcer(m, ad)
		must(t, err)
		_, _ = e.AddRule(L{"p", "a"})
		_, _ = e.AddRule(L{"p", "b"})
		_, _ = e.RemoveRule(L{"p", "a"})
		_, _ = e.AddRule(L{"p", "c"})
		if err := e.Flush(); err == nil {
			t.Error("no error")
		}
		must(t, e.Flush())
		ops := fa.ops
		if i == 1 {
			ops = fb.ops
		}
		if strings.Join(ops, " ") != "+p,a +p,b -p,a +p,c" {
			t.Error(i, ops)
		}
	}
}

func TestReg_C22_RecursiveEval(t *testing.T) {
	e := enf(t, mdl("sub, obj, act", "rule, obj, act", "", effSome, `eval(p.rule) && r.obj == p.obj && r.act == p.act`),
		L{"p", `eval(p.rule)`, "data1", "read"})
	noPanic(t, "recursive eval", func() error { _, err := e.Enforce("alice", "data1", "read"); return err })
}

func TestReg_C17_SyncLRUGetRace(t *testing.T) {
	c := util.NewSyncLRUCache(4)
	for i := 0; i < 4; i++ {
		c.Put(i, i)
	}
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func(g int) {
			for i := 0; i < 20000; i++ {
				c.Get((i + g) % 4)
			}
			done <- true
		}(g)
	}
	for g := 0; g < 4; g++ {
		<-done
	}
	for i := 0; i < 4; i++ {
		c.Put(10+i, i)
	}
	for i := 0; i < 4; i++ {
		if _, ok := c.Get(i); ok {
			t.Errorf("key %d not evicted", i)
		}
		if _, ok := c.Get(10 + i); !ok {
			t.Errorf("key %d lost", 10+i)
		}
	}
}

func TestReg_C02_NestedEnforce(t *testing.T) {
	e, err := mkEnf(mdl("sub, obj", "sub, rule", "", effSome, "p.sub == r.obj && eval(p.rule)"),
		L{"p", "x", "r.sub == 'alice'"}, L{"p", "x", "r.sub == 'alice' || r.sub == 'zoe'"},
		L{"p", "x", "r.sub == 'alice' && true"}, L{"p", "y", "r.sub == 'bob'"})
	must(t, err)
	for i := 0; i < 20; i++ {
		n := 0
		err = e.RangeMatches([]interface{}{"alice", "x"}, func(rule []string) bool {
			n++
			ok, err := e.Enforce("bob", "y")
			if err != nil || !ok {
				t.Fatal(ok, err)
			}
			return true
		})
		if err != nil || n != 3 {
			t.Fatal(n, err)
		}
	}
}

func TestReg_C17_ConcurrentEnforce(t *testing.T) {
	e, err := mkEnf(mdl("sub, dom, obj", "sub, dom, obj, rule", "g = _, _, _", effSome, "g(r.sub, p.sub, r.dom) && g(r.obj, p.obj, r.dom) && eval(p.rule)"),
		L{"p", "admin", "d1", "/a/:x", "r.dom == 'd1'"}, L{"g", "alice", "admin", "d1"}, L{"g", "carl", "admin", "*"})
	must(t, err)
	rm, _ := e.GetModel().GetRoleManager("g")
	rm.(rbac.IDefaultRoleManager).SetMatcher(util.PathMatcher)
	rm.(rbac.IDefaultRoleManager).SetDomainMatcher(util.PathMatcher)
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				for _, q := range []struct {
					s, d, o string
					want    bool
				}{{"alice", "d1", "/a/1", true}, {"carl", "d1", "/a/1", true}, {"bob", "d1", "/a/1", false}, {"carl", "d2", "/a/1", false}, {"alice", "d1", "/b/1", false}} {
					ok, err := e.Enforce(q.s, q.d, q.o)
					if err != nil || ok != q.want {
						t.Errorf("%v: %v %v", q, ok, err)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
}

func TestReg_C02_FilterSubdomains(t *testing.T) {
	e, err := mkEnf(mdl("sub", "sub", "g = _, _, _, _", effSome, "p.sub == r.sub"),
		L{"g", "alice", "admin", "d1", "s1"}, L{"g", "bob", "alice", "d1", "s2"})
	must(t, err)
	filterIs(t, e, []string{"g|alice|admin|d1|s1"}, fastac.SetMatcher("g.user == 'alice'"))
	filterIs(t, e, []string{"g|bob|alice|d1|s2"}, fastac.SetMatcher("g.role == 'alice'"))
	filterIs(t, e, []string{"g|bob|alice|d1|s2", "g|alice|admin|d1|s1"}, fastac.SetMatcher("g.domain == 'd1'"))
}

func TestReg_C11_AutosaveFailureLeavesEmitterUsable(t *testing.T) {
	rec := &recorder{}
	rec.failAt = 1
	m := model.NewModel()
	must(t, m.LoadModelFromText(plainModel))
	e, err := fastac.NewEnforcer(m, simpleRecorder{rec}, fastac.OptionAutosave(true))
	must(t, err)
	func() {
		defer func() {
			if r := recover(); r != nil && err == nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		_, err = e.AddRule([]string{"p", "alice", "data1"})
	}()
	if err == nil {
		t.Fatal("the failure was not reported")
	}
	done := make(chan error, 1)
	go func() { done <- e.SetOption(fastac.OptionStorage(false)) }()
	select {
	case err := <-done:
		must(t, err)
	case <-time.After(20 * time.Second):
		t.Fatal("SetOption does not return after a failure of the storage")
	}
	must(t, e.Flush())
	if len(rec.rules) != 1 {
		t.Fatalf("stored: %q", rec.rules)
	}
}

func TestReg_C24_InvalidRegexAsRole(t *testing.T) {
	rm := rbac.NewRoleManager(10)
	rm.SetMatcher(util.RegexMatcher)
	if _, err := rm.HasLink("p'(", "admin"); err != nil {
		t.Log(err)
	}
	if _, err := rm.AddLink("alice", "p'("); err != nil {
		t.Log(err)
	}
	if _, err := rm.AddLink("bob", "admin"); err != nil {
		t.Log(err)
	}
	ok, err := rm.HasLink("bob", "admin")
	if err != nil || !ok {
		t.Fatal(ok, err)
	}
	if ok, _ := rm.HasLink("bob", "p'("); ok {
		t.Fatal("bob has the role p'(")
	}
}

func TestReg_C05_LimitInDomains(t *testing.T) {
	for _, dom := range [][]string{{}, {"d"}, {"d", "e"}, {"d", "e", "f"}} {
		dm := rbac.NewDomainManager(4)
		for _, l := range [][2]string{{"a", "b"}, {"b", "c"}, {"c", "d"}, {"d", "e"}} {
			_, err := dm.AddLink(l[0], l[1], dom...)
			must(t, err)
		}
		if ok, err := dm.HasLink("a", "d", dom...); !ok || err != nil {
			t.Fatalf("a has no role d in %q: %v", dom, err)
		}
	}
}

func TestReg_C10_InterruptedSave(t *testing.T) {
	path := filepath.Join(t.TempDir(), "policy.csv")
	must(t, os.WriteFile(path, []byte("p, alice, data1, read\n"), 0o644))
	a := adapter.NewFileAdapter(path)
	_ = catch(func() {
		_ = a.SavePolicy(&interrupted{[][]string{{"p", "bob"}}, func(i int) {
			if i == 1 {
				panic("interrupted")
			}
		}})
	})
	rs := adapter.NewRuleSet()
	must(t, a.LoadPolicy(rs))
	if got := rs.Rules(); !sameRules(got, [][]string{{"p", "alice", "data1", "read"}}) {
		t.Fatalf("the file holds %q", got)
	}
}

func TestReg_C14_ManyStars(t *testing.T) {
	start := time.Now()
	if util.PathMatch(strings.Repeat("a/", 60)+"a", strings.Repeat("*/a/", 20)+"b") || time.Since(start) > 10*time.Second {
		t.Fatal("slow or wrong")
	}
}
