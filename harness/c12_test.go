package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/types"
	"pgregory.net/rapid"
)

// blanks puts blanks into an effect expression
func blanks(t *rapid.T, s string) string {
	s = strings.ReplaceAll(s, " ", "")
	var b strings.Builder
	last := ' '
	for _, r := range s {
		if strings.ContainsRune("(=&!.", r) && r != last && chance(t, "blank", 30) {
			b.WriteString(strings.Repeat(" ", num(t, "n", 1, 2)))
		}
		b.WriteRune(r)
		last = r
	}
	return b.String()
}

func effName(e types.Effect) string {
	switch e {
	case eft.Allow:
		return "allow"
	case eft.Deny:
		return "deny"
	}
	return "indeterminate"
}

func TestC12_Effector(t *testing.T) {
	check(t, 6000, "random lists of up to 8 effects in random order, merged incrementally as Enforce does and compared with the declarative meaning; non-trivial: at least two different effects in the list", func(t *rapid.T, c *Case) {
		expr := pick(t, "effect", effSome, effND, effSND)
		e := effector.NewEffector(defs.NewEffectDef("e", blanks(t, expr)))
		n := num(t, "n", 0, 8)
		effects := []types.Effect{}
		names := []string{}
		matches := [][]string{}
		kinds := map[types.Effect]bool{}
		for i := 0; i < n; i++ {
			f := pick(t, "eft", eft.Allow, eft.Deny, eft.Indeterminate)
			effects = append(effects, f)
			names = append(names, effName(f))
			matches = append(matches, []string{"p", fmt.Sprint("rule", i), effName(f)})
			kinds[f] = true
		}
		c.logf("%s: %v", expr, names)
		c.nt(len(kinds) > 1)
		want := refMerge(expr, names)
		res, rule, err := eft.Indeterminate, []string{}, error(nil)
		for k := 1; k <= n && res == eft.Indeterminate; k++ {
			res, rule, err = e.MergeEffects(effects[:k], matches[:k], false)
			if err != nil {
				t.Fatalf("%v\n%s", err, c.desc.String())
			}
		}
		early := res != eft.Indeterminate
		c.labelIf(early, "decided early")
		if !early {
			res, rule, err = e.MergeEffects(effects, matches, true)
		}
		if err != nil || res == eft.Indeterminate || (res == eft.Allow) != want {
			t.Fatalf("merged to %s, %v (early: %v), want permitted: %v\n%s", effName(res), err, early, want, c.desc.String())
		}
		because := early || expr == effSND && res == eft.Allow // otherwise no rule decided
		if len(rule) > 0 && rule[len(rule)-1] != effName(res) || because && len(rule) == 0 {
			t.Fatalf("%s because of %q\n%s", effName(res), rule, c.desc.String())
		}
		// any order of the effects
		perm := rapid.Permutation(seq(n)).Draw(t, "order")
		pe, pm := []types.Effect{}, [][]string{}
		res2 := eft.Indeterminate
		for _, i := range perm {
			pe, pm = append(pe, effects[i]), append(pm, matches[i])
			if res2, _, err = e.MergeEffects(pe, pm, false); err != nil || res2 != eft.Indeterminate {
				break
			}
		}
		if res2 == eft.Indeterminate {
			res2, _, err = e.MergeEffects(pe, pm, true)
		}
		if err != nil || (res2 == eft.Allow) != want {
			t.Fatalf("merged to %s, %v in another order, want permitted: %v\n%s", effName(res2), err, want, c.desc.String())
		}
	})
}

// garble changes an effect expression
func garble(t *rapid.T) string {
	s := strings.ReplaceAll(pick(t, "effect", effSome, effND, effSND), " ", "")
	switch num(t, "garble", 0, 4) {
	case 0:
		return pick(t, "other", "", "allow", "some(where (p2.eft == allow))", "priority(p.eft) || deny", "some(where (p.eft == deny))", "!some(where (p.eft == allow))", "subjectPriority(p.eft)", "some(where (p.eft == allow)) || !some(where (p.eft == deny))", "!some(where (p.eft == deny)) && some(where (p.eft == allow))", "e", "true", "SOME(where (p.eft == allow))", "some(where (p_eft == allow))")
	case 1:
		i := num(t, "i", 0, len(s)-1)
		return s[:i] + s[i+1:]
	case 2:
		i := num(t, "i", 0, len(s))
		return s[:i] + pick(t, "char", "x", "!", "&", "(", ")", "1", "\t", "=") + s[i:]
	case 3:
		return s + s
	}
	i := num(t, "i", 1, len(s)-1)
	return s[:i]
}

func supported(expr string) bool {
	for _, x := range []string{effSome, effND, effSND} {
		if strings.ReplaceAll(x, " ", "") == strings.ReplaceAll(expr, " ", "") {
			return true
		}
	}
	return false
}

// decisions: the effect column anywhere, any effect value, unsupported effects
func TestC12_Decisions(t *testing.T) {
	check(t, 2500, "random rules with random effect values (effect column at any position or missing), supported and garbled effect expressions; non-trivial: two or more rules match, with different effects", func(t *rapid.T, c *Case) {
		cols := rapid.Permutation([]string{"tag", "id", "eft", "note"}).Draw(t, "columns")
		if chance(t, "no effect", 20) {
			cols = without2(cols, "eft")
		}
		base := pick(t, "effect", effSome, effND, effSND)
		expr := blanks(t, base)
		if chance(t, "unsupported", 20) {
			if expr = garble(t); supported(expr) {
				expr = blanks(t, base)
			}
		}
		m := pick(t, "matcher", "r.tag == p.tag", "r.tag == p.tag && p.note != 'x'", "r.tag == p.tag || p.tag == '*'", "(r.tag == p.tag || p.tag == '*') && p.note != 'x'")
		c.logf("p = %v, e = %q, m = %s", cols, expr, m)
		s := &scenario{v: &vocab{rKey: "r", pKey: "p"}, rArgs: []string{"tag"}, pArgs: cols, effect: expr}
		e, err := s.buildWith(m)
		if err != nil {
			t.Fatalf("%v\n%s", err, c.desc.String())
		}
		rules := [][]string{}
		for i := num(t, "rules", 0, 7); i > 0; i-- {
			r := []string{"p"}
			for _, col := range cols {
				switch col {
				case "tag":
					r = append(r, pick(t, "tag", "a", "a", "b", "*"))
				case "id":
					r = append(r, fmt.Sprint(i))
				case "note":
					r = append(r, pick(t, "note", "", "x", "deny", "allow"))
				case "eft":
					r = append(r, pick(t, "eft", "allow", "allow", "deny", "deny", "", "Allow", "DENY", "other", " deny", "indeterminate", "allow,deny"))
				}
			}
			rules = append(rules, r)
			c.logf("%q", r)
			addAll(t, e, r)
		}
		for _, tag := range []string{"a", "b", "c"} {
			effects := []string{}
			kinds := map[string]bool{}
			match := func(r []string) bool {
				v := map[string]string{}
				for i, col := range cols {
					v[col] = r[i+1]
				}
				return (v["tag"] == tag || strings.Contains(m, "||") && v["tag"] == "*") && !(strings.Contains(m, "note") && v["note"] == "x")
			}
			for _, r := range rules {
				if match(r) {
					effects = append(effects, effectOf(s, r))
					kinds[effectOf(s, r)] = true
				}
			}
			c.nt(len(kinds) > 1)
			got, err := e.Enforce(tag)
			if !supported(expr) {
				c.label("unsupported effect")
				if err == nil || got {
					t.Fatalf("Enforce(%s) = %v, %v with an unsupported effect\n%s", tag, got, err, c.desc.String())
				}
				continue
			}
			if want := refMerge(base, effects); err != nil || got != want {
				t.Fatalf("Enforce(%s) = %v, %v, want %v (effects %v)\n%s", tag, got, err, want, effects, c.desc.String())
			}
		}
	})
}

func without2(xs []string, x string) []string {
	res := []string{}
	for _, y := range xs {
		if y != x {
			res = append(res, y)
		}
	}
	return res
}

// quorum permits if at least need rules allow, and refuses at once if one denies
type quorum struct {
	need   int
	failAt int // number of the call that fails
	calls  []quorumCall
	err    error
	bad    types.Effect // returned together with the error
}

type quorumCall struct {
	effects  []types.Effect
	matches  [][]string
	complete bool
	res      types.Effect
}

func (q *quorum) MergeEffects(effects []types.Effect, matches [][]string, complete bool) (types.Effect, []string, error) {
	call := quorumCall{complete: complete, res: eft.Indeterminate}
	call.effects = append(call.effects, effects...)
	for _, m := range matches {
		call.matches = append(call.matches, clone(m))
	}
	n := 0
	for _, x := range effects {
		if x == eft.Deny {
			call.res = eft.Deny
		}
		if x == eft.Allow {
			n++
		}
	}
	if call.res == eft.Indeterminate && n >= q.need {
		call.res = eft.Allow
	} else if call.res == eft.Indeterminate && complete {
		call.res = eft.Deny
	}
	q.calls = append(q.calls, call)
	if len(q.calls) == q.failAt {
		return q.bad, nil, q.err
	}
	return call.res, nil, nil
}

// an effector of the user: it gets the matched rules with their effects, and has the last word
func TestC12_CustomEffector(t *testing.T) {
	check(t, 1500, "random rules and an effector of the user (a quorum), set at the model or for a call, which sometimes fails; it receives each matched rule once with its effect, a decision or error is final; non-trivial: two or more rules match", func(t *rapid.T, c *Case) {
		s := &scenario{v: &vocab{rKey: "r", pKey: "p"}, rArgs: []string{"tag"}, pArgs: []string{"tag", "id", "eft"}, effect: effSome}
		m := pick(t, "matcher", "r.tag == p.tag", "r.tag == p.tag || p.tag == '*'", "p.tag == '*' || r.tag == p.tag && p.id != '1'", "p.tag != 'b' && r.tag != 'b'")
		e, err := s.buildWith(m)
		must(t, err)
		match := func(r []string, tag string) bool {
			switch m {
			case "r.tag == p.tag":
				return r[1] == tag
			case "r.tag == p.tag || p.tag == '*'":
				return r[1] == tag || r[1] == "*"
			case "p.tag == '*' || r.tag == p.tag && p.id != '1'":
				return r[1] == "*" || r[1] == tag && r[2] != "1"
			}
			return r[1] != "b" && tag != "b"
		}
		rules := [][]string{}
		for i := num(t, "rules", 1, 7); i > 0; i-- {
			r := []string{"p", pick(t, "tag", "a", "a", "b", "*"), fmt.Sprint(i), pick(t, "eft", "allow", "allow", "allow", "deny", "other")}
			rules = append(rules, r)
			addAll(t, e, r)
		}
		c.logf("m = %s, rules %q", m, rules)
		shared := &quorum{}
		e.GetModel().SetEffector("e", shared)
		if got, ok := e.GetModel().GetEffector("e"); !ok || got != shared {
			t.Fatalf("GetEffector = %v, %v", got, ok)
		}
		for i := num(t, "requests", 1, 4); i > 0; i-- {
			tag := pick(t, "request", "a", "b", "c")
			q := shared
			params := []interface{}{tag}
			if chance(t, "option", 50) {
				q = &quorum{}
				params = append(params, fastac.SetEffector(q))
			}
			*q = quorum{need: num(t, "need", 0, 3), failAt: pick(t, "fail at", 0, 0, 0, 1, 2, 3, 4), err: errors.New("effector fails"), bad: pick(t, "result", eft.Allow, eft.Deny, eft.Indeterminate)}
			shared.calls = nil
			c.logf("%s needs %d, call %d fails", tag, q.need, q.failAt)
			allow, deny, n := 0, 0, 0
			for _, r := range rules {
				if match(r, tag) {
					n++
					switch r[3] {
					case "allow":
						allow++
					case "deny":
						deny++
					}
				}
			}
			c.nt(n > 1)
			got, err := e.Enforce(params...)
			if q != shared && len(shared.calls) > 0 {
				t.Fatalf("the effector of the model was called\n%s", c.desc.String())
			}
			for k, call := range q.calls {
				if len(call.effects) != len(call.matches) {
					t.Fatalf("%d effects of %d rules\n%s", len(call.effects), len(call.matches), c.desc.String())
				}
				seen := map[string]bool{}
				for j, r := range call.matches {
					if !contains(rules, r) || !match(r, tag) || seen[keyOf(r)] {
						t.Fatalf("the effector received %q, which does not match, or twice\n%s", r, c.desc.String())
					}
					seen[keyOf(r)] = true
					if want := map[string]types.Effect{"allow": eft.Allow, "deny": eft.Deny}[r[3]]; r[3] != "other" && call.effects[j] != want || r[3] == "other" && call.effects[j] != eft.Indeterminate {
						t.Fatalf("%q has effect %v\n%s", r, call.effects[j], c.desc.String())
					}
				}
				if call.complete && len(call.matches) != n {
					t.Fatalf("complete, but only %d of %d matching rules\n%s", len(call.matches), n, c.desc.String())
				}
				if k != len(q.calls)-1 && (call.res != eft.Indeterminate || k+1 == q.failAt) {
					t.Fatalf("the effector was called again after a decision or an error\n%s", c.desc.String())
				}
			}
			if q.failAt > 0 && len(q.calls) == q.failAt {
				if err == nil || got {
					t.Fatalf("Enforce = %v, %v, the effector failed\n%s", got, err, c.desc.String())
				}
				c.label("effector fails")
				continue
			}
			if len(q.calls) == 0 {
				t.Fatalf("the effector was not called\n%s", c.desc.String())
			}
			last := q.calls[len(q.calls)-1].res
			if err != nil || got != (last == eft.Allow) {
				t.Fatalf("Enforce = %v, %v, the effector decided %v\n%s", got, err, last, c.desc.String())
			}
			if deny == 0 && got != (allow >= q.need) {
				t.Fatalf("Enforce = %v, %d rules allow, %d needed\n%s", got, allow, q.need, c.desc.String())
			}
			if deny > 0 && allow < q.need && got {
				t.Fatalf("Enforce = true, only %d rules allow\n%s", allow, c.desc.String())
			}
		}
	})
}

func TestC12_Large(t *testing.T) {
	checkAtMost(t, 100, 1000, "up to 6000 matching rules with random effects, of which at most a few decide; every effect expression; non-trivial: 100 or more rules match and both effects occur", func(t *rapid.T, c *Case) {
		expr := pick(t, "effect", effSome, effND, effSND)
		e, err := mkEnf(mdl("sub, obj", "sub, obj, eft", "", expr, "r.sub == p.sub || p.sub == 'anybody'"))
		must(t, err)
		n := big(t, "rules", 50, 1500)
		if chance(t, "more", 45) {
			n *= 4
		}
		rnd := rand.New(rand.NewSource(int64(num(t, "seed", 0, 1<<30))))
		rare := pick(t, "rare effects", 0, 1, 1, 2, 2, 100)
		effects := map[string][]string{"alice": {}, "bob": {}}
		kinds := rapid.Permutation([]string{"allow", "deny", "maybe"}).Draw(t, "effects")
		base, other := kinds[0], pick(t, "other", kinds[1], kinds[1], kinds[2], "")
		if chance(t, "the rare effect decides", 60) {
			decisive := map[string][][2]string{
				effSome: {{"deny", "allow"}, {"maybe", "allow"}},
				effND:   {{"allow", "deny"}, {"maybe", "deny"}},
				effSND:  {{"maybe", "allow"}, {"allow", "deny"}},
			}[expr]
			d := pick(t, "decisive", decisive...)
			base, other = d[0], d[1]
		}
		for i := 0; i < n; i++ {
			f := base
			if rnd.Intn(n) < rare {
				f = other
			}
			sub := []string{"alice", "bob", "anybody", "anybody", "anybody", "carol"}[rnd.Intn(6)]
			addAll(t, e, []string{"p", sub, fmt.Sprint("data", i), f})
			if f == "" {
				f = "allow"
			}
			for who := range effects {
				if sub == who || sub == "anybody" {
					effects[who] = append(effects[who], f)
				}
			}
		}
		c.labelIf(n > 1500, "more than 1500 rules")
		c.labelIf(expr == effSND && base == "maybe" && other == "allow" && (rare == 1 || rare == 2), "some rule has to be remembered")
		c.logf("%s: %d rules with %s, about %d of them with %q", expr, n, base, rare, other)
		for who, fs := range effects {
			kinds := map[string]bool{}
			for _, f := range fs {
				kinds[f] = true
			}
			c.nt(len(fs) >= 100 && len(kinds) > 1)
			for i := 0; i < 3; i++ {
				if got, err := e.Enforce(who, "x"); err != nil || got != refMerge(expr, fs) {
					t.Fatalf("Enforce(%s) = %v, %v, %d matching rules with effects %v\n%s", who, got, err, len(fs), kinds, c.desc.String())
				}
			}
		}
	})
}
