package harness

import (
	"testing"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/policy"
	"pgregory.net/rapid"
)

func TestC27_GetDistinct(t *testing.T) {
	check(t, 3000, "random rules of a policy and two grouping sections (with removals), random lists of columns (empty, repeated, permuted, or missing in some rule: an error); non-trivial: fewer distinct combinations than rules, more than one combination", func(t *rapid.T, c *Case) {
		m := model.NewModel()
		must(t, m.LoadModelFromText("[request_definition]\nr = a, b\n[policy_definition]\np = a, b, c, eft\n[role_definition]\ng = _, _\ng2 = _, _, _\n[policy_effect]\ne = "+effSome+"\n[matchers]\nm = r.a == p.a\n"))
		e, err := fastac.NewEnforcer(m, nil)
		must(t, err)
		key := pick(t, "section", "p", "p", "g", "g2")
		n := map[string]int{"p": 4, "g": 2, "g2": 3}[key]
		vals := []string{"a", "b", "a,b", "", "1,a"}
		j := ""
		if chance(t, "joined", 40) {
			j = pick(t, "joiner", append([]string{"\x1f", "\x1e", "\n", "\x01", "\xff"}, joiners...)...)
			vals = []string{"a", "b", "a" + j + "b", j + "a", "a" + j, "", j}
		}
		if chance(t, "any values", 30) {
			vals = append(vals, genValue(t), genValue(t))
		}
		rules := [][]string{}
		for i := num(t, "rules", 0, 10); i > 0; i-- {
			r := []string{key}
			for k := 0; k < n; k++ {
				r = append(r, pick(t, "value", vals...))
			}
			if j != "" && chance(t, "boundary", 60) { // equal when joined with j, or by values that end with j
				at := num(t, "at", 1, n-1)
				x := pick(t, "values", []string{"a", j + "b"}, []string{"a" + j, "b"}, []string{"a" + j + "b", ""}, []string{"", "a" + j + "b"}, []string{j, ""}, []string{"", j})
				r[at], r[at+1] = x[0], x[1]
			}
			if key == "p" && chance(t, "no effect", 20) {
				r = r[:4]
			}
			if chance(t, "variant", 20) {
				r = variant(t, r)
			}
			_, err := e.AddRule(clone(r))
			must(t, err)
			rules = append(without(rules, r), r)
		}
		for i := num(t, "remove", 0, 2); i > 0 && len(rules) > 0; i-- {
			r := rules[num(t, "i", 0, len(rules)-1)]
			_, err := e.RemoveRule(clone(r))
			must(t, err)
			rules = without(rules, r)
		}
		for _, r := range rules {
			c.logf("%q", r)
		}
		pol, _ := m.GetPolicy(key)
		for i := 0; i < 3; i++ {
			cols := rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 4).Draw(t, "columns")
			if len(cols) > 0 && chance(t, "no such column", 10) {
				cols[num(t, "k", 0, len(cols)-1)] = pick(t, "column", -1, n, n+1, 1000, -1<<63)
			}
			missing := false
			c.logf("columns %v", cols)
			want := [][]string{}
			for _, r := range rules {
				v := []string{}
				for _, col := range cols {
					if col < 0 || col+1 >= len(r) {
						missing = true
						continue
					}
					v = append(v, r[col+1])
				}
				if !contains(want, v) {
					want = append(want, v)
				}
			}
			if missing {
				c.label("a rule lacks a column")
				if got, err := policy.GetDistinct(pol, cols); err == nil {
					t.Fatalf("GetDistinct(%s, %v) = %q, %v\n%s", key, cols, got, err, c.desc.String())
				}
				continue
			}
			c.nt(len(want) < len(rules) && len(want) > 1)
			got, err := pol.(interface {
				GetDistinct([]int) ([][]string, error)
			}).GetDistinct(cols)
			if err != nil || !sameRules(got, want) {
				t.Fatalf("GetDistinct(%v) of %s = %q, %v, want %q\n%s", cols, key, got, err, want, c.desc.String())
			}
			got, err = policy.GetDistinct(pol, cols)
			if err != nil || !sameRules(got, want) {
				t.Fatalf("GetDistinct(%s, %v) = %q, %v, want %q\n%s", key, cols, got, err, want, c.desc.String())
			}
		}
	})
}

func TestC27_Large(t *testing.T) {
	check(t, 60, "50 to 2100 random changes of rules, then random columns; non-trivial: fewer distinct combinations than rules, 50 or more combinations", func(t *rapid.T, c *Case) {
		h := newLargeHistory(t, c)
		h.random()
		for i := 0; i < 6; i++ {
			key := pick(t, "section", "p", "p", "g")
			cols := rapid.SliceOfN(rapid.IntRange(0, map[string]int{"p": 3, "g": 1}[key]), 0, 4).Draw(t, "columns")
			want := map[string]bool{}
			n := 0
			for _, r := range h.rules {
				if r[0] != key {
					continue
				}
				n++
				v := []string{}
				for _, col := range cols {
					v = append(v, r[col+1])
				}
				want[keyOf(v)] = true
			}
			pol, _ := h.m.GetPolicy(key)
			got, err := policy.GetDistinct(pol, cols)
			if err != nil || len(got) != len(want) {
				t.Fatalf("GetDistinct(%s, %v): %d combinations, %v, want %d\n%s", key, cols, len(got), err, len(want), c.desc.String())
			}
			for _, v := range got {
				if !want[keyOf(v)] {
					t.Fatalf("GetDistinct(%s, %v): %q is in no rule, or twice\n%s", key, cols, v, c.desc.String())
				}
				delete(want, keyOf(v))
			}
			c.nt(len(got) >= 50 && len(got) < n)
		}
	})
}
