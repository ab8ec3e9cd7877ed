package harness

import (
	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
)

func mkEnf(text string, rules ...[]string) (*fastac.Enforcer, error) {
	m := model.NewModel()
	if err := m.LoadModelFromText(text); err != nil {
		return nil, err
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		return nil, err
	}
	for _, r := range rules {
		if _, err := e.AddRule(r); err != nil {
			return nil, err
		}
	}
	return e, nil
}

func mdl(r, p, g, e, m string) string {
	s := "[request_definition]\nr = " + r + "\n[policy_definition]\np = " + p + "\n"
	if g != "" {
		s += "[role_definition]\n" + g + "\n"
	}
	return s + "[policy_effect]\ne = " + e + "\n[matchers]\nm = " + m + "\n"
}

const (
	effSome = "some(where (p.eft == allow))"
	effND   = "!some(where (p.eft == deny))"
	effSND  = "some(where (p.eft == allow)) && !some(where (p.eft == deny))"
)

func index(xs []string, x string) int {
	for i, y := range xs {
		if x == y {
			return i
		}
	}
	return -1
}
