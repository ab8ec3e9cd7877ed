package harness

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	fastac "github.com/abichinger/fastac"
	flog "github.com/abichinger/fastac/log"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// memory is a logger which keeps its entries
type memory struct {
	logger  *logrus.Logger
	entries []*logrus.Entry
}

func newMemory() *memory {
	m := &memory{logger: logrus.New()}
	m.logger.SetOutput(io.Discard)
	m.logger.AddHook(m)
	return m
}

func (m *memory) Levels() []logrus.Level { return logrus.AllLevels }

func (m *memory) Fire(e *logrus.Entry) error {
	c := *e
	m.entries = append(m.entries, &c)
	return nil
}

func TestC25_DecisionLog(t *testing.T) {
	defer flog.SetLogger(flog.NullLogger())
	check(t, 1500, "random models, requests (also failing ones, with context options and with contexts), filters and changes of the rules, while loggers are switched; every decision is one entry of the logger that was set last; non-trivial: permitted, denied and failed requests", func(t *rapid.T, c *Case) {
		s := genScenario(t, scenarioOpts{depth: 2, minRules: 0, maxRules: 5, nReq: 4})
		if chance(t, "fails", 40) { // a function which fails for some requests
			s.m = X("or", s.m, &ex{op: "atom", s: "fails(" + s.v.rn(s.v.r[0]) + ")"})
		}
		s.describe(c)
		e, err := s.buildLogged()
		must(t, err)
		addAll(t, e, append(append([][]string{}, s.rules...), s.links...)...)
		logs := []*memory{newMemory(), newMemory()}
		cur := logs[0]
		fields := map[string]interface{}{}
		set := func() {
			cur = logs[num(t, "logger", 0, 1)]
			fields = map[string]interface{}{}
			if chance(t, "fields", 30) {
				fields["app"] = pick(t, "app", "x", "y")
				flog.SetLogger(cur.logger.WithFields(fields))
			} else {
				flog.SetLogger(cur.logger)
			}
			c.logf("set logger %v", fields)
		}
		set()
		outcomes := map[string]bool{}
		for i := num(t, "steps", 1, 12); i > 0; i-- {
			for _, l := range logs {
				l.entries = nil
			}
			req := s.requests[num(t, "request", 0, len(s.requests)-1)]
			if len(req) > 0 && chance(t, "odd value", 25) {
				req = append([]interface{}{}, req...)
				req[num(t, "position", 0, len(req)-1)] = pick(t, "odd", append([]string{"50%discount", "%s", "%!d", "100%", "%%", "a\nb", "=>", strings.Repeat("long ", 200)}, tricky...)...)
			}
			if chance(t, "too short", 15) {
				req = req[:num(t, "length", 0, len(req)-1)]
			}
			expect := func(what string, got bool, err error) {
				n := 0
				if err == nil {
					n = 1
				}
				for _, l := range logs {
					decisions := []*logrus.Entry{}
					for _, x := range l.entries {
						if strings.Contains(x.Message, "allow") || strings.Contains(x.Message, "deny") {
							decisions = append(decisions, x)
						}
					}
					if l != cur && len(l.entries) > 0 {
						t.Fatalf("%s: a logger that was replaced got %q\n%s", what, l.entries[0].Message, c.desc.String())
					}
					if l != cur {
						continue
					}
					if err != nil {
						if len(decisions) > 0 && err != nil && !mentions(req) {
							t.Fatalf("%s: %v, but logged %q\n%s", what, err, decisions[0].Message, c.desc.String())
						}
						continue
					}
					if len(l.entries) != n {
						msgs := []string{}
						for _, x := range l.entries {
							msgs = append(msgs, x.Message)
						}
						t.Fatalf("%s: %d entries, want %d: %q\n%s", what, len(l.entries), n, msgs, c.desc.String())
					}
					x := l.entries[0]
					want := "deny"
					if got {
						want = "allow"
					}
					if !strings.HasSuffix(x.Message, want) || !strings.Contains(x.Message, fmt.Sprint(req)) {
						t.Fatalf("%s = %v, logged %q\n%s", what, got, x.Message, c.desc.String())
					}
					for k, v := range fields {
						if x.Data[k] != v {
							t.Fatalf("%s: the field %s of the logger is lost: %v\n%s", what, k, x.Data, c.desc.String())
						}
					}
				}
			}
			switch num(t, "step", 0, 9) {
			case 0:
				set()
			case 1:
				rule := s.genRule(t)
				_, err := e.AddRule(rule)
				must(t, err)
			case 2:
				_, err := e.Filter(req...)
				for _, l := range logs {
					for _, x := range l.entries {
						if strings.HasSuffix(x.Message, "=> allow") || strings.HasSuffix(x.Message, "=> deny") {
							t.Fatalf("Filter(%s), %v logged %q\n%s", showReq(req), err, x.Message, c.desc.String())
						}
					}
				}
			case 3: // context
				ctx, err := fastac.NewContext(e.GetModel(), fastac.SetEffector(pick(t, "effect", effSome, effND)))
				must(t, err)
				got, err := e.EnforceWithContext(ctx, req...)
				c.logf("EnforceWithContext(%s) = %v, %v", showReq(req), got, err)
				expect("EnforceWithContext("+showReq(req)+")", got, err)
			case 4: // options are no request values
				opts := []interface{}{pick(t, "option", fastac.SetEffector(effND), fastac.SetMatcher("m"), fastac.SetRequestDef("r"), fastac.SetRequestDef("r7"), fastac.SetMatcher("((")), fastac.SetEffector(effSND)}
				params := append(append([]interface{}{opts[0]}, req...), opts[1])
				got, err := e.Enforce(params...)
				c.logf("Enforce(option, %s, option) = %v, %v", showReq(req), got, err)
				expect("Enforce("+showReq(req)+")", got, err)
			default:
				got, err := e.Enforce(req...)
				c.logf("Enforce(%s) = %v, %v", showReq(req), got, err)
				expect("Enforce("+showReq(req)+")", got, err)
				outcomes[fmt.Sprint(got, err != nil)] = true
			}
		}
		c.nt(len(outcomes) > 1)
		for o := range outcomes {
			c.label(o)
		}
	})
}

// requests with many values
func TestC25_ManyValues(t *testing.T) {
	defer flog.SetLogger(flog.NullLogger())
	check(t, 300, "requests of 1 to 60 values of any type, decided by one of them; the entry names all values; non-trivial: more than ten values", func(t *rapid.T, c *Case) {
		n := big(t, "values", 1, 60)
		k := num(t, "decided by", 0, n-1)
		names := []string{}
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprint("a", i))
		}
		e, err := mkEnf(mdl(strings.Join(names, ", "), "x", "", effSome, fmt.Sprintf("r.a%d == p.x", k)), []string{"p", "yes"})
		must(t, err)
		for i := num(t, "requests", 1, 3); i > 0; i-- {
			req := []interface{}{}
			for j := 0; j < n; j++ {
				req = append(req, pick[interface{}](t, "value", fmt.Sprint("v", j), j, float64(j)/4, true, "", " ", "x y"))
			}
			want := chance(t, "permitted", 50)
			if req[k] = "no"; want {
				req[k] = "yes"
			}
			m := newMemory()
			flog.SetLogger(m.logger)
			got, err := e.Enforce(append([]interface{}{}, req...)...)
			c.logf("Enforce(%s) = %v, %v", showReq(req), got, err)
			if err != nil || got != want {
				t.Fatalf("Enforce(%s) = %v, %v", showReq(req), got, err)
			}
			word := map[bool]string{true: "allow", false: "deny"}[want]
			if len(m.entries) != 1 || !strings.Contains(m.entries[0].Message, fmt.Sprint(req)) || !strings.HasSuffix(m.entries[0].Message, word) {
				t.Fatalf("Enforce(%s) = %v, logged %d entries\n%s", showReq(req), got, len(m.entries), func() (s string) {
					for _, x := range m.entries {
						s += x.Message + "\n"
					}
					return s
				}())
			}
		}
		c.nt(n > 10)
	})
}

// mentions: does the request itself contain the name of a decision
func mentions(req []interface{}) bool {
	s := fmt.Sprint(req)
	return strings.Contains(s, "allow") || strings.Contains(s, "deny")
}

func (s *scenario) buildLogged() (*fastac.Enforcer, error) {
	m := newModel()
	for _, d := range s.definitions(s.m.String()) {
		if err := m.SetDef(d.sec, d.key, d.value); err != nil {
			return nil, err
		}
	}
	m.SetFunction("fails", func(args ...interface{}) (interface{}, error) {
		if len(fmt.Sprint(args[0]))%2 == 1 {
			return true, errors.New("fails")
		}
		return false, nil
	})
	if err := m.BuildMatchers(); err != nil {
		return nil, err
	}
	return fastac.NewEnforcer(m, nil)
}
