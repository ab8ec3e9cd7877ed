package harness

import (
	"fmt"
	"strings"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"pgregory.net/rapid"
)

// ---- scenarios: a model, rules and requests, with the reference decision

type entity struct {
	Name  string
	Owner struct{ Name string }
	Age   int
}

func newEntity(name, owner string) entity {
	e := entity{Name: name, Age: 3}
	e.Owner.Name = owner
	return e
}

var tricky = []string{"", "a,b", "a, b", "a b", " a", "r.sub", "p.obj", "p_sub", "r_sub", "x || y", "x && y", "(a", "a)", "it's", `say "hi"`,
	`a\b`, "ünï", "*", ":x", "true", "1", "{a}", "a|b", "a$$b", "#a", ";", "\t", "1,a", "p", "g", "allow", "deny", "a.b.c", "=", "\x00", "2006-01-02x", "%s", "5%d"}

var pools = map[string][]string{
	"sub": {"alice", "bob", "admin", "ops"},
	"obj": {"data1", "/a/b", "/a/:x", "/a/*", "a/b/c"},
	"act": {"read", "write", "*"},
	"dom": {"d1", "d2"},
	"own": {"alice", "bob"},
}

type scenario struct {
	v        *vocab
	pArgs    []string // policy definition, in order
	rArgs    []string
	effect   string
	m        *ex
	rules    [][]string // with key
	links    [][]string // with key
	requests [][]interface{}
	hasEft   bool
	suffix   string
}

type scenarioOpts struct {
	depth        int
	eval         bool
	noEft        bool
	noTricky     bool
	strOnly      bool // only string values in requests
	noDeny       bool
	maxRules     int
	minRules     int
	nReq         int
	noRoles      bool
	noSubdomains bool
	suffix       string // of all keys
	extra        func(t *rapid.T, v *vocab) *ex
}

func shuffled(t *rapid.T, label string, xs []string) []string {
	return rapid.Permutation(xs).Draw(t, label)
}

func genVocab(t *rapid.T, o scenarioOpts) *vocab {
	v := &vocab{rKey: "r" + o.suffix, pKey: "p" + o.suffix, eval: o.eval, funcs: []string{"hasPrefix"}}
	cols := []string{"sub", "obj"}
	if chance(t, "act", 60) {
		cols = append(cols, "act")
	}
	dom := chance(t, "dom", 40)
	if dom {
		cols = append(cols, "dom")
	}
	confusable := !o.noTricky && chance(t, "confusable", 12)
	sep := ""
	if confusable {
		sep = pick(t, "separator", joiners...)
	}
	nearly := !o.noTricky && !confusable && chance(t, "nearly equal values", 10)
	for _, c := range cols {
		pool := append([]string{}, pools[c]...)
		if nearly {
			pool = nearPool(t, pools[c][0])
		} else if confusable {
			pool = []string{"u", "v" + sep + "w", "u" + sep + "v", "w"}
		} else if !o.noTricky {
			for i := num(t, "tricky", 0, 3); i > 0; i-- {
				pool = append(pool, pick(t, "value", tricky...))
			}
		}
		v.r = append(v.r, attr{c, "str", pool})
		if c != "dom" || chance(t, "p.dom", 70) {
			v.p = append(v.p, attr{c, "str", pool})
		}
	}
	if !o.strOnly {
		if chance(t, "num", 25) {
			v.r = append(v.r, attr{"age", "num", nil})
		}
		if chance(t, "flag", 25) {
			v.r = append(v.r, attr{"flag", "flag", nil})
		}
		if chance(t, "ent", 25) {
			v.r = append(v.r, attr{"ent", "ent", pools["own"]})
			v.p = append(v.p, attr{"own", "str", pools["own"]})
		}
	}
	if !o.noRoles {
		if chance(t, "g", 50) {
			arity := 2
			if dom && chance(t, "g dom", 50) {
				arity = 3
				if !o.noSubdomains && chance(t, "g subdomain", 20) {
					arity = 4
				}
			}
			v.g = append(v.g, gdef{"g" + o.suffix, arity, "sub"})
		}
		if chance(t, "g2", 20) {
			v.g = append(v.g, gdef{"g2" + o.suffix, 2, "obj"})
		}
	}
	return v
}

func genScenario(t *rapid.T, o scenarioOpts) *scenario {
	s := &scenario{v: genVocab(t, o), suffix: o.suffix}
	v := s.v
	if o.extra != nil {
		v.extra = func(t *rapid.T) *ex { return o.extra(t, v) }
	}
	for _, a := range v.r {
		s.rArgs = append(s.rArgs, a.name)
	}
	for _, a := range v.p {
		s.pArgs = append(s.pArgs, a.name)
	}
	if o.eval {
		s.pArgs = append(s.pArgs, "rule")
	}
	if !o.noEft && chance(t, "eft", 50) {
		s.hasEft = true
		s.pArgs = append(s.pArgs, "eft")
	}
	s.rArgs = shuffled(t, "rArgs", s.rArgs)
	s.pArgs = shuffled(t, "pArgs", s.pArgs)
	if s.hasEft {
		s.effect = pick(t, "effect", effSome, effND, effSND)
	} else {
		s.effect = pick(t, "effect", effSome, effSome, effND, effSND)
	}
	s.m = v.genMatcher(t, num(t, "depth", 0, o.depth))
	for i := num(t, "rules", o.minRules, o.maxRules); i > 0; i-- {
		s.rules = append(s.rules, s.genRule(t))
	}
	s.links = s.genLinks(t, 6)
	n := o.nReq
	if n == 0 {
		n = 4
	}
	for i := 0; i < n; i++ {
		if i > 0 && chance(t, "shift", 25) {
			s.requests = append(s.requests, shift(t, s.requests[i-1]))
			continue
		}
		s.requests = append(s.requests, s.genRequest(t))
	}
	return s
}

var joiners = []string{" ", ",", ", ", "|", ":", "/", "::", "_", "-", ";", "\t", "\x00", "\x1f", "$$"}

// near returns a value which differs from s by blanks, case or similar only
func near(t *rapid.T, s string) string {
	up := strings.ToUpper(s)
	if up == s {
		up = strings.ToLower(s)
	}
	return pick(t, "near", s+" ", " "+s, up, s+"0", "0"+s, s+"/", s+".", s+"\t", s+"\n", s+"\x00", s+"\u0301", s+s, s+",", "_"+s, "'"+s+"'", "\u200b"+s, "\""+s+"\"", "$"+s, s+"*")
}

// nearPool returns s, and values which are nearly s
func nearPool(t *rapid.T, s string) []string {
	if chance(t, "long values", 20) { // they differ at one end only
		long := strings.Repeat(s+"-", pick(t, "length", 15, 40, 100, 400))
		return []string{long, long + "a", "a" + long, long + "b"}
	}
	if chance(t, "numbers", 15) { // equal as numbers
		return rapid.Permutation([]string{"1", "1.0", "01", "1.00", "1e0", "0x1", "+1", "1.", "true", "TRUE", "T", "1_0", "10"}).Draw(t, "numbers")[:num(t, "numbers", 3, 5)]
	}
	a := near(t, s)
	return []string{s, a, near(t, s), near(t, a)}
}

// shift moves a part of a value to the value next to it: the values of both requests are equal if they get joined
func shift(t *rapid.T, req []interface{}) []interface{} {
	res := append([]interface{}{}, req...)
	for i := 0; i+1 < len(res); i++ {
		a, ok1 := res[i].(string)
		b, ok2 := res[i+1].(string)
		if !ok1 || !ok2 {
			continue
		}
		for _, sep := range joiners {
			if k := strings.Index(a, sep); k > 0 {
				res[i], res[i+1] = a[:k], a[k+len(sep):]+sep+b
				return res
			}
			if k := strings.Index(b, sep); k > 0 {
				res[i], res[i+1] = a+sep+b[:k], b[k+len(sep):]
				return res
			}
		}
	}
	return res
}

func (s *scenario) genRule(t *rapid.T) []string {
	rule := []string{s.v.pKey}
	for _, name := range s.pArgs {
		switch name {
		case "eft":
			rule = append(rule, pick(t, "eft", "allow", "allow", "deny", "deny", "", "other"))
		case "rule":
			inner := *s.v
			inner.eval = false
			x := inner.genBool(t, num(t, "rule depth", 0, 2))
			evalTexts[x.String()] = x
			rule = append(rule, x.String())
		default:
			a, _ := find(s.v.p, name)
			rule = append(rule, pick(t, name, a.pool...))
		}
	}
	return rule
}

func (s *scenario) genLink(t *rapid.T) []string {
	g := pick(t, "g", s.v.g...)
	a, _ := find(s.v.r, g.col)
	// chains stay shorter than the hierarchy limit
	link := []string{g.key, pick(t, "user", a.pool...), pick(t, "role", a.pool...)}
	for k := 2; k < g.arity; k++ {
		d, _ := find(s.v.r, "dom")
		link = append(link, pick(t, "dom", d.pool...))
	}
	return link
}

func (s *scenario) genLinks(t *rapid.T, max int) [][]string {
	res := [][]string{}
	if len(s.v.g) == 0 {
		return res
	}
	for i := num(t, "links", 0, max); i > 0; i-- {
		res = append(res, s.genLink(t))
	}
	return res
}

func (s *scenario) genRequest(t *rapid.T) []interface{} {
	req := []interface{}{}
	for _, name := range s.rArgs {
		a, _ := find(s.v.r, name)
		switch a.kind {
		case "str":
			req = append(req, pick(t, "r."+name, a.pool...))
		case "num":
			if chance(t, "large", 15) {
				n := int64(pick(t, "r."+name, largeNumbers...))
				if chance(t, "negative", 30) {
					n = -n
				}
				switch {
				case chance(t, "float", 30):
					req = append(req, float64(n))
				case n >= 0 && chance(t, "unsigned", 40):
					req = append(req, uint64(n))
				default:
					req = append(req, n)
				}
			} else if chance(t, "int", 30) {
				n := num(t, "r."+name, 0, 3)
				req = append(req, pick(t, "type", []interface{}{n, n, int8(n), int16(n), int32(n), int64(n), uint8(n), uint16(n), uint32(n), uint64(n), float32(n) + 0.5}...))
			} else {
				req = append(req, float64(num(t, "r."+name, 0, 6))/2)
			}
		case "flag":
			req = append(req, chance(t, "r."+name, 50))
		case "ent":
			e := newEntity(pick(t, "r."+name, a.pool...), pick(t, "owner", a.pool...))
			if chance(t, "pointer", 30) {
				req = append(req, &e)
			} else {
				req = append(req, e)
			}
		}
	}
	return req
}

func showReq(req []interface{}) string {
	parts := []string{}
	for _, v := range req {
		switch x := v.(type) {
		case string:
			parts = append(parts, fmt.Sprintf("%q", x))
		case *entity:
			parts = append(parts, fmt.Sprintf("&%+v", *x))
		default:
			parts = append(parts, fmt.Sprintf("%+v", x))
		}
	}
	return strings.Join(parts, ", ")
}

func (s *scenario) gdefs() string {
	res := ""
	for _, g := range s.v.g {
		res += g.key + " = _" + strings.Repeat(", _", g.arity-1) + "\n"
	}
	return res
}

func (s *scenario) describe(c *Case) {
	c.logf("r = %s; p = %s; %s; e = %s", strings.Join(s.rArgs, ", "), strings.Join(s.pArgs, ", "), strings.ReplaceAll(s.gdefs(), "\n", "; "), s.effect)
	c.logf("m = %s", s.m)
	for _, r := range s.rules {
		c.logf("%q", r)
	}
	for _, r := range s.links {
		c.logf("%q", r)
	}
}

// definition is one entry of a model
type definition struct {
	sec        byte
	key, value string
}

func (s *scenario) definitions(matcher string) []definition {
	res := []definition{{'r', s.v.rKey, strings.Join(s.rArgs, ", ")}, {'p', s.v.pKey, strings.Join(s.pArgs, ", ")}, {'e', "e" + s.suffix, s.effect}, {'m', "m" + s.suffix, matcher}}
	for _, g := range s.v.g {
		res = append(res, definition{'g', g.key, "_" + strings.Repeat(", _", g.arity-1)})
	}
	return res
}

// build returns an enforcer for the model without any rules
func (s *scenario) build() (*fastac.Enforcer, error) {
	return s.buildWith(s.m.String())
}

func (s *scenario) buildWith(matcher string) (*fastac.Enforcer, error) {
	m := model.NewModel()
	for _, d := range s.definitions(matcher) {
		if err := m.SetDef(d.sec, d.key, d.value); err != nil {
			return nil, err
		}
	}
	m.SetFunction("hasPrefix", func(args ...interface{}) (interface{}, error) {
		return strings.HasPrefix(args[0].(string), args[1].(string)), nil
	})
	if err := m.BuildMatchers(); err != nil {
		return nil, err
	}
	return fastac.NewEnforcer(m, nil)
}

func addAll(t *rapid.T, e *fastac.Enforcer, rules ...[]string) {
	for _, r := range rules {
		if _, err := e.AddRule(clone(r)); err != nil {
			t.Fatalf("AddRule(%q): %v", r, err)
		}
	}
}

// refLinks answers the role functions
type refLinks [][]string

func (l refLinks) has(key string, args []string) (bool, error) {
	cur := map[string]bool{args[0]: true}
	for n := 0; n <= len(l)+1; n++ {
		if cur[args[1]] {
			return true, nil
		}
		next := map[string]bool{}
		for k := range cur {
			next[k] = true
		}
		for _, r := range l {
			if r[0] == key && cur[r[1]] && join(r[3:]) == join(args[2:]) && len(r)-3 == len(args)-2 {
				next[r[2]] = true
			}
		}
		cur = next
	}
	return false, nil
}

func (s *scenario) env(req []interface{}, rule []string, links [][]string) *env {
	v := &env{r: map[string]interface{}{}, p: map[string]string{}, g: refLinks(links).has, fns: refFns()}
	for i, n := range s.rArgs {
		if i < len(req) {
			v.r[n] = req[i]
		}
	}
	for i, n := range s.pArgs {
		v.p[n] = rule[i+1]
	}
	return v
}

func effectOf(s *scenario, rule []string) string {
	for i, n := range s.pArgs {
		if n == "eft" {
			switch rule[i+1] {
			case "", "allow":
				return "allow"
			case "deny":
				return "deny"
			}
			return "indeterminate"
		}
	}
	return "allow"
}

func refMerge(effect string, effects []string) bool {
	allow, deny := false, false
	for _, e := range effects {
		allow = allow || e == "allow"
		deny = deny || e == "deny"
	}
	switch effect {
	case effSome:
		return allow
	case effND:
		return !deny
	case effSND:
		return allow && !deny
	}
	panic("effect")
}

// matching returns the rules for which m holds
func (s *scenario) matching(m *ex, req []interface{}, rules, links [][]string) ([][]string, error) {
	res := [][]string{}
	seen := map[string]bool{}
	for _, r := range rules {
		if seen[keyOf(r)] {
			continue
		}
		seen[keyOf(r)] = true
		v := s.env(req, r, links)
		v.evals = s.evalText
		x, err := m.ev(v)
		if err != nil {
			return nil, err
		}
		if b, ok := x.(bool); ok && b {
			res = append(res, r)
		}
	}
	return res, nil
}

// evalText is set by checks which store expressions in rules
func (s *scenario) evalText(text string, v *env) (interface{}, error) {
	e, ok := evalTexts[text]
	if !ok {
		return nil, errRef
	}
	return e.ev(v)
}

// decide is the reference decision
func (s *scenario) decide(req []interface{}, rules, links [][]string) (bool, [][]string, error) {
	if len(rules) == 0 {
		// a policy without rules is decided by a rule of empty values (as in casbin)
		empty := make([]string, len(s.pArgs)+1)
		m, err := s.matching(s.m, req, [][]string{empty}, links)
		if err != nil {
			return false, nil, err
		}
		effects := []string{}
		if len(m) > 0 {
			effects = append(effects, "allow")
		}
		return refMerge(s.effect, effects), nil, nil
	}
	m, err := s.matching(s.m, req, rules, links)
	if err != nil {
		return false, nil, err
	}
	effects := []string{}
	for _, r := range m {
		effects = append(effects, effectOf(s, r))
	}
	return refMerge(s.effect, effects), m, nil
}
