package harness

import (
	"errors"
	"fmt"
	"path"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---- matcher expressions with a reference semantics
//
// Expressions are generated as trees, rendered to matcher text for FastAC and
// evaluated by ev, which knows nothing about stages, indexes or govaluate.

type ex struct {
	op    string
	kids  []*ex
	s     string
	f     float64
	list  []string
	paren bool                 // redundant brackets
	dq    bool                 // double quotes
	tight bool                 // no blanks around the operator
	out   func(v *env) outcome // op "atom": a clause which may fail
}

func X(op string, kids ...*ex) *ex { return &ex{op: op, kids: kids} }

var evalTexts = map[string]*ex{}

var infix = map[string]string{"and": "&&", "or": "||", "eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=",
	"in": "in", "re": "=~", "nre": "!~", "cat": "+", "add": "+", "sub": "-", "mul": "*", "beq": "==", "bne": "!="}

func prec(op string) int {
	switch op {
	case "tern":
		return 1
	case "or":
		return 2
	case "and":
		return 3
	case "eq", "ne", "lt", "le", "gt", "ge", "in", "re", "nre", "beq", "bne":
		return 4
	case "cat", "add", "sub", "mul":
		return 5
	case "not":
		return 6
	}
	return 9
}

func quoteLit(s string, dq bool) string {
	q := "'"
	if dq {
		q = `"`
	}
	s = strings.ReplaceAll(s, `\`, `\\`)
	s = strings.ReplaceAll(s, `'`, `\'`)
	s = strings.ReplaceAll(s, `"`, `\"`)
	return q + s + q
}

func (e *ex) String() string {
	s := e.raw()
	if e.paren {
		s = "(" + s + ")"
	}
	return s
}

func (e *ex) kid(i int, min int) string {
	k := e.kids[i]
	s := k.String()
	if !k.paren && prec(k.op) < min {
		s = "(" + s + ")"
	}
	return s
}

func (e *ex) raw() string {
	switch e.op {
	case "lit":
		return quoteLit(e.s, e.dq)
	case "ref", "nref", "flag", "atom":
		return e.s
	case "num":
		return strconv.FormatFloat(e.f, 'f', -1, 64)
	case "true", "false":
		return e.op
	case "not":
		return "!" + e.kid(0, 7)
	case "eval":
		return "eval(" + e.s + ")"
	case "evalx": // eval of any expression
		return "eval(" + e.kids[0].String() + ")"
	case "call":
		args := make([]string, len(e.kids))
		for i, k := range e.kids {
			args[i] = k.String()
		}
		sep := ", "
		if e.tight {
			sep = ","
		}
		return e.s + "(" + strings.Join(args, sep) + ")"
	case "tern":
		return e.kid(0, 2) + " ? " + e.kid(1, 2) + " : " + e.kid(2, 2)
	case "in":
		items := []string{}
		for _, k := range e.kids[1:] {
			items = append(items, k.String())
		}
		for _, x := range e.list {
			items = append(items, quoteLit(x, e.dq))
		}
		return e.kid(0, 5) + " in (" + strings.Join(items, ", ") + ")"
	case "and", "or":
		res := e.kid(0, prec(e.op)+1)
		for i := 1; i < len(e.kids); i++ {
			res = glue(res, infix[e.op], e.kid(i, prec(e.op)+1), e.tight)
		}
		return res
	default:
		return glue(e.kid(0, prec(e.op)+1), infix[e.op], e.kid(1, prec(e.op)+1), e.tight && e.op != "sub")
	}
}

// glue omits the blanks around an operator, unless the tokens would be merged
func glue(l, op, r string, tight bool) string {
	if tight && !strings.ContainsRune("!-=~<>&|+*?:", rune(r[0])) {
		return l + op + r
	}
	return l + " " + op + " " + r
}

// env is what an expression is evaluated against
type env struct {
	r     map[string]interface{} // "sub" => value
	p     map[string]string
	g     func(key string, args []string) (bool, error)
	fns   map[string]func(args []interface{}) (interface{}, error)
	evals func(text string, e *env) (interface{}, error) // meaning of eval(text)
}

var errRef = errors.New("reference: evaluation error")

func (v *env) ref(name string) (interface{}, error) {
	parts := strings.Split(name, ".")
	var val interface{}
	var ok bool
	switch parts[0][0] {
	case 'r':
		val, ok = v.r[parts[1]]
	case 'p', 'g':
		val, ok = v.p[parts[1]]
	}
	if !ok {
		return nil, errRef
	}
	for _, f := range parts[2:] {
		rv := reflect.Indirect(reflect.ValueOf(val))
		if rv.Kind() != reflect.Struct || !rv.FieldByName(f).IsValid() {
			return nil, errRef
		}
		val = rv.FieldByName(f).Interface()
	}
	switch n := val.(type) {
	case int:
		return float64(n), nil
	case int8:
		return float64(n), nil
	case int16:
		return float64(n), nil
	case int32:
		return float64(n), nil
	case int64:
		return float64(n), nil
	case uint8:
		return float64(n), nil
	case uint16:
		return float64(n), nil
	case uint32:
		return float64(n), nil
	case uint64:
		return float64(n), nil
	case float32:
		return float64(n), nil
	}
	return val, nil
}

func (e *ex) bools(v *env) ([]bool, error) {
	res := []bool{}
	for _, k := range e.kids {
		x, err := k.ev(v)
		if err != nil {
			return nil, err
		}
		b, ok := x.(bool)
		if !ok {
			return nil, errRef
		}
		res = append(res, b)
	}
	return res, nil
}

func (e *ex) ev(v *env) (interface{}, error) {
	switch e.op {
	case "lit":
		return e.s, nil
	case "num":
		return e.f, nil
	case "true":
		return true, nil
	case "false":
		return false, nil
	case "ref", "nref", "flag":
		return v.ref(e.s)
	case "not":
		b, err := e.bools(v)
		if err != nil {
			return nil, err
		}
		return !b[0], nil
	case "and":
		b, err := e.bools(v)
		if err != nil {
			return nil, err
		}
		for _, x := range b {
			if !x {
				return false, nil
			}
		}
		return true, nil
	case "or":
		b, err := e.bools(v)
		if err != nil {
			return nil, err
		}
		for _, x := range b {
			if x {
				return true, nil
			}
		}
		return false, nil
	case "tern":
		c, err := e.kids[0].ev(v)
		if err != nil {
			return nil, err
		}
		if c.(bool) {
			return e.kids[1].ev(v)
		}
		return e.kids[2].ev(v)
	case "eval":
		x, err := v.ref(e.s)
		if err != nil {
			return nil, err
		}
		return v.evals(x.(string), v)
	case "evalx":
		x, err := e.kids[0].ev(v)
		if err != nil {
			return nil, err
		}
		return v.evals(x.(string), v)
	case "in":
		x, err := e.kids[0].ev(v)
		if err != nil {
			return nil, err
		}
		for _, k := range e.kids[1:] {
			y, err := k.ev(v)
			if err != nil {
				return nil, err
			}
			if x == y {
				return true, nil
			}
		}
		for _, s := range e.list {
			if x == interface{}(s) {
				return true, nil
			}
		}
		return false, nil
	case "call":
		args := []interface{}{}
		for _, k := range e.kids {
			x, err := k.ev(v)
			if err != nil {
				return nil, err
			}
			args = append(args, x)
		}
		if e.s[0] == 'g' && e.s != "globMatch" {
			strs := []string{}
			for _, a := range args {
				s, ok := a.(string)
				if !ok {
					return nil, errRef
				}
				strs = append(strs, s)
			}
			return v.g(e.s, strs)
		}
		fn, ok := v.fns[e.s]
		if !ok {
			return nil, errRef
		}
		return fn(args)
	}
	a, err := e.kids[0].ev(v)
	if err != nil {
		return nil, err
	}
	b, err := e.kids[1].ev(v)
	if err != nil {
		return nil, err
	}
	switch e.op {
	case "eq", "beq":
		return a == b, nil
	case "ne", "bne":
		return a != b, nil
	case "re", "nre":
		x, ok1 := a.(string)
		y, ok2 := b.(string)
		if !ok1 || !ok2 {
			return nil, errRef
		}
		m, err := regexp.MatchString(y, x)
		if err != nil {
			return nil, errRef
		}
		return m == (e.op == "re"), nil
	case "cat":
		return a.(string) + b.(string), nil
	}
	if x, ok := a.(string); ok {
		y, ok := b.(string)
		if !ok {
			return nil, errRef
		}
		switch e.op {
		case "lt":
			return x < y, nil
		case "le":
			return x <= y, nil
		case "gt":
			return x > y, nil
		case "ge":
			return x >= y, nil
		}
	}
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if !ok1 || !ok2 {
		return nil, errRef
	}
	switch e.op {
	case "lt":
		return x < y, nil
	case "le":
		return x <= y, nil
	case "gt":
		return x > y, nil
	case "ge":
		return x >= y, nil
	case "add":
		return x + y, nil
	case "sub":
		return x - y, nil
	case "mul":
		return x * y, nil
	}
	panic("reference: unknown operator " + e.op)
}

// ---- reference implementations of the builtin functions

// refPath: * covers one or more segments, dyn segments exactly one
// refPath: ok[i][j] tells if the path from i on matches the pattern from j on
func refPath(pa, pat []string, dyn func(string) bool) bool {
	ok := make([][]bool, len(pa)+1)
	for i := len(pa); i >= 0; i-- {
		ok[i] = make([]bool, len(pat)+1)
		ok[i][len(pat)] = i == len(pa)
		if i == len(pa) {
			continue
		}
		for j := len(pat) - 1; j >= 0; j-- {
			if pat[j] == "*" { // the last segment it covers, or one more
				ok[i][j] = ok[i+1][j+1] || ok[i+1][j]
			} else {
				ok[i][j] = (pa[i] == pat[j] || dyn(pat[j])) && ok[i+1][j+1]
			}
		}
	}
	return ok[0][0]
}

func dyn1(s string) bool { return len(s) > 0 && s[0] == ':' }
func dyn2(s string) bool { return len(s) > 0 && s[0] == '{' && s[len(s)-1] == '}' }

func refPathMatch(a, b string) bool {
	return refPath(strings.Split(a, "/"), strings.Split(b, "/"), dyn1)
}

func refPathMatch2(a, b string) bool {
	return refPath(strings.Split(a, "/"), strings.Split(b, "/"), dyn2)
}

type refFn = func(args []interface{}) (interface{}, error)

func strFn(fn func(a, b string) (bool, error)) refFn {
	return func(args []interface{}) (interface{}, error) {
		if len(args) != 2 {
			return nil, errRef
		}
		a, ok1 := args[0].(string)
		b, ok2 := args[1].(string)
		if !ok1 || !ok2 {
			return nil, errRef
		}
		r, err := fn(a, b)
		if err != nil {
			return nil, errRef
		}
		return r, nil
	}
}

func refFns() map[string]refFn {
	return map[string]refFn{
		"pathMatch":  strFn(func(a, b string) (bool, error) { return refPathMatch(a, b), nil }),
		"pathMatch2": strFn(func(a, b string) (bool, error) { return refPathMatch2(a, b), nil }),
		"regexMatch": strFn(func(a, b string) (bool, error) { return regexp.MatchString(b, a) }),
		"globMatch":  strFn(func(a, b string) (bool, error) { return path.Match(b, a) }),
		"hasPrefix":  strFn(func(a, b string) (bool, error) { return strings.HasPrefix(a, b), nil }),
	}
}

// ---- generating expressions

type attr struct {
	name string // "sub"
	kind string // str, num, flag, ent
	pool []string
}

type vocab struct {
	r, p  []attr               // attributes of requests and rules (without the effect)
	g     []gdef               // role functions
	funcs []string             // additional functions
	eval  bool                 // p.rule holds an expression
	rKey  string               // "r"
	pKey  string               // "p"
	extra func(t *rapid.T) *ex // additional clauses
}

type gdef struct {
	key   string
	arity int
	col   string // attribute the function is used for
}

func byKind(as []attr, kind string) []attr {
	res := []attr{}
	for _, a := range as {
		if a.kind == kind {
			res = append(res, a)
		}
	}
	return res
}

func find(as []attr, name string) (attr, bool) {
	for _, a := range as {
		if a.name == name {
			return a, true
		}
	}
	return attr{}, false
}

func (v *vocab) rn(a attr) string { return v.rKey + "." + a.name }
func (v *vocab) pn(a attr) string { return v.pKey + "." + a.name }

func style(t *rapid.T, e *ex) *ex {
	k := rapid.IntRange(0, 15).Draw(t, "style")
	e.paren = k == 15 || k == 14
	e.dq = k&1 == 1
	e.tight = k&6 == 6
	return e
}

func (v *vocab) lit(t *rapid.T, pool []string) *ex {
	s := pick(t, "lit", pool...)
	return style(t, &ex{op: "lit", s: s})
}

func ref(s string) *ex { return &ex{op: "ref", s: s} }

// genAtom generates a clause without logical operators
func (v *vocab) genAtom(t *rapid.T) *ex {
	if v.extra != nil && chance(t, "extra", 30) {
		return style(t, v.extra(t))
	}
	type gen func() *ex
	gens := []gen{}
	add := func(n int, g gen) {
		for i := 0; i < n; i++ {
			gens = append(gens, g)
		}
	}
	rs, ps := byKind(v.r, "str"), byKind(v.p, "str")
	cmp := func() string { return pick(t, "cmp", "eq", "eq", "eq", "eq", "ne", "lt", "le", "gt", "ge") }
	if len(ps) > 0 && len(rs) > 0 {
		// r.x == p.x
		add(10, func() *ex {
			a := pick(t, "attr", ps...)
			b, ok := find(v.r, a.name)
			if !ok || b.kind != "str" {
				b = pick(t, "rattr", rs...)
			}
			l, r := ref(v.rn(b)), ref(v.pn(a))
			if chance(t, "flip", 30) {
				l, r = r, l
			}
			return style(t, X(cmp(), l, r))
		})
		add(2, func() *ex {
			return style(t, X(cmp(), ref(v.rn(pick(t, "rattr", rs...))), ref(v.pn(pick(t, "pattr", ps...)))))
		})
		add(2, func() *ex { // a clause with several policy values
			e := X("in", ref(v.rn(pick(t, "rattr", rs...))))
			for i := num(t, "n", 2, 6); i > 0; i-- {
				if i%5 == 0 {
					e.kids = append(e.kids, ref(v.rn(pick(t, "rattr", rs...))))
				} else {
					e.kids = append(e.kids, ref(v.pn(pick(t, "pattr", ps...))))
				}
			}
			if chance(t, "literal", 20) {
				e.list = append(e.list, pick(t, "item", rs[0].pool...))
			}
			return style(t, e)
		})
		add(2, func() *ex {
			e := X("call", ref(v.rn(pick(t, "rattr", rs...))), ref(v.pn(pick(t, "pattr", ps...))))
			e.s = pick(t, "fn", append([]string{"pathMatch", "pathMatch2"}, v.funcs...)...)
			return style(t, e)
		})
		add(1, func() *ex { // concatenation
			a := pick(t, "pattr", ps...)
			return style(t, X(cmp(), X("cat", ref(v.rn(pick(t, "rattr", rs...))), v.lit(t, []string{"", "1", "-"})), ref(v.pn(a))))
		})
	}
	if len(ps) > 0 {
		add(3, func() *ex {
			a := pick(t, "pattr", ps...)
			l, r := ref(v.pn(a)), v.lit(t, a.pool)
			if chance(t, "flip", 30) {
				l, r = r, l
			}
			return style(t, X(cmp(), l, r))
		})
		add(1, func() *ex {
			return style(t, X(cmp(), ref(v.pn(pick(t, "pattr", ps...))), ref(v.pn(pick(t, "pattr", ps...)))))
		})
	}
	if len(rs) > 0 {
		add(3, func() *ex {
			a := pick(t, "rattr", rs...)
			return style(t, X(cmp(), ref(v.rn(a)), v.lit(t, a.pool)))
		})
		add(2, func() *ex {
			a := pick(t, "attr", append(append([]attr{}, rs...), ps...)...)
			name := v.rn(a)
			if _, ok := find(v.p, a.name); ok && chance(t, "p", 50) {
				name = v.pn(a)
			} else if _, ok := find(v.r, a.name); !ok {
				name = v.pn(a)
			}
			e := X("in", ref(name))
			n := num(t, "n", 2, 3)
			for i := 0; i < n; i++ {
				e.list = append(e.list, pick(t, "item", a.pool...))
			}
			return style(t, e)
		})
		add(1, func() *ex {
			a := pick(t, "rattr", rs...)
			pat := pick(t, "regex", "^a", ".*b$", "", "[ab]", `\.`, "^.$", "ali|bob", `^/a/[^/]+$`)
			l := &ex{op: "lit", s: pat}
			switch num(t, "k", 0, 2) {
			case 0:
				return style(t, X("re", ref(v.rn(a)), style(t, l)))
			case 1:
				return style(t, X("nre", ref(v.rn(a)), style(t, l)))
			}
			return style(t, &ex{op: "call", s: "regexMatch", kids: []*ex{ref(v.rn(a)), style(t, l)}})
		})
		add(1, func() *ex {
			a := pick(t, "rattr", rs...)
			pat := pick(t, "glob", "*", "a*", "/a/*", "?", "[ab]*", "*b*", "")
			return style(t, &ex{op: "call", s: "globMatch", kids: []*ex{ref(v.rn(a)), style(t, &ex{op: "lit", s: pat})}})
		})
	}
	for _, g := range v.g {
		g := g
		add(4, func() *ex {
			pa, ok := find(v.p, g.col)
			if !ok {
				pa = pick(t, "pattr", ps...)
			}
			e := &ex{op: "call", s: g.key}
			role := ref(v.pn(pa))
			if chance(t, "literal role", 15) {
				role = v.lit(t, pa.pool)
			}
			e.kids = []*ex{ref(v.rn(attr{name: g.col})), role}
			for i := 2; i < g.arity; i++ {
				d := ref(v.rKey + ".dom")
				if chance(t, "literal domain", 10) {
					dom, _ := find(v.r, "dom")
					d = v.lit(t, dom.pool)
				}
				e.kids = append(e.kids, d)
			}
			return style(t, e)
		})
	}
	for _, a := range byKind(v.r, "num") {
		a := a
		add(2, func() *ex {
			n := func() *ex {
				f := float64(num(t, "num", 0, 3))
				if chance(t, "large", 15) {
					f = pick(t, "large", largeNumbers...)
				}
				return &ex{op: "num", f: f}
			}
			l := &ex{op: "nref", s: v.rn(a)}
			if chance(t, "arith", 40) {
				l = X(pick(t, "aop", "add", "sub", "mul"), l, n())
			}
			return style(t, X(cmp(), l, n()))
		})
	}
	for _, a := range byKind(v.r, "flag") {
		a := a
		add(2, func() *ex { return style(t, &ex{op: "flag", s: v.rn(a)}) })
	}
	for _, a := range byKind(v.r, "ent") {
		a := a
		add(3, func() *ex {
			l := ref(v.rn(a) + "." + pick(t, "field", "Name", "Owner.Name"))
			if len(ps) > 0 && chance(t, "p", 60) {
				return style(t, X(cmp(), l, ref(v.pn(pick(t, "pattr", ps...)))))
			}
			return style(t, X(cmp(), l, v.lit(t, a.pool)))
		})
	}
	if v.eval {
		add(4, func() *ex { return style(t, &ex{op: "eval", s: v.pKey + ".rule"}) })
	}
	add(1, func() *ex { return &ex{op: pick(t, "const", "true", "false")} })
	return gens[num(t, "atom", 0, len(gens)-1)]()
}

// beyond the range of some integer types
var largeNumbers = []float64{127, 128, 255, 256, 32768, 65536, 1 << 31, 1<<32 + 1, 1 << 40, 1 << 53}

func (v *vocab) genBool(t *rapid.T, depth int) *ex {
	if depth <= 0 || chance(t, "leaf", 20) {
		return v.genAtom(t)
	}
	switch num(t, "op", 0, 15) {
	case 0, 1, 2, 3, 4, 5:
		return style(t, &ex{op: "and", kids: v.genBools(t, depth)})
	case 6, 7, 8, 9, 10, 11:
		return style(t, &ex{op: "or", kids: v.genBools(t, depth)})
	case 12, 13:
		return style(t, X("not", v.genBool(t, depth-1)))
	case 14:
		return style(t, X("tern", v.genBool(t, depth-1), v.genBool(t, depth-1), v.genBool(t, depth-1)))
	}
	a, b := v.genBool(t, depth-1), v.genBool(t, depth-1)
	if prec(a.op) == 4 {
		a.paren = true
	}
	if prec(b.op) == 4 {
		b.paren = true
	}
	return style(t, X(pick(t, "beq", "beq", "bne"), a, b))
}

func (v *vocab) genBools(t *rapid.T, depth int) []*ex {
	n := num(t, "n", 2, 3)
	res := []*ex{}
	for i := 0; i < n; i++ {
		res = append(res, v.genBool(t, depth-1))
	}
	return res
}

// genMatcher generates a matcher which refers to at least one policy value
func (v *vocab) genMatcher(t *rapid.T, depth int) *ex {
	e := v.genBool(t, depth)
	for ; e.stages(0) > 2000; depth-- { // the alternatives of (a || b) && (c || d) && ... multiply, there is a limit
		e = v.genBool(t, depth-1)
	}
	if !e.usesPolicy(v.pKey) && (v.pKey != "p" || chance(t, "policy", 80)) {
		ps := byKind(v.p, "str")
		rs := byKind(v.r, "str")
		e = X(pick(t, "join", "and", "or"), X("eq", ref(v.rn(pick(t, "rattr", rs...))), ref(v.pn(pick(t, "pattr", ps...)))), e)
	}
	return e
}

// stages estimates the size of e in disjunctive normal form, rest is the size of what follows
func (e *ex) stages(rest float64) float64 {
	switch e.op {
	case "and":
		for i := len(e.kids) - 1; i >= 0; i-- {
			rest = e.kids[i].stages(rest)
		}
		return rest
	case "or":
		sum := 0.0
		for _, k := range e.kids {
			sum += k.stages(rest)
		}
		return sum
	}
	return 1 + rest
}

func (e *ex) usesPolicy(key string) bool {
	if strings.HasPrefix(e.s, key+".") && (e.op == "ref" || e.op == "eval") {
		return true
	}
	for _, k := range e.kids {
		if k.usesPolicy(key) {
			return true
		}
	}
	return false
}

func (e *ex) has(op string) bool {
	if e.op == op {
		return true
	}
	for _, k := range e.kids {
		if k.has(op) {
			return true
		}
	}
	return false
}

func (e *ex) copy() *ex {
	c := *e
	c.kids = make([]*ex, len(e.kids))
	for i, k := range e.kids {
		c.kids[i] = k.copy()
	}
	return &c
}

var _ = fmt.Sprint
