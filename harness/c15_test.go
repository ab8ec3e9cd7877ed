package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/netip"
	"path"
	"regexp"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"pgregory.net/rapid"
)

// ---- regular expressions with a reference matcher of their own

// rx is a regular expression; ends returns all positions at which a match starting at i may end
type rx struct {
	text string
	ends func(s []rune, i int) map[int]bool
}

func one(i int) map[int]bool { return map[int]bool{i: true} }

func rxSeq(xs ...rx) rx {
	text := ""
	for _, x := range xs {
		text += x.text
	}
	return rx{text, func(s []rune, i int) map[int]bool {
		cur := one(i)
		for _, x := range xs {
			next := map[int]bool{}
			for j := range cur {
				for k := range x.ends(s, j) {
					next[k] = true
				}
			}
			cur = next
		}
		return cur
	}}
}

func rxRepeat(x rx, op string) rx {
	min, max := 0, -1
	switch op {
	case "+":
		min = 1
	case "?":
		max = 1
	case "{2}":
		min, max = 2, 2
	case "{1,2}":
		min, max = 1, 2
	}
	return rx{"(" + x.text + ")" + op, func(s []rune, i int) map[int]bool {
		res, cur := map[int]bool{}, one(i)
		for n := 0; ; n++ {
			if n >= min {
				grown := false
				for j := range cur {
					grown = grown || !res[j]
					res[j] = true
				}
				if !grown && n > len(s)+2 {
					return res
				}
			}
			if n == max || len(cur) == 0 || n > 2*len(s)+4 {
				return res
			}
			next := map[int]bool{}
			for j := range cur {
				for k := range x.ends(s, j) {
					next[k] = true
				}
			}
			cur = next
		}
	}}
}

func rxRune(text string, in func(r rune) bool) rx {
	return rx{text, func(s []rune, i int) map[int]bool {
		if i < len(s) && in(s[i]) {
			return one(i + 1)
		}
		return nil
	}}
}

func genRx(t *rapid.T, depth int) rx {
	n := 9
	if depth <= 0 {
		n = 5
	}
	switch num(t, "rx", 0, n) {
	case 0, 1, 2:
		r := pick(t, "rune", 'a', 'b', '/', '1', 'ü', '.', '*', '+', '(', '[', ' ', '-', '$', '^', '\\', '|', '{', '?', ')', 'A')
		return rxRune(regexp.QuoteMeta(string(r)), func(x rune) bool { return x == r })
	case 3:
		return rxRune(".", func(r rune) bool { return r != '\n' })
	case 4:
		switch num(t, "class", 0, 9) {
		case 4:
			return rxRune("[$^.]", func(r rune) bool { return r == '$' || r == '^' || r == '.' })
		case 5:
			return rxRune(`\s`, func(r rune) bool { return r == ' ' || r == '\n' })
		case 6:
			return rxRune("(?i:A)", func(r rune) bool { return r == 'a' || r == 'A' })
		case 7:
			return rxRune("(?s:.)", func(r rune) bool { return true })
		case 8:
			return rxRune(`[^\\\]|]`, func(r rune) bool { return r != '\\' && r != ']' && r != '|' })
		case 0:
			return rxRune("[a-c]", func(r rune) bool { return r >= 'a' && r <= 'c' })
		case 1:
			return rxRune("[^/]", func(r rune) bool { return r != '/' })
		case 2:
			return rxRune(`\d`, func(r rune) bool { return r >= '0' && r <= '9' })
		case 3:
			return rxRune(`[0-9ü]`, func(r rune) bool { return r >= '0' && r <= '9' || r == 'ü' })
		}
		return rxRune(`\w`, func(r rune) bool {
			return r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_'
		})
	case 5:
		if chance(t, "boundary", 15) {
			word := func(s []rune, i int) bool {
				return i >= 0 && i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] == '_')
			}
			return rx{`\b`, func(s []rune, i int) map[int]bool {
				if word(s, i-1) != word(s, i) {
					return one(i)
				}
				return nil
			}}
		}
		if chance(t, "line", 15) {
			return rx{"(?m:$)", func(s []rune, i int) map[int]bool {
				if i == len(s) || s[i] == '\n' {
					return one(i)
				}
				return nil
			}}
		}
		if chance(t, "start", 50) {
			return rx{pick(t, "anchor", "^", "^", `\A`), func(s []rune, i int) map[int]bool {
				if i == 0 {
					return one(0)
				}
				return nil
			}}
		}
		return rx{pick(t, "anchor", "$", "$", `\z`), func(s []rune, i int) map[int]bool {
			if i == len(s) {
				return one(i)
			}
			return nil
		}}
	case 6, 7:
		xs := []rx{}
		for i := num(t, "n", 2, 3); i > 0; i-- {
			xs = append(xs, genRx(t, depth-1))
		}
		return rxSeq(xs...)
	case 8:
		a, b := genRx(t, depth-1), genRx(t, depth-1)
		return rx{"(" + a.text + "|" + b.text + ")", func(s []rune, i int) map[int]bool {
			res := map[int]bool{}
			for _, x := range []rx{a, b} {
				for j := range x.ends(s, i) {
					res[j] = true
				}
			}
			return res
		}}
	}
	return rxRepeat(genRx(t, depth-1), pick(t, "repeat", "*", "+", "?", "{2}", "{1,2}"))
}

func (x rx) search(s string) bool {
	rs := []rune(s)
	for i := 0; i <= len(rs); i++ {
		if len(x.ends(rs, i)) > 0 {
			return true
		}
	}
	return false
}

var subject = rapid.StringOfN(rapid.RuneFrom([]rune("aabbc//1ü.*+([ -\n_X$^\\|{?)]A")), 0, 6, -1)

func TestC15_Regex(t *testing.T) {
	check(t, 12000, "random regular expressions (sequences, alternatives, repetitions, classes, anchors) and subjects, against a matcher of sets of positions; directly, as function and as RegexMatcher; non-trivial: the expression is longer than one literal", func(t *rapid.T, c *Case) {
		x := genRx(t, 3)
		if chance(t, "alternatives", 15) { // not in brackets
			a, b := x, genRx(t, 2)
			x = rx{a.text + "|" + b.text, func(s []rune, i int) map[int]bool {
				res := map[int]bool{}
				for _, x := range []rx{a, b} {
					for j := range x.ends(s, i) {
						res[j] = true
					}
				}
				return res
			}}
		}
		s := subject.Draw(t, "subject")
		c.logf("regexMatch(%q, %q)", s, x.text)
		want := x.search(s)
		c.nt(len(x.text) > 3)
		c.labelIf(want, "regex match")
		if got := util.RegexMatch(s, x.text); got != want {
			t.Fatalf("RegexMatch = %v, want %v\n%s", got, want, c.desc.String())
		}
		got, err := util.RegexMatchFunc(s, x.text)
		if err != nil || got != interface{}(want) {
			t.Fatalf("RegexMatchFunc = %v, %v, want %v\n%s", got, err, want, c.desc.String())
		}
		if got := util.RegexMatcher.Match(s, "p'"+x.text); got != want {
			t.Fatalf("RegexMatcher = %v, want %v\n%s", got, want, c.desc.String())
		}
		if bad := pick(t, "invalid pattern", "(", "[", "*", "a**", `\`, "(?<", "a{2,1}", ")"); util.RegexMatcher.Match(s, "p'"+bad) || util.RegexMatcher.Match(bad, "p'"+bad) {
			t.Fatalf("RegexMatcher matches %q\n%s", bad, c.desc.String())
		}
		if util.RegexMatcher.Match(s, x.text) {
			t.Fatalf("RegexMatcher matches a string without prefix\n%s", c.desc.String())
		}
	})
}

// ---- IP addresses

type addr struct {
	v4   bool
	bits [16]byte // IPv4 addresses use the first four bytes
}

func (a addr) size() int {
	if a.v4 {
		return 32
	}
	return 128
}

func (a addr) bit(i int) byte { return a.bits[i/8] >> (7 - i%8) & 1 }

func (a addr) flip(i int) addr {
	a.bits[i/8] ^= 1 << (7 - i%8)
	return a
}

func (a addr) text(t *rapid.T) string {
	b := a.bits
	if a.v4 {
		dotted := fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3])
		switch num(t, "form", 0, 5) {
		case 0:
			return "::ffff:" + dotted
		case 1:
			return fmt.Sprintf("::ffff:%x:%x", int(b[0])<<8|int(b[1]), int(b[2])<<8|int(b[3]))
		}
		return dotted
	}
	switch num(t, "form", 0, 3) {
	case 0:
		return netip.AddrFrom16(b).String()
	case 1:
		return strings.ToUpper(netip.AddrFrom16(b).String())
	case 2:
		parts := []string{}
		for i := 0; i < 16; i += 2 {
			parts = append(parts, fmt.Sprintf("%x", int(b[i])<<8|int(b[i+1])))
		}
		return strings.Join(parts, ":")
	}
	return netip.AddrFrom16(b).StringExpanded()
}

func genAddr(t *rapid.T) addr {
	a := addr{v4: chance(t, "v4", 60)}
	n := a.size() / 8
	for i := 0; i < n; i++ {
		a.bits[i] = pick(t, "byte", 0, 0, 1, 10, 127, 128, 192, 255, byte(num(t, "any", 0, 255)))
	}
	if !a.v4 {
		a.bits[0] |= 0x20 // neither mapped nor unspecified
	}
	return a
}

var badIP = []string{"", "x", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4/33", "10.0.0.0/", "/8", "10.0.0.0/-1", "::g", "1.2.3.4 ", " 1.2.3.4", "2001:db8::/129", "10.0.0/8", "01.2.3.4", "1::2::3", "10.0.0.0/8/8", "1.2.3.4:80", "*"}

func TestC15_IP(t *testing.T) {
	check(t, 12000, "random IPv4, mapped and IPv6 addresses in several notations against addresses and networks that differ in a chosen bit, containment computed bit by bit; invalid addresses; non-trivial: a network against an address of the same family", func(t *rapid.T, c *Case) {
		a := genAddr(t)
		b := a
		differs := -1
		switch num(t, "relation", 0, 4) {
		case 0, 1, 2:
			differs = num(t, "bit", 0, a.size()-1)
			b = a.flip(differs)
			for i := num(t, "more", 0, 3); i > 0; i-- {
				if k := num(t, "bit", 0, a.size()-1); k > differs {
					b = b.flip(k)
				}
			}
		case 3:
			b = genAddr(t)
		}
		x, y := a.text(t), ""
		want := a == b
		if chance(t, "network", 70) {
			n := num(t, "bits", 0, b.size())
			if differs >= 0 && chance(t, "near", 60) {
				n = differs + num(t, "offset", 0, 1)
			}
			y = b.text(t)
			bits := n
			if b.v4 && strings.Contains(y, ":") {
				bits += 96
			}
			y += fmt.Sprintf("/%d", bits)
			want = a.v4 == b.v4
			for i := 0; i < n && want; i++ {
				want = a.bit(i) == b.bit(i)
			}
			c.nt(a.v4 == b.v4)
			c.labelIf(want, "contained")
		} else {
			y = b.text(t)
		}
		invalid := chance(t, "invalid", 10)
		if invalid {
			bad := pick(t, "invalid address", badIP...)
			if chance(t, "first", 50) {
				x = pick(t, "network as address", bad, "10.0.0.0/8")
			} else {
				y = bad
			}
		}
		c.logf("ipMatch(%q, %q)", x, y)
		var got bool
		p := catch(func() { got = util.IPMatch(x, y) })
		// from a matcher
		s := &scenario{v: &vocab{rKey: "r", pKey: "p"}, rArgs: []string{"ip"}, pArgs: []string{"ip"}, effect: effSome}
		e, err := s.buildWith("ipMatch(r.ip, p.ip)")
		must(t, err)
		addAll(t, e, []string{"p", y})
		ok, err := e.Enforce(x)
		rules, ferr := e.Filter(x)
		if invalid {
			if p == nil {
				t.Fatalf("IPMatch = %v, although an address is invalid\n%s", got, c.desc.String())
			}
			if err == nil || ok || ferr == nil || len(rules) > 0 {
				t.Fatalf("Enforce = %v, %v; Filter = %q, %v, although an address is invalid\n%s", ok, err, rules, ferr, c.desc.String())
			}
			return
		}
		if p != nil || got != want {
			t.Fatalf("IPMatch = %v, panic %v, want %v\n%s", got, p, want, c.desc.String())
		}
		if err != nil || ok != want || ferr != nil || (len(rules) == 1) != want {
			t.Fatalf("Enforce = %v, %v; Filter = %q, %v, want %v\n%s", ok, err, rules, ferr, want, c.desc.String())
		}
	})
}

// ---- globs

type globToken struct {
	text string
	kind byte // c(haracter), s(tar), q(uestion mark)
	in   func(r rune) bool
}

func genGlob(t *rapid.T) []globToken {
	res := []globToken{}
	for i := num(t, "tokens", 0, 6); i > 0; i-- {
		switch num(t, "token", 0, 9) {
		case 0, 1:
			res = append(res, globToken{"*", 's', nil})
		case 2:
			res = append(res, globToken{"?", 'q', nil})
		case 3:
			res = append(res, pick(t, "class",
				globToken{"[ab]", 'c', func(r rune) bool { return r == 'a' || r == 'b' }},
				globToken{"[a-c]", 'c', func(r rune) bool { return r >= 'a' && r <= 'c' }},
				globToken{"[^a/]", 'c', func(r rune) bool { return r != 'a' && r != '/' }},
				globToken{"[*]", 'c', func(r rune) bool { return r == '*' }},
				globToken{`[\]-]`, 'c', nil},
				globToken{"[0-9ü]", 'c', func(r rune) bool { return r >= '0' && r <= '9' || r == 'ü' }}))
			if res[len(res)-1].in == nil {
				res[len(res)-1] = globToken{`[\]a]`, 'c', func(r rune) bool { return r == ']' || r == 'a' }}
			}
		case 4:
			r := pick(t, "escaped", '*', '?', '[', '\\', 'a')
			res = append(res, globToken{`\` + string(r), 'c', func(x rune) bool { return x == r }})
		default:
			r := pick(t, "literal", 'a', 'b', 'c', '/', '/', '1', 'ü', ' ', ']', '-', '.')
			res = append(res, globToken{string(r), 'c', func(x rune) bool { return x == r }})
		}
	}
	return res
}

func globMatches(g []globToken, s []rune) bool {
	if len(g) == 0 {
		return len(s) == 0
	}
	if g[0].kind == 's' {
		for i := 0; ; i++ {
			if globMatches(g[1:], s[i:]) {
				return true
			}
			if i == len(s) || s[i] == '/' {
				return false
			}
		}
	}
	if len(s) == 0 || g[0].kind == 'q' && s[0] == '/' || g[0].kind == 'c' && !g[0].in(s[0]) {
		return false
	}
	return globMatches(g[1:], s[1:])
}

func genSubject(t *rapid.T, g []globToken) string {
	if chance(t, "any", 20) {
		return subject.Draw(t, "subject")
	}
	res := ""
	for _, x := range g {
		switch x.kind {
		case 's':
			res += pick(t, "star", "", "a", "ab", "1", "a/b", "/")
		case 'q':
			res += pick(t, "question", "a", "ü", "/", "")
		default:
			for _, r := range "abc/1ü*?[\\]-. x" {
				if x.in(r) && chance(t, "take", 70) {
					res += string(r)
					break
				}
			}
		}
	}
	if chance(t, "more", 15) {
		res += pick(t, "rest", "a", "/", "/a")
	}
	return res
}

func TestC15_Glob(t *testing.T) {
	check(t, 10000, "random globs (stars, question marks, classes, escapes) and subjects derived from them, against a matcher on tokens; malformed globs; non-trivial: the glob has a special token", func(t *rapid.T, c *Case) {
		g := genGlob(t)
		pattern := ""
		special := false
		for _, x := range g {
			pattern += x.text
			special = special || len(x.text) > 1 || x.kind != 'c'
		}
		s := genSubject(t, g)
		if chance(t, "malformed", 8) {
			pattern += pick(t, "malformed", "[", "[a", `\`, "[]", "[a-", "[^", "[a-]")
			c.logf("globMatch(%q, %q)", s, pattern)
			if got, err := util.GlobMatch(s, pattern); got || err == nil {
				t.Fatalf("GlobMatch = %v, %v with a malformed pattern\n%s", got, err, c.desc.String())
			}
			if got, err := util.GlobMatchFunc(s, pattern); err == nil || got == interface{}(true) {
				t.Fatalf("GlobMatchFunc = %v, %v with a malformed pattern\n%s", got, err, c.desc.String())
			}
			return
		}
		c.logf("globMatch(%q, %q)", s, pattern)
		want := globMatches(g, []rune(s))
		c.nt(special)
		c.labelIf(want, "glob match")
		if got, err := util.GlobMatch(s, pattern); err != nil || got != want {
			t.Fatalf("GlobMatch = %v, %v, want %v\n%s", got, err, want, c.desc.String())
		}
		if got, err := util.GlobMatchFunc(s, pattern); err != nil || got != interface{}(want) {
			t.Fatalf("GlobMatchFunc = %v, %v, want %v\n%s", got, err, want, c.desc.String())
		}
	})
}

// ---- prefixes

func TestC15_Prefix(t *testing.T) {
	check(t, 4000, "random prefixes, names and patterns; the matching function records what it is given; non-trivial: the prefix is not empty and occurs in the pattern more than once", func(t *rapid.T, c *Case) {
		prefix := pick(t, "prefix", "p'", "", "re:", "ü", "a", "aa", "~", "p'p'", "\x00", "regex ")
		word := func(label string) string {
			w := pick(t, label, "", "a", "ab", "x/y", prefix, prefix+prefix, "P'", strings.ToUpper(prefix))
			if len(prefix) > 1 && chance(t, "part", 20) {
				return prefix[:len(prefix)-1] + w
			}
			return w
		}
		name, rest := word("name"), word("rest")
		p := rest
		if chance(t, "pattern", 70) {
			p = prefix + rest
		}
		c.logf("prefix %q, name %q, pattern %q", prefix, name, p)
		c.nt(prefix != "" && strings.Count(p, prefix) > 1)
		calls := [][2]string{}
		answer := chance(t, "answer", 50)
		m := util.NewPrefixMatcher(prefix, func(s, p string) bool { calls = append(calls, [2]string{s, p}); return answer })
		is := len(p) >= len(prefix) && p[:len(prefix)] == prefix
		if m.IsPattern(p) != is {
			t.Fatalf("IsPattern = %v, want %v\n%s", m.IsPattern(p), is, c.desc.String())
		}
		got := m.Match(name, p)
		if got != (is && answer) {
			t.Fatalf("Match = %v, want %v\n%s", got, is && answer, c.desc.String())
		}
		for _, x := range calls {
			if x != [2]string{name, p[len(prefix):]} {
				t.Fatalf("the matching function was asked for %q\n%s", x, c.desc.String())
			}
		}
		if is && len(calls) == 0 || !is && len(calls) > 0 {
			t.Fatalf("the matching function was called %d times\n%s", len(calls), c.desc.String())
		}
		// as role matcher; the prefix is nothing a role has
		if !is || strings.HasPrefix(name, prefix) || strings.HasPrefix("\x01role", prefix) {
			return
		}
		rest = p[len(prefix):]
		rm := rbac.NewRoleManager(5)
		rm.SetMatcher(util.NewPrefixMatcher(prefix, func(s, p string) bool { return answer && s == name && p == rest }))
		_, err := rm.AddLink(p, "\x01role")
		must(t, err)
		if has, err := rm.HasLink(name, "\x01role"); err != nil || has != answer {
			t.Fatalf("HasLink(%q) = %v, %v, want %v\n%s", name, has, err, answer, c.desc.String())
		}
	})
}

// ---- calls from a matcher

func TestC15_Calls(t *testing.T) {
	check(t, 5000, "the matching functions called from a matcher with zero to three arguments of several types, valid and invalid patterns, alone or joined with other clauses; non-trivial: the call is not valid", func(t *rapid.T, c *Case) {
		fn := pick(t, "fn", "pathMatch", "pathMatch2", "regexMatch", "ipMatch", "globMatch")
		values := map[string]interface{}{"r.s": pick[interface{}](t, "r.s", "/a/b", "10.1.2.3", "a", "", "x[", "::1", 1, 2.5, true, nil, []string{"a"}, newEntity("a", "b"), net.ParseIP("10.1.2.3"), time.Second, []byte("a"), errors.New("a"), json.Number("1"), new(string)), "p.s": pick(t, "p.s", "/a/*", "/a/:x", "/{a}/b", "10.0.0.0/8", "[", "(", "a*", "", "^a", "::1", `\`)}
		args := []string{}
		for i := pick(t, "n", 2, 2, 2, 2, 0, 1, 3); i > 0; i-- {
			args = append(args, pick(t, "arg", "r.s", "r.s", "p.s", "p.s", "'/a/b'", "'[a-c]'", "'('", "'10.0.0.1'", "1", "true", "1.5 + 1", "r.s + 'x'", "p.s == 'a'"))
		}
		call := fn + "(" + strings.Join(args, ", ") + ")"
		want, werr := false, false
		vals := []interface{}{}
		for _, a := range args {
			switch {
			case a == "r.s" || a == "p.s":
				vals = append(vals, values[a])
			case a[0] == '\'':
				vals = append(vals, a[1:len(a)-1])
			case a == "r.s + 'x'":
				s, ok := values["r.s"].(string)
				if !ok {
					return // the meaning of adding other types is up to govaluate
				}
				vals = append(vals, s+"x")
			default:
				vals = append(vals, 1.0)
			}
		}
		a, ok1 := "", false
		b, ok2 := "", false
		if len(vals) == 2 {
			a, ok1 = vals[0].(string)
			b, ok2 = vals[1].(string)
		}
		if !ok1 || !ok2 {
			werr = true
		} else if !utf8.ValidString(a + b) {
			return
		} else {
			switch fn {
			case "pathMatch":
				want = refPathMatch(a, b)
			case "pathMatch2":
				want = refPathMatch2(a, b)
			case "regexMatch":
				re, err := regexp.Compile(b)
				werr = err != nil
				want = err == nil && re.MatchString(a)
			case "globMatch":
				m, err := path.Match(b, a)
				want, werr = m, err != nil
			case "ipMatch":
				x, err := netip.ParseAddr(a)
				n, err2 := netip.ParsePrefix(b)
				y, err3 := netip.ParseAddr(b)
				werr = err != nil || err2 != nil && err3 != nil
				want = !werr && (err2 == nil && n.Contains(x) || err3 == nil && x == y)
			}
		}
		c.logf("%s, r.s = %#v, p.s = %q", call, values["r.s"], values["p.s"])
		c.nt(werr)
		m := pick(t, "matcher", "%s", "%s && p.t == 'x'", "p.t == 'x' && %s", "r.t == p.t && %s", "p.t == 'y' || %s")
		c.logf("m = %s", m)
		s := &scenario{v: &vocab{rKey: "r", pKey: "p"}, rArgs: []string{"s", "t"}, pArgs: []string{"s", "t"}, effect: effSome}
		e, err := s.buildWith(strings.Replace(m, "%s", call, 1))
		if err != nil {
			if !werr {
				t.Fatalf("the matcher is refused: %v\n%s", err, c.desc.String())
			}
			return
		}
		addAll(t, e, []string{"p", values["p.s"].(string), "x"})
		ok, err := e.Enforce(values["r.s"], "x")
		rules, ferr := e.Filter(values["r.s"], "x")
		if werr {
			if ok || err == nil || len(rules) > 0 || ferr == nil {
				t.Fatalf("Enforce = %v, %v; Filter = %q, %v, want an error\n%s", ok, err, rules, ferr, c.desc.String())
			}
		} else if ok != want || err != nil || ferr != nil || (len(rules) == 1) != want {
			t.Fatalf("Enforce = %v, %v; Filter = %q, %v, want %v\n%s", ok, err, rules, ferr, want, c.desc.String())
		}
	})
}
