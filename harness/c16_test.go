package harness

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"pgregory.net/rapid"
)

// lru is the reference: a list of entries, the most recently used one first
type lru struct {
	capacity int
	keys     []interface{}
	values   []interface{}
}

func (l *lru) find(key interface{}) int {
	for i, k := range l.keys {
		if k == key {
			return i
		}
	}
	return -1
}

func (l *lru) front(key, value interface{}) {
	if i := l.find(key); i >= 0 {
		l.keys = append(l.keys[:i], l.keys[i+1:]...)
		l.values = append(l.values[:i], l.values[i+1:]...)
	}
	l.keys = append([]interface{}{key}, l.keys...)
	l.values = append([]interface{}{value}, l.values...)
	if len(l.keys) > l.capacity {
		l.keys, l.values = l.keys[:l.capacity], l.values[:l.capacity]
	}
}

func (l *lru) Get(key interface{}) (interface{}, bool) {
	if i := l.find(key); i >= 0 {
		v := l.values[i]
		l.front(key, v)
		return v, true
	}
	return nil, false
}

func (l *lru) Put(key, value interface{}) { l.front(key, value) }

type cache interface {
	Get(key interface{}) (interface{}, bool)
	Put(key, value interface{})
}

type cacheOp struct {
	put        bool
	key, value interface{}
}

func (o cacheOp) String() string {
	if o.put {
		return fmt.Sprintf("Put(%#v, %#v)", o.key, o.value)
	}
	return fmt.Sprintf("Get(%#v)", o.key)
}

func TestC16_History(t *testing.T) {
	check(t, 5000, "random histories of Get and Put with few keys of several types and capacities from 0 to 6; afterwards every key is looked up in a cache with the same history; non-trivial: an entry was evicted and a key was put twice or read before", func(t *rapid.T, c *Case) {
		capacity := num(t, "capacity", 0, 6)
		pool := []interface{}{"a", "b", "c", "", 1, 2, int64(1), 1.0, [2]string{"a", "b"}, [2]string{"ab", ""}, nil, true, struct{ s string }{"a"}}
		pool = pool[:num(t, "keys", 2, len(pool))]
		ops := []cacheOp{}
		c.logf("capacity %d", capacity)
		for i := num(t, "ops", 1, 30); i > 0; i-- {
			o := cacheOp{put: chance(t, "put", 55), key: pool[num(t, "key", 0, len(pool)-1)]}
			if o.put {
				o.value = pick(t, "value", interface{}(i), interface{}(nil), interface{}(true), interface{}(false), interface{}("v"))
			}
			ops = append(ops, o)
			c.logf("%v", o)
		}
		sync := chance(t, "sync", 50)
		c.labelIf(sync, "SyncLRUCache")
		start := func() cache {
			if sync {
				return util.NewSyncLRUCache(capacity)
			}
			return util.NewLRUCache(capacity)
		}
		play := func(x cache) {
			for _, o := range ops {
				if o.put {
					x.Put(o.key, o.value)
				} else {
					x.Get(o.key)
				}
			}
		}
		x, ref := start(), &lru{capacity: capacity}
		used := map[interface{}]bool{}
		evicted, again := false, false
		for i, o := range ops {
			if o.put {
				again = again || ref.find(o.key) >= 0
				used[o.key] = true
				x.Put(o.key, o.value)
				ref.Put(o.key, o.value)
				evicted = evicted || len(ref.keys) < len(used)
				continue
			}
			again = again || ref.find(o.key) >= 0
			gv, gok := x.Get(o.key)
			wv, wok := ref.Get(o.key)
			if gv != wv || gok != wok {
				t.Fatalf("operation %d, %v = %v, %v, want %v, %v\n%s", i, o, gv, gok, wv, wok, c.desc.String())
			}
		}
		c.nt(evicted && again)
		count := 0
		for _, k := range pool {
			y := start()
			play(y)
			gv, gok := y.Get(k)
			i := ref.find(k)
			if gok != (i >= 0) || gok && gv != ref.values[i] {
				t.Fatalf("afterwards, Get(%#v) = %v, %v, want %v (cache %v)\n%s", k, gv, gok, i >= 0, ref.keys, c.desc.String())
			}
			if gok {
				count++
			}
		}
		if count > capacity {
			t.Fatalf("%d entries\n%s", count, c.desc.String())
		}
		// the order of the entries decides which ones are evicted next
		for n := 1; n <= len(ref.keys); n++ {
			y := start()
			play(y)
			for j := 0; j < n; j++ {
				y.Put(fmt.Sprint("new", j), j)
			}
			for i := len(ref.keys) - 1; i >= 0; i-- {
				if _, ok := y.Get(ref.keys[i]); ok != (len(ref.keys)-i > n-(capacity-len(ref.keys))) {
					t.Fatalf("after %d new keys, Get(%#v) = %v (cache %v)\n%s", n, ref.keys[i], ok, ref.keys, c.desc.String())
				}
			}
		}
	})
}

// a role manager with far more names and patterns than its match cache holds
func TestC16_RoleManager(t *testing.T) {
	check(t, 60, "role and domain managers with up to 300 pairs of names and patterns (the match cache holds 100), queried in random order, before and after another matcher was set; non-trivial: more pairs than the cache holds", func(t *rapid.T, c *Case) {
		type matching struct {
			name  string
			match func(s, p string) bool
		}
		ms := []matching{
			{"prefix", func(s, p string) bool { return strings.HasPrefix(s, p[1:]) }},
			{"suffix", func(s, p string) bool { return strings.HasSuffix(s, p[1:]) }},
			{"contains", func(s, p string) bool { return strings.Contains(s, p[1:]) }},
			{"longer", func(s, p string) bool { return len(s) > len(p) }},
		}
		is := func(s string) bool { return strings.HasPrefix(s, "~") }
		k := num(t, "matcher", 0, 3)
		first, second := ms[k], ms[(k+num(t, "other", 1, 3))%4]
		c.logf("%s, then %s", first.name, second.name)
		names, pats := []string{}, []string{}
		for i := num(t, "names", 10, 30); i > 0; i-- {
			n := rapid.StringOfN(rapid.RuneFrom([]rune("ab0,$")), 1, 5, -1).Draw(t, "name")
			names = append(names, n)
		}
		for i := num(t, "patterns", 2, 10); i > 0; i-- {
			pats = append(pats, "~"+rapid.StringOfN(rapid.RuneFrom([]rune("ab0,$")), 0, 3, -1).Draw(t, "pattern"))
		}
		c.logf("%q %q", names, pats)
		c.nt(len(names)*len(pats) > 100)
		domains := chance(t, "domains", 50)
		c.labelIf(domains, "domains")
		rm, dm := rbac.NewRoleManager(5), rbac.NewDomainManager(5)
		set := func(m matching) {
			// the roles themselves match no pattern
			im := util.NewMatcher(is, func(s, p string) bool { return !strings.HasPrefix(s, "\x00") && m.match(s, p) })
			if domains {
				dm.SetDomainMatcher(im)
			} else {
				rm.SetMatcher(im)
			}
		}
		set(first)
		for _, p := range pats {
			var err error
			if domains {
				_, err = dm.AddLink("user", "role of "+p, p)
			} else {
				_, err = rm.AddLink(p, "\x00role of "+p)
			}
			must(t, err)
		}
		verify := func(m matching) {
			for i := 0; i < 200; i++ {
				n, p := names[num(t, "n", 0, len(names)-1)], pats[num(t, "p", 0, len(pats)-1)]
				var got bool
				var err error
				if domains {
					got, err = dm.HasLink("user", "role of "+p, n)
				} else {
					got, err = rm.HasLink(n, "\x00role of "+p)
				}
				if want := m.match(n, p); err != nil || got != want {
					t.Fatalf("%s: %q matches %q: %v, %v, want %v\n%s", m.name, n, p, got, err, want, c.desc.String())
				}
			}
		}
		verify(first)
		set(second)
		verify(second)
	})
}

func TestC16_Large(t *testing.T) {
	check(t, 100, "up to 4000 operations on caches with a capacity of up to 300, with keys used often and seldom; every Get against the list of entries; non-trivial: 100 or more entries were evicted, and capacity 7 or more", func(t *rapid.T, c *Case) {
		rnd := rand.New(rand.NewSource(int64(num(t, "seed", 0, 1<<30))))
		capacity := big(t, "capacity", 1, 300)
		keys := capacity + big(t, "more keys", 1, 100)
		puts := big(t, "percentage of puts", 5, 90)
		var x cache = util.NewLRUCache(capacity)
		if chance(t, "sync", 50) {
			x = util.NewSyncLRUCache(capacity)
		}
		ops := big(t, "operations", 200, 4000)
		c.logf("capacity %d, %d keys, %d operations, %d%% puts", capacity, keys, ops, puts)
		ref := &lru{capacity: capacity}
		known, evicted := map[int]bool{}, 0
		for i := 0; i < ops; i++ {
			k := rnd.Intn(keys)
			if rnd.Intn(3) == 0 { // some keys are used often
				k %= 1 + keys/5
			}
			if rnd.Intn(100) < puts {
				if known[k] && ref.find(k) < 0 {
					evicted++
				}
				known[k] = true
				x.Put(k, i)
				ref.Put(k, i)
				continue
			}
			gv, gok := x.Get(k)
			wv, wok := ref.Get(k)
			if gv != wv || gok != wok {
				t.Fatalf("operation %d, Get(%d) = %v, %v, want %v, %v\n%s", i, k, gv, gok, wv, wok, c.desc.String())
			}
		}
		count := 0
		for i := len(ref.keys) - 1; i >= 0; i-- { // the oldest one first, the order becomes reversed
			if v, ok := x.Get(ref.keys[i]); !ok || v != ref.values[i] {
				t.Fatalf("afterwards, Get(%v) = %v, %v, want %v\n%s", ref.keys[i], v, ok, ref.values[i], c.desc.String())
			}
		}
		for k := 0; k < keys; k++ {
			if _, ok := x.Get(k); ok {
				count++
			}
		}
		if count != len(ref.keys) {
			t.Fatalf("%d entries, want %d\n%s", count, len(ref.keys), c.desc.String())
		}
		c.nt(evicted >= 100 && capacity >= 7)
	})
}
