package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	. "../../../repo/src/util"
	"../mon"
)

// world is a set of keys, in order, and what a trie has for them.
type world struct {
	keys []aKey // in order, distinct
	vals []IValue
	abs  []*aVal
	// keys that had an empty value when it was encoded: they are decoded
	// without a value, but are still there
	empty map[int]bool
}

func newWorld(keys []aKey) *world {
	w := &world{}
	sort.Slice(keys, func(i, j int) bool { return refCompare(keys[i], keys[j]) < 0 })
	for i, k := range keys {
		if i == 0 || refCompare(k, keys[i-1]) != 0 {
			w.keys = append(w.keys, k)
		}
	}
	w.vals = make([]IValue, len(w.keys))
	w.abs = make([]*aVal, len(w.keys))
	return w
}

func (w *world) String() string {
	s := "{"
	for i, k := range w.keys {
		if w.vals[i] != nil {
			s += k.String() + " "
		}
		if len(s) > 600 {
			s += "..."
			break
		}
	}
	return s + "}"
}

func (w *world) hash() uint64 {
	h := uint64(3)
	for i, k := range w.keys {
		if w.vals[i] != nil {
			h = k.hash(h)
		}
	}
	return h
}

func hasPrefix(k, prefix aKey) bool {
	if len(k) < len(prefix) {
		return false
	}
	return refCompare(k[:len(prefix)], prefix) == 0
}

// universes are sets of keys that a history draws from.
var universes = []struct {
	name string
	f    func(r *rand.Rand) []aKey
}{
	{"small", func(r *rand.Rand) []aKey {
		res := []aKey{{}}
		for i := 0; i < 40; i++ {
			res = append(res, smallKey(r, 4, 3))
		}
		return res
	}},
	{"chain", func(r *rand.Rand) []aKey { // prefixes of each other
		k := aKey{}
		res := []aKey{{}}
		for i := 0; i < 1+r.Intn(24); i++ {
			k = append(cpKey(k), randBytes(r, 1+r.Intn(3)))
			res = append(res, k)
			if r.Intn(3) == 0 { // and a fork
				f := append(cpKey(k[:len(k)-1]), randBytes(r, 1+r.Intn(3)))
				res = append(res, f)
			}
		}
		return res
	}},
	{"deep", func(r *rand.Rand) []aKey { // many sub keys, few of them telling keys apart
		res := []aKey{{}}
		top := aKey{}
		for n := []int{33, 66, 130, 260, 520}[r.Intn(5)] + r.Intn(8); n > 0; n-- {
			top = append(top, []byte{byte(r.Intn(2))})
		}
		for i := 0; i < 14; i++ {
			k := cpKey(top)
			switch r.Intn(3) {
			case 0: // above
				k = k[:r.Intn(len(k)+1)]
			case 1: // beside
				j := len(k) - 1 - r.Intn(min(len(k), 40))
				k[j] = []byte{byte(2 + r.Intn(3))}
			}
			for j := r.Intn(3); j > 0; j-- {
				k = append(k, randFull(r, 1))
			}
			res = append(res, k)
		}
		return res
	}},
	{"wide", func(r *rand.Rand) []aKey {
		res := []aKey{{}}
		for i := 0; i < 60; i++ {
			k := aKey{{byte(r.Intn(256))}}
			if r.Intn(3) == 0 {
				k = append(k, []byte{byte(r.Intn(256))})
			}
			res = append(res, k)
		}
		return res
	}},
	{"alike", func(r *rand.Rand) []aKey {
		res := []aKey{}
		for _, k := range alike(r, 40) {
			ok := true
			for _, s := range k {
				ok = ok && len(s) > 0
			}
			if ok {
				res = append(res, k)
			}
		}
		return res
	}},
	{"periodic", func(r *rand.Rand) []aKey { // alike at both ends
		res := []aKey{}
		head := randFull(r, 1+r.Intn(3))
		tail := randFull(r, 1+r.Intn(10))
		for i := 0; i < 25; i++ {
			b := []byte{}
			for j := r.Intn(20); j >= 0; j-- {
				b = append(b, head...)
			}
			if r.Intn(4) > 0 {
				b = append(b, tail...)
			}
			k := aKey{b}
			if len(res) > 0 && r.Intn(3) == 0 {
				k = append(cpKey(res[r.Intn(len(res))]), b)
			}
			if k.size() < 250 {
				res = append(res, k)
			}
		}
		return res
	}},
	{"long", func(r *rand.Rand) []aKey {
		res := []aKey{}
		p := randFull(r, 1+r.Intn(300))
		for i := 0; i < 20; i++ {
			b := cp(p)
			b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
			k := aKey{b[:1+r.Intn(len(b))]}
			if r.Intn(2) == 0 {
				k = append(k, cp(b))
			}
			res = append(res, k, k[:1])
		}
		return res
	}},
	{"long-parts", func(r *rand.Rand) []aKey { // sub keys longer than any key that can be encoded
		res := []aKey{{{1}}}
		base := randFull(r, []int{1000, 4090, 4096, 5000, 9000, 20000, 33000, 65536, 70000}[r.Intn(9)]+r.Intn(20))
		for i := 0; i < 7; i++ {
			b := cp(base)
			switch r.Intn(4) {
			case 0:
				b = append(b, randBytes(r, 1+r.Intn(3))...)
			case 1:
				b = b[:len(b)-1-r.Intn(min(len(b)-1, 1<<uint(r.Intn(17))))]
			case 2:
				b[len(b)-1-r.Intn(5)] ^= byte(1 << uint(r.Intn(8)))
			case 3:
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
			}
			k := aKey{b}
			if r.Intn(3) == 0 {
				k = append(cpKey(res[r.Intn(len(res))]), b)
			}
			if k.size() < 200000 {
				res = append(res, k)
			}
		}
		return res
	}},
	{"very-long", func(r *rand.Rand) []aKey { return longAlike(r, 7) }},
}

// fewer is how many cases of a universe there are: those with very long keys take
// their time.
func fewer(name string, n, by int) int {
	if name == "very-long" || name == "long-parts" {
		return max(1, n/by)
	}
	return n
}

func (w *world) key(c *mon.Case, i int) IKey {
	if w.keys[i].size() > maxKey { // can be neither encoded nor decoded
		if c.R.Intn(2) == 0 {
			return buildKey(w.keys[i]).Copy().(IKey)
		}
		return buildKey(w.keys[i])
	}
	return keyForm(c, w.keys[i], keyForms[c.R.Intn(len(keyForms))])
}

// set changes one key, and judges what is returned.
func (w *world) set(c *mon.Case, t *Trie, i int, a *aVal) {
	var v IValue
	if a != nil {
		v = build(a)
		c.Evf("set", "%v", w.keys[i])
	} else {
		c.Evf("clear", "%v", w.keys[i])
		if w.vals[i] == nil {
			c.Ev("clear-missing")
		}
	}
	old := t.Set(w.key(c, i), v)
	if w.vals[i] != nil && a != nil {
		c.Ev("replace")
	}
	if old != w.vals[i] {
		c.Failf("set-old", "Set of %v returns %v, want what was there, %v; content %v", w.keys[i], old, w.vals[i], w)
	}
	w.vals[i], w.abs[i] = v, a
}

func (w *world) checkAll(c *mon.Case, t *Trie) {
	for i, k := range w.keys {
		got := t.Get(w.key(c, i))
		c.Ev("get")
		if got != w.vals[i] {
			c.Failf("get", "Get of %v gives %v, want %v; content %v", k, got, w.vals[i], w)
		}
	}
}

func smallVal(r *rand.Rand) *aVal {
	switch r.Intn(8) {
	case 0:
		return genVal(r, 1, 40)
	case 1:
		return &aVal{kind: 'a', vals: []*aVal{{kind: 'p', data: []byte("x")}}}
	}
	return &aVal{kind: 'p', data: randBytes(r, 1+r.Intn(4))}
}

// giantKeys are many keys below one node, and a few deeper ones: counts of
// children beyond 2^16, offsets beyond 2^20.
func giantKeys(r *rand.Rand, n int) []aKey {
	base := smallKey(r, 3, 2)
	keys := []aKey{}
	for i := 0; i < n; i++ {
		k := append(cpKey(base), []byte{byte(i >> 16), byte(i >> 8), byte(i)})
		if r.Intn(50) == 0 {
			k = append(k, randFull(r, 1+r.Intn(3)))
		}
		keys = append(keys, k)
	}
	return keys
}

func u18(x *mon.Ctx) {
	x.Rule("distinct contents (sets of stored keys) reached, and distinct histories")
	for _, u := range universes {
		u := u
		x.Stream("history-"+u.name, fewer(u.name, x.N(700, 30000), 6), func(c *mon.Case) {
			w := newWorld(u.f(c.R))
			t := NewTrie()
			h := mon.HashStr(u.name)
			bias := c.R.Intn(3)
			for step := 20 + c.R.Intn(100); step > 0; step-- {
				i := c.R.Intn(len(w.keys))
				var a *aVal
				if c.R.Intn(4) > bias {
					a = smallVal(c.R)
				}
				if step < 15 { // down to nothing
					a = nil
				}
				w.set(c, t, i, a)
				h = mon.Mix(h, uint64(i), hb(a == nil))
				c.State(w.hash())
				if c.R.Intn(4) == 0 {
					w.checkAll(c, t)
				}
				if c.R.Intn(20) == 0 { // encoding leaves it as it is
					t.Encode(nil)
					c.Ev("encode")
				}
			}
			for i := range w.keys {
				if c.R.Intn(2) == 0 {
					w.set(c, t, i, nil)
				}
			}
			w.checkAll(c, t)
			// keys that are not even prefixes
			for i := 0; i < 10; i++ {
				k := append(cpKey(w.keys[c.R.Intn(len(w.keys))]), []byte("no such sub key"))
				if k.size() > maxKey {
					continue
				}
				if v := t.Get(buildKey(k)); v != nil {
					c.Failf("get", "Get of %v gives %v", k, v)
				}
				if v := t.Set(buildKey(k), nil); v != nil {
					c.Failf("set-old", "clearing %v returns %v", k, v)
				}
				c.Ev("absent")
			}
			w.checkAll(c, t)
			c.Nontrivial(h)
			c.Desc("history over %d keys (%s), in the end %v", len(w.keys), u.name, w)
		})
	}
	// all histories over a few keys
	tiny := []aKey{{}, {{1}}, {{1}, {2}}, {{1}, {2}, {3}}, {{2}}}
	n, depth := 1, 0
	for n*10 <= x.N(10000, 100000) {
		n, depth = n*10, depth+1
	}
	x.Stream("all-histories", n/100, func(c *mon.Case) {
		for j := 0; j < 100; j++ {
			code := c.Index*100 + j
			w := newWorld(append([]aKey{}, tiny...))
			t := NewTrie()
			for s, rest := 0, code; s < depth; s, rest = s+1, rest/10 {
				var a *aVal
				if rest%10 >= 5 {
					a = &aVal{kind: 'p', data: []byte{byte(s), 1}}
				}
				w.set(c, t, rest%5, a)
				w.checkAll(c, t)
			}
			c.Nontrivial(mon.Mix(uint64(code), 18))
		}
		c.Desc("histories number %d to %d of %d over 5 keys", c.Index*100, c.Index*100+99, n)
	})
	x.Stream("large", x.N(8, 80), func(c *mon.Case) {
		keys := []aKey{}
		for i := 0; i < 4000; i++ {
			k := aKey{}
			for j := c.R.Intn(7); j > 0; j-- {
				k = append(k, randFull(c.R, 1+c.R.Intn(2)*c.R.Intn(2)))
			}
			keys = append(keys, k)
		}
		deep := aKey{}
		for i := 0; i < 200; i++ {
			deep = append(cpKey(deep), []byte{byte(i)})
			keys = append(keys, deep)
		}
		w := newWorld(keys)
		t := NewTrie()
		for i := range w.keys {
			w.set(c, t, i, &aVal{kind: 'p', data: []byte{byte(i), byte(i >> 8)}})
		}
		w.checkAll(c, t)
		for _, i := range c.R.Perm(len(w.keys)) {
			if c.R.Intn(3) > 0 {
				w.set(c, t, i, nil)
			}
		}
		w.checkAll(c, t)
		for _, i := range c.R.Perm(len(w.keys)) {
			w.set(c, t, i, nil)
		}
		w.checkAll(c, t)
		c.Nontrivial(mon.Mix(w.keys[5].hash(1), uint64(len(w.keys))))
		c.Desc("%d keys", len(w.keys))
	})
	x.Stream("giant", x.N(1, 6), func(c *mon.Case) {
		w := newWorld(giantKeys(c.R, 66000+c.R.Intn(9000)))
		t := NewTrie()
		perm := c.R.Perm(len(w.keys))
		for _, i := range perm {
			w.set(c, t, i, &aVal{kind: 'p', data: []byte{byte(i), byte(i >> 8), byte(i >> 16)}})
		}
		w.checkAll(c, t)
		for j, i := range perm {
			if j%3 > 0 {
				w.set(c, t, i, nil)
			}
		}
		w.checkAll(c, t)
		c.X.Max("children", int64(len(w.keys)))
		c.Nontrivial(mon.Mix(w.keys[5].hash(1), uint64(len(w.keys))))
		c.Desc("%d keys below one node", len(w.keys))
	})
}

// ---------------------------------------------------------------- U19

// iterJudge judges an iterator, with a mix of calls, against the keys from
// lo to below hi, and those that are below a key.
func (w *world) iterJudge(c *mon.Case, it ITrieIterator, what string, in func(k aKey) bool, same func(i int, v IValue) string) int {
	want := []int{}
	for i, k := range w.keys {
		if w.vals[i] != nil && in(k) {
			want = append(want, i)
		}
	}
	ancestor := func(k aKey) bool {
		if len(k) == 0 {
			return true
		}
		for i := sort.Search(len(w.keys), func(i int) bool { return refCompare(w.keys[i], k) >= 0 }); i < len(w.keys) && hasPrefix(w.keys[i], k); i++ {
			if w.vals[i] != nil || w.empty[i] {
				return true
			}
		}
		return false
	}
	at, yielded := 0, 0
	var last aKey
	for steps := 0; ; steps++ {
		if steps > 40*(len(w.keys)+20)*8 {
			c.Failf("iterator-endless", "%s does not end; content %v", what, w)
		}
		var has, hasKnown bool
		var pk IKey
		var pv IValue
		peeked := false
		for q := c.R.Intn(4); q > 0; q-- {
			if c.R.Intn(2) == 0 {
				h := it.HasNext()
				c.Ev("hasnext")
				if hasKnown && h != has {
					c.Failf("iterator-unstable", "%s: HasNext says %v, then %v", what, has, h)
				}
				has, hasKnown = h, true
			} else {
				k, v := it.Peek()
				c.Ev("peek")
				if peeked && ((k == nil) != (pk == nil) || k != nil && !k.Equal(pk) || v != pv) {
					c.Failf("iterator-unstable", "%s: Peek gives %v, then %v", what, pk, k)
				}
				pk, pv, peeked = k, v, true
			}
		}
		k, v := it.Next()
		c.Ev("next")
		if hasKnown && has != (k != nil) {
			c.Failf("iterator-disagrees", "%s: HasNext says %v, Next gives %v", what, has, k)
		}
		if peeked && ((k == nil) != (pk == nil) || k != nil && !k.Equal(pk) || v != pv) {
			c.Failf("iterator-disagrees", "%s: Peek gives %v, Next gives %v", what, pk, k)
		}
		if k == nil {
			if v != nil {
				c.Failf("iterator-end", "%s: a value without a key", what)
			}
			break
		}
		yielded++
		key := aKey(k.Key())
		if last != nil && refCompare(last, key) >= 0 {
			c.Failf("iterator-order", "%s: %v after %v; content %v", what, key, last, w)
		}
		last = cpKey(key)
		if v == nil {
			c.Ev("valueless")
			if !in(key) {
				c.Failf("iterator-outside", "%s yields %v, outside; content %v", what, key, w)
			}
			if !ancestor(key) {
				c.Failf("iterator-spurious", "%s yields %v, which has no value, nor has any key below it; content %v", what, key, w)
			}
			continue
		}
		if at >= len(want) {
			c.Failf("iterator-extra", "%s yields %v after all of %d keys; content %v", what, key, len(want), w)
		}
		if d := diffKey(k, w.keys[want[at]]); d != "" {
			c.Failf("iterator-key", "%s yields %v, want %v (%s); content %v", what, key, w.keys[want[at]], d, w)
		}
		if d := same(want[at], v); d != "" {
			c.Failf("iterator-value", "%s at %v: %s", what, key, d)
		}
		c.Ev("yielded")
		at++
	}
	if at != len(want) {
		c.Failf("iterator-missing", "%s ends after %d of %d keys, before %v; content %v", what, at, len(want), w.keys[want[at]], w)
	}
	for i := 0; i < 4; i++ { // it stays exhausted
		c.Ev("exhausted")
		var k IKey
		var v IValue
		switch c.R.Intn(3) {
		case 0:
			if it.HasNext() {
				c.Failf("iterator-end", "%s: HasNext after the end", what)
			}
		case 1:
			k, v = it.Next()
		case 2:
			k, v = it.Peek()
		}
		if k != nil || v != nil {
			c.Failf("iterator-end", "%s: %v after the end", what, k)
		}
	}
	return yielded
}

// iterAll judges iterators over the whole trie, from keys, and over ranges.
func (w *world) iterAll(c *mon.Case, t iterable, name string, probes []aKey, all bool, same func(i int, v IValue) string) {
	any := func(aKey) bool { return true }
	w.iterJudge(c, t.Iterator(), name+" Iterator()", any, same)
	w.iterJudge(c, t.KeyIterator(nil), name+" KeyIterator(nil)", any, same)
	w.iterJudge(c, t.RangeIterator(nil, nil), name+" RangeIterator(nil, nil)", any, same)
	c.EvN("iterate", 3)
	form := func(a aKey) IKey { return keyForm(c, a, keyForms[c.R.Intn(len(keyForms))]) }
	for _, p := range probes {
		if !all && c.R.Intn(3) > 0 {
			continue
		}
		p := p
		w.iterJudge(c, t.KeyIterator(form(p)), fmt.Sprintf("%s KeyIterator(%v)", name, p), func(k aKey) bool { return hasPrefix(k, p) }, same)
		c.Ev("key-iterate")
		w.iterJudge(c, t.RangeIterator(form(p), nil), fmt.Sprintf("%s RangeIterator(%v, nil)", name, p), func(k aKey) bool { return refCompare(k, p) >= 0 }, same)
		w.iterJudge(c, t.RangeIterator(nil, form(p)), fmt.Sprintf("%s RangeIterator(nil, %v)", name, p), func(k aKey) bool { return refCompare(k, p) < 0 }, same)
		c.EvN("range", 2)
		for _, q := range probes {
			q := q
			if refCompare(p, q) > 0 || !all && c.R.Intn(6) > 0 {
				continue
			}
			c.Ev("range")
			w.iterJudge(c, t.RangeIterator(form(p), form(q)), fmt.Sprintf("%s RangeIterator(%v, %v)", name, p, q), func(k aKey) bool { return refCompare(k, p) >= 0 && refCompare(k, q) < 0 }, same)
		}
	}
}

// probes are bounds: stored keys, and keys between and around them.
func (w *world) probes(r *rand.Rand, n int) []aKey {
	res := []aKey{{}}
	for len(res) < n {
		k := cpKey(w.keys[r.Intn(len(w.keys))])
		switch r.Intn(7) {
		case 0:
			k = append(k, []byte{byte(r.Intn(3))})
		case 1:
			if len(k) > 0 {
				k = k[:len(k)-1]
			}
		case 2:
			if len(k) > 0 {
				i := len(k) - 1
				k[i][len(k[i])-1]++
			}
		case 3:
			if len(k) > 0 {
				i := r.Intn(len(k))
				k[i] = append(k[i], 0)
			}
		}
		if k.size() <= maxKey {
			res = append(res, k)
		}
	}
	return res
}

func (w *world) fill(c *mon.Case, t *Trie, density int) {
	for i := range w.keys {
		if c.R.Intn(4) < density {
			w.set(c, t, i, smallVal(c.R))
		}
	}
	for i := range w.keys { // holes
		if c.R.Intn(4) == 0 {
			w.set(c, t, i, nil)
		}
	}
}

func (w *world) identical(i int, v IValue) string {
	if v != w.vals[i] {
		return "another value"
	}
	return ""
}

func (w *world) content(c *mon.Case) func(i int, v IValue) string {
	return func(i int, v IValue) string { return diffVal(c, v, canonVal(w.abs[i]), true) }
}

// dropNil forgets empty values, which are decoded as none.
func (w *world) dropNil() *world {
	d := &world{keys: w.keys, vals: append([]IValue{}, w.vals...), abs: w.abs, empty: map[int]bool{}}
	for i, a := range d.abs {
		if d.vals[i] != nil && a.isNil() {
			d.empty[i] = true
			d.vals[i] = nil
		}
	}
	return d
}

func u19(x *mon.Ctx) {
	x.Rule("distinct contents (sets of stored keys) that were iterated")
	decode := func(c *mon.Case, t *Trie) *MappedTrie {
		c.Check(t.Encode(nil) == nil, "trie-encode", "encoding fails")
		m, _, err := NewMappedTrie(follow(c.R, t.Buf()))
		c.Check(err == nil, "trie-decode", "decoding: %v", err)
		return m
	}
	// all contents over few keys, all bounds
	tiny := []aKey{{}, {{1}}, {{1}, {2}}, {{1}, {2}, {3}}, {{1}, {4}}, {{2}}, {{2}, {1}, {1}}, {{1, 1}}}
	bounds := append([]aKey{{{0}}, {{1}, {1}}, {{1}, {2}, {2}}, {{1}, {3}}, {{1, 0}}, {{2}, {1}}, {{2}, {2}}, {{3}}}, tiny...)
	x.Stream("all-contents", 1<<uint(len(tiny)), func(c *mon.Case) {
		w := newWorld(append([]aKey{}, tiny...))
		t := NewTrie()
		for i := range w.keys {
			if c.Index>>uint(i)&1 != 0 {
				w.set(c, t, i, &aVal{kind: 'p', data: []byte{byte(i), 9}})
			}
		}
		c.State(w.hash())
		c.Nontrivial(w.hash())
		w.iterAll(c, t, "trie", bounds, true, w.identical)
		w.iterAll(c, decode(c, t), "decoded trie", bounds, true, w.content(c))
		c.Desc("%v, all pairs of %d bounds", w, len(bounds))
	})
	for _, u := range universes {
		u := u
		x.Stream("random-"+u.name, fewer(u.name, x.N(110, 5000), 20), func(c *mon.Case) {
			w := newWorld(u.f(c.R))
			t := NewTrie()
			w.fill(c, t, 1+c.R.Intn(3))
			c.State(w.hash())
			c.Nontrivial(w.hash())
			p := w.probes(c.R, 14)
			w.iterAll(c, t, "trie", p, false, w.identical)
			d := w.dropNil()
			d.iterAll(c, decode(c, t), "decoded trie", p, false, d.content(c))
			// changed after all that
			for i := 0; i < 8; i++ {
				w.set(c, t, c.R.Intn(len(w.keys)), nil)
				w.set(c, t, c.R.Intn(len(w.keys)), smallVal(c.R))
			}
			w.iterAll(c, t, "changed trie", p[:6], false, w.identical)
			c.Desc("%v", w)
		})
	}
	x.Stream("large", x.N(6, 60), func(c *mon.Case) {
		keys := []aKey{}
		for i := 0; i < 1500; i++ {
			k := aKey{}
			for j := c.R.Intn(6); j > 0; j-- {
				k = append(k, []byte{byte(c.R.Intn(7))})
			}
			keys = append(keys, k)
		}
		w := newWorld(keys)
		t := NewTrie()
		w.fill(c, t, 3)
		c.Nontrivial(w.hash())
		w.iterAll(c, t, "trie", w.probes(c.R, 6), false, w.identical)
		d := w.dropNil()
		d.iterAll(c, decode(c, t), "decoded trie", w.probes(c.R, 6), false, d.content(c))
		c.Desc("%d keys", len(w.keys))
	})
}

// ---------------------------------------------------------------- U20

func (w *world) roundTrip(c *mon.Case, t *Trie, truncate bool) {
	err := t.Encode(nil)
	c.Ev("encode")
	c.Check(err == nil, "trie-encode", "encoding: %v; content %v", err, w)
	c.Check(t.IsEncoded(), "trie-flags", "trie is not encoded after Encode")
	enc := c.Hold("an encoded trie", t.Buf())
	buf := follow(c.R, enc)
	c.Hold("the buffer decoded", buf)
	m, n, err := NewMappedTrie(buf)
	c.Ev("decode")
	c.Check(err == nil, "trie-decode", "decoding: %v; content %v, encoding %s", err, w, short(enc))
	c.Check(n == len(enc) && bytes.Equal(m.Buf(), enc), "trie-consumed", "decoding the %d bytes of a trie followed by %d others consumed %d, and keeps %d; content %v", len(enc), len(buf)-len(enc), n, len(m.Buf()), w)
	if again(c, m, len(enc)) {
		c.Check(bytes.Equal(m.Buf(), enc), "trie-consumed", "decoding again changes the bytes of a trie")
	}
	d := w.dropNil()
	same := d.content(c)
	look := func(m *MappedTrie) {
		for _, i := range order(c.R, len(d.keys)) {
			v := m.Get(d.key(c, i))
			c.Ev("get")
			if (v == nil) != (d.vals[i] == nil) {
				c.Failf("trie-content", "decoded trie has a value for %v: %v, want %v; content %v", d.keys[i], v != nil, d.vals[i] != nil, w)
			}
			if v != nil {
				if x := same(i, v); x != "" {
					c.Failf("trie-content", "decoded trie at %v: %s", d.keys[i], x)
				}
			}
		}
		for i := 0; i < 4; i++ {
			k := append(cpKey(d.keys[c.R.Intn(len(d.keys))]), []byte("absent"))
			if v := m.Get(buildKey(k)); v != nil {
				c.Failf("trie-content", "decoded trie has a value for %v", k)
			}
		}
	}
	look(m)
	d.iterJudge(c, m.Iterator(), "decoded trie Iterator()", func(aKey) bool { return true }, same)
	if c.R.Intn(3) == 0 {
		look(m.Copy().(*MappedTrie))
		c.Ev("copied")
	}
	p := d.probes(c.R, 3)
	for _, a := range p {
		a := a
		d.iterJudge(c, m.KeyIterator(buildKey(a)), fmt.Sprintf("decoded trie KeyIterator(%v)", a), func(k aKey) bool { return hasPrefix(k, a) }, same)
		d.iterJudge(c, m.RangeIterator(buildKey(a), nil), fmt.Sprintf("decoded trie RangeIterator(%v, nil)", a), func(k aKey) bool { return refCompare(k, a) >= 0 }, same)
	}
	// encoding again gives the same
	c.Check(t.Encode(nil) == nil && bytes.Equal(t.Buf(), enc), "trie-reencode", "encoding again gives other bytes; content %v", w)
	if truncate {
		for _, i := range order(c.R, len(enc)) {
			_, _, err := NewMappedTrie(enc[:i:i])
			c.Ev("truncated")
			if err == nil {
				c.Failf("trie-truncated", "%d of the %d bytes of a trie decode without an error; content %v, encoding %x", i, len(enc), w, short(enc))
			}
		}
	}
}

func u20(x *mon.Ctx) {
	x.Rule("distinct contents (sets of stored keys) that were encoded and decoded")
	foreignTries(x)
	reused(x, x.N(100, 2000), "trie")
	for _, u := range universes {
		u := u
		x.Stream("history-"+u.name, fewer(u.name, x.N(500, 20000), 40), func(c *mon.Case) {
			w := newWorld(u.f(c.R))
			t := NewTrie()
			for round := 0; round < 3; round++ {
				if round == 0 {
					if c.Index > 0 {
						w.fill(c, t, 1+c.R.Intn(3))
					}
				} else {
					for j := c.R.Intn(6); j >= 0; j-- {
						i := c.R.Intn(len(w.keys))
						switch c.R.Intn(3) {
						case 0:
							w.set(c, t, i, nil)
						case 1:
							w.set(c, t, i, genVal(c.R, 2, 200))
						default: // a value that is stored changes
							if w.vals[i] != nil && changeVal(c, w.vals[i], w.abs[i]) {
								c.Ev("change-value")
							}
						}
					}
				}
				c.Nontrivial(mon.Mix(w.hash(), uint64(round)))
				c.State(w.hash())
				w.roundTrip(c, t, c.R.Intn(4) == 0)
			}
			c.Desc("%s: in the end %v", u.name, w)
		})
	}
	tiny := []aKey{{}, {{1}}, {{1}, {2}}, {{1}, {2}, {3}}, {{1}, {4}}, {{2}}, {{2}, {1}, {1}}, {{1, 1}}}
	x.Stream("all-contents", 1<<uint(len(tiny)), func(c *mon.Case) {
		w := newWorld(append([]aKey{}, tiny...))
		t := NewTrie()
		for i := range w.keys {
			if c.Index>>uint(i)&1 != 0 {
				w.set(c, t, i, &aVal{kind: 'p', data: randBytes(c.R, c.R.Intn(4))})
			}
		}
		w.roundTrip(c, t, true)
		for i := range w.keys { // and one by one to nothing
			w.set(c, t, i, nil)
			w.roundTrip(c, t, false)
		}
		c.Nontrivial(mon.Mix(uint64(c.Index), 20))
		c.Desc("content number %d, all truncations", c.Index)
	})
	// values that do not fit are refused, and replaced
	x.Stream("refused", x.N(30, 500), func(c *mon.Case) {
		w := newWorld(universes[0].f(c.R))
		t := NewTrie()
		w.fill(c, t, 2)
		i := c.R.Intn(len(w.keys))
		big := &aVal{kind: 'p', data: make([]byte, 65536+c.R.Intn(3))}
		if c.R.Intn(2) == 0 {
			big = &aVal{kind: 'a', vals: []*aVal{{kind: 'p', data: make([]byte, 60000)}, {kind: 'p', data: make([]byte, 6000)}}}
		}
		w.set(c, t, i, big)
		c.Check(t.Encode(nil) != nil, "trie-too-large", "a trie with a value of %v is encoded", big)
		c.Ev("refused")
		w.set(c, t, i, &aVal{kind: 'p', data: []byte("fits")})
		w.roundTrip(c, t, false)
		c.Nontrivial(w.hash())
		c.Desc("a value that does not fit at %v", w.keys[i])
	})
	// offsets of all sizes
	x.Stream("large", x.N(16, 160), func(c *mon.Case) {
		keys := []aKey{}
		n := []int{60, 300, 1200}[c.R.Intn(3)]
		for i := 0; i < n; i++ {
			k := aKey{}
			for j := c.R.Intn(6); j > 0; j-- {
				k = append(k, randFull(c.R, 1+c.R.Intn(3)))
				if len(keys) > 0 && c.R.Intn(2) == 0 {
					k = append(cpKey(keys[c.R.Intn(len(keys))]), k...)
				}
			}
			if k.size() < 200 {
				keys = append(keys, k)
			}
		}
		w := newWorld(keys)
		t := NewTrie()
		size := []int{3, 200, 3000}[c.R.Intn(3)]
		if c.Index == 0 {
			size = 20000 // beyond 2^21
		}
		for i := range w.keys {
			w.set(c, t, i, &aVal{kind: 'p', data: randBytes(c.R, 1+c.R.Intn(size))})
		}
		w.roundTrip(c, t, false)
		c.X.Max("encoded-bytes", int64(len(t.Buf())))
		for i := 0; i < 20; i++ {
			w.set(c, t, c.R.Intn(len(w.keys)), nil)
		}
		w.roundTrip(c, t, false)
		c.Nontrivial(w.hash())
		c.Desc("%d keys with values of up to %d bytes", len(w.keys), size)
	})
	x.Stream("giant", x.N(1, 6), func(c *mon.Case) {
		w := newWorld(giantKeys(c.R, 66000+c.R.Intn(9000)))
		t := NewTrie()
		for _, i := range c.R.Perm(len(w.keys)) {
			w.set(c, t, i, &aVal{kind: 'p', data: []byte{byte(i), byte(i >> 8), byte(i >> 16), 7}})
		}
		w.roundTrip(c, t, false)
		c.X.Max("children", int64(len(w.keys)))
		c.X.Max("encoded-bytes", int64(len(t.Buf())))
		c.Nontrivial(w.hash())
		c.Desc("%d keys below one node", len(w.keys))
	})
	// offsets beyond 2^24
	x.Stream("huge", x.N(1, 4), func(c *mon.Case) {
		keys := []aKey{}
		for i := 0; i < 300; i++ {
			k := aKey{{byte(i), byte(i >> 8)}}
			for j := c.R.Intn(3); j >= 0; j-- {
				k = append(k, randFull(c.R, 1))
			}
			keys = append(keys, k)
		}
		w := newWorld(keys)
		t := NewTrie()
		for i := range w.keys {
			w.set(c, t, i, &aVal{kind: 'p', data: randFull(c.R, 65000)})
		}
		w.roundTrip(c, t, false)
		c.X.Max("encoded-bytes", int64(len(t.Buf())))
		c.Nontrivial(w.hash())
		c.Desc("%d keys with values of 65000 bytes", len(w.keys))
	})
}
