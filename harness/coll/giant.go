package main

import (
	"fmt"
	"math/bits"
	"math/rand"

	. "../../../repo/src/collection"
	"../mon"
)

// Contents of hundreds of thousands of entries: sizes at which a wrong cap, a
// narrow counter or a lost rebalance shows, driven without the per-call trace.

// giantModel is the finite map of a giant: values by key, -1 for absent.
type giantModel struct {
	val  []int32
	size int
	seq  int32
}

func newGiantModel(n int) *giantModel {
	m := &giantModel{val: make([]int32, n)}
	for i := range m.val {
		m.val[i] = -1
	}
	return m
}

func (m *giantModel) put(i int) (old, now int32) {
	old = m.val[i]
	if old < 0 {
		m.size++
	}
	m.seq++
	m.val[i] = m.seq
	return old, m.seq
}

func (m *giantModel) remove(i int) int32 {
	old := m.val[i]
	if old >= 0 {
		m.size--
	}
	m.val[i] = -1
	return old
}

// giantOrder calls f with all of 0..n-1 in some order.
func giantOrder(r *rand.Rand, n, pat int, f func(i int)) {
	switch pat {
	case 0:
		for i := 0; i < n; i++ {
			f(i)
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			f(i)
		}
	case 2: // from both ends
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			f(i)
			if i != j {
				f(j)
			}
		}
	case 3: // bit reversed
		w := uint(bits.Len(uint(n)))
		for i := 0; i < 1<<w; i++ {
			if j := int(bits.Reverse64(uint64(i)) >> (64 - w)); j < n {
				f(j)
			}
		}
	default:
		for _, i := range r.Perm(n) {
			f(i)
		}
	}
}

const giantOrders = 5

// giantMap is what the two kinds of maps and sets have in common.
type giantMap struct {
	name   string
	put    func(i int, v IObject) (IObject, bool) // what was stored; false for sets, which return keys
	get    func(i int) (IObject, bool)
	remove func(i int) IObject
	size   func() int
	set    bool
}

// drive grows, replaces, shrinks and grows again, comparing each result with the
// model; after each call cost is told how it went.
func (g *giantMap) drive(c *mon.Case, n int, key func(interface{}) int, after func(op string, size int), phase func(name string, size int)) {
	m := newGiantModel(n)
	stored := func(op string, i int, got IObject, old int32) {
		switch {
		case old < 0:
			c.Check(IsNil(got), op+"-absent", "%s of absent key %d at %d entries returned %v (%s)", op, i, m.size, got, g.name)
		case g.set:
			c.Check(!IsNil(got) && key(got) == i, op+"-key", "%s of key %d at %d entries returned %v (%s)", op, i, m.size, got, g.name)
		default:
			v, ok := got.(int32)
			c.Check(ok && v == old, op+"-value", "%s of key %d at %d entries returned %v, stored was %v (%s)", op, i, m.size, got, old, g.name)
		}
		s := g.size()
		c.Check(s == m.size, "size", "size is %d, model holds %d (%s)", s, m.size, g.name)
		after(op, m.size)
	}
	puts, gets, removes := 0, 0, 0
	put := func(i int) {
		old, now := m.put(i)
		got, _ := g.put(i, now)
		puts++
		stored("put", i, got, old)
	}
	get := func(i int) {
		got, found := g.get(i)
		gets++
		want := m.val[i]
		c.Check(found == (want >= 0), "get-found", "lookup of key %d at %d entries found: %v, stored: %v (%s)", i, m.size, found, want >= 0, g.name)
		if found && !g.set {
			v, ok := got.(int32)
			c.Check(ok && v == want, "get-value", "lookup of key %d at %d entries returned %v, stored is %v (%s)", i, m.size, got, want, g.name)
		}
		after("get", m.size)
	}
	remove := func(i int) {
		old := m.remove(i)
		got := g.remove(i)
		removes++
		stored("remove", i, got, old)
	}
	some := func(name string) {
		for k := 0; k < n/2; k++ {
			get(c.R.Intn(n))
		}
		phase(name, m.size)
	}
	p := []int{c.R.Intn(giantOrders), c.R.Intn(giantOrders), c.R.Intn(giantOrders)}
	c.Desc("%s, %d keys, orders %v", g.name, n, p)
	last := 0
	giantOrder(c.R, n, p[0], func(i int) {
		put(i)
		if m.size&(m.size-1) == 0 || m.size-last > n/8 { // around every power of two
			last = m.size
			for k := 0; k < 40; k++ {
				get(c.R.Intn(n))
			}
			phase("", m.size)
		}
	})
	phase("growing", m.size)
	for i := 0; i < n; i++ {
		get(i)
	}
	phase("lookup of all", m.size)
	for k := 0; k < n/8; k++ {
		put(c.R.Intn(n))
	}
	phase("replacing", m.size)
	stop := c.R.Intn(n / 16)
	giantOrder(c.R, n, p[1], func(i int) {
		if m.size > stop {
			remove(i)
		}
	})
	phase("shrinking", m.size)
	some("lookup after shrinking")
	giantOrder(c.R, n, p[2], func(i int) { put(i) })
	phase("growing again", m.size)
	for i := 0; i < n; i++ {
		get(i)
	}
	phase("lookup of all again", m.size)
	for k := 0; k < n/4; k++ {
		switch c.R.Intn(3) {
		case 0:
			remove(c.R.Intn(n))
		case 1:
			put(c.R.Intn(n))
		default:
			get(c.R.Intn(n))
		}
	}
	phase("mixed", m.size)
	c.EvN("put", puts)
	c.EvN("get", gets)
	c.EvN("remove", removes)
	c.Evf("giant", "%s up to %d entries", g.name, n)
	c.Nontrivial(mon.Mix(uint64(n), uint64(p[0]*100+p[1]*10+p[2]), mon.HashStr(g.name)))
	c.X.Max("max-entries", int64(n))
}

func giantSorted(c *mon.Case, cnt *counters) (*giantMap, func(interface{}) int, *SortedMap, *SortedSet) {
	key := func(i int) IComparable { return &IntKey{v: i, n: cnt} }
	id := func(k interface{}) int {
		if t, ok := k.(*IntKey); ok {
			return t.v
		}
		return -2
	}
	if c.R.Intn(3) == 0 {
		s := NewSortedSet()
		return &giantMap{name: "sorted set", set: true,
			put:    func(i int, v IObject) (IObject, bool) { return s.Put(key(i)), false },
			get:    func(i int) (IObject, bool) { return nil, s.Exist(key(i)) },
			remove: func(i int) IObject { return s.Remove(key(i)) },
			size:   s.Size}, id, nil, s
	}
	m := NewSortedMap()
	return &giantMap{name: "sorted map",
		put:    func(i int, v IObject) (IObject, bool) { return m.Put(key(i), v), true },
		get:    func(i int) (IObject, bool) { v := m.Get(key(i)); return v, !IsNil(v) },
		remove: func(i int) IObject { return m.Remove(key(i)) },
		size:   m.Size}, id, m, nil
}

func giantHashed(c *mon.Case, cnt *counters, p hparams) (*giantMap, func(interface{}) int) {
	mode := []int{hByFunc, hSpread}[c.R.Intn(2)]
	key := func(i int) IHashable { return &HKey{v: i, mode: mode, n: cnt} }
	id := func(k interface{}) int {
		if t, ok := k.(*HKey); ok {
			return t.v
		}
		return -2
	}
	if c.R.Intn(3) == 0 {
		s := NewHashSet()
		if p.custom {
			s = NewCustomHashSet(p.cap, p.lf, p.mu)
		}
		return &giantMap{name: "hash set " + p.String(), set: true,
			put:    func(i int, v IObject) (IObject, bool) { return s.Put(key(i)), false },
			get:    func(i int) (IObject, bool) { return nil, s.Exist(key(i)) },
			remove: func(i int) IObject { return s.Remove(key(i)) },
			size:   s.Size}, id
	}
	m := NewHashMap()
	if p.custom {
		m = NewCustomHashMap(p.cap, p.lf, p.mu)
	}
	return &giantMap{name: "hash map " + p.String(),
		put:    func(i int, v IObject) (IObject, bool) { return m.Put(key(i), v), true },
		get:    func(i int) (IObject, bool) { v := m.Get(key(i)); return v, !IsNil(v) },
		remove: func(i int) IObject { return m.Remove(key(i)) },
		size:   m.Size}, id
}

// giantSize spreads the sizes up to max, reached by the first case.
func giantSize(c *mon.Case, max int) int {
	if c.Index == 0 {
		return max
	}
	return max/8 + c.R.Intn(max*7/8)
}

func giantMax(x *mon.Ctx, quick, thorough int) int {
	if x.Thorough {
		return thorough
	}
	return quick
}

func c01Giant(x *mon.Ctx) {
	max := giantMax(x, 150000, 1500000)
	x.Stream("giant", x.N(8, 24), func(c *mon.Case) {
		g, id, _, _ := giantSorted(c, nil)
		g.drive(c, giantSize(c, max), id, func(string, int) {}, func(string, int) {})
	})
}

// c02Giant iterates over a giant, whole and between bounds.
func c02Giant(x *mon.Ctx) {
	max := giantMax(x, 120000, 1000000)
	x.Stream("giant", x.N(8, 24), func(c *mon.Case) {
		g, id, m, s := giantSorted(c, nil)
		n := giantSize(c, max)
		mod := newGiantModel(n)
		pat := c.R.Intn(giantOrders)
		giantOrder(c.R, n, pat, func(i int) {
			_, v := mod.put(i)
			g.put(i, v)
		})
		giantOrder(c.R, n, c.R.Intn(giantOrders), func(i int) {
			if c.R.Intn(3) == 0 {
				mod.remove(i)
				g.remove(i)
			}
		})
		c.Desc("%s of %d entries, filled in order %d", g.name, mod.size, pat)
		walk := func(a, b int, ranged bool) {
			// bounds beyond the keys stand for absent ones
			var lo, hi IComparable
			if a >= 0 {
				lo = &IntKey{v: a}
			} else {
				a = 0
			}
			if b <= n {
				hi = &IntKey{v: b}
			} else {
				b = n
			}
			var mi ISortedMapIterator
			var si IIterator
			switch {
			case m != nil && ranged:
				mi = m.RangeIterator(lo, hi)
			case m != nil:
				mi = m.Iterator()
			case ranged:
				si = s.RangeIterator(lo, hi)
			default:
				si = s.Iterator()
			}
			seen := 0
			for i := a; i < b; i++ {
				if mod.val[i] < 0 {
					continue
				}
				if m != nil {
					if i&63 == 0 {
						k, v := mi.Peek()
						w, ok := v.(int32)
						c.Check(mi.HasNext() && !IsNil(k) && id(k) == i && ok && w == mod.val[i], "entry", "peek shows (%v, %v), expected (%d, %d)", k, v, i, mod.val[i])
					}
					k, v := mi.Next()
					w, ok := v.(int32)
					c.Check(!IsNil(k) && id(k) == i && ok && w == mod.val[i], "entry", "%s: entry (%v, %v) after %d entries, expected (%d, %d)", g.name, k, v, seen, i, mod.val[i])
				} else {
					k := si.Next()
					c.Check(!IsNil(k) && id(k) == i, "entry", "%s: entry %v after %d entries, expected %d", g.name, k, seen, i)
				}
				seen++
			}
			more, extra := false, IObject(nil)
			if m != nil {
				more = mi.HasNext()
				extra, _ = mi.Next()
			} else {
				more = si.HasNext()
				extra = si.Next()
			}
			c.Check(!more && IsNil(extra), "extra-entry", "%s: after its %d entries the iterator has %v (%v)", g.name, seen, extra, more)
			c.EvN("next", seen)
			c.Ev("exhausted-next")
			c.Ev("hasnext")
		}
		walk(-1, n+1, false)
		walk(-1, n+1, true)
		for k := 0; k < 30; k++ {
			a, b := c.R.Intn(n), c.R.Intn(n)
			if a > b {
				a, b = b, a
			}
			switch c.R.Intn(6) {
			case 0:
				a = -1
			case 1:
				b = n + 1
			case 2, 3: // a narrow one
				b = a + c.R.Intn(100)
				if b > n {
					b = n
				}
			}
			walk(a, b, true)
			c.Ev("range")
		}
		c.Evf("giant", "%s of %d entries", g.name, mod.size)
		c.Nontrivial(mon.Mix(uint64(mod.size), uint64(pat)))
		c.X.Max("max-entries", int64(mod.size))
	})
}

func c03Giant(x *mon.Ctx) {
	max := giantMax(x, 150000, 1500000)
	x.Stream("giant", x.N(8, 24), func(c *mon.Case) {
		cnt := &counters{}
		g, id, _, _ := giantSorted(c, cnt)
		calls := 0
		worst := map[string]float64{}
		g.drive(c, giantSize(c, max), id, func(op string, size int) {
			got := cnt.cmp + cnt.eq
			calls += got
			// the same bound as for small contents
			bound := float64(4*(heightBound(size+1)+2) + 4)
			if r := float64(got) / bound; r > worst[op] {
				worst[op] = r
				c.X.Max("giant-share-of-bound-x1000", int64(r*1000))
			}
			c.Check(float64(got) <= bound, "giant-comparisons", "%s at %d entries compared keys %d times, at most %.0f expected (%s)", op, size, got, bound, g.name)
			cnt.cmp, cnt.eq = 0, 0
		}, func(name string, size int) {
			for _, op := range []string{"get", "put", "remove"} {
				c.Evf("counted-"+op, "%s: at most %.2f of the bound", name, worst[op])
			}
		})
		c.EvN("comparison", calls)
	})
}

func c04Giant(x *mon.Ctx) {
	max := giantMax(x, 200000, 2000000)
	x.Stream("giant", x.N(8, 24), func(c *mon.Case) {
		p := hparams{custom: c.R.Intn(3) > 0, cap: []int{0, 16, 50, 4096}[c.R.Intn(4)], lf: 0.5 + c.R.Float32()/2, mu: 1.2 + c.R.Float32()*3}
		g, id := giantHashed(c, nil, p)
		g.drive(c, giantSize(c, max), id, func(string, int) {}, func(string, int) {})
		c.Ev("replace")
	})
}

func c09Giant(x *mon.Ctx, maxEq, maxHash float64) {
	max := giantMax(x, 500000, 4000000)
	x.Stream("giant", x.N(16, 48), func(c *mon.Case) {
		cnt := &counters{}
		p := hparams{custom: c.R.Intn(3) > 0, cap: []int{0, 16, 50, 4096}[c.R.Intn(4)],
			lf: []float32{0.5, 0.75, 0.9, 1, 0.5 + c.R.Float32()/2, 0.1, 4}[c.R.Intn(7)], mu: []float32{1.2, 1.5, 2, 3, 5, 1.2 + c.R.Float32()*3.8, 1, 12}[c.R.Intn(8)]}
		g, id := giantHashed(c, cnt, p)
		ops, eq, hash, wOps, wEq := 0, 0, 0, 0, 0
		g.drive(c, giantSize(c, max), id, func(op string, size int) {
			ops++
			eq += cnt.eq
			hash += cnt.hash
			if cnt.hash > 3 {
				c.Ev("rehash")
			}
			cnt.eq, cnt.hash = 0, 0
		}, func(name string, size int) {
			if name == "" { // while growing: rehashes are only judged against the whole growth
				if o := ops - wOps; o > 2000 {
					e := float64(eq-wEq) / float64(o)
					c.Check(e <= maxEq, "comparisons", "growing: %.2f key comparisons per operation on average over %d operations at %d entries (%s)", e, o, size, g.name)
					wOps, wEq = ops, eq
				}
				return
			}
			e, h := float64(eq)/float64(ops), float64(hash)/float64(ops)
			c.X.Max("giant-avg-equality-x1000", int64(e*1000))
			c.X.Max("giant-avg-hash-x1000", int64(h*1000))
			c.EvN("equality-call", eq)
			c.EvN("hash-call", hash)
			c.Evf("judged", "%s at %d entries: %d operations, %.2f comparisons, %.2f hashes on average", name, size, ops, e, h)
			c.Check(e <= maxEq, "comparisons", "%s: %.2f key comparisons per operation on average over %d operations at %d entries (%s)", name, e, ops, size, g.name)
			c.Check(h <= maxHash, "hashes", "%s: %.2f hash computations per operation on average over %d operations at %d entries (%s)", name, h, ops, size, g.name)
			ops, eq, hash, wOps, wEq = 0, 0, 0, 0, 0
		})
		c.State(mon.HashStr(fmt.Sprint(g.name)))
	})
}
