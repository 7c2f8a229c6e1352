package main

import (
	"fmt"
	"io"
	"math"
	"math/rand"
	"sort"

	. "../../../repo/src/collection"
	"../mon"
)

// sorted drives a sorted map, set or tree together with its model.
type sorted struct {
	c     *mon.Case
	u     *universe
	what  string
	m     *SortedMap
	s     *SortedSet
	t     *AVLTree
	model map[int]IObject
	state uint64
	seq   int
}

func newSortedSut(c *mon.Case, u *universe, what string) *sorted {
	d := &sorted{c: c, u: u, what: what, model: map[int]IObject{}}
	switch what {
	case "map":
		d.m = NewSortedMap()
	case "set":
		d.s = NewSortedSet()
	case "tree":
		d.t = NewAVLTree()
	}
	return d
}

func (d *sorted) newValue() IObject {
	d.seq++
	switch d.seq % 5 {
	case 0:
		return nil
	case 1:
		return d.seq
	case 2:
		return fmt.Sprint("v", d.seq)
	default:
		return &IntKey{v: d.seq}
	}
}

func (d *sorted) put(i int) {
	k := d.u.cmpKey(i)
	v := d.newValue()
	old, had := d.model[i]
	switch d.what {
	case "map":
		got := d.m.Put(k, v)
		d.c.Evf("put", "%d = %v -> %v", i, v, got)
		d.expectValue("put", i, got, old, had)
	case "set":
		got := d.s.Put(k)
		d.c.Evf("put", "%d -> %v", i, got)
		d.expectKey("put", i, got, had)
	case "tree":
		got := d.t.Put(k, v)
		d.c.Evf("put", "%d -> %v", i, got != nil)
		d.c.Check((got != nil) == had, "put-return", "tree put of key %d returned %v, stored before: %v", i, got, had)
	}
	d.model[i] = v
	if !had {
		d.state ^= mon.Mix(uint64(i), 11)
	}
	d.size()
}

func (d *sorted) remove(i int) {
	k := d.u.cmpKey(i)
	old, had := d.model[i]
	switch d.what {
	case "map":
		got := d.m.Remove(k)
		d.c.Evf("remove", "%d -> %v", i, got)
		d.expectValue("remove", i, got, old, had)
	case "set":
		got := d.s.Remove(k)
		d.c.Evf("remove", "%d -> %v", i, got)
		d.expectKey("remove", i, got, had)
	case "tree":
		got := d.t.Remove(k)
		d.c.Evf("remove", "%d -> %v", i, got != nil)
		d.c.Check((got != nil) == had, "remove-return", "tree remove of key %d returned %v, stored before: %v", i, got, had)
	}
	delete(d.model, i)
	if had {
		d.state ^= mon.Mix(uint64(i), 11)
	}
	d.size()
}

func (d *sorted) get(i int) {
	k := d.u.cmpKey(i)
	old, had := d.model[i]
	switch d.what {
	case "map":
		got := d.m.Get(k)
		d.c.Evf("get", "%d -> %v", i, got)
		d.expectValue("get", i, got, old, had)
	case "set":
		got := d.s.Exist(k)
		d.c.Evf("get", "%d -> %v", i, got)
		d.c.Check(got == had, "exist", "existence of key %d reported %v, should be %v", i, got, had)
	case "tree":
		got := d.t.Get(k)
		d.c.Evf("get", "%d -> %v", i, got != nil)
		d.c.Check((got != nil) == had, "get", "tree get of key %d found: %v, stored: %v", i, got != nil, had)
	}
}

func (d *sorted) expectValue(op string, i int, got, old IObject, had bool) {
	if !had {
		d.c.Check(IsNil(got), op+"-absent", "%s of absent key %d returned %v", op, i, got)
	} else {
		d.c.Check(got == old, op+"-value", "%s of key %d returned %v, stored was %v", op, i, got, old)
	}
}

func (d *sorted) expectKey(op string, i int, got IComparable, had bool) {
	id := d.u.id(got)
	if !had {
		d.c.Check(id == -1, op+"-absent", "%s of absent key %d returned key %d (%v)", op, i, id, got)
	} else {
		d.c.Check(id == i, op+"-key", "%s of key %d returned key %d (%v)", op, i, id, got)
	}
}

func (d *sorted) len() int {
	switch d.what {
	case "map":
		return d.m.Size()
	case "set":
		return d.s.Size()
	}
	return d.t.Size()
}

func (d *sorted) size() {
	n := d.len()
	d.c.Check(n == len(d.model), "size", "size is %d, model holds %d", n, len(d.model))
}

// stranger is a key that nothing can be compared with.
type stranger struct{}

func (*stranger) Equal(o IObject) bool      { return false }
func (*stranger) Compare(o IComparable) int { panic("not comparable") }

// refuse tries keys that cannot be used.
func (d *sorted) refuse() {
	keys := []IComparable{nil}
	if len(d.model) > 0 {
		keys = append(keys, &stranger{})
	}
	for _, k := range keys {
		k := k
		for op, f := range map[string]func(){
			"get": func() {
				switch d.what {
				case "map":
					d.m.Get(k)
				case "set":
					d.s.Exist(k)
				default:
					d.t.Get(k)
				}
			},
			"put": func() {
				switch d.what {
				case "map":
					d.m.Put(k, d.seq)
				case "set":
					d.s.Put(k)
				default:
					d.t.Put(k, d.seq)
				}
			},
			"remove": func() {
				switch d.what {
				case "map":
					d.m.Remove(k)
				case "set":
					d.s.Remove(k)
				default:
					d.t.Remove(k)
				}
			},
		} {
			p, _, _ := d.c.Try(f)
			d.c.Check(p || op == "get", "unusable-"+op, "%s of %d keys: %s of the unusable key %T is not refused", d.what, len(d.model), op, k)
			d.size()
			d.c.Ev("unusable")
		}
	}
	d.verify()
}

// verify looks up every key of the universe.
func (d *sorted) verify() {
	for i := 0; i < d.u.n; i++ {
		d.get(i)
	}
	d.c.State(mon.Mix(d.state, mon.HashStr(d.what+d.u.kind)))
}

var whats = []string{"map", "set", "tree"}

func perms(n int) [][]int {
	res := [][]int{}
	var rec func(a []int, k int)
	rec = func(a []int, k int) {
		if k == n {
			res = append(res, append([]int{}, a...))
			return
		}
		for i := k; i < n; i++ {
			a[k], a[i] = a[i], a[k]
			rec(a, k+1)
			a[k], a[i] = a[i], a[k]
		}
	}
	a := make([]int, n)
	for i := range a {
		a[i] = i
	}
	rec(a, 0)
	return res
}

// pattern returns the order in which n keys are used.
func pattern(r *rand.Rand, n, kind int) []int {
	res := make([]int, n)
	for i := range res {
		switch kind {
		case 0: // ascending
			res[i] = i
		case 1: // descending
			res[i] = n - 1 - i
		case 2: // from both ends
			if i%2 == 0 {
				res[i] = i / 2
			} else {
				res[i] = n - 1 - i/2
			}
		case 3: // from the middle outwards
			if i%2 == 0 {
				res[i] = n/2 + i/2
			} else {
				res[i] = n/2 - 1 - i/2
			}
			if res[i] < 0 {
				res[i] = n - 1
			}
			if res[i] >= n {
				res[i] = 0
			}
		}
	}
	switch kind {
	case 3:
		seen := map[int]bool{}
		out := []int{}
		for _, v := range res {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
		for v := 0; v < n; v++ {
			if !seen[v] {
				out = append(out, v)
			}
		}
		res = out
	case 4:
		res = r.Perm(n)
	case 5: // sawtooth: runs of ascending keys, runs descending
		w := 2 + r.Intn(8)
		k := 0
		for b := (n - 1) / w; b >= 0; b-- {
			for i := b * w; i < (b+1)*w && i < n; i++ {
				res[k] = i
				k++
			}
		}
	case 6: // bit-reversed
		bits := 0
		for 1<<uint(bits) < n {
			bits++
		}
		k := 0
		for i := 0; i < 1<<uint(bits); i++ {
			v := 0
			for b := 0; b < bits; b++ {
				if i>>uint(b)&1 == 1 {
					v |= 1 << uint(bits-1-b)
				}
			}
			if v < n {
				res[k] = v
				k++
			}
		}
	}
	return res
}

const patterns = 7

// mixed runs a random history.
func (d *sorted) mixed(ops int, verifyEvery int) {
	r := d.c.R
	bias := r.Intn(100)
	hot := 1 + r.Intn(d.u.n)
	for o := 0; o < ops; o++ {
		if o%97 == 0 {
			bias = r.Intn(100)
			hot = 1 + r.Intn(d.u.n)
		}
		i := r.Intn(d.u.n)
		if r.Intn(3) == 0 {
			i = r.Intn(hot)
		}
		switch x := r.Intn(100); {
		case x < 15:
			d.get(i)
		case x < 15+bias*85/100:
			d.put(i)
		default:
			d.remove(i)
		}
		if verifyEvery > 0 && o%verifyEvery == 0 {
			d.verify()
		}
	}
	d.verify()
}

func c01(x *mon.Ctx) {
	x.Rule("a case is one history of put/remove/get on a sorted map, set or tree compared call by call with a finite map; non-trivial: it changed the content at least twice; distinct by the sequence of operations and key kind")
	// every order of insertion and of removal of a few keys
	n := 5
	if x.Thorough {
		n = 6
	}
	ps := perms(n)
	for _, what := range whats {
		what := what
		x.Stream("perm-"+what, len(ps), func(c *mon.Case) {
			ins := ps[c.Index]
			c.Desc("insert %v then remove in all %d orders", ins, len(ps))
			for _, rem := range ps {
				u := newSorted(c.R, "int", n)
				d := newSortedSut(c, u, what)
				for _, i := range ins {
					d.put(i)
				}
				for _, i := range rem {
					d.remove(i)
					d.verify()
				}
			}
			c.EvN("insert-remove-order", len(ps))
			c.Nontrivial(mon.HashStr(fmt.Sprint(what, ins)))
		})
	}
	n2 := 7
	if x.Thorough {
		n2 = 8
	}
	p7 := perms(n2)
	x.Stream("perm-single", len(p7), func(c *mon.Case) {
		ins := p7[c.Index]
		what := whats[c.Index%3]
		c.Desc("insert %v, then remove each single key", ins)
		for victim := 0; victim < n2; victim++ {
			u := newSorted(c.R, "int", n2)
			d := newSortedSut(c, u, what)
			for _, i := range ins {
				d.put(i)
			}
			d.remove(victim)
			d.verify()
			d.put(victim)
			d.remove((victim + 1) % n2)
			d.verify()
		}
		c.Nontrivial(mon.HashStr(fmt.Sprint("s", ins)))
	})
	x.Stream("mixed", x.N(1500, 40000), func(c *mon.Case) {
		kind := cmpKinds[c.R.Intn(len(cmpKinds))]
		size := []int{1, 2, 3, 5, 8, 13, 30, 60, 200}[c.R.Intn(9)]
		u := newSorted(c.R, kind, size)
		what := whats[c.R.Intn(3)]
		ops := 50 + c.R.Intn(600)
		c.Desc("%s of %s keys, universe %d, %d operations", what, kind, u.n, ops)
		d := newSortedSut(c, u, what)
		d.mixed(ops, 50)
		c.Nontrivial(mon.Mix(uint64(c.R.Int63()), mon.HashStr(kind+what)))
	})
	x.Stream("large", x.N(64, 1500), func(c *mon.Case) {
		kind := cmpKinds[c.R.Intn(len(cmpKinds))]
		if c.Index%2 == 0 {
			kind = "int"
		}
		n := 500 + c.R.Intn(2500)
		if x.Thorough && kind == "int" {
			n *= 4
		}
		u := newSorted(c.R, kind, n)
		what := whats[c.R.Intn(3)]
		pi, pr := c.R.Intn(patterns), c.R.Intn(patterns)
		c.Desc("%s of %d %s keys, inserted in pattern %d and removed in pattern %d", what, u.n, kind, pi, pr)
		d := newSortedSut(c, u, what)
		for _, i := range pattern(c.R, u.n, pi) {
			d.put(i)
		}
		d.verify()
		left := c.R.Intn(u.n)
		for j, i := range pattern(c.R, u.n, pr) {
			if j == left {
				d.verify()
				for _, i := range c.R.Perm(u.n)[:u.n/3] {
					d.put(i)
				}
				d.verify()
			}
			d.remove(i)
		}
		for i := 0; i < u.n; i++ {
			d.remove(i)
		}
		d.verify()
		c.Nontrivial(mon.Mix(uint64(pi), uint64(pr), mon.HashStr(kind+what), uint64(u.n)))
	})
	x.Stream("unusable", x.N(300, 6000), func(c *mon.Case) {
		kind := cmpKinds[c.R.Intn(len(cmpKinds))]
		u := newSorted(c.R, kind, 1+c.R.Intn(12))
		d := newSortedSut(c, u, whats[c.R.Intn(3)])
		c.Desc("%s of %s keys, with keys that cannot be used", d.what, kind)
		d.refuse()
		for o := 0; o < 25; o++ {
			if c.R.Intn(3) > 0 {
				d.put(c.R.Intn(u.n))
			} else {
				d.remove(c.R.Intn(u.n))
			}
			d.refuse()
		}
		c.Nontrivial(mon.Mix(d.state, uint64(c.R.Int63())))
	})
	// printing is part of the tree's interface and must not disturb it
	x.Stream("print", x.N(60, 600), func(c *mon.Case) {
		u := newSorted(c.R, cmpKinds[c.R.Intn(len(cmpKinds))], 20)
		d := newSortedSut(c, u, "tree")
		for o := 0; o < 40; o++ {
			if c.R.Intn(3) > 0 {
				d.put(c.R.Intn(u.n))
			} else {
				d.remove(c.R.Intn(u.n))
			}
			d.t.Print(io.Discard, c.R.Intn(5))
			d.t.ToString()
			c.Ev("print")
			d.verify()
		}
	})
	c01Giant(x)
}

////////////////////////////////////////////////////////////////////////////////

// walker drives an iterator with a random mix of its three calls and compares the
// entries with what is expected.
// lazy is a description that is only made when it is printed.
type lazy func() string

func (l lazy) String() string { return l() }

type walker struct {
	hasNext func() bool
	next    func() (key, value interface{})
	peek    func() (key, value interface{})
	hasVal  bool
	opaque  bool // entries cannot be looked into
}

func (d *sorted) iter(start, end IComparable, ranged bool) walker {
	switch d.what {
	case "map":
		var it ISortedMapIterator
		if ranged {
			it = d.m.RangeIterator(start, end)
		} else {
			it = d.m.Iterator()
		}
		return walker{it.HasNext,
			func() (interface{}, interface{}) { return it.Next() },
			func() (interface{}, interface{}) { return it.Peek() }, true, false}
	case "set":
		var it IIterator
		if ranged {
			it = d.s.RangeIterator(start, end)
		} else {
			it = d.s.Iterator()
		}
		return walker{it.HasNext,
			func() (interface{}, interface{}) { return it.Next(), nil },
			func() (interface{}, interface{}) { return it.Peek(), nil }, false, false}
	}
	var it IIterator
	if ranged {
		it = d.t.RangeIterator(start, end)
	} else {
		it = d.t.Iterator()
	}
	return walker{it.HasNext,
		func() (interface{}, interface{}) { return it.Next(), nil },
		func() (interface{}, interface{}) { return it.Peek(), nil }, false, true}
}

// style: 0 next only, 1 hasNext then next, 2 peek then next, 3 random mix
func runWalk(c *mon.Case, u *universe, w walker, want []int, val func(int) IObject, style int, descf func() string) {
	desc := func() lazy { return lazy(descf) }
	pos := 0
	entry := func(op string, k, v interface{}) {
		if pos >= len(want) {
			c.Check(IsNil(k) && IsNil(v), op+"-after-end", "%s: %s after the last entry returned (%v, %v)", desc(), op, k, v)
			c.Ev("exhausted-" + op)
			return
		}
		if w.opaque {
			c.Check(!IsNil(k), "missing-entry", "%s: %s returned nothing at position %d of %d", desc(), op, pos, len(want))
			return
		}
		id := u.id(k)
		c.Check(id == want[pos], "entry", "%s: %s returned key %d (%v) at position %d, expected key %d of %v", desc(), op, id, k, pos, want[pos], want)
		if w.hasVal {
			c.Check(v == val(id), "entry-value", "%s: %s returned value %v for key %d, stored is %v", desc(), op, v, id, val(id))
		}
	}
	hn := func() {
		got := w.hasNext()
		c.Evf("hasnext", "%v", got)
		c.Check(got == (pos < len(want)), "has-next", "%s: has-next is %v at position %d of %d", desc(), got, pos, len(want))
	}
	pk := func() {
		k, v := w.peek()
		c.Evf("peek", "%v", k)
		entry("peek", k, v)
	}
	nx := func() {
		k, v := w.next()
		c.Evf("next", "%v", k)
		entry("next", k, v)
		if pos < len(want) {
			pos++
		}
	}
	for pos < len(want) {
		switch style {
		case 0:
			nx()
		case 1:
			hn()
			nx()
		case 2:
			pk()
			nx()
		default:
			switch c.R.Intn(4) {
			case 0:
				hn()
			case 1:
				pk()
			default:
				nx()
			}
		}
	}
	// exhausted
	switch style {
	case 0:
		nx()
		nx()
		hn()
	case 1:
		hn()
		hn()
		nx()
		hn()
	case 2:
		pk()
		pk()
		nx()
		pk()
	default:
		for i := 0; i < 6; i++ {
			switch c.R.Intn(3) {
			case 0:
				hn()
			case 1:
				pk()
			default:
				nx()
			}
		}
	}
}

// want returns the stored keys in [lo, hi); -1 for an absent bound.
func (d *sorted) want(lo, hi int) []int {
	res := []int{}
	for i := range d.model {
		if (lo < 0 || i >= lo) && (hi < 0 || i < hi) {
			res = append(res, i)
		}
	}
	sort.Ints(res)
	return res
}

func (d *sorted) walkRange(lo, hi int, style int) {
	var s, e IComparable
	if lo >= 0 {
		s = d.u.cmpKey(lo)
	}
	if hi >= 0 {
		e = d.u.cmpKey(hi)
	}
	want := d.want(lo, hi)
	d.c.Evf("range", "[%d, %d) of %d entries expects %v", lo, hi, len(d.model), want)
	if len(want) == 0 {
		d.c.Ev("empty-range")
	}
	runWalk(d.c, d.u, d.iter(s, e, true), want, func(i int) IObject { return d.model[i] }, style,
		func() string {
			return fmt.Sprintf("range [%d, %d) of %s holding %v", lo, hi, d.what, d.want(-1, -1))
		})
}

func (d *sorted) walkAll(style int) {
	want := d.want(-1, -1)
	d.c.Evf("iterate", "%d entries", len(want))
	runWalk(d.c, d.u, d.iter(nil, nil, false), want, func(i int) IObject { return d.model[i] }, style,
		func() string { return fmt.Sprintf("iteration of %s holding %v", d.what, want) })
}

func c02(x *mon.Ctx) {
	x.Rule("a case is one content of a sorted map, set or tree whose full and range iterations are compared entry by entry with the model; non-trivial: at least two entries were returned; distinct by content and history")
	// every shape made by inserting up to 6 keys, all bounds among and between them
	for n := 0; n <= 6; n++ {
		n := n
		if n == 6 && !x.Thorough {
			break
		}
		ps := perms(n)
		x.Stream(fmt.Sprintf("shapes-%d", n), len(ps), func(c *mon.Case) {
			p := ps[c.Index]
			c.Desc("insert %v (as odd numbers), all bounds", p)
			for wi, what := range whats {
				u := newSorted(c.R, "int", 2*n+1)
				d := newSortedSut(c, u, what)
				for _, i := range p {
					d.put(2*i + 1)
				}
				for style := 0; style < 4; style++ {
					d.walkAll(style)
				}
				for lo := -1; lo < u.n; lo++ {
					for hi := -1; hi < u.n; hi++ {
						if lo >= 0 && hi >= 0 && lo > hi {
							continue
						}
						d.walkRange(lo, hi, (lo+hi+wi+c.Index+8)%4)
					}
				}
			}
			c.Nontrivial(mon.HashStr(fmt.Sprint(p)))
			c.State(mon.HashStr(fmt.Sprint(p)))
		})
	}
	x.Stream("history", x.N(1200, 30000), func(c *mon.Case) {
		kind := cmpKinds[c.R.Intn(len(cmpKinds))]
		u := newSorted(c.R, kind, []int{2, 3, 6, 12, 20, 40}[c.R.Intn(6)])
		what := whats[c.R.Intn(3)]
		d := newSortedSut(c, u, what)
		for round := 0; round < 4; round++ {
			ops := c.R.Intn(60)
			p := 20 + c.R.Intn(70)
			for o := 0; o < ops; o++ {
				if c.R.Intn(100) < p {
					d.put(c.R.Intn(u.n))
				} else {
					d.remove(c.R.Intn(u.n))
				}
			}
			if round == 0 {
				c.Desc("%s of %s keys, universe %d, first content %v", what, kind, u.n, d.want(-1, -1))
			}
			d.walkAll(c.R.Intn(4))
			all := u.n <= 12
			for lo := -1; lo < u.n; lo++ {
				for hi := -1; hi < u.n; hi++ {
					if lo >= 0 && hi >= 0 && lo > hi {
						continue
					}
					if all || c.R.Intn(u.n*u.n/60+1) == 0 {
						d.walkRange(lo, hi, c.R.Intn(4))
					}
				}
			}
			if len(d.model) > 1 {
				c.Nontrivial(mon.Mix(d.state, mon.HashStr(kind+what), uint64(round)))
			}
			c.State(mon.Mix(d.state, mon.HashStr(kind+what)))
		}
	})
	x.Stream("large", x.N(40, 600), func(c *mon.Case) {
		kind := cmpKinds[c.R.Intn(len(cmpKinds))]
		u := newSorted(c.R, kind, 300+c.R.Intn(1500))
		what := whats[c.R.Intn(2)]
		d := newSortedSut(c, u, what)
		for _, i := range pattern(c.R, u.n, c.R.Intn(patterns)) {
			d.put(i)
		}
		c.Desc("%s of %d %s keys", what, u.n, kind)
		for round := 0; round < 3; round++ {
			d.walkAll(c.R.Intn(4))
			for k := 0; k < 30; k++ {
				lo, hi := c.R.Intn(u.n+1)-1, c.R.Intn(u.n+1)-1
				if lo > hi && hi >= 0 {
					lo, hi = hi, lo
				}
				d.walkRange(lo, hi, c.R.Intn(4))
			}
			c.Nontrivial(mon.Mix(d.state, mon.HashStr(kind+what)))
			for k := 0; k < u.n/3; k++ {
				d.remove(c.R.Intn(u.n))
			}
		}
	})
	// several iterators over one content do not disturb each other or lookups
	x.Stream("parallel-iterators", x.N(200, 4000), func(c *mon.Case) {
		u := newSorted(c.R, cmpKinds[c.R.Intn(len(cmpKinds))], 4+c.R.Intn(20))
		d := newSortedSut(c, u, []string{"map", "set"}[c.R.Intn(2)])
		for i := 0; i < u.n; i++ {
			if c.R.Intn(3) > 0 {
				d.put(i)
			}
		}
		type cur struct {
			w    walker
			want []int
		}
		cs := []*cur{}
		for k := 0; k < 3; k++ {
			lo, hi := c.R.Intn(u.n+1)-1, c.R.Intn(u.n+1)-1
			if lo > hi && hi >= 0 {
				lo, hi = hi, lo
			}
			var s, e IComparable
			if lo >= 0 {
				s = u.cmpKey(lo)
			}
			if hi >= 0 {
				e = u.cmpKey(hi)
			}
			cs = append(cs, &cur{d.iter(s, e, true), d.want(lo, hi)})
		}
		for step := 0; step < 3*u.n; step++ {
			q := cs[c.R.Intn(len(cs))]
			k, _ := q.w.next()
			c.Evf("next", "%v", k)
			if len(q.want) == 0 {
				c.Check(IsNil(k), "next-after-end", "interleaved iterator returned %v after its end", k)
			} else {
				c.Check(u.id(k) == q.want[0], "entry", "interleaved iterator returned key %d, expected %d", u.id(k), q.want[0])
				q.want = q.want[1:]
			}
			d.get(c.R.Intn(u.n))
		}
		c.Nontrivial(mon.Mix(d.state, uint64(c.Index)))
	})
	c02Giant(x)
}

////////////////////////////////////////////////////////////////////////////////

func heightBound(n int) int {
	if n == 0 {
		return 1
	}
	return int(math.Floor(1.4405*math.Log2(float64(n+2))-0.32)) + 1
}

func c03(x *mon.Ctx) {
	x.Rule("a case is one history on a sorted map or set whose every operation has its key comparisons counted and held against the height bound of a balanced tree; non-trivial: it reached at least 16 entries; distinct by history")
	check := func(c *mon.Case, d *sorted, op string, n int) {
		cnt := d.u.cnt
		touched, calls := len(cnt.touched), cnt.eq+cnt.cmp
		h := heightBound(n)
		c.EvN("comparison", calls)
		c.Ev("counted-" + op)
		c.X.Max("max-keys-touched-minus-bound+100", int64(touched-h+100))
		c.X.Max("max-calls-per-operation", int64(calls))
		c.Check(touched <= h+1, op+"-keys-compared", "%s with %d entries compared %d stored keys, bound of a balanced tree is %d", op, n, touched, h)
		c.Check(calls <= 4*(h+2)+4, op+"-comparisons", "%s with %d entries made %d comparisons, bound is %d", op, n, calls, 4*(h+2)+4)
	}
	do := func(c *mon.Case, d *sorted, op string, i int) {
		n := len(d.model)
		d.u.cnt.begin(nil)
		// the query key is made inside: note its identity through the universe
		switch op {
		case "get":
			d.get(i)
		case "put":
			d.put(i)
		case "remove":
			d.remove(i)
		}
		// the query key itself is counted as touched when it is not stored
		if _, stored := d.model[i]; !stored || op == "put" {
			delete(d.u.cnt.touched, i)
		}
		check(c, d, op, n)
	}
	full := func(c *mon.Case, d *sorted) {
		for i := 0; i < d.u.n; i++ {
			do(c, d, "get", i)
		}
	}
	iterate := func(c *mon.Case, d *sorted) {
		n := len(d.model)
		h := heightBound(n)
		all := d.want(-1, -1)
		lo, hi := -1, -1
		if c.R.Intn(2) == 0 {
			lo = c.R.Intn(d.u.n)
		}
		if c.R.Intn(2) == 0 {
			hi = c.R.Intn(d.u.n)
			if lo > hi {
				lo, hi = hi, lo
			}
		}
		var s, e IComparable
		if lo >= 0 {
			s = d.u.cmpKey(lo)
		}
		if hi >= 0 {
			e = d.u.cmpKey(hi)
		}
		d.u.cnt.begin(nil)
		w := d.iter(s, e, true)
		start := d.u.cnt.eq + d.u.cnt.cmp
		c.X.Max("max-calls-iteration-start", int64(start))
		c.Check(start <= 4*(h+2)+4, "iteration-start", "starting an iteration over %d entries made %d comparisons, bound is %d", n, start, 4*(h+2)+4)
		w.hasNext()
		first := d.u.cnt.eq + d.u.cnt.cmp
		c.Check(first <= 6*(h+2)+4, "iteration-first", "reaching the first of %d entries made %d comparisons, bound is %d", n, first, 6*(h+2)+4)
		got := 0
		for w.hasNext() && got <= len(all) {
			w.next()
			got++
		}
		total := d.u.cnt.eq + d.u.cnt.cmp
		c.Check(total <= 8*(h+2)+8+6*got, "iteration-total", "iterating %d of %d entries made %d comparisons, bound is %d", got, n, total, 8*(h+2)+8+6*got)
		c.Evf("iterate", "[%d,%d) %d entries, %d comparisons", lo, hi, got, total)
	}
	build := func(c *mon.Case, n int) *sorted {
		u := newSorted(c.R, "int", n)
		u.cnt = &counters{}
		return newSortedSut(c, u, []string{"map", "set", "tree"}[c.R.Intn(3)])
	}
	// every insertion order and removal of few keys: any missed rebalancing
	for _, n := range []int{5, 6, 7} {
		n := n
		ps := perms(n)
		x.Stream(fmt.Sprintf("perm-%d", n), len(ps), func(c *mon.Case) {
			d := build(c, n)
			c.Desc("insert %v, look up all, remove in 2 orders", ps[c.Index])
			for _, i := range ps[c.Index] {
				do(c, d, "put", i)
			}
			full(c, d)
			rem := ps[c.R.Intn(len(ps))]
			for _, i := range rem[:n-2] {
				do(c, d, "remove", i)
				for j := 0; j < n; j++ {
					if _, ok := d.model[j]; ok {
						do(c, d, "get", j)
					}
				}
			}
			c.State(mon.HashStr(fmt.Sprint(ps[c.Index], rem)))
		})
	}
	x.Stream("patterns", x.N(300, 4000), func(c *mon.Case) {
		sizes := []int{20, 50, 100, 500, 2000}
		n := sizes[c.R.Intn(len(sizes))] + c.R.Intn(50)
		if x.Thorough && c.Index%40 == 0 {
			n = 30000
		}
		d := build(c, n)
		pi, pr := c.R.Intn(patterns), c.R.Intn(patterns)
		c.Desc("%d keys in pattern %d, removed in pattern %d", n, pi, pr)
		for _, i := range pattern(c.R, n, pi) {
			do(c, d, "put", i)
		}
		full(c, d)
		iterate(c, d)
		order := pattern(c.R, n, pr)
		for j, i := range order {
			do(c, d, "remove", i)
			if j == n/4 || j == n/2 || j == n*3/4 || j == n*7/8 {
				full(c, d)
				iterate(c, d)
			}
			if j > n*15/16 && n < 200 {
				full(c, d)
			}
		}
		c.Nontrivial(mon.Mix(uint64(n), uint64(pi), uint64(pr)))
	})
	// sparse: remove all but the keys on one side of every subtree, repeatedly
	x.Stream("adversary", x.N(150, 3000), func(c *mon.Case) {
		n := 64 + c.R.Intn(900)
		d := build(c, n)
		for _, i := range pattern(c.R, n, c.R.Intn(patterns)) {
			do(c, d, "put", i)
		}
		// greedy adversary: measure the depth of every key by its lookups, then
		// remove keys that are not on the deepest path
		for round := 0; round < 6; round++ {
			deepest, depth := -1, -1
			for i := range d.model {
				_ = i
			}
			keys := d.want(-1, -1)
			depths := map[int]int{}
			for _, i := range keys {
				do(c, d, "get", i)
				depths[i] = len(d.u.cnt.touched)
				if depths[i] > depth {
					deepest, depth = i, depths[i]
				}
			}
			if len(keys) < 16 {
				break
			}
			d.u.cnt.begin(nil)
			do(c, d, "get", deepest)
			onPath := map[int]bool{}
			for k := range d.u.cnt.touched {
				onPath[k] = true
			}
			// remove shallow leaves first
			sort.Slice(keys, func(a, b int) bool {
				if depths[keys[a]] != depths[keys[b]] {
					return depths[keys[a]] < depths[keys[b]]
				}
				return keys[a] < keys[b]
			})
			removed := 0
			for _, k := range keys {
				if !onPath[k] && removed < len(keys)/3 {
					do(c, d, "remove", k)
					removed++
					if c.R.Intn(10) == 0 {
						do(c, d, "get", deepest)
					}
				}
			}
			full(c, d)
			iterate(c, d)
			for k := 0; k < len(keys)/5; k++ {
				do(c, d, "put", c.R.Intn(n))
			}
		}
		c.Nontrivial(mon.Mix(d.state, uint64(c.Index)))
	})
	x.Stream("mixed", x.N(150, 3000), func(c *mon.Case) {
		n := 16 + c.R.Intn(300)
		d := build(c, n)
		bias := 50
		for o := 0; o < 3000; o++ {
			if o%200 == 0 {
				bias = 10 + c.R.Intn(80)
			}
			i := c.R.Intn(n)
			switch x := c.R.Intn(100); {
			case x < 10:
				do(c, d, "get", i)
			case x < 10+bias*9/10:
				do(c, d, "put", i)
			default:
				do(c, d, "remove", i)
			}
			if o%500 == 499 {
				full(c, d)
				iterate(c, d)
			}
		}
		c.Nontrivial(mon.Mix(d.state, uint64(c.Index)))
	})
	c03Giant(x)
}
