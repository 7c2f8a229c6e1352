package main

import (
	"fmt"
	"io"
	"math"
	"math/rand"

	. "../../../repo/src/collection"
	"../mon"
)

// hashed drives a hash map, set or table together with its model.
type hashed struct {
	c     *mon.Case
	u     *universe
	what  string
	m     *HashMap
	s     *HashSet
	t     *Hash
	model map[int]IObject
	state uint64
	seq   int
	par   string
}

type hparams struct {
	custom bool
	cap    int
	lf, mu float32
}

func randParams(r *rand.Rand) hparams {
	p := hparams{custom: r.Intn(4) > 0}
	p.cap = []int{-5, 0, 1, 9, 10, 11, 16, 37, 100, 1000}[r.Intn(10)]
	lfs := []float32{0.5, 0.51, 0.75, 0.9, 1.0, 0.6, -1, 0, 0.1, 2, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}
	mus := []float32{1.2, 1.21, 1.5, 2, 3, 5, 4.9, 1, 0, -1, 10, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}
	p.lf = lfs[r.Intn(len(lfs))]
	p.mu = mus[r.Intn(len(mus))]
	return p
}

func (p hparams) String() string {
	if !p.custom {
		return "default"
	}
	return fmt.Sprintf("cap=%d lf=%v mult=%v", p.cap, p.lf, p.mu)
}

var hwhats = []string{"map", "set", "hash"}

func newHashedSut(c *mon.Case, u *universe, what string, p hparams) *hashed {
	d := &hashed{c: c, u: u, what: what, model: map[int]IObject{}, par: p.String()}
	switch {
	case what == "map" && p.custom:
		d.m = NewCustomHashMap(p.cap, p.lf, p.mu)
	case what == "map":
		d.m = NewHashMap()
	case what == "set" && p.custom:
		d.s = NewCustomHashSet(p.cap, p.lf, p.mu)
	case what == "set":
		d.s = NewHashSet()
	case p.custom:
		d.t = NewCustomHash(p.cap, p.lf, p.mu)
	default:
		d.t = NewHash()
	}
	return d
}

func (d *hashed) newValue() IObject {
	d.seq++
	switch d.seq % 5 {
	case 0:
		return nil
	case 1:
		return d.seq
	case 2:
		return fmt.Sprint("v", d.seq)
	default:
		return &IntKey{v: d.seq}
	}
}

func (d *hashed) put(i int) {
	k := d.u.hashKey(i)
	v := d.newValue()
	old, had := d.model[i]
	switch d.what {
	case "map":
		got := d.m.Put(k, v)
		d.c.Evf("put", "%d = %v -> %v", i, v, got)
		d.expectValue("put", i, got, old, had)
	case "set":
		got := d.s.Put(k)
		d.c.Evf("put", "%d -> %v", i, got)
		d.expectKey("put", i, got, had)
	default:
		got := d.t.Put(k, v)
		d.c.Evf("put", "%d -> %v", i, got != nil)
		d.c.Check((got != nil) == had, "put-return", "put of key %d returned %v, stored before: %v", i, got, had)
	}
	d.model[i] = v
	if !had {
		d.state ^= mon.Mix(uint64(i), 13)
	} else {
		d.c.Ev("replace")
	}
	d.size()
}

func (d *hashed) remove(i int) {
	k := d.u.hashKey(i)
	old, had := d.model[i]
	switch d.what {
	case "map":
		got := d.m.Remove(k)
		d.c.Evf("remove", "%d -> %v", i, got)
		d.expectValue("remove", i, got, old, had)
	case "set":
		got := d.s.Remove(k)
		d.c.Evf("remove", "%d -> %v", i, got)
		d.expectKey("remove", i, got, had)
	default:
		got := d.t.Remove(k)
		d.c.Evf("remove", "%d -> %v", i, got != nil)
		d.c.Check((got != nil) == had, "remove-return", "remove of key %d returned %v, stored before: %v", i, got, had)
	}
	delete(d.model, i)
	if had {
		d.state ^= mon.Mix(uint64(i), 13)
	} else {
		d.c.Ev("remove-absent")
	}
	d.size()
}

func (d *hashed) get(i int) {
	k := d.u.hashKey(i)
	old, had := d.model[i]
	switch d.what {
	case "map":
		got := d.m.Get(k)
		d.c.Evf("get", "%d -> %v", i, got)
		d.expectValue("get", i, got, old, had)
	case "set":
		got := d.s.Exist(k)
		d.c.Evf("get", "%d -> %v", i, got)
		d.c.Check(got == had, "exist", "existence of key %d reported %v, should be %v (%s)", i, got, had, d.par)
	default:
		got := d.t.Get(k)
		d.c.Evf("get", "%d -> %v", i, got != nil)
		d.c.Check((got != nil) == had, "get", "get of key %d found: %v, stored: %v (%s)", i, got != nil, had, d.par)
	}
}

func (d *hashed) expectValue(op string, i int, got, old IObject, had bool) {
	if !had {
		d.c.Check(IsNil(got), op+"-absent", "%s of absent key %d returned %v (%s)", op, i, got, d.par)
	} else {
		d.c.Check(got == old, op+"-value", "%s of key %d returned %v, stored was %v (%s)", op, i, got, old, d.par)
	}
}

func (d *hashed) expectKey(op string, i int, got IHashable, had bool) {
	id := d.u.id(got)
	if !had {
		d.c.Check(id == -1, op+"-absent", "%s of absent key %d returned key %d (%v) (%s)", op, i, id, got, d.par)
	} else {
		d.c.Check(id == i, op+"-key", "%s of key %d returned key %d (%v) (%s)", op, i, id, got, d.par)
	}
}

func (d *hashed) size() {
	n := 0
	switch d.what {
	case "map":
		n = d.m.Size()
	case "set":
		n = d.s.Size()
	default:
		n = d.t.Size()
	}
	d.c.Check(n == len(d.model), "size", "size is %d, model holds %d (%s)", n, len(d.model), d.par)
}

// refuse tries a key that cannot be used.
func (d *hashed) refuse() {
	for op, f := range map[string]func(){
		"get": func() {
			switch d.what {
			case "map":
				d.m.Get(nil)
			case "set":
				d.s.Exist(nil)
			default:
				d.t.Get(nil)
			}
		},
		"put": func() {
			switch d.what {
			case "map":
				d.m.Put(nil, d.seq)
			case "set":
				d.s.Put(nil)
			default:
				d.t.Put(nil, d.seq)
			}
		},
		"remove": func() {
			switch d.what {
			case "map":
				d.m.Remove(nil)
			case "set":
				d.s.Remove(nil)
			default:
				d.t.Remove(nil)
			}
		},
	} {
		p, _, _ := d.c.Try(f)
		d.c.Check(p || op != "put", "unusable-"+op, "%s of %d keys: a nil key is not refused (%s)", d.what, len(d.model), d.par)
		d.size()
		d.c.Ev("unusable")
	}
	d.verify()
}

func (d *hashed) verify() {
	for i := 0; i < d.u.n; i++ {
		d.get(i)
	}
	d.c.State(mon.Mix(d.state, mon.HashStr(d.what+d.u.kind+d.par)))
}

func randHashed(c *mon.Case, n int) *hashed {
	kind := "own"
	if c.R.Intn(2) == 0 {
		kind = hashKinds[c.R.Intn(len(hashKinds))]
	}
	u := newHashed(c.R, kind, n, c.R.Intn(hModes))
	return newHashedSut(c, u, hwhats[c.R.Intn(3)], randParams(c.R))
}

func (d *hashed) about() string {
	m := ""
	if d.u.kind == "own" {
		m = ", hashes " + hModeName[d.u.mode]
	}
	return fmt.Sprintf("%s of %s keys%s, universe %d, %s", d.what, d.u.kind, m, d.u.n, d.par)
}

func c04(x *mon.Ctx) {
	x.Rule("a case is one history of put/remove/get on a hash map, set or table compared call by call with a finite map; non-trivial: it changed the content; distinct by history, key kind, hash distribution and parameters")
	x.Stream("mixed", x.N(2500, 60000), func(c *mon.Case) {
		d := randHashed(c, []int{1, 2, 3, 5, 9, 15, 30, 80, 200}[c.R.Intn(9)])
		c.Desc("%s", d.about())
		ops := 50 + c.R.Intn(700)
		bias := 50
		for o := 0; o < ops; o++ {
			if o%83 == 0 {
				bias = c.R.Intn(100)
			}
			i := c.R.Intn(d.u.n)
			switch y := c.R.Intn(100); {
			case y < 15:
				d.get(i)
			case y < 15+bias*85/100:
				d.put(i)
			default:
				d.remove(i)
			}
			if o%60 == 0 {
				d.verify()
			}
		}
		d.verify()
		c.Nontrivial(mon.Mix(d.state, uint64(c.R.Int63())))
	})
	// fill and drain: every growth and shrinkage, everything looked up around each
	x.Stream("fill-drain", x.N(300, 6000), func(c *mon.Case) {
		n := 20 + c.R.Intn(180)
		d := randHashed(c, n)
		c.Desc("fill and drain %s", d.about())
		for round := 0; round < 2; round++ {
			for j, i := range pattern(c.R, d.u.n, c.R.Intn(patterns)) {
				d.put(i)
				if c.R.Intn(6) == 0 {
					d.put(i)
				}
				if j%3 == 0 || d.u.n < 60 {
					d.verify()
				}
			}
			for j, i := range pattern(c.R, d.u.n, c.R.Intn(patterns)) {
				d.remove(i)
				if j%3 == 0 || d.u.n < 60 {
					d.verify()
				}
			}
			d.verify()
		}
		c.Nontrivial(mon.Mix(uint64(c.R.Int63())))
	})
	x.Stream("large", x.N(40, 600), func(c *mon.Case) {
		n := 1000 + c.R.Intn(9000)
		if x.Thorough {
			n *= 5
		}
		u := newHashed(c.R, "own", n, []int{hByFunc, hSpread, hSeq}[c.R.Intn(3)])
		d := newHashedSut(c, u, hwhats[c.R.Intn(3)], randParams(c.R))
		if d.par != "default" { // a table that never grows is slow by construction, not wrong
			p := randParams(c.R)
			p.custom = true
			p.lf, p.mu = 0.5+c.R.Float32()/2, 1.2+c.R.Float32()*3
			d = newHashedSut(c, u, d.what, p)
		}
		c.Desc("large %s", d.about())
		for _, i := range c.R.Perm(n) {
			d.put(i)
		}
		d.verify()
		for _, i := range c.R.Perm(n)[:n*9/10] {
			d.remove(i)
		}
		d.verify()
		for i := 0; i < n; i++ {
			d.put(i)
		}
		d.verify()
		c.Nontrivial(mon.Mix(uint64(c.R.Int63())))
	})
	// thousands of keys in few buckets
	x.Stream("long-chain", x.N(8, 80), func(c *mon.Case) {
		n := 1100 + c.R.Intn(4000)
		u := newHashed(c.R, "own", n, []int{hEqual, hExtreme, hFew, hHigh}[c.Index%4])
		p := randParams(c.R)
		if p.custom {
			p.lf, p.mu = 0.5+c.R.Float32()/2, 1.2+c.R.Float32()*3
		}
		d := newHashedSut(c, u, hwhats[c.R.Intn(3)], p)
		c.Desc("long chains %s", d.about())
		for _, i := range c.R.Perm(n) {
			d.put(i)
		}
		d.verify()
		for _, i := range c.R.Perm(n)[:n*19/20] {
			d.remove(i)
		}
		d.verify()
		c.X.Max("keys-in-few-buckets", int64(n))
		c.Nontrivial(mon.Mix(uint64(c.R.Int63())))
	})
	// the exact chain: few keys, all orders of insertion and removal in one bucket
	ps := perms(5)
	x.Stream("one-bucket", len(ps), func(c *mon.Case) {
		c.Desc("insert %v with equal hashes, remove in all orders", ps[c.Index])
		for _, rem := range ps {
			u := newHashed(c.R, "own", 6, hEqual)
			d := newHashedSut(c, u, hwhats[c.Index%3], hparams{})
			for _, i := range ps[c.Index] {
				d.put(i)
			}
			for _, i := range rem {
				d.remove(i)
				d.verify()
			}
		}
		c.EvN("insert-remove-order", len(ps))
		c.Nontrivial(mon.HashStr(fmt.Sprint("b", ps[c.Index])))
	})
	x.Stream("unusable", x.N(300, 6000), func(c *mon.Case) {
		d := randHashed(c, 1+c.R.Intn(30))
		c.Desc("%s, with nil keys", d.about())
		d.refuse()
		for o := 0; o < 30; o++ {
			if c.R.Intn(3) > 0 {
				d.put(c.R.Intn(d.u.n))
			} else {
				d.remove(c.R.Intn(d.u.n))
			}
			d.refuse()
		}
		c.Nontrivial(mon.Mix(d.state, uint64(c.R.Int63())))
	})
	x.Stream("print", x.N(60, 600), func(c *mon.Case) {
		u := newHashed(c.R, "own", 30, c.R.Intn(hModes))
		d := newHashedSut(c, u, "hash", randParams(c.R))
		for o := 0; o < 60; o++ {
			if c.R.Intn(3) > 0 {
				d.put(c.R.Intn(u.n))
			} else {
				d.remove(c.R.Intn(u.n))
			}
			d.t.Print(io.Discard, c.R.Intn(5))
			c.Ev("print")
		}
		d.verify()
	})
	c04Giant(x)
}

////////////////////////////////////////////////////////////////////////////////

func (d *hashed) iter() walker {
	switch d.what {
	case "map":
		it := d.m.Iterator()
		return walker{it.HasNext,
			func() (interface{}, interface{}) { return it.Next() },
			func() (interface{}, interface{}) { return it.Peek() }, true, false}
	case "set":
		it := d.s.Iterator()
		return walker{it.HasNext,
			func() (interface{}, interface{}) { return it.Next(), nil },
			func() (interface{}, interface{}) { return it.Peek(), nil }, false, false}
	}
	it := d.t.Iterator()
	return walker{it.HasNext,
		func() (interface{}, interface{}) { return it.Next(), nil },
		func() (interface{}, interface{}) { return it.Peek(), nil }, false, true}
}

// walk iterates and checks that the entries are those of the model, each once.
func (d *hashed) walk(style int) {
	c := d.c
	w := d.iter()
	seen := map[int]bool{}
	count := 0
	peeked, havePeek := interface{}(nil), false
	var peekedVal interface{}
	said, saidBy := false, "" // what was said last about this position
	more := func(op string, got bool) {
		if saidBy != "" {
			c.Check(got == said, "disagreement", "iterating a %s of %d entries: %s says more=%v after %d entries, %s said %v", d.about(), len(d.model), op, got, count, saidBy, said)
		}
		said, saidBy = got, op
		want := count < len(d.model)
		if got == want {
			return
		}
		if count == 0 && !got {
			// nothing at all comes out of a non-empty table
			sig := "iterator-empty-" + d.what
			c.Failf(sig, "iterating a %s of %d entries ends before the first entry (%s)", d.about(), len(d.model), op)
		}
		c.Failf("iteration-length", "iterating a %s of %d entries: %s says more=%v after %d entries", d.about(), len(d.model), op, got, count)
	}
	entry := func(op string, k, v interface{}) bool {
		more(op, !IsNil(k))
		if IsNil(k) {
			c.Ev("exhausted-" + op)
			c.Check(IsNil(v), op+"-after-end", "%s after the last entry returned value %v", op, v)
			return false
		}
		if havePeek && !w.opaque {
			c.Check(k == peeked && v == peekedVal, "peek-next", "%s returned (%v, %v) after peek returned (%v, %v)", op, k, v, peeked, peekedVal)
		}
		if !w.opaque {
			id := d.u.id(k)
			want, stored := d.model[id]
			c.Check(id >= 0 && stored, "foreign-entry", "%s returned key %d (%v) which is not stored", op, id, k)
			c.Check(!seen[id], "repeated-entry", "%s returned key %d twice", op, id)
			if w.hasVal {
				c.Check(v == want, "entry-value", "%s returned value %v for key %d, stored is %v", op, v, id, want)
			}
		}
		return true
	}
	hn := func() {
		got := w.hasNext()
		c.Evf("hasnext", "%v", got)
		more("has-next", got)
	}
	pk := func() {
		k, v := w.peek()
		c.Evf("peek", "%v", k)
		if entry("peek", k, v) {
			peeked, peekedVal, havePeek = k, v, true
		}
	}
	nx := func() {
		k, v := w.next()
		c.Evf("next", "%v", k)
		if entry("next", k, v) {
			if !w.opaque {
				seen[d.u.id(k)] = true
			}
			count++
			havePeek = false
			saidBy = ""
		}
	}
	if len(d.model) > 0 { // before the recorded finding ends the walk
		a := d.iter()
		more := a.hasNext()
		pk, _ := a.peek()
		nx, _ := a.next()
		c.Check(IsNil(pk) != more && IsNil(nx) != more, "disagreement", "iterating a %s of %d entries: has-next %v, peek %v, next %v", d.about(), len(d.model), more, pk, nx)
	}
	for steps := 0; count < len(d.model) || steps == 0; steps++ {
		switch {
		case style == 0:
			nx()
		case style == 1:
			hn()
			nx()
		case style == 2:
			pk()
			nx()
		default:
			switch c.R.Intn(4) {
			case 0:
				hn()
			case 1:
				pk()
			default:
				nx()
			}
		}
	}
	for i := 0; i < 5; i++ {
		switch (style + i) % 3 {
		case 0:
			hn()
		case 1:
			pk()
		default:
			nx()
		}
	}
}

func c05(x *mon.Ctx) {
	x.Rule("a case is one content of a hash map, set or table whose iteration is compared with the model; non-trivial: the content is not empty; distinct by content, history and parameters")
	x.Stream("history", x.N(2500, 40000), func(c *mon.Case) {
		d := randHashed(c, []int{1, 2, 5, 12, 30, 100}[c.R.Intn(6)])
		for round := 0; round < 4; round++ {
			p := 20 + c.R.Intn(70)
			for o := c.R.Intn(3 * d.u.n); o > 0; o-- {
				if c.R.Intn(100) < p {
					d.put(c.R.Intn(d.u.n))
				} else {
					d.remove(c.R.Intn(d.u.n))
				}
			}
			c.Evf("iterate", "%d entries", len(d.model))
			if len(d.model) == 0 {
				c.Ev("iterate-empty")
			} else {
				c.Nontrivial(mon.Mix(d.state, uint64(c.Index), uint64(round)))
			}
			c.State(mon.Mix(d.state, mon.HashStr(d.about())))
			// count the case even if it ends in a recorded finding
			d.walk(c.R.Intn(4))
			d.verify() // iterating does not disturb the table
		}
		c.Desc("%s", d.about())
	})
	x.Stream("empty", x.N(300, 3000), func(c *mon.Case) {
		d := randHashed(c, 12)
		// emptied again in different ways
		for round := 0; round < 3; round++ {
			d.walk(c.R.Intn(4))
			c.Ev("iterate-empty")
			for i := 0; i < d.u.n; i++ {
				if c.R.Intn(2) == 0 {
					d.put(i)
				}
			}
			for i := 0; i < d.u.n; i++ {
				d.remove(i)
			}
		}
		d.walk(3)
		d.verify()
		c.Desc("emptied %s", d.about())
	})
	// Iterating must leave the table alone even while the known finding stands.
	x.Stream("undisturbed", x.N(300, 3000), func(c *mon.Case) {
		d := randHashed(c, 20)
		for o := 0; o < 60; o++ {
			i := c.R.Intn(d.u.n)
			if c.R.Intn(3) > 0 {
				d.put(i)
			} else {
				d.remove(i)
			}
			w := d.iter()
			for n := 0; n <= len(d.model); n++ {
				more := w.hasNext()
				pk, _ := w.peek()
				nx, _ := w.next()
				c.Check(IsNil(pk) != more && IsNil(nx) != more, "disagreement", "iterating a %s of %d entries: has-next %v, peek %v, next %v", d.about(), len(d.model), more, pk, nx)
				if !more {
					break
				}
			}
			w.next()
			w.peek()
			c.Ev("iterate")
			if o%7 == 0 {
				d.verify()
			}
		}
		d.verify()
	})
}

////////////////////////////////////////////////////////////////////////////////

func c09(x *mon.Ctx) {
	x.Rule("a case is one long history with well spread hashes whose equality and hash calls on caller keys are counted and averaged; non-trivial: at least one rehash was observed; distinct by parameters and history")
	const maxEq, maxHash = 4.0, 14.0
	type acc struct{ ops, eq, hash, rehash int }
	mk := func(c *mon.Case, n int, maxCap int) (*hashed, *acc) {
		u := newHashed(c.R, "own", n, []int{hByFunc, hSpread}[c.R.Intn(2)])
		u.cnt = &counters{}
		p := hparams{custom: c.R.Intn(3) > 0, cap: []int{0, 10, 16, 50, 1000, 20000}[c.R.Intn(6)],
			lf: []float32{0.5, 0.6, 0.75, 0.9, 1.0, 0.5 + c.R.Float32()/2, 0.1, 3}[c.R.Intn(8)],
			mu: []float32{1.2, 1.25, 1.5, 2, 3, 5, 1.2 + c.R.Float32()*3.8, 1, 9}[c.R.Intn(9)]}
		if p.cap > maxCap {
			p.cap = maxCap
		}
		return newHashedSut(c, u, hwhats[c.R.Intn(3)], p), &acc{}
	}
	do := func(d *hashed, a *acc, op string, i int) bool {
		n := d.u.cnt
		n.eq, n.hash = 0, 0
		switch op {
		case "get":
			d.get(i)
		case "put":
			d.put(i)
		default:
			d.remove(i)
		}
		a.ops++
		a.eq += n.eq
		a.hash += n.hash
		d.c.EvN("equality-call", n.eq)
		d.c.EvN("hash-call", n.hash)
		d.c.Ev("counted-" + op)
		if n.hash > 3 {
			a.rehash++
			d.c.Evf("rehash", "%d hash calls in %s at size %d", n.hash, op, len(d.model))
			return true
		}
		return false
	}
	judge := func(c *mon.Case, d *hashed, a *acc, phase string) {
		if a.ops < 500 {
			return
		}
		eq, h := float64(a.eq)/float64(a.ops), float64(a.hash)/float64(a.ops)
		c.X.Max("max-avg-equality-x1000", int64(eq*1000))
		c.X.Max("max-avg-hash-x1000", int64(h*1000))
		c.Evf("judged", "%s: %d operations, %.2f comparisons, %.2f hashes on average", phase, a.ops, eq, h)
		c.Check(eq <= maxEq, "comparisons", "%s: %.2f key comparisons per operation on average over %d operations at %d entries (%s)", phase, eq, a.ops, len(d.model), d.par)
		c.Check(h <= maxHash, "hashes", "%s: %.2f hash computations per operation on average over %d operations at %d entries (%s)", phase, h, a.ops, len(d.model), d.par)
	}
	x.Stream("grow-shrink", x.N(160, 2500), func(c *mon.Case) {
		n := 600 + c.R.Intn(6000)
		d, a := mk(c, n, 20000)
		c.Desc("%s", d.about())
		total := &acc{}
		phase := func(name string, f func()) {
			*a = acc{}
			f()
			judge(c, d, a, name)
			total.ops += a.ops
			total.eq += a.eq
			total.hash += a.hash
			total.rehash += a.rehash
		}
		phase("growing", func() {
			for _, i := range c.R.Perm(n) {
				do(d, a, "put", i)
			}
		})
		phase("lookup", func() {
			for k := 0; k < 2000; k++ {
				do(d, a, "get", c.R.Intn(n))
			}
		})
		perm := c.R.Perm(n)
		keep := c.R.Intn(n/4 + 1)
		phase("shrinking", func() {
			for _, i := range perm[keep:] {
				do(d, a, "remove", i)
			}
		})
		phase("lookup after shrinking", func() {
			for k := 0; k < 2000; k++ {
				do(d, a, "get", c.R.Intn(n))
			}
		})
		phase("lookup of present keys after shrinking", func() {
			for k := 0; k < 2000 && keep > 0; k++ {
				do(d, a, "get", perm[c.R.Intn(keep)])
			}
		})
		phase("regrowing", func() {
			for i := 0; i < n; i++ {
				do(d, a, "put", i)
			}
		})
		phase("replacing", func() {
			for k := 0; k < 2000; k++ {
				do(d, a, "put", c.R.Intn(n))
			}
		})
		judge(c, d, total, "whole history")
		if total.rehash > 0 {
			c.Nontrivial(mon.Mix(uint64(c.R.Int63())))
		}
	})
	// the adversary goes back and forth over every size at which it saw a rehash
	x.Stream("thrash", x.N(160, 2500), func(c *mon.Case) {
		n := 400 + c.R.Intn(1200)
		d, a := mk(c, n, 500)
		c.Desc("adversary on %s", d.about())
		next := 0 // keys [0, next) are stored
		var points []int
		probe := func() {
			w := 1 + c.R.Intn(4)
			b := &acc{}
			for k := 0; k < 150; k++ {
				for j := 0; j < w && next > 0; j++ {
					next--
					do(d, b, "remove", next)
				}
				for j := 0; j < w && next < n; j++ {
					do(d, b, "put", next)
					next++
				}
				do(d, b, "get", c.R.Intn(n))
			}
			c.Ev("oscillation")
			judge(c, d, b, fmt.Sprintf("going back and forth by %d at size %d", w, next))
			c.X.Max("max-rehashes-in-oscillation", int64(b.rehash))
		}
		for next < n {
			if do(d, a, "put", next) {
				next++
				points = append(points, next)
				probe()
			} else {
				next++
			}
			if c.R.Intn(150) == 0 {
				probe()
			}
		}
		for next > 0 {
			next--
			if do(d, a, "remove", next) {
				points = append(points, next)
				probe()
				if next == 0 {
					break
				}
			}
			if c.R.Intn(150) == 0 {
				probe()
			}
		}
		c.Nontrivial(mon.Mix(uint64(len(points)), uint64(c.R.Int63())))
		c.State(mon.HashStr(fmt.Sprint(points)))
	})
	c09Giant(x, maxEq, maxHash)
}
