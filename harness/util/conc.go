package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"time"

	"../../../repo/src/collection"
	. "../../../repo/src/util"
	"../mon"
)

// jitter now and then lets the other goroutines go first.
func jitter(s *mon.Case) {
	switch s.R.Intn(24) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := s.R.Intn(3000); i > 0; i-- {
			_ = i
		}
	case 3:
		if s.R.Intn(6) == 0 {
			time.Sleep(time.Duration(s.R.Intn(60)) * time.Microsecond)
		}
	}
}

// interleaving turns the times at which the goroutines did something into the
// order in which they took turns. Only clocks are read while they run: a shared
// counter would order them, and so hide races from the detector.
type interleaving struct{ at [][]int64 }

func newInterleaving(n int) *interleaving {
	return &interleaving{at: make([][]int64, n)}
}

var epoch = time.Now()

func (l *interleaving) tick(i int) {
	if len(l.at[i]) < 64 {
		l.at[i] = append(l.at[i], int64(time.Since(epoch)))
	}
}

func (l *interleaving) count(c *mon.Case) {
	type ev struct {
		t int64
		g int
	}
	all := []ev{}
	for g, a := range l.at {
		for _, t := range a {
			all = append(all, ev{t, g})
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].t < all[j].t })
	h, switches := uint64(len(l.at)), 0
	for i, e := range all {
		h = mon.Mix(h, uint64(e.g))
		if i > 0 && all[i-1].g != e.g {
			switches++
		}
	}
	c.State(h)
	c.EvN("switch", switches)
	if switches >= len(l.at) {
		c.Ev("interleaved")
	}
}

// bigVal is an array or list of which the elements have not been looked at.
func bigVal(c *mon.Case) *aVal {
	n := 2 + c.R.Intn(60)
	if c.R.Intn(6) == 0 {
		n = 100 + c.R.Intn(300)
	}
	a := &aVal{kind: 'a'}
	if c.R.Intn(2) == 0 {
		a.kind = 'r'
		for i := 0; i < n; i++ {
			a.recs = append(a.recs, genRec(c.R, 1, 40))
		}
		return a
	}
	for i := 0; i < n; i++ {
		switch c.R.Intn(6) {
		case 0:
			e := &aVal{kind: 'a'}
			for j := 1 + c.R.Intn(4); j > 0; j-- {
				e.vals = append(e.vals, &aVal{kind: 'p', data: randBytes(c.R, 1+c.R.Intn(6))})
			}
			a.vals = append(a.vals, e)
		case 1:
			a.vals = append(a.vals, &aVal{kind: 'r', recs: []*aRec{genRec(c.R, 1, 40), genRec(c.R, 1, 40)}})
		default:
			a.vals = append(a.vals, &aVal{kind: 'p', data: randBytes(c.R, 1+c.R.Intn(20))})
		}
	}
	return a
}

func u21(x *mon.Ctx) {
	x.Rule("distinct objects (by content) read by several goroutines at once; states are distinct interleavings of their first steps")
	readers := func(c *mon.Case) int { return 2 + c.R.Intn(5) }

	// everything there is to see, seen by all at once
	for _, k := range kinds {
		k := k
		n := x.N(120, 4000)
		if k.class != 0 {
			n /= 2
		}
		x.Stream("shared-"+k.name, n, func(c *mon.Case) {
			enc := k.valid(c.R)
			ref, _, err := k.open(cp(enc))
			c.Check(err == nil, k.name+"-decode", "decoding %s: %v", short(enc), err)
			w := &walker{r: c.R, budget: 1 << 30, all: true, c: c}
			want := w.walk(ref)
			buf := cp(enc)
			if k.delimit {
				buf = follow(c.R, enc)
			}
			obj, _, err := k.open(buf)
			c.Check(err == nil, k.name+"-decode", "decoding %s: %v", short(enc), err)
			c.Nontrivial(mon.Mix(mon.HashStr(k.name), mon.HashBytes(enc)))
			c.Desc("%s %s", k.name, short(enc))
			n := readers(c)
			l := newInterleaving(n)
			c.Parallel(n, func(i int, s *mon.Case) {
				o := obj
				for j := 0; j < 3; j++ {
					jitter(s)
					l.tick(i)
					if s.R.Intn(5) == 0 { // or one of its own from the same bytes
						var err error
						if o, _, err = k.open(buf); err != nil {
							s.Failf("concurrent-decode-"+k.name, "decoding %s fails while others read: %v", short(enc), err)
						}
						s.Ev("decoded-concurrently")
					}
					g := &walker{r: s.R, budget: 1 << 30, all: true, c: s}
					if got := g.walk(o); got != want {
						s.Failf("concurrent-"+k.name, "%d concurrent readers: one of them sees other content in %s than a single reader", n, short(enc))
					}
					s.Ev("walked")
					s.Ev("walked-" + k.name)
					l.tick(i)
				}
			})
			l.count(c)
			if b, ok := bufOf(obj); ok {
				c.Check(bytes.HasPrefix(buf, b), "concurrent-"+k.name, "the bytes of %s have changed", short(enc))
			}
		})
	}

	// the elements of an array, looked at first by several at once
	x.Stream("elements", x.N(700, 30000), func(c *mon.Case) {
		a := bigVal(c)
		v := build(a)
		if v.Encode(nil) != nil {
			return
		}
		want := canonVal(a)
		buf := follow(c.R, v.Buf())
		m, _, err := NewStandardMappedValue(buf)
		c.Check(err == nil, "value-decode", "decoding %v: %v", a, err)
		c.Nontrivial(a.hash(1))
		c.Desc("%d elements of kind %c", len(a.vals)+len(a.recs), a.kind)
		n := readers(c)
		size := len(a.vals) + len(a.recs)
		l := newInterleaving(n)
		firstV, firstR := make([][]IValue, n), make([][]IRecord, n)
		c.Parallel(n, func(i int, s *mon.Case) {
			firstV[i], firstR[i] = make([]IValue, size), make([]IRecord, size)
			for _, j := range order(s.R, size) {
				jitter(s)
				l.tick(i)
				if a.kind == 'a' {
					e, err := m.ValueAt(uint16(j))
					if err != nil {
						s.Failf("concurrent-element", "ValueAt(%d) of %d: %v", j, size, err)
					}
					if d := diffVal(s, e, want.vals[j], true); d != "" {
						s.Failf("concurrent-element", "%d concurrent readers, element %d of %d: %s", n, j, size, d)
					}
					firstV[i][j] = e
				} else {
					e, err := m.RecordAt(uint16(j))
					if err != nil {
						s.Failf("concurrent-element", "RecordAt(%d) of %d: %v", j, size, err)
					}
					if d := diffRec(s, e, want.recs[j], true); d != "" {
						s.Failf("concurrent-element", "%d concurrent readers, record %d of %d: %s", n, j, size, d)
					}
					firstR[i][j] = e
				}
				s.Ev("element-raced")
			}
		})
		l.count(c)
		if d := diffVal(c, m, want, true); d != "" {
			c.Failf("concurrent-element", "after concurrent readers: %s", d)
		}
	})

	// copies made, changed and read while others read and copy
	subjects := []struct {
		name string
		f    func(*mon.Case, string) *subject
	}{{"value", subjectVal}, {"record", subjectRec}, {"key", subjectKey}, {"scheme", subjectScheme}, {"trie", subjectTrie}}
	for _, sub := range subjects {
		sub := sub
		x.Stream("copies-"+sub.name, x.N(200, 8000), func(c *mon.Case) {
			var s *subject
			for {
				if s = sub.f(c, "decoded"); s.enc != nil {
					break
				}
			}
			c.Nontrivial(mon.Mix(mon.HashStr(s.what), mon.HashBytes(s.enc)))
			c.Desc("%s", s.what)
			n := readers(c)
			l := newInterleaving(n)
			c.Parallel(n, func(i int, g *mon.Case) {
				for j := 0; j < 4; j++ {
					jitter(g)
					l.tick(i)
					switch g.R.Intn(3) {
					case 0:
						if d := s.diff(g, s.obj, true, true); d != "" {
							g.Failf("concurrent-"+sub.name, "%s, read by %d: %s", s.what, n, d)
						}
						g.Ev("read-raced")
					case 1:
						o := s.obj.(interface{ Copy() IEncodable }).Copy()
						if d := s.diff(g, o, true, true); d != "" {
							g.Failf("concurrent-copy-"+sub.name, "copy of %s, made by one of %d: %s", s.what, n, d)
						}
						(&scrambler{r: g.R}).any(o)
						g.Ev("copy-raced")
					default:
						o, err := s.obj.(interface{ CopyConstruct() (IEncodable, error) }).CopyConstruct()
						if _, no := s.obj.(*MappedTrie); no && err != nil {
							break
						}
						if err != nil {
							g.Failf("concurrent-copy-"+sub.name, "CopyConstruct of %s by one of %d: %v", s.what, n, err)
						}
						if d := s.diff(g, o, false, true); d != "" {
							g.Failf("concurrent-copy-"+sub.name, "constructed copy of %s, made by one of %d: %s", s.what, n, d)
						}
						(&scrambler{r: g.R}).any(o)
						g.Ev("copy-raced")
					}
					l.tick(i)
				}
			})
			l.count(c)
			if d := s.diff(c, s.obj, true, true); d != "" {
				c.Failf("concurrent-"+sub.name, "%s, after %d readers: %s", s.what, n, d)
			}
		})
	}

	// a map that nobody changes any more
	x.Stream("maps", x.N(200, 6000), func(c *mon.Case) {
		keys := []aKey{}
		for i := 3 + c.R.Intn(60); i > 0; i-- {
			keys = append(keys, smallKey(c.R, 4, 4))
		}
		w := newWorld(keys)
		sm, hm := collection.NewSortedMap(), collection.NewHashMap()
		ss, hs := collection.NewSortedSet(), collection.NewHashSet()
		for _, i := range c.R.Perm(len(w.keys)) {
			v := NewPrimitive([]byte{byte(i)})
			w.vals[i] = v
			sm.Put(w.key(c, i), v)
			hm.Put(w.key(c, i), v)
			ss.Put(w.key(c, i))
			hs.Put(w.key(c, i))
		}
		for i := range w.keys { // and some that go again
			if c.R.Intn(4) == 0 && w.vals[i] != nil {
				w.vals[i] = nil
				sm.Remove(w.key(c, i))
				hm.Remove(w.key(c, i))
				ss.Remove(w.key(c, i))
				hs.Remove(w.key(c, i))
			}
		}
		c.Nontrivial(w.hash())
		c.Desc("maps and sets of %v", w)
		stored := []int{}
		for i := range w.keys {
			if w.vals[i] != nil {
				stored = append(stored, i)
			}
		}
		// what a single reader sees
		hashEntries := func() map[string]IValue {
			res := map[string]IValue{}
			for it := hm.Iterator(); it.HasNext(); {
				k, v := it.Next()
				res[string(refKey(k.(IKey).Key()))] = v.(IValue)
			}
			return res
		}
		single := hashEntries()
		n := readers(c)
		l := newInterleaving(n)
		c.Parallel(n, func(g int, s *mon.Case) {
			for j := 0; j < 30; j++ {
				jitter(s)
				l.tick(g)
				i := s.R.Intn(len(w.keys))
				k := w.key(s, i)
				s.Ev("map-read")
				switch s.R.Intn(8) {
				case 0, 1:
					var got interface{} = sm.Get(k)
					if v, _ := got.(IValue); v != w.vals[i] {
						s.Failf("concurrent-sorted-map", "Get of %v gives %v", w.keys[i], got)
					}
				case 2, 3:
					var got interface{} = hm.Get(k)
					if v, _ := got.(IValue); v != w.vals[i] {
						s.Failf("concurrent-hash-map", "Get of %v gives %v", w.keys[i], got)
					}
				case 4:
					if ss.Exist(k) != (w.vals[i] != nil) || hs.Exist(k) != (w.vals[i] != nil) {
						s.Failf("concurrent-set", "Exist of %v is wrong", w.keys[i])
					}
				case 5:
					it, at := sm.Iterator(), 0
					for it.HasNext() {
						k, v := it.Next()
						if at >= len(stored) || v != collection.IObject(w.vals[stored[at]]) || diffKey(k.(IKey), w.keys[stored[at]]) != "" {
							s.Failf("concurrent-sorted-map", "iteration gives a wrong entry %d", at)
						}
						at++
					}
					if at != len(stored) {
						s.Failf("concurrent-sorted-map", "iteration ends after %d of %d", at, len(stored))
					}
				case 6:
					seen := hashEntries()
					for k, v := range single {
						if seen[k] != v {
							s.Failf("concurrent-hash-map", "iteration does not give %x as it does to a single reader", k)
						}
					}
					if len(seen) != len(single) {
						s.Failf("concurrent-hash-map", "iteration gives %d entries, and %d to a single reader", len(seen), len(single))
					}
				default:
					at := 0
					for it := ss.RangeIterator(k, nil); it.HasNext(); it.Next() {
						at++
					}
					want := len(stored) - sort.Search(len(stored), func(q int) bool { return stored[q] >= i })
					if at != want {
						s.Failf("concurrent-sorted-set", "range iteration from %v gives %d, want %d", w.keys[i], at, want)
					}
				}
				if sm.Size() != len(stored) || hm.Size() != len(stored) || ss.Size() != len(stored) || hs.Size() != len(stored) {
					s.Failf("concurrent-size", "size is wrong")
				}
				l.tick(g)
			}
		})
		l.count(c)
	})

	// perfect hash tables, built and read back
	x.Stream("tables", x.N(150, 5000), func(c *mon.Case) {
		keys := []aKey{}
		for i := c.R.Intn(120); i > 0; i-- {
			keys = append(keys, smallKey(c.R, 5, 4))
		}
		w := newWorld(keys)
		list := []IKey{}
		for i := range w.keys {
			list = append(list, w.key(c, i))
		}
		t := MPHBuild(list, c.R.Intn(2) == 0)
		if c.R.Intn(2) == 0 {
			b, err := t.Encode()
			c.Check(err == nil, "mph-encode", "encoding a table: %v", err)
			t, _, err = NewMPHTable(b)
			c.Check(err == nil, "mph-decode", "decoding a table: %v", err)
		}
		c.Nontrivial(mon.Mix(uint64(len(list)), mon.HashStr(fmt.Sprint(w.keys))))
		c.Desc("table of %d keys", len(list))
		n := readers(c)
		l := newInterleaving(n)
		c.Parallel(n, func(g int, s *mon.Case) {
			for j := 0; j < 40 && len(list) > 0; j++ {
				jitter(s)
				l.tick(g)
				i := s.R.Intn(len(w.keys))
				if at, ok := t.Lookup(w.key(s, i)); !ok || int(at) != i {
					s.Failf("concurrent-table", "Lookup of %v gives %d %v, want %d", w.keys[i], at, ok, i)
				}
				s.Ev("table-read")
			}
		})
		l.count(c)
	})

	// objects that have nothing to do with each other: built, encoded, decoded
	x.Stream("independent", x.N(400, 15000), func(c *mon.Case) {
		n := readers(c)
		l := newInterleaving(n)
		c.Nontrivial(mon.Mix(uint64(c.R.Int63())))
		c.Desc("%d goroutines, each with objects of its own", n)
		shared := randBytes(c.R, 40) // bytes that all of them use
		c.Parallel(n, func(g int, s *mon.Case) {
			for j := 0; j < 3; j++ {
				jitter(s)
				l.tick(g)
				a := genRec(s.R, 2, 100)
				r := buildRec(a)
				if enc := encodeRec(s, r, a); enc != nil {
					checkDecodedRec(s, enc, a)
				}
				k := aKey{shared[:1+s.R.Intn(39)], shared}
				checkDecodedKey(s, encodeKey(s, NewKey().Add(k[0]).Add(k[1]), k), k)
				w := newWorld(universes[0].f(s.R))
				t := NewTrie()
				w.fill(s, t, 2)
				w.roundTrip(s, t, false)
				if !bytes.Equal(Base58Decode(Base58Encode(shared)), shared) {
					s.Failf("concurrent-base58", "base58 of %x does not round trip", shared)
				}
				if v := RandRange(s); v != "" {
					s.Failf("concurrent-rand", "%s", v)
				}
				h := collection.NewHashMap()
				for q := 0; q < 20; q++ {
					h.Put(NewStringKey(fmt.Sprint("k", q)), NewPrimitive([]byte{byte(q)}))
				}
				if h.Size() != 20 || h.Get(NewStringKey("k7")) == nil {
					s.Failf("concurrent-independent-map", "a map of 20 keys has %d", h.Size())
				}
				s.Ev("independent")
				l.tick(g)
			}
		})
		l.count(c)
	})
}

// RandRange draws from small ranges.
func RandRange(s *mon.Case) string {
	for i := 0; i < 4; i++ {
		if v := RandInt64Range(-3, 4); v < -3 || v >= 4 {
			return fmt.Sprintf("RandInt64Range(-3, 4) gives %d", v)
		}
		if v := RandUint8Range(200, 210); v < 200 || v >= 210 {
			return fmt.Sprintf("RandUint8Range(200, 210) gives %d", v)
		}
	}
	return ""
}
