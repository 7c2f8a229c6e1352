package main

import (
	"runtime"
	"weak"

	. "../../../repo/src/collection"
	"../mon"
)

// tracked is a value whose release can be observed.
type tracked struct {
	n   int
	pad [6]int
}

// store is one of the four collections.
type store interface {
	put(i int, k *token, v *tracked)
	remove(i int)
	get(i int)
	size() int
}

// the keys keep a pointer, so that their release can be observed
type memKey struct {
	v int
	p *token
}

func (k *memKey) Equal(o IObject) bool {
	t, ok := o.(*memKey)
	return ok && t != nil && t.v == k.v
}
func (k *memKey) Compare(o IComparable) int { return k.v - o.(*memKey).v }
func (k *memKey) HashUint32(f func([]byte) uint32) uint32 {
	return f([]byte{byte(k.v), byte(k.v >> 8), byte(k.v >> 16), byte(k.v >> 24)})
}

type sortedMapStore struct{ m *SortedMap }
type sortedSetStore struct{ m *SortedSet }
type hashMapStore struct{ m *HashMap }
type hashSetStore struct{ m *HashSet }

func (s sortedMapStore) put(i int, k *token, v *tracked) { s.m.Put(&memKey{i, k}, v) }
func (s sortedMapStore) remove(i int)                  { s.m.Remove(&memKey{v: i}) }
func (s sortedMapStore) get(i int)                     { s.m.Get(&memKey{v: i}) }
func (s sortedMapStore) size() int                     { return s.m.Size() }
func (s sortedSetStore) put(i int, k *token, v *tracked) { s.m.Put(&memKey{i, k}) }
func (s sortedSetStore) remove(i int)                  { s.m.Remove(&memKey{v: i}) }
func (s sortedSetStore) get(i int)                     { s.m.Exist(&memKey{v: i}) }
func (s sortedSetStore) size() int                     { return s.m.Size() }
func (s hashMapStore) put(i int, k *token, v *tracked)   { s.m.Put(&memKey{i, k}, v) }
func (s hashMapStore) remove(i int)                    { s.m.Remove(&memKey{v: i}) }
func (s hashMapStore) get(i int)                       { s.m.Get(&memKey{v: i}) }
func (s hashMapStore) size() int                       { return s.m.Size() }
func (s hashSetStore) put(i int, k *token, v *tracked)   { s.m.Put(&memKey{i, k}) }
func (s hashSetStore) remove(i int)                    { s.m.Remove(&memKey{v: i}) }
func (s hashSetStore) get(i int)                       { s.m.Exist(&memKey{v: i}) }
func (s hashSetStore) size() int                       { return s.m.Size() }

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// life remembers, without holding them, what was given to a store.
type life struct {
	key  weak.Pointer[token]
	val  weak.Pointer[tracked]
	i    int
	live bool
}

// token is big enough to have memory of its own.
type token struct {
	n   int
	pad [3]int
}

//go:noinline
func putTracked(s store, lives *[]life, at map[int]int, i int) {
	k, v := &token{n: i}, &tracked{n: i}
	s.put(i, k, v)
	if o, ok := at[i]; ok {
		(*lives)[o].live = false
	}
	at[i] = len(*lives)
	*lives = append(*lives, life{weak.Make(k), weak.Make(v), i, true})
}

func c11(x *mon.Ctx) {
	x.Rule("a case is one history of fills and drains of one collection with garbage collections in between; non-trivial: something was removed or replaced; distinct by history")
	kinds := []struct {
		name string
		mk   func(c *mon.Case) (store, bool) // and whether the parameters are the default ones
		vals bool
	}{
		{"sorted-map", func(c *mon.Case) (store, bool) { return sortedMapStore{NewSortedMap()}, true }, true},
		{"sorted-set", func(c *mon.Case) (store, bool) { return sortedSetStore{NewSortedSet()}, true }, false},
		{"hash-map", func(c *mon.Case) (store, bool) { return hashMapStore{NewHashMap()}, true }, true},
		{"hash-set", func(c *mon.Case) (store, bool) { return hashSetStore{NewHashSet()}, true }, false},
		{"custom-map", func(c *mon.Case) (store, bool) {
			return hashMapStore{NewCustomHashMap(c.R.Intn(500), c.R.Float32()*1.5, 1+c.R.Float32()*5)}, false
		}, true},
	}
	for _, k := range kinds {
		k := k
		x.Stream("release-"+k.name, x.N(60, 3000), func(c *mon.Case) {
			s, _ := k.mk(c)
			var lives []life
			at := map[int]int{} // key to its latest life
			n := []int{20, 200, 2000}[c.R.Intn(3)]
			h := uint64(n)
			for phase := 0; phase < 4; phase++ {
				full := c.R.Intn(n + 1)
				for j := 0; j < full; j++ {
					i := c.R.Intn(n)
					if c.R.Intn(4) == 0 {
						i = j
					}
					putTracked(s, &lives, at, i)
					h = mon.Mix(h, uint64(i))
					c.Ev("put")
				}
				share := []int{0, 20, 50, 90, 100}[c.R.Intn(5)]
				for i := 0; i < n; i++ {
					s.get(c.R.Intn(n))
					if c.R.Intn(100) < share {
						s.remove(i)
						if o, ok := at[i]; ok {
							lives[o].live = false
							delete(at, i)
						}
						h = mon.Mix(h, uint64(i)+1<<32)
						c.Ev("remove")
					}
				}
				gone, keptKeys, keptVals := 0, 0, 0
				for try := 0; try < 4; try++ { // what an interrupted stack held is let go by the next one
					runtime.GC()
					gone, keptKeys, keptVals = 0, 0, 0
					for _, l := range lives {
						if l.live {
							c.Check(!k.vals || l.val.Value() != nil, "lost", "%s: a value that is stored was released", k.name)
							continue
						}
						gone++
						if _, ok := at[l.i]; !ok && l.key.Value() != nil { // a replacement may keep the earlier key object
							keptKeys++
						}
						if l.val.Value() != nil {
							keptVals++
						}
					}
					if keptKeys+keptVals == 0 {
						break
					}
				}
				c.X.Max("kept-values", int64(keptVals))
				c.X.Max("kept-keys", int64(keptKeys))
				c.Check(keptVals == 0, "release-values", "%s of %d entries: %d of %d values that were removed or replaced are still held", k.name, len(at), keptVals, gone)
				c.Check(keptKeys == 0, "release-keys", "%s of %d entries: %d of %d keys that were removed or replaced are still held", k.name, len(at), keptKeys, gone)
				c.Check(s.size() == len(at), "size", "%s: size %d, want %d", k.name, s.size(), len(at))
				if gone > 0 {
					c.Ev("released")
				}
				// forget what has been judged
				left := []life{}
				for i, o := range at {
					at[i] = len(left)
					left = append(left, lives[o])
				}
				for _, l := range lives {
					if !l.live && l.key.Value() != nil { // an earlier key object
						left = append(left, l)
					}
				}
				lives = left
			}
			runtime.KeepAlive(s)
			c.Desc("%s of up to %d keys", k.name, n)
			c.Nontrivial(h)
		})
	}
	for _, k := range kinds[:4] {
		k := k
		x.Stream("heap-"+k.name, x.N(6, 120), func(c *mon.Case) {
			before := heap()
			s, _ := k.mk(c)
			n := 0
			h := uint64(c.Index)
			judge := func(what string) {
				now := heap()
				per := int64(0)
				if n > 0 {
					per = (now - before) / int64(n)
				}
				if n > 2000 {
					c.X.Max("bytes-per-entry-"+k.name, per)
				} else if n == 0 {
					c.X.Max("bytes-empty", now-before)
				}
				c.Check(now-before <= 256<<10+400*int64(n), "heap", "%s with %d entries, %s: %d bytes", k.name, n, what, now-before)
				c.Evf("judged", "%s: %d entries, %d bytes", what, n, now-before)
				runtime.KeepAlive(s)
			}
			base := 0 // stored are base .. base+n-1
			fill := func(to int) {
				for n < to {
					s.put(base+n, nil, &tracked{})
					n++
				}
			}
			drain := func(to int) {
				for n > to {
					s.remove(base)
					base++
					n--
				}
			}
			for round := 0; round < 3; round++ {
				top := 3000 + c.R.Intn(30000)
				h = mon.Mix(h, uint64(top))
				fill(top)
				judge("filled")
				// as many entries all the time, other ones
				for j := 0; j < 60000; j++ {
					drain(n - 1)
					fill(n + 1)
				}
				judge("after 60000 replacements")
				drain(c.R.Intn(3000))
				judge("drained")
				if c.R.Intn(2) == 0 {
					drain(0)
					judge("emptied")
				}
			}
			drain(0)
			judge("emptied")
			c.Desc("%s filled and drained three times", k.name)
			c.Nontrivial(h)
		})
	}
}
