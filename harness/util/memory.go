package main

import (
	"runtime"
	"weak"

	. "../../../repo/src/util"
	"../mon"
)

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

type life struct {
	data weak.Pointer[[64]byte]
	live bool
}

//go:noinline
func setTracked(c *mon.Case, t *Trie, k IKey, lives *[]life) {
	b := new([64]byte)
	c.R.Read(b[:])
	var v IValue = NewPrimitive(b[:1+c.R.Intn(64)])
	switch c.R.Intn(4) {
	case 0:
		v = NewValueArray().Append(v)
	case 1:
		v = NewRecordList().Append(NewRecord().SetValue(v))
	}
	t.Set(k, v)
	*lives = append(*lives, life{weak.Make(b), true})
}

func u24(x *mon.Ctx) {
	x.Rule("a case is one history of setting and clearing with garbage collections in between; non-trivial: something was cleared or replaced; distinct by history")
	for _, u := range universes {
		u := u
		x.Stream("release-"+u.name, fewer(u.name, x.N(40, 2000), 4), func(c *mon.Case) {
			w := newWorld(u.f(c.R))
			t := NewTrie()
			var lives []life
			at := map[int]int{}
			h := mon.HashStr(u.name)
			for phase := 0; phase < 4; phase++ {
				for step := c.R.Intn(4 * len(w.keys)); step >= 0; step-- {
					i := c.R.Intn(len(w.keys))
					h = mon.Mix(h, uint64(i))
					if o, ok := at[i]; ok {
						lives[o].live = false
						delete(at, i)
					}
					if c.R.Intn(3) == 0 {
						t.Set(w.key(c, i), nil)
						c.Ev("clear")
					} else {
						setTracked(c, t, w.key(c, i), &lives)
						at[i] = len(lives) - 1
						c.Ev("set")
					}
					if c.R.Intn(40) == 0 {
						t.Encode(nil)
					}
				}
				if phase == 3 {
					for i := range w.keys {
						t.Set(w.key(c, i), nil)
						if o, ok := at[i]; ok {
							lives[o].live = false
							delete(at, i)
						}
					}
				}
				gone, kept := 0, 0
				for try := 0; try < 4; try++ { // what an interrupted stack held is let go by the next one
					runtime.GC()
					gone, kept = 0, 0
					for _, l := range lives {
						if l.live {
							c.Check(l.data.Value() != nil, "lost", "a value that is stored was released")
							continue
						}
						gone++
						if l.data.Value() != nil {
							kept++
						}
					}
					if kept == 0 {
						break
					}
				}
				c.X.Max("kept-values", int64(kept))
				c.Check(kept == 0, "release-values", "trie of %d values: %d of %d values that were cleared or replaced are still held", len(at), kept, gone)
				if gone > 0 {
					c.Ev("released")
				}
			}
			runtime.KeepAlive(t)
			c.Desc("trie of up to %d keys (%s)", len(w.keys), u.name)
			c.Nontrivial(h)
		})
	}
	shapes := []struct {
		name string
		per  int64 // bytes per entry
		mk   func(i int) [][]byte
	}{
		{"flat", 4000, func(i int) [][]byte { return [][]byte{{byte(i), byte(i >> 8), byte(i >> 16), 1}} }},
		{"deep", 4000, func(i int) [][]byte {
			return [][]byte{{byte(i), 1}, {byte(i >> 8), 2}, {byte(i >> 16), 3}, {9}, {byte(i)}}
		}},
		{"forest", 4000, func(i int) [][]byte { return [][]byte{{byte(i % 100)}, {byte(i >> 8), byte(i), byte(i >> 16)}} }},
		{"nested", 4000, func(i int) [][]byte {
			k := [][]byte{}
			for j := 0; j <= i%30; j++ {
				k = append(k, []byte{byte(i / 30), byte(i / 30 >> 8), byte(i / 30 >> 16)})
			}
			return k
		}},
		{"deepest", 14000, func(i int) [][]byte { // a few in each of many deep branches
			k := [][]byte{}
			for j := 200 - i%8; j > 0; j-- {
				k = append(k, []byte{byte(i / 8), byte(i / 8 >> 8)})
			}
			return k
		}},
	}
	for _, s := range shapes {
		s := s
		x.Stream("heap-"+s.name, x.N(4, 80), func(c *mon.Case) {
			mkVal := func() IValue {
				p := NewPrimitive(randFull(c.R, 1+c.R.Intn(40)))
				switch c.R.Intn(4) {
				case 0:
					return NewValueArray().Append(p).Append(NewPrimitive(nil))
				case 1:
					return NewRecordList().Append(NewRecord().SetValue(p))
				}
				return p
			}
			before := heap()
			t := NewTrie()
			n, base := 0, 0
			judge := func(what string) {
				enc := 0
				if c.R.Intn(2) == 0 {
					c.Check(t.Encode(nil) == nil, "encode-error", "%s", what)
					enc = len(t.Buf())
				}
				now := heap()
				if n > 1000 {
					c.X.Max("bytes-per-entry-"+s.name, (now-before)/int64(n))
				} else if n == 0 {
					c.X.Max("bytes-empty", now-before)
				}
				c.Check(now-before <= 256<<10+s.per*int64(n), "heap", "trie with %d entries (%s), %s, encoded in %d bytes: %d bytes", n, s.name, what, enc, now-before)
				c.Evf("judged", "%s: %d entries, %d bytes", what, n, now-before)
				runtime.KeepAlive(t)
			}
			key := func(i int) IKey {
				k := NewKey()
				for _, p := range s.mk(i) {
					k.Add(p)
				}
				return k
			}
			fill := func(to int) {
				for n < to {
					t.Set(key(base+n), mkVal())
					n++
				}
			}
			drain := func(to int) {
				for n > to {
					t.Set(key(base), nil)
					base++
					n--
				}
			}
			h := uint64(1)
			for round := 0; round < 3; round++ {
				top := 1000 + c.R.Intn(3000)
				h = mon.Mix(h, uint64(top))
				fill(top)
				judge("filled")
				for j := 0; j < 12000; j++ {
					switch c.R.Intn(3) {
					case 0: // the same key again
						t.Set(key(base+c.R.Intn(n)), mkVal())
					case 1: // missing keys
						t.Set(key(base+n+c.R.Intn(1000)), nil)
						t.Get(key(base + n + c.R.Intn(1000)))
					default:
						drain(n - 1)
						fill(n + 1)
					}
					if c.R.Intn(2000) == 0 {
						t.Encode(nil)
					}
				}
				judge("after 12000 changes")
				drain(c.R.Intn(500))
				judge("drained")
			}
			drain(0)
			judge("emptied")
			t.Encode(nil)
			judge("emptied and encoded")
			c.Desc("trie (%s) filled and drained three times", s.name)
			c.Nontrivial(mon.Mix(h, mon.HashStr(s.name)))
		})
	}
}
