package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"syscall"

	"../../../repo/src/collection"
	. "../../../repo/src/util"
	"../mon"
)

// ---------------------------------------------------------------- U27

// A job makes things of some size, outside of what is measured, and gives
// what is measured.
type job struct {
	name string
	n    int // the larger size
	prep func(c *mon.Case, n int) func()
}

const growth = 16 // the larger size in times of the smaller one

// cpu is the processor time of this thread.
func cpu() float64 {
	var ru syscall.Rusage
	const thread = 1
	syscall.Getrusage(thread, &ru)
	return float64(ru.Utime.Nano()+ru.Stime.Nano()) / 1e9
}

func costKey(r *rand.Rand, i int) aKey {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(i)*2654435761)
	return aKey{b[:1], b[1:]}
}

func costKeys(r *rand.Rand, n int) []IKey {
	res := make([]IKey, n)
	for i := range res {
		res[i] = buildKey(costKey(r, i))
	}
	return res
}

func deepKey(n int) *Key {
	k := NewKey()
	for i := 0; i < n; i++ {
		k.Add([]byte{byte(i)})
	}
	return k
}

func must(c *mon.Case, err error) {
	if err != nil {
		c.Failf("cost-error", "%v", err)
	}
}

func costTrie(c *mon.Case, keys []IKey) *Trie {
	t := NewTrie()
	for i, k := range keys {
		t.Set(k, NewPrimitive([]byte{1, byte(i)}))
	}
	return t
}

func costArray(n int) *ValueArray {
	a := NewValueArray()
	for i := 0; i < n; i++ {
		a.Append(NewPrimitive([]byte{byte(i)}))
	}
	return a
}

func costList(c *mon.Case, n int) *RecordList {
	l := NewRecordList()
	for i := 0; i < n; i++ {
		l.Append(NewRecord().SetKey(NewKey().Add([]byte{byte(i >> 8), byte(i)})))
	}
	return l
}

func num(i uint32) collection.IComparable {
	return collection.NewComparableUint32Slice([]uint32{i})
}

type iterating interface {
	HasNext() bool
	Next() (IKey, IValue)
}

func drain(c *mon.Case, it iterating, n int) {
	k := 0
	for it.HasNext() {
		if _, v := it.Next(); v != nil {
			k++
		}
	}
	c.Check(k == n, "cost-content", "%d of %d keys are yielded", k, n)
}

var jobs = []job{
	{"trie-set", 48000, func(c *mon.Case, n int) func() {
		keys := costKeys(c.R, n)
		return func() { costTrie(c, keys) }
	}},
	{"trie-get", 48000, func(c *mon.Case, n int) func() {
		keys := costKeys(c.R, n)
		t := costTrie(c, keys)
		return func() {
			for _, k := range keys {
				c.Check(t.Get(k) != nil, "cost-content", "a key is missing")
			}
		}
	}},
	{"trie-replace", 48000, func(c *mon.Case, n int) func() {
		keys := costKeys(c.R, n)
		t := costTrie(c, keys)
		return func() {
			for _, k := range keys {
				c.Check(t.Set(k, NewPrimitive([]byte{2})) != nil, "cost-content", "a key is missing")
			}
		}
	}},
	{"trie-fill-drain", 32000, func(c *mon.Case, n int) func() {
		keys := costKeys(c.R, n)
		return func() {
			t := costTrie(c, keys)
			for _, k := range keys {
				c.Check(t.Set(k, nil) != nil, "cost-content", "a key is missing")
			}
		}
	}},
	{"trie-iterate", 48000, func(c *mon.Case, n int) func() {
		t := costTrie(c, costKeys(c.R, n))
		return func() { drain(c, t.Iterator(), n) }
	}},
	{"trie-range", 48000, func(c *mon.Case, n int) func() {
		t := costTrie(c, costKeys(c.R, n))
		return func() { drain(c, t.RangeIterator(NewKey().Add([]byte{0}), nil), n) }
	}},
	{"trie-encode", 32000, func(c *mon.Case, n int) func() {
		t := costTrie(c, costKeys(c.R, n))
		return func() { must(c, t.Encode(nil)) }
	}},
	{"trie-decode", 32000, func(c *mon.Case, n int) func() {
		t := costTrie(c, costKeys(c.R, n))
		must(c, t.Encode(nil))
		buf := t.Buf()
		return func() {
			_, l, err := NewMappedTrie(buf)
			must(c, err)
			c.Check(l == len(buf), "cost-content", "%d of %d bytes", l, len(buf))
		}
	}},
	{"trie-decoded-get", 48000, func(c *mon.Case, n int) func() {
		keys := costKeys(c.R, n)
		t := costTrie(c, keys)
		must(c, t.Encode(nil))
		m, _, err := NewMappedTrie(t.Buf())
		must(c, err)
		return func() {
			for _, k := range keys {
				c.Check(m.Get(k) != nil, "cost-content", "a key is missing")
			}
		}
	}},
	{"trie-decoded-iterate", 48000, func(c *mon.Case, n int) func() {
		t := costTrie(c, costKeys(c.R, n))
		must(c, t.Encode(nil))
		m, _, err := NewMappedTrie(t.Buf())
		must(c, err)
		return func() { drain(c, m.Iterator(), n) }
	}},
	{"trie-copy", 32000, func(c *mon.Case, n int) func() {
		t := costTrie(c, costKeys(c.R, n))
		return func() { t.Copy() }
	}},
	{"trie-print", 16000, func(c *mon.Case, n int) func() {
		t := costTrie(c, costKeys(c.R, n))
		return func() { t.Print(io.Discard, 0) }
	}},
	{"deep-trie", 1600, func(c *mon.Case, n int) func() { // one key of many sub keys
		k := deepKey(n)
		return func() {
			t := NewTrie()
			t.Set(k, NewPrimitive([]byte{1}))
			c.Check(t.Get(k) != nil, "cost-content", "the key is missing")
			must(c, t.Encode(nil))
			m, _, err := NewMappedTrie(t.Buf())
			must(c, err)
			c.Check(m.Get(k) != nil, "cost-content", "the key is missing")
			c.Check(t.Set(k, nil) != nil, "cost-content", "the key is missing")
		}
	}},
	{"deep-trie-key", 1600, func(c *mon.Case, n int) func() {
		k := deepKey(n)
		t := NewTrie()
		t.Set(k, NewPrimitive([]byte{1}))
		must(c, t.Encode(nil))
		m, _, err := NewMappedTrie(t.Buf())
		must(c, err)
		return func() {
			for _, it := range []ITrieIterator{t.KeyIterator(k), t.RangeIterator(k, nil), m.KeyIterator(k), m.RangeIterator(k, nil)} {
				g, _ := it.Next()
				c.Check(g != nil && g.Equal(k), "cost-content", "another key")
			}
		}
	}},
	{"deep-trie-iterate", 1600, func(c *mon.Case, n int) func() { // all prefixes
		t := NewTrie()
		t.Set(deepKey(n), NewPrimitive([]byte{1}))
		return func() { drain(c, t.Iterator(), 1) }
	}},
	{"trie-starts", 16000, func(c *mon.Case, n int) func() {
		keys := costKeys(c.R, n)
		t := costTrie(c, keys)
		return func() {
			for _, k := range keys {
				its := []ITrieIterator{t.KeyIterator(k), t.RangeIterator(k, nil)}
				if k.Compare(keys[n/2]) < 0 {
					its = append(its, t.RangeIterator(k, keys[n/2]))
				}
				for _, it := range its {
					g, _ := it.Next()
					c.Check(g != nil && g.Equal(k), "cost-content", "an iterator from %v starts at %v", k, g)
					it.HasNext()
				}
			}
		}
	}},
	{"trie-starts-flat", 16000, func(c *mon.Case, n int) func() { // all keys side by side
		keys := make([]IKey, n)
		for i := range keys {
			b := make([]byte, 4)
			binary.BigEndian.PutUint32(b, uint32(i)*2654435761)
			keys[i] = buildKey(aKey{b})
		}
		t := costTrie(c, keys)
		must(c, t.Encode(nil))
		m, _, err := NewMappedTrie(t.Buf())
		must(c, err)
		return func() {
			for _, k := range keys {
				its := []ITrieIterator{t.KeyIterator(k), t.RangeIterator(k, nil), m.KeyIterator(k), m.RangeIterator(k, nil)}
				if k.Compare(keys[n/2]) < 0 {
					its = append(its, t.RangeIterator(k, keys[n/2]), m.RangeIterator(k, keys[n/2]))
				}
				for _, it := range its {
					g, _ := it.Next()
					c.Check(g != nil && g.Equal(k), "cost-content", "an iterator from %v starts at %v", k, g)
					it.HasNext()
				}
			}
		}
	}},
	{"trie-encode-changed", 16000, func(c *mon.Case, n int) func() {
		keys := costKeys(c.R, n)
		t := costTrie(c, keys)
		return func() {
			t.Set(keys[n/2], NewPrimitive([]byte{3}))
			must(c, t.Encode(nil))
			t.EstBufSize()
			t.Copy()
		}
	}},
	{"mph-build", 32000, func(c *mon.Case, n int) func() {
		keys := costKeys(c.R, n)
		return func() { MPHBuild(keys, c.Index%2 == 0) }
	}},
	{"mph-lookup", 64000, func(c *mon.Case, n int) func() {
		keys := costKeys(c.R, n)
		t := MPHBuild(keys, c.Index%2 == 0)
		return func() {
			for i, k := range keys {
				j, ok := t.Lookup(k)
				c.Check(ok && int(j) == i, "cost-content", "a key is missing")
			}
		}
	}},
	{"mph-encode", 64000, func(c *mon.Case, n int) func() {
		t := MPHBuild(costKeys(c.R, n), c.Index%2 == 0)
		return func() {
			_, err := t.Encode()
			must(c, err)
		}
	}},
	{"mph-decode", 64000, func(c *mon.Case, n int) func() {
		buf, err := MPHBuild(costKeys(c.R, n), c.Index%2 == 0).Encode()
		must(c, err)
		return func() {
			_, _, err := NewMPHTable(buf)
			must(c, err)
		}
	}},
	{"array-append", 48000, func(c *mon.Case, n int) func() {
		return func() { costArray(n) }
	}},
	{"array-encode", 16000, func(c *mon.Case, n int) func() {
		a := costArray(n)
		return func() {
			must(c, a.Encode(nil))
		}
	}},
	{"array-decode-walk", 16000, func(c *mon.Case, n int) func() {
		a := costArray(n)
		must(c, a.Encode(nil))
		buf := append([]byte{}, a.Buf()...)
		return func() {
			m, _, err := NewStandardMappedValue(buf)
			must(c, err)
			_, err = m.Decode(nil)
			must(c, err)
			for i := 0; i < n; i++ {
				_, err := m.ValueAt(uint16(i))
				must(c, err)
			}
		}
	}},
	{"array-copy", 24000, func(c *mon.Case, n int) func() {
		a := costArray(n)
		return func() {
			_, err := a.CopyConstruct()
			must(c, err)
			a.Copy()
		}
	}},
	{"array-decoded-copy", 16000, func(c *mon.Case, n int) func() {
		a := costArray(n)
		must(c, a.Encode(nil))
		m, _, err := NewStandardMappedValue(a.Buf())
		must(c, err)
		return func() {
			m.Copy()
			_, err := m.CopyConstruct()
			must(c, err)
		}
	}},
	{"array-delete", 16000, func(c *mon.Case, n int) func() {
		return func() {
			a := costArray(n)
			for i := n - 1; i >= 0; i-- {
				a.DeleteAt(uint16(i))
			}
			c.Check(a.Size() == 0, "cost-content", "%d elements left", a.Size())
		}
	}},
	{"list-decoded-copy", 8000, func(c *mon.Case, n int) func() {
		a := costList(c, n)
		must(c, a.Encode(nil))
		m, _, err := NewStandardMappedValue(a.Buf())
		must(c, err)
		return func() {
			m.Copy()
			_, err := m.CopyConstruct()
			must(c, err)
		}
	}},
	{"list-append", 24000, func(c *mon.Case, n int) func() {
		return func() { costList(c, n) }
	}},
	{"list-encode", 8000, func(c *mon.Case, n int) func() {
		a := costList(c, n)
		return func() { must(c, a.Encode(nil)) }
	}},
	{"list-decode-walk", 8000, func(c *mon.Case, n int) func() {
		a := costList(c, n)
		must(c, a.Encode(nil))
		buf := append([]byte{}, a.Buf()...)
		return func() {
			m, _, err := NewStandardMappedValue(buf)
			must(c, err)
			_, err = m.Decode(nil)
			must(c, err)
			for i := 0; i < n; i++ {
				_, err := m.RecordAt(uint16(i))
				must(c, err)
			}
		}
	}},
	{"list-copy", 8000, func(c *mon.Case, n int) func() {
		a := costList(c, n)
		return func() {
			_, err := a.CopyConstruct()
			must(c, err)
			a.Copy()
		}
	}},
	{"key-encode", 2000, func(c *mon.Case, n int) func() {
		return func() {
			k := NewKey()
			for i := 0; i < n; i++ {
				k.Add([]byte{byte(i)})
			}
			must(c, k.Encode(nil))
			k.Copy()
		}
	}},
	{"key-decode", 2000, func(c *mon.Case, n int) func() {
		k := NewKey()
		for i := 0; i < n; i++ {
			k.Add([]byte{byte(i)})
		}
		must(c, k.Encode(nil))
		buf := append([]byte{}, k.Buf()...)
		return func() {
			m, _, err := NewMappedKey(buf)
			must(c, err)
			c.Check(len(m.Key()) == n, "cost-content", "%d sub keys", len(m.Key()))
		}
	}},
	{"key-compare", 2000, func(c *mon.Case, n int) func() {
		a, b := NewKey(), NewKey()
		for i := 0; i < n; i++ {
			a.Add([]byte{byte(i)})
			b.Add([]byte{byte(i)})
		}
		return func() {
			c.Check(a.Compare(b) == 0 && a.Equal(b), "cost-content", "keys differ")
			h := collection.MurmurSeed(1)
			c.Check(a.HashUint32(h.Hash) == b.HashUint32(h.Hash), "cost-content", "hashes differ")
		}
	}},
	{"buckets", 480, func(c *mon.Case, n int) func() {
		a := &aScheme{domain: []byte("d"), tablet: []byte("t")}
		for i := 0; i < n; i++ {
			a.buckets = append(a.buckets, []byte{byte(i)})
		}
		buf := a.enc()
		return func() {
			m := NewMappedSchemd(buf)
			_, err := m.Decode(nil)
			must(c, err)
			c.Check(len(m.Buckets()) == n, "cost-content", "%d buckets", len(m.Buckets()))
			for i := 0; i < n; i++ {
				m.BucketAt(i)
			}
			o, err := m.CopyConstruct()
			must(c, err)
			must(c, o.Encode(nil))
		}
	}},
	{"map-fill-walk-drain", 64000, func(c *mon.Case, n int) func() {
		return func() {
			m := collection.NewSortedMap()
			for i := 0; i < n; i++ {
				m.Put(num(uint32(i)*2654435761), i)
			}
			k := 0
			for it := m.Iterator(); it.HasNext(); k++ {
				it.Next()
			}
			for it := m.RangeIterator(num(1<<31), nil); it.HasNext(); {
				it.Peek()
				it.Next()
			}
			c.Check(k == n && m.Size() == n, "cost-content", "%d entries", k)
			for i := 0; i < n; i++ {
				m.Remove(num(uint32(i) * 2654435761))
			}
			c.Check(m.Size() == 0, "cost-content", "%d entries left", m.Size())
		}
	}},
	{"map-get", 64000, func(c *mon.Case, n int) func() {
		m, s := collection.NewSortedMap(), collection.NewSortedSet()
		for i := 0; i < n; i++ {
			m.Put(num(uint32(i)*2654435761), i)
			s.Put(num(uint32(i) * 2654435761))
		}
		return func() {
			for i := 0; i < n; i++ {
				k := num(uint32(i) * 2654435761)
				c.Check(m.Get(k) == i && m.Size() == n && s.Size() == n, "cost-content", "an entry is missing")
				m.Put(k, i)
			}
		}
	}},
	{"hash-fill-drain", 64000, func(c *mon.Case, n int) func() {
		keys := make([]collection.IHashable, n)
		for i := range keys {
			b := make([]byte, 4)
			binary.BigEndian.PutUint32(b, uint32(i)*2654435761)
			keys[i] = collection.NewHashableByteSlice(b)
		}
		return func() {
			m := collection.NewHashMap()
			for i, k := range keys {
				m.Put(k, i)
				c.Check(m.Size() == i+1, "cost-content", "%d entries, want %d", m.Size(), i+1)
			}
			for i, k := range keys {
				c.Check(m.Get(k) == i, "cost-content", "an entry is missing")
			}
			for _, k := range keys {
				m.Remove(k)
			}
			c.Check(m.Size() == 0, "cost-content", "%d entries left", m.Size())
		}
	}},
	{"sizes", 16000, func(c *mon.Case, n int) func() { // of what is as large
		a := costArray(n)
		must(c, a.Encode(nil))
		m, _, err := NewStandardMappedValue(append([]byte{}, a.Buf()...))
		must(c, err)
		l := costList(c, n/2)
		t := costTrie(c, costKeys(c.R, n))
		must(c, t.Encode(nil))
		d, _, err := NewMappedTrie(append([]byte{}, t.Buf()...))
		must(c, err)
		k := deepKey(n / 8)
		must(c, k.Encode(nil))
		node := NewTrieNode(nil, nil, nil)
		for i := 0; i < n; i++ {
			b := []byte{byte(i), byte(i >> 8)}
			node.PutChild(b, NewTrieNode(node, b, nil))
		}
		return func() {
			for i := 0; i < n; i++ {
				c.Check(int(a.Size()) == n && int(m.Size()) == n && int(l.Size()) == n/2 && node.ChildSize() == n, "cost-content", "another size")
				a.IsNil()
				m.IsNil()
				l.IsNil()
				k.IsEmpty()
				a.ValueAt(uint16(i))
				l.RecordAt(uint16(i / 2))
				k.SubKeyAt(i % (n / 8))
				k.Key()
				c.Check(len(m.Buf()) > n && len(t.Buf()) > n && len(a.Buf()) > n && len(d.Buf()) > n, "cost-content", "no bytes")
			}
		}
	}},
	{"map-starts", 32000, func(c *mon.Case, n int) func() {
		m := collection.NewSortedMap()
		for i := 0; i < n; i++ {
			m.Put(num(uint32(i)*2654435761), i)
		}
		return func() {
			for i := 0; i < n; i++ {
				k := num(uint32(i) * 2654435761)
				it := m.RangeIterator(k, nil)
				_, v := it.Next()
				c.Check(v == i, "cost-content", "range from a key starts elsewhere")
				it.HasNext()
			}
		}
	}},
	{"hash-bytes", 8 << 20, func(c *mon.Case, n int) func() {
		b := make([]byte, n)
		h := collection.MurmurSeed(1)
		return func() { h.Hash(b) }
	}},
	{"compare-bytes", 64 << 20, func(c *mon.Case, n int) func() {
		a, b := collection.NewComparableByteSlice(make([]byte, n)), collection.NewComparableByteSlice(make([]byte, n))
		return func() {
			c.Check(a.Compare(b) == 0 && a.Equal(b), "cost-content", "slices differ")
		}
	}},
	{"varchar", 64 << 20, func(c *mon.Case, n int) func() {
		b := make([]byte, n)
		return func() {
			v, _, err := DecodeVarchar(EncodeVarchar(b))
			c.Check(err == nil && len(v) == n, "cost-content", "varchar of %d bytes", len(v))
		}
	}},
	{"small-decodes", 64 << 20, func(c *mon.Case, n int) func() { // in a large buffer
		b := make([]byte, n)
		copy(b, []byte{1, 1, 7, 1, 1, 7})
		return func() {
			for i := 0; i < 1000*growth*(n>>10)/(64<<10); i++ {
				NewMappedKey(b)
				DecodeVarchar(b)
				DecodeUvarint64(b)
			}
		}
	}},
}

func u27(x *mon.Ctx) {
	x.Rule("one job at two sizes; non-trivial: the larger took measurable time; distinct by job and case")
	x.Note("measure", "processor time of the thread of one run of the larger size, and of %d runs of one %d-th of that size; the smallest quotient of up to 6 rounds is judged", growth, growth)
	x.Stream("growth", x.N(2*len(jobs), 10*len(jobs)), func(c *mon.Case) {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		j := jobs[c.Index%len(jobs)]
		small, large := j.prep(c, j.n/growth), j.prep(c, j.n)
		best, tl, ts := math.Inf(1), 0.0, 0.0
		for round := 0; round < 6 && best > 2.5; round++ {
			runtime.GC()
			reps := 0
			t0 := cpu()
			for cpu()-t0 < 0.03 && reps < 20000 || reps == 0 {
				large()
				reps++
				c.Beat()
			}
			t1 := cpu()
			runtime.GC()
			t2 := cpu()
			times := growth
			if j.name == "deep-trie-iterate" { // so much is yielded
				times *= growth
			}
			for i := 0; i < reps*times; i++ {
				small()
			}
			t3 := cpu()
			c.EvN("runs", reps)
			if q := (t1 - t0) / math.Max(t3-t2, 1e-6); q < best {
				best, tl, ts = q, (t1-t0)/float64(reps), (t3-t2)/float64(reps)
			}
			if t1-t0 < 0.02 {
				best = 0 // nothing to measure
				c.Ev("unmeasurable")
			}
		}
		c.Ev("measured")
		x.Max("quotient-percent-"+j.name, int64(100*best))
		c.Check(best <= 5, "growth-"+j.name, "%s of size %d takes %.4f s, %d of size %d %.4f s: work grows %.1f times as fast as the size", j.name, j.n, tl, growth, j.n/growth, ts, best)
		c.Nontrivial(mon.Mix(mon.HashStr(j.name), uint64(c.Index)))
		c.Desc("%s: %s", j.name, fmt.Sprintf("quotient %.2f at %d", best, j.n))
	})
}
