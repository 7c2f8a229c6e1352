package main

import (
	"bytes"
	"encoding/binary"
	"math/rand"

	"../../../repo/src/collection"
	. "../../../repo/src/util"
	"../mon"
)

// fns are hash functions that tell inputs apart; together they collide on
// different inputs with probability 2^-128 only.
func fns(r *rand.Rand) []func([]byte) uint32 {
	res := []func([]byte) uint32{}
	for i := 0; i < 4; i++ {
		s := r.Uint64()
		res = append(res, func(b []byte) uint32 {
			h := s ^ uint64(len(b))
			for _, v := range b {
				h = mon.Mix(h, uint64(v))
			}
			return uint32(h ^ h>>32)
		})
	}
	return res
}

func hashAll(h collection.IHashable, f []func([]byte) uint32) [4]uint32 {
	var res [4]uint32
	for i := range f {
		res[i] = h.HashUint32(f[i])
	}
	return res
}

// refCompare is the order of keys.
func refCompare(a, b aKey) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if d := bytes.Compare(a[i], b[i]); d != 0 {
			return d
		}
	}
	return sgn(len(a) - len(b))
}

func sgn(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

var keyForms = []string{"constructed", "added", "encoded", "decoded", "copy", "copy-decoded", "copy-construct", "copy-construct-decoded", "empty", "record", "overlong", "copy-overlong"}

// keyForm gives the key in one of its representations.
func keyForm(c *mon.Case, a aKey, form string) IKey {
	empties := false
	for _, s := range a {
		empties = empties || len(s) == 0
	}
	if empties { // only bytes can hold such a key
		switch form {
		case "constructed", "added", "encoded", "copy":
			form = "decoded"
		case "copy-construct", "empty", "record":
			form = "copy-construct-decoded"
		}
	}
	decoded := func() *MappedKey {
		k, _, err := NewMappedKey(follow(c.R, refKey(a)))
		if err != nil {
			c.Failf("key-decode-error", "decoding %v: %v", a, err)
		}
		return k
	}
	cons := func(o IEncodable, err error) IKey {
		if err != nil {
			c.Failf("copy", "CopyConstruct of key %v: %v", a, err)
		}
		return o.(IKey)
	}
	switch form {
	case "parts": // sub keys as they are, not copies of them
		k := NewKey()
		for _, s := range a {
			k.Add(s)
		}
		return k
	case "added":
		k := NewKey()
		for i, s := range a {
			k.Add(cp(s))
			if i == 0 {
				k.Encode(nil) // and more subkeys after that
			}
		}
		return k
	case "encoded":
		k := buildKey(a)
		k.Encode(nil)
		return k
	case "decoded":
		return decoded()
	case "copy":
		return buildKey(a).Copy().(IKey)
	case "copy-decoded":
		return decoded().Copy().(IKey)
	case "copy-construct":
		return cons(buildKey(a).CopyConstruct())
	case "copy-construct-decoded":
		return cons(decoded().CopyConstruct())
	case "empty":
		if len(a) == 0 {
			return NewEmptyKey()
		}
	case "overlong", "copy-overlong": // lengths in more bytes than they need, where the decoder takes that
		k, _, err := NewMappedKey(follow(c.R, refKeyPadded(a, func() int { return c.R.Intn(3) })))
		if err != nil || len(k.Key()) != len(a) {
			return decoded()
		}
		for i := range a {
			if !bytes.Equal(k.SubKeyAt(i), a[i]) {
				return decoded()
			}
		}
		c.Ev("overlong")
		if form == "copy-overlong" {
			return k.Copy().(IKey)
		}
		return k
	case "record":
		r := NewRecord()
		r.SetKey(buildKey(a))
		if r.Encode(nil) != nil {
			break
		}
		m, _, err := NewMappedRecord(cp(r.Buf()))
		if err != nil {
			c.Failf("record-decode-error", "decoding a record of key %v: %v", a, err)
		}
		return m.Key()
	}
	return buildKey(a)
}

// refKeyPadded is the encoding with numbers that take more bytes than they need.
func refKeyPadded(a aKey, pad func() int) []byte {
	num := func(v int) []byte {
		b := binary.AppendUvarint(nil, uint64(v))
		for n := pad(); n > 0; n-- {
			b[len(b)-1] |= 0x80
			b = append(b, 0)
		}
		return b
	}
	b := num(len(a))
	for _, s := range a {
		b = append(append(b, num(len(s))...), s...)
	}
	return b
}

// alike gives keys that are easily taken for each other.
func alike(r *rand.Rand, n int) []aKey {
	base := aKey{}
	for i := 0; i < 1+r.Intn(4); i++ {
		base = append(base, randBytes(r, 1+r.Intn(5)))
	}
	if r.Intn(10) == 0 {
		for i := 0; i < 140; i++ {
			base = append(base, randBytes(r, 1+r.Intn(3)))
		}
	}
	if r.Intn(10) == 0 {
		base[0] = randBytes(r, 100+r.Intn(200))
	}
	res := []aKey{base, {}}
	for len(res) < n {
		k := cpKey(res[r.Intn(len(res))])
		for j := r.Intn(2); j >= 0; j-- {
			i := 0
			if len(k) > 0 {
				i = r.Intn(len(k))
			}
			switch op := r.Intn(14); {
			case op == 0 || len(k) == 0:
				k = append(k, randBytes(r, 1+r.Intn(3)))
			case op == 1:
				k = k[:len(k)-1]
			case op == 2: // swap two
				o := r.Intn(len(k))
				k[i], k[o] = k[o], k[i]
			case op == 3: // reverse
				for a, b := 0, len(k)-1; a < b; a, b = a+1, b-1 {
					k[a], k[b] = k[b], k[a]
				}
			case op == 4 && len(k[i]) > 1: // other boundary: split
				at := 1 + r.Intn(len(k[i])-1)
				k = append(k[:i:i], append(aKey{cp(k[i][:at]), cp(k[i][at:])}, k[i+1:]...)...)
			case op == 5 && i+1 < len(k): // join
				k = append(k[:i:i], append(aKey{append(cp(k[i]), k[i+1]...)}, k[i+2:]...)...)
			case op == 6 && i+1 < len(k) && len(k[i]) > 1: // shift the boundary
				l := len(k[i]) - 1
				k[i+1] = append([]byte{k[i][l]}, k[i+1]...)
				k[i] = k[i][:l]
			case op == 7: // repeat a sub key
				k = append(k[:i+1:i+1], k[i:]...)
			case op == 8: // one byte
				k[i] = cp(k[i])
				if len(k[i]) > 0 {
					k[i][r.Intn(len(k[i]))] ^= byte(1 << uint(r.Intn(8)))
				}
			case op == 9: // trailing zero
				k[i] = append(cp(k[i]), 0)
			case op == 10 && len(k[i]) > 1:
				k[i] = cp(k[i][:len(k[i])-1])
			case op == 11: // its encoding, or a part of it, as a sub key
				e := refKey(k)
				if r.Intn(2) == 0 {
					e = e[1:]
				}
				k = aKey{e}
			case op == 12: // the two halves of a sub key twice
				k = append(k, k[i], k[i])
			case op == 13 && len(k[i]) > 0: // 0x7f / 0x80
				k[i] = cp(k[i])
				k[i][0] = []byte{0, 0x7f, 0x80, 0xff}[r.Intn(4)]
			}
		}
		if k.size() > maxKey {
			k = k[:0]
		}
		res = append(res, k)
	}
	return res
}

// longAlike gives long keys, of many sub keys or of long ones, that are alike for
// most of their length.
func longAlike(r *rand.Rand, n int) []aKey {
	base := aKey{}
	count := []int{3, 10, 126, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1990}[r.Intn(18)] + r.Intn(3)
	for len(base) < count {
		l := 1
		if spare := 4050 - base.size() - 2*(count-len(base)); spare > 0 && r.Intn(2) == 0 {
			l += r.Intn(min(spare, 1+spare/(count-len(base))*2))
		}
		base = append(base, randFull(r, l))
	}
	res := []aKey{base}
	for len(res) < n {
		k := cpKey(res[r.Intn(len(res))])
		i := len(k) - 1 - r.Intn(min(len(k), 5)) // late, or anywhere
		if r.Intn(3) == 0 {
			i = r.Intn(len(k))
		}
		switch op := r.Intn(8); {
		case op == 0:
			k = append(k, randBytes(r, 1+r.Intn(2)))
		case op == 1 && len(k) > 1:
			k = k[:len(k)-1]
		case op == 2:
			k = k[:i+1]
		case op == 3: // swap neighbours
			if i > 0 {
				k[i], k[i-1] = k[i-1], k[i]
			}
		case op == 4: // the last byte of a sub key
			k[i] = cp(k[i])
			k[i][len(k[i])-1] ^= byte(1 << uint(r.Intn(8)))
		case op == 5: // any byte of the longest
			for j := range k {
				if len(k[j]) > len(k[i]) {
					i = j
				}
			}
			k[i] = cp(k[i])
			k[i][r.Intn(len(k[i]))] ^= byte(1 << uint(r.Intn(8)))
		case op == 6:
			k[i] = append(cp(k[i]), 0)
		case op == 7 && len(k[i]) > 1:
			k[i] = cp(k[i][:len(k[i])-1])
		}
		if k.size() <= maxKey {
			res = append(res, k)
		}
	}
	return res
}

// otherKey is an object of another kind.
type otherKey struct{}

func (otherKey) Equal(collection.IObject) bool { return true }

func u02(x *mon.Ctx) {
	x.Rule("distinct pairs of keys (content and representation) that were compared and hashed")
	judge := func(c *mon.Case, f []func([]byte) uint32, a, b aKey, fa, fb string) {
		ka, kb := keyForm(c, a, fa), keyForm(c, b, fb)
		c.Ev("pair")
		c.Ev("form-" + fa)
		want := refCompare(a, b)
		c.Nontrivial(mon.Mix(a.hash(1), b.hash(2), mon.HashStr(fa), mon.HashStr(fb)))
		if got := sgn(ka.Compare(kb)); got != want {
			c.Failf("key-order", "%s key %v compares %d with %s key %v, want %d", fa, a, got, fb, b, want)
		}
		if got := sgn(kb.Compare(ka)); got != -want {
			c.Failf("key-order", "%s key %v compares %d with %s key %v, want %d", fb, b, got, fa, a, -want)
		}
		if got := ka.Equal(kb); got != (want == 0) {
			c.Failf("key-equal", "%s key %v equal to %s key %v: %v", fa, a, fb, b, got)
		}
		if ka.IsEmpty() != (len(a) == 0) {
			c.Failf("key-empty", "%s key %v is empty: %v", fa, a, ka.IsEmpty())
		}
		ha, hb := hashAll(ka, f), hashAll(kb, f)
		if want == 0 {
			c.Ev("equal")
			if ha != hb {
				c.Failf("key-hash-equal", "equal keys %v (%s, %s) hash to %x and %x", a, fa, fb, ha, hb)
			}
		} else {
			c.Ev("unequal")
			if ha == hb {
				c.Failf("key-hash-distinct", "keys %v (%s) and %v (%s) are not told apart by hashing", a, fa, b, fb)
			}
			c.State(mon.Mix(uint64(ha[0]), uint64(ha[1])))
		}
		if again := hashAll(ka, f); again != ha {
			c.Failf("key-hash-pure", "key %v (%s) hashes to %x, then %x", a, fa, ha, again)
		}
	}
	form := func(c *mon.Case) string { return keyForms[c.R.Intn(len(keyForms))] }
	// all small keys
	var small []aKey
	subs := [][]byte{{0}, {1}, {0xff}, {0, 0}, {1, 0}, {0, 1}, {1, 1}}
	small = append(small, aKey{})
	for _, a := range subs {
		small = append(small, aKey{a})
		for _, b := range subs {
			small = append(small, aKey{a, b})
			for _, d := range subs[:3] {
				small = append(small, aKey{a, b, d})
			}
		}
	}
	x.Stream("small", len(small), func(c *mon.Case) {
		f := fns(c.R)
		for _, b := range small {
			judge(c, f, small[c.Index], b, form(c), form(c))
		}
		c.Desc("%v with each of %d keys of up to 3 sub keys", small[c.Index], len(small))
	})
	x.Stream("alike", x.N(1200, 60000), func(c *mon.Case) {
		f := fns(c.R)
		keys := alike(c.R, 14)
		for _, a := range keys {
			for _, b := range keys {
				judge(c, f, a, b, form(c), form(c))
			}
		}
		c.Desc("all pairs of %v", keys[:6])
	})
	x.Stream("parts", x.N(400, 12000), func(c *mon.Case) {
		// sub keys that are parts of one array, from the same place or overlapping
		f := fns(c.R)
		base := make([]byte, 1+c.R.Intn(40))
		for i := range base {
			base[i] = byte(c.R.Intn(2) * c.R.Intn(256))
		}
		before := cp(base)
		at := c.R.Intn(len(base))
		var keys []aKey
		for i := 0; i < 12; i++ {
			a := aKey{}
			for n := 1 + c.R.Intn(3); n > 0; n-- {
				from := at
				if c.R.Intn(4) == 0 {
					from = c.R.Intn(len(base))
				}
				a = append(a, base[from:from+1+c.R.Intn(len(base)-from)])
			}
			keys = append(keys, a)
		}
		for _, a := range keys {
			for _, b := range keys {
				fb := "parts"
				if c.R.Intn(4) == 0 {
					fb = form(c)
				}
				judge(c, f, a, b, "parts", fb)
			}
		}
		c.Check(bytes.Equal(base, before), "key-bytes", "comparing and hashing keys over %x changed the bytes", before)
		c.Desc("all pairs of keys over parts of %x", base)
	})
	x.Stream("long", x.N(300, 12000), func(c *mon.Case) {
		f := fns(c.R)
		keys := longAlike(c.R, 6)
		for _, a := range keys {
			for _, b := range keys {
				judge(c, f, a, b, form(c), form(c))
			}
		}
		c.X.Max("sub-keys", int64(len(keys[0])))
		c.Desc("all pairs of %d keys of about %d sub keys and %d bytes", len(keys), len(keys[0]), keys[0].size())
	})
	x.Stream("forms", x.N(300, 10000), func(c *mon.Case) {
		f := fns(c.R)
		a := genKey(c.R, 600)
		if a.size() > maxKey {
			a = a[:1]
		}
		if c.Index%7 == 0 {
			a = aKey{}
		}
		if c.Index%11 == 0 { // decoded only
			a = aKey{{}, []byte{1}, {}}[:1+c.R.Intn(3)]
		}
		for _, fa := range keyForms {
			for _, fb := range keyForms {
				judge(c, f, a, a, fa, fb)
			}
			k := keyForm(c, a, fa)
			if d := diffKey(k, a); d != "" {
				c.Failf("key-content", "%s key: %s", fa, d)
			}
			c.Ev("foreign")
			if k.Equal(nil) || k.Equal(otherKey{}) || k.Equal(NewPrimitive([]byte{1})) {
				c.Failf("key-equal-foreign", "%s key %v is equal to something that is not a key", fa, a)
			}
			if k.Compare(nil) <= 0 {
				c.Failf("key-compare-nil", "%s key %v is not above an absent key", fa, a)
			}
		}
		c.Desc("%v in all %d representations", a, len(keyForms))
	})
	x.Stream("triples", x.N(600, 20000), func(c *mon.Case) {
		keys := alike(c.R, 9)
		ks := []IKey{}
		for _, a := range keys {
			ks = append(ks, keyForm(c, a, form(c)))
		}
		for i, a := range ks {
			for j, b := range ks {
				for l, d := range ks {
					c.Ev("triple")
					if a.Compare(b) <= 0 && b.Compare(d) <= 0 && a.Compare(d) > 0 {
						c.Failf("key-transitive", "%v <= %v <= %v, but not the first and the last", keys[i], keys[j], keys[l])
					}
				}
			}
		}
		c.Nontrivial(mon.Mix(keys[0].hash(1), keys[8].hash(2), keys[5].hash(3)))
		c.Desc("triples of %v", keys)
	})
	// lookups with one representation of what was stored with another
	x.Stream("lookups", x.N(400, 15000), func(c *mon.Case) {
		r := c.R
		keys := []aKey{}
		for _, k := range append(alike(r, 20), smallKey(r, 4, 3), smallKey(r, 4, 3)) {
			dup := false
			for _, o := range keys {
				dup = dup || refCompare(k, o) == 0
			}
			for _, s := range k {
				dup = dup || len(s) == 0
			}
			if !dup {
				keys = append(keys, k)
			}
		}
		n := len(keys)*2/3 + 1
		if n > len(keys) {
			n = len(keys)
		}
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		sm, hm, ss, hs, tr := collection.NewSortedMap(), collection.NewHashMap(), collection.NewSortedSet(), collection.NewHashSet(), NewTrie()
		vals := []IValue{}
		list := []IKey{}
		for i := 0; i < n; i++ {
			v := NewPrimitive([]byte{byte(i), 1})
			vals = append(vals, v)
			k := keyForm(c, keys[i], form(c))
			list = append(list, k)
			sm.Put(k, v)
			hm.Put(k, v)
			ss.Put(k)
			hs.Put(k)
			tr.Set(k, v)
		}
		exact, bloom := MPHBuild(list, true), MPHBuild(list, false)
		if sm.Size() != n || hm.Size() != n || ss.Size() != n || hs.Size() != n {
			c.Failf("lookup", "%d different keys: sorted map has %d, hash map %d, sorted set %d, hash set %d", n, sm.Size(), hm.Size(), ss.Size(), hs.Size())
		}
		for i, a := range keys {
			for t := 0; t < 4; t++ {
				f := form(c)
				k := keyForm(c, a, f)
				c.Ev("lookup")
				var want interface{}
				if i < n {
					want = vals[i]
				}
				got := []interface{}{sm.Get(k), hm.Get(k)}
				if tv := tr.Get(k); tv != nil {
					got = append(got, tv)
				} else {
					got = append(got, nil)
				}
				for j, name := range []string{"sorted map", "hash map", "trie"} {
					if collection.IsNil(got[j]) {
						got[j] = nil
					}
					if got[j] != want {
						c.Failf("lookup", "%s with %s key %v gives %v, want %v", name, f, a, got[j], want)
					}
				}
				if ss.Exist(k) != (i < n) || hs.Exist(k) != (i < n) {
					c.Failf("lookup", "sets with %s key %v: sorted %v, hash %v, want %v", f, a, ss.Exist(k), hs.Exist(k), i < n)
				}
				at, ok := exact.Lookup(k)
				if ok != (i < n) || ok && int(at) != i {
					c.Failf("lookup", "perfect hash table with %s key %v: %d, %v; want %d, %v", f, a, at, ok, i, i < n)
				}
				if i < n {
					if at, ok := bloom.Lookup(k); !ok || int(at) != i {
						c.Failf("lookup", "perfect hash table verifying by hash, with %s key %v: %d, %v; want %d", f, a, at, ok, i)
					}
				}
				// put again under another representation: replaces
				if i < n && r.Intn(4) == 0 {
					if old := sm.Put(k, vals[i]); old != collection.IObject(vals[i]) {
						c.Failf("lookup", "sorted map: putting %s key %v again replaces %v", f, a, old)
					}
					if old := hm.Put(k, vals[i]); old != collection.IObject(vals[i]) {
						c.Failf("lookup", "hash map: putting %s key %v again replaces %v", f, a, old)
					}
					if old := tr.Set(k, vals[i]); old != vals[i] {
						c.Failf("lookup", "trie: putting %s key %v again replaces %v", f, a, old)
					}
				}
			}
		}
		if sm.Size() != n || hm.Size() != n {
			c.Failf("lookup", "putting keys again in another representation adds entries")
		}
		// in order
		var last IKey
		for it := sm.Iterator(); it.HasNext(); {
			k, _ := it.Next()
			if last != nil && last.Compare(k.(IKey)) >= 0 {
				c.Failf("lookup", "sorted map of mixed representations is not in order")
			}
			last = k.(IKey)
		}
		c.Nontrivial(mon.Mix(keys[0].hash(1), uint64(n), keys[len(keys)-1].hash(7)))
		c.Desc("%d keys stored and %d looked up in mixed representations", n, len(keys))
	})
}
