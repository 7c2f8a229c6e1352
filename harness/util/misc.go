package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	. "../../../repo/src/util"
	"../mon"
)

// ---------------------------------------------------------------- U10

// countedKey counts how often it is hashed, to see that building ends.
type countedKey struct {
	IKey
	n *hashBudget
}

type hashBudget struct{ used, limit int }

type overBudget struct{}

func (k *countedKey) HashUint32(f func([]byte) uint32) uint32 {
	k.n.used++
	if k.n.used > k.n.limit {
		panic(overBudget{})
	}
	return k.IKey.HashUint32(f)
}

// buildTable builds a table, unless that takes more hashing than any set of
// keys that was ever seen takes, by orders of magnitude.
func buildTable(list []IKey, exact bool, n *hashBudget) (t *MPHTable, ended bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(overBudget); !ok {
				panic(r)
			}
		}
	}()
	return MPHBuild(list, exact), true
}

func u10(x *mon.Ctx) {
	x.Rule("distinct sets of keys that a table was built from")
	reused(x, x.N(200, 4000), "hash-table")
	absentLookups, falsePositives := 0, 0
	judge := func(c *mon.Case, keys []aKey, absent []aKey, forms bool) {
		list := make([]IKey, len(keys))
		form := func(a aKey) IKey {
			if forms {
				return keyForm(c, a, keyForms[c.R.Intn(len(keyForms))])
			}
			return buildKey(a)
		}
		for i, a := range keys {
			list[i] = form(a)
		}
		h := uint64(len(keys))
		for _, a := range keys {
			h = a.hash(h)
		}
		c.Nontrivial(h)
		c.State(mon.Mix(h, uint64(len(absent))))
		what := func() string {
			s := []string{}
			for _, a := range keys {
				if len(s) > 30 {
					s = append(s, "...")
					break
				}
				s = append(s, a.String())
			}
			return fmt.Sprintf("%d keys %s", len(keys), strings.Join(s, " "))
		}
		for _, exact := range []bool{true, false} {
			// watched
			n := &hashBudget{limit: 3000000 + 20000*len(keys)}
			if len(keys) <= 300 {
				counted := make([]IKey, len(list))
				for i := range list {
					counted[i] = &countedKey{list[i], n}
				}
				_, ended := buildTable(counted, exact, n)
				c.Check(ended, "build-does-not-end", "building a table is not done after hashing keys %d times: %s", n.used, what())
				if len(keys) > 0 {
					c.X.Max("hashes-per-key", int64(n.used/len(keys)))
				}
			}
			given := append([]IKey{}, list...)
			t := MPHBuild(given, exact)
			c.Ev("built")
			for i := range given {
				if given[i] != list[i] {
					c.Failf("build-reorders", "building a table changes element %d of the keys it was given; %s", i, what())
				}
				given[i] = nil // and is free to be used for others
			}
			out, err := t.Encode()
			if c.R.Intn(4) == 0 && len(keys) <= 400 { // it is the caller's
				for i := range out {
					out[i] ^= 0x55
				}
				out, err = t.Encode()
			}
			enc := c.Hold("an encoded table", out)
			c.Check(err == nil, "table-encode", "Encode: %v; %s", err, what())
			buf := follow(c.R, enc)
			c.Hold("the buffer of a table", buf)
			t2, used, err := NewMPHTable(buf)
			c.Check(err == nil, "table-decode", "NewMPHTable: %v; %s", err, what())
			c.Check(used == len(enc), "table-decode", "reading a table of %d bytes consumed %d", len(enc), used)
			enc2, err := t2.Encode()
			c.Check(err == nil && bytes.Equal(enc, enc2), "table-reencode", "a table that was read encodes differently, %v; %s", err, what())
			for i, a := range keys {
				for j, tab := range []*MPHTable{t, t2} {
					if len(keys) > 400 && c.R.Intn(4) > 0 && j == 1 {
						continue
					}
					at, ok := tab.Lookup(form(a))
					c.Ev("present")
					if !ok || int(at) != i {
						c.Failf("present", "key %d %v of the table (exact %v, read back %v) is found at %d: %v; %s", i, a, exact, j == 1, at, ok, what())
					}
				}
			}
			for _, a := range absent {
				k := form(a)
				at, ok := t.Lookup(k)
				at2, ok2 := t2.Lookup(k)
				c.Ev("absent")
				if ok != ok2 || ok && at != at2 {
					c.Failf("read-back", "looking up %v gives %d %v, and %d %v after reading the table back; %s", a, at, ok, at2, ok2, what())
				}
				if exact && ok {
					c.Failf("absent", "absent key %v is found at %d by exact verification; %s", a, at, what())
				}
				if !exact {
					absentLookups++
					if ok {
						falsePositives++
						c.Ev("false-positive")
						if falsePositives > 2 {
							c.Failf("absent-hash", "%d of %d absent keys are found by hash verification; one is %v", falsePositives, absentLookups, a)
						}
					}
				}
			}
		}
		c.Desc("%s", what())
	}
	distinct := func(keys []aKey) []aKey {
		seen, res := map[string]bool{}, []aKey{}
		for _, k := range keys {
			if id := string(refKey(k)); !seen[id] && len(id) <= maxKey {
				seen[id] = true
				res = append(res, k)
			}
		}
		return res
	}
	split := func(r *rand.Rand, keys []aKey, n int) ([]aKey, []aKey) {
		keys = distinct(keys)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		if n > len(keys) {
			n = len(keys)
		}
		return keys[:n], keys[n:]
	}
	gens := []struct {
		name string
		f    func(r *rand.Rand, n int) []aKey
	}{
		{"short", func(r *rand.Rand, n int) []aKey {
			res := []aKey{}
			for len(res) < n {
				res = append(res, aKey{randFull(r, 1+r.Intn(4))})
			}
			return res
		}},
		{"counting", func(r *rand.Rand, n int) []aKey {
			res, at := []aKey{}, r.Intn(1<<20)
			for len(res) < n {
				at++
				res = append(res, aKey{[]byte(fmt.Sprint("key", at))})
			}
			return res
		}},
		{"numbers", func(r *rand.Rand, n int) []aKey {
			res, at := []aKey{}, uint32(r.Intn(5))<<24
			for len(res) < n {
				at++
				res = append(res, aKey{binary.BigEndian.AppendUint32(nil, at)})
			}
			return res
		}},
		{"long", func(r *rand.Rand, n int) []aKey {
			res := []aKey{}
			base := randFull(r, 200)
			for len(res) < n {
				b := cp(base)
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
				res = append(res, aKey{b})
			}
			return res
		}},
		{"parts", func(r *rand.Rand, n int) []aKey {
			res := []aKey{}
			for len(res) < n {
				k := smallKey(r, 6, 4)
				if r.Intn(3) == 0 {
					k = append(k, randFull(r, 1+r.Intn(8)))
				}
				res = append(res, k)
			}
			return res
		}},
		{"alike", func(r *rand.Rand, n int) []aKey {
			res := []aKey{}
			for len(res) < n {
				for _, k := range alike(r, 24) {
					ok := true
					for _, s := range k {
						ok = ok && len(s) > 0
					}
					if ok {
						res = append(res, k)
					}
				}
			}
			return res
		}},
	}
	for _, g := range gens {
		g := g
		x.Stream("small-"+g.name, x.N(260, 8000), func(c *mon.Case) {
			n := c.Index % 130 // all sizes from nothing
			keys, absent := split(c.R, g.f(c.R, 2*n+6), n)
			judge(c, keys, absent, true)
		})
		x.Stream("large-"+g.name, x.N(8, 200), func(c *mon.Case) {
			n := 1 << uint(7+c.R.Intn(5))
			n += []int{-1, 0, 0, 1, n / 2}[c.R.Intn(5)] // full tables too
			keys, absent := split(c.R, g.f(c.R, n*5/4+20), n)
			judge(c, keys, absent, false)
		})
	}
	x.Stream("huge", x.N(2, 24), func(c *mon.Case) {
		n := 1<<14 + c.R.Intn(2)*(1<<14)
		keys, absent := split(c.R, gens[c.Index%3].f(c.R, n*5/4), n)
		judge(c, keys, absent, false)
	})
	// full tables, and ones with a key too many, of great size
	x.Stream("giant", x.N(3, 14), func(c *mon.Case) {
		n := []int{1 << 16, 1<<17 + 1, 1 << 17, 1 << 18, 1<<16 + 1, 1 << 18, 1<<18 + 1, 1 << 19, 1<<19 + 1, 1 << 20, 1<<20 + 1, 200000, 1 << 19, 1 << 18}[c.Index%14]
		keys := make([]aKey, n+50)
		at := c.R.Uint32()
		for i := range keys {
			b := binary.BigEndian.AppendUint32(nil, at+uint32(i))
			keys[i] = aKey{append(b, byte(c.Index), 1, 2, 3)[:4+c.R.Intn(5)]}
		}
		keys, absent := keys[:n], keys[n:]
		exact := c.Index%2 == 0
		list := make([]IKey, n)
		for i, a := range keys {
			list[i] = buildKey(a)
		}
		t := MPHBuild(list, exact)
		c.Ev("built")
		enc, err := t.Encode()
		c.Check(err == nil, "table-encode", "Encode: %v; %d keys", err, n)
		t2, used, err := NewMPHTable(follow(c.R, enc))
		c.Check(err == nil && used == len(enc), "table-decode", "NewMPHTable: %v, %d bytes of %d", err, used, len(enc))
		for i, k := range list {
			tab := t
			if i&1 == 1 {
				tab = t2
			}
			if at, ok := tab.Lookup(k); !ok || int(at) != i {
				c.Failf("present", "key %d %v of a table of %d keys (exact %v, read back %v) is found at %d: %v", i, keys[i], n, exact, i&1 == 1, at, ok)
			}
		}
		c.EvN("present", n)
		if exact {
			for _, a := range absent {
				if at, ok := t.Lookup(buildKey(a)); ok {
					c.Failf("absent", "absent key %v is found at %d by exact verification; %d keys", a, at, n)
				}
			}
			c.EvN("absent", len(absent))
		}
		c.Nontrivial(mon.Mix(uint64(n), uint64(at)))
		c.Desc("%d keys counting from %x", n, at)
	})
	// many absent keys
	x.Stream("absent", x.N(40, 800), func(c *mon.Case) {
		n := 1 + c.R.Intn(60)
		keys, absent := split(c.R, gens[c.R.Intn(4)].f(c.R, 6000), n)
		judge(c, keys, absent, false)
	})
	// a single part that has the bytes of several, and the empty key
	x.Stream("confusable", x.N(200, 5000), func(c *mon.Case) {
		keys := []aKey{{}, {{0}}}
		for i := 0; i < 4; i++ {
			k := smallKey(c.R, 4, 4)
			e := refKey(k)
			keys = append(keys, k, aKey{e}, aKey{e[1:]}, aKey{e, e}, append(cpKey(k), e))
		}
		ok := []aKey{}
		for _, k := range keys {
			good := true
			for _, s := range k {
				good = good && len(s) > 0
			}
			if good {
				ok = append(ok, k)
			}
		}
		list, absent := split(c.R, ok, 1+c.R.Intn(len(ok)))
		judge(c, list, absent, true)
	})
	// tables without a slot to spare for keys whose hashes may be related
	x.Stream("confusable-full", x.N(2500, 60000), func(c *mon.Case) {
		keys := []aKey{}
		n := []int{4, 8, 8, 16}[c.R.Intn(4)]
		if c.R.Intn(2) == 0 {
			keys = append(keys, aKey{}, aKey{{0}})
		}
		for len(keys) < n+4 {
			k := smallKey(c.R, 4, 3)
			if len(k) == 0 {
				continue
			}
			e := refKey(k)
			switch c.R.Intn(4) {
			case 0:
				keys = append(keys, k, aKey{e})
			case 1:
				keys = append(keys, k, append(k[:1:1], k...))
			default:
				keys = append(keys, k, aKey{e[1:]})
			}
		}
		keys = distinct(keys)
		if len(keys) < n {
			return
		}
		judge(c, keys[:n], keys[n:], false)
	})
	// two keys that Murmur3 does not tell apart, whatever the seed
	if x.Variant == "plain" {
		x.Stream("murmur-collision", 1, func(c *mon.Case) {
			a, b := []byte{0xed, 0xd2, 0x74, 0xed, 0xff, 0x49, 0x95, 0x8a}, []byte{0x95, 0x31, 0x54, 0xf8, 0xff, 0x49, 0x46, 0xc6}
			n := &hashBudget{limit: 3000000}
			_, ended := buildTable([]IKey{&countedKey{NewSimpleKey(a), n}, &countedKey{NewSimpleKey(b), n}}, true, n)
			c.Ev("collision")
			if !ended {
				c.Report("murmur-universal-collision", "building a table of the keys %x and %x is not done after hashing them %d times", a, b, n.used)
			}
			c.Nontrivial(99)
			c.Desc("keys %x and %x", a, b)
		})
	}
}

// ---------------------------------------------------------------- U11

func u11(x *mon.Ctx) {
	x.Rule("distinct pairs of times that were compared")
	reused(x, x.N(600, 12000), "consensus-time")
	type tm struct {
		kind string
		f    [3]uint32
	}
	mk := func(t tm) IConsensusTime {
		if t.kind == "ledger" {
			return NewLedgerTime(t.f[0])
		}
		return NewRaftTime(t.f[0], t.f[1], t.f[2])
	}
	ref := func(t tm) []byte {
		if t.kind == "ledger" {
			return binary.BigEndian.AppendUint32([]byte{1}, t.f[0])
		}
		b := []byte{2}
		for _, f := range t.f {
			b = binary.BigEndian.AppendUint32(b, f)
		}
		return b
	}
	extremes := []uint32{0, 1, 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1, 255, 256, 65535, 65536}
	num := func(r *rand.Rand) uint32 {
		if r.Intn(2) == 0 {
			return extremes[r.Intn(len(extremes))]
		}
		return r.Uint32() >> uint(r.Intn(32))
	}
	gen := func(r *rand.Rand, kind string) tm { return tm{kind, [3]uint32{num(r), num(r), num(r)}} }
	near := func(r *rand.Rand, t tm) tm {
		for i := r.Intn(3); i >= 0; i-- {
			t.f[r.Intn(3)] = num(r)
		}
		if r.Intn(4) == 0 {
			t.f[r.Intn(3)]++
		}
		return t
	}
	cmp := func(a, b tm) int {
		n := 3
		if a.kind == "ledger" {
			n = 1
		}
		for i := 0; i < n; i++ {
			if a.f[i] != b.f[i] {
				if a.f[i] < b.f[i] {
					return -1
				}
				return 1
			}
		}
		return 0
	}
	names := []string{"LT", "LE", "EQ", "GE", "GT", "NE"}
	ops := func(t IConsensusTime) []func(IConsensusTime) (bool, error) {
		return []func(IConsensusTime) (bool, error){t.LT, t.LE, t.EQ, t.GE, t.GT, t.NE}
	}
	reopen := func(c *mon.Case, t tm) IConsensusTime {
		o := mk(t)
		b := o.Buf()
		c.Hold("the bytes of a time", b)
		c.Check(bytes.Equal(b, ref(t)), "time-bytes", "%v is encoded as %x, want %x", t, b, ref(t))
		d, err := NewConsensusTime(follow(c.R, b))
		c.Ev("decode")
		c.Check(err == nil, "time-decode", "decoding %v: %v", t, err)
		c.Check(bytes.Equal(d.Buf(), b), "time-bytes", "%v decodes to a time of bytes %x, not %x", t, d.Buf(), b)
		return d
	}
	judge := func(c *mon.Case, a, b tm) {
		c.Ev("pair")
		c.Nontrivial(mon.Mix(mon.HashStr(fmt.Sprint(a, b))))
		oa, ob := mk(a), mk(b)
		if c.R.Intn(2) == 0 {
			oa = reopen(c, a)
		}
		if c.R.Intn(2) == 0 {
			ob = reopen(c, b)
		}
		w := cmp(a, b)
		want := []bool{w < 0, w <= 0, w == 0, w >= 0, w > 0, w != 0}
		for i, f := range ops(oa) {
			got, err := f(ob)
			if a.kind != b.kind {
				c.Ev("foreign")
				c.Check(err != nil, "time-foreign", "%v %s %v is not an error", a, names[i], b)
				continue
			}
			c.Check(err == nil && got == want[i], "time-order", "%v %s %v: %v, %v", a, names[i], b, got, err)
			c.Ev("comparison")
		}
		if a.kind == b.kind && w != 0 {
			c.State(mon.Mix(uint64(w+2), mon.HashBytes(ref(a))))
		}
	}
	// all combinations of extremes
	three := []uint32{0, 1, 1 << 31, 1<<32 - 1}
	var all []tm
	for _, p := range three {
		for _, q := range three {
			for _, r := range three {
				all = append(all, tm{"raft", [3]uint32{p, q, r}})
			}
		}
	}
	for _, e := range extremes {
		all = append(all, tm{"ledger", [3]uint32{e}})
	}
	x.Stream("extremes", len(all), func(c *mon.Case) {
		for _, b := range all {
			judge(c, all[c.Index], b)
		}
		c.Desc("%v with each of %d times", all[c.Index], len(all))
	})
	x.Stream("random", x.N(3000, 100000), func(c *mon.Case) {
		a := gen(c.R, []string{"ledger", "raft"}[c.R.Intn(2)])
		for i := 0; i < 12; i++ {
			b := near(c.R, a)
			judge(c, a, b)
			judge(c, b, a)
		}
		judge(c, a, gen(c.R, "ledger"))
		judge(c, a, gen(c.R, "raft"))
		judge(c, a, a)
		// a sorted list
		ts := []tm{}
		for i := 0; i < 12; i++ {
			ts = append(ts, near(c.R, a))
		}
		sort.Slice(ts, func(i, j int) bool {
			l, err := mk(ts[i]).LT(mk(ts[j]))
			c.Check(err == nil, "time-order", "comparing: %v", err)
			return l
		})
		for i := range ts[1:] {
			c.Check(cmp(ts[i], ts[i+1]) <= 0, "time-order", "times sorted with LT are not in order: %v", ts)
		}
		c.Ev("sorted")
		c.Desc("%v and times near it", a)
	})
	x.Stream("bytes", x.N(600, 20000), func(c *mon.Case) {
		t := gen(c.R, []string{"ledger", "raft"}[c.R.Intn(2)])
		enc := ref(t)
		for i := 0; i < len(enc); i++ {
			_, err := NewConsensusTime(enc[:i:i])
			if c.R.Intn(2) == 0 {
				_, err = NewConsensusTime(enc[:i])
			}
			c.Ev("truncated")
			c.Check(err != nil, "time-truncated", "%d bytes of %x are taken for a time", i, enc)
		}
		for i := 0; i < 256; i++ {
			b := cp(enc)
			b[0] = byte(i)
			_, err := NewConsensusTime(b)
			if i != 1 && i != 2 {
				c.Ev("unknown")
				c.Check(err != nil, "time-unknown", "kind %d is taken for a time", i)
			}
		}
		c.Nontrivial(mon.HashBytes(enc))
		c.Desc("truncations of and other kinds than %x", enc)
	})
}

// ---------------------------------------------------------------- U12

func u12(x *mon.Ctx) {
	x.Rule("distinct pairs of a flags byte and a length")
	reused(x, x.N(600, 12000), "consensus-id")
	need := func(f byte) int {
		n := 1
		for i := uint(4); i < 8; i++ {
			n += 32 * int(f>>i&1)
		}
		return n + 64*int(f>>3&1)
	}
	judge := func(c *mon.Case, b []byte) {
		in := cp(b)
		if b != nil && c.R.Intn(2) == 0 { // with room behind it
			in = follow(c.R, b)[:len(b)]
			c.Ev("room")
		}
		id, err := NewMappedConsensusID(in)
		ok := len(b) > 0 && b[0] != 0 && b[0]&7 == 0 && len(b) >= need(b[0])
		if ok {
			c.Ev("valid")
		} else {
			c.Ev("invalid")
		}
		if len(b) > 0 {
			c.Nontrivial(mon.Mix(uint64(b[0]), uint64(len(b))))
		}
		c.Check((err == nil) == ok, "id-acceptance", "consensus id %s of %d bytes: %v", short(b), len(b), err)
		if !ok {
			return
		}
		w := b[:need(b[0])]
		c.Check(bytes.Equal(id.Buf(), w), "id-bytes", "consensus id of %x keeps %x", b, id.Buf())
		c.Check(id.ConsensusMagic() == b[0], "id-magic", "flags of %x are %02x", b, id.ConsensusMagic())
		cop := id.Copy()
		for i := range in {
			in[i] ^= 0x3c
		}
		c.Check(bytes.Equal(cop.Buf(), w) && cop.ConsensusMagic() == b[0], "id-copy", "copy of the consensus id %x is %x", w, cop.Buf())
		c.State(mon.HashBytes(w))
	}
	x.Stream("lengths", 256, func(c *mon.Case) {
		for n := 0; n <= 260; n++ {
			b := randFull(c.R, n)
			if n > 0 {
				b[0] = byte(c.Index)
			}
			judge(c, b)
		}
		if c.Index == 0 {
			judge(c, nil)
		}
		c.Desc("flags %02x with 0 to 260 bytes", c.Index)
	})
	x.Stream("random", x.N(2000, 50000), func(c *mon.Case) {
		b := validID(c.R)
		judge(c, b)
		judge(c, follow(c.R, b))
		judge(c, b[:c.R.Intn(len(b))])
		b[0] ^= 1 << uint(c.R.Intn(8))
		judge(c, b)
		c.Desc("%s", short(b))
	})
}

// ---------------------------------------------------------------- U13

const btc = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// refBase58 goes the long way: repeated division of the bytes.
func refBase58(b []byte) string {
	n := append([]byte{}, b...)
	out := []byte{}
	for {
		rem, zero := 0, true
		for i, v := range n {
			cur := rem*256 + int(v)
			n[i] = byte(cur / 58)
			rem = cur % 58
			zero = zero && n[i] == 0
		}
		if zero && rem == 0 {
			break
		}
		out = append([]byte{btc[rem]}, out...)
		if zero {
			break
		}
	}
	for _, v := range b {
		if v != 0 {
			break
		}
		out = append([]byte{'1'}, out...)
	}
	return string(out)
}

func u13(x *mon.Ctx) {
	x.Rule("distinct byte strings and texts")
	enc := func(c *mon.Case, b []byte) {
		c.Nontrivial(mon.Mix(mon.HashBytes(b), uint64(len(b))))
		in := cp(b)
		t := Base58Encode(in)
		c.Ev("encode")
		c.Check(bytes.Equal(in, b), "base58-input", "encoding %x changes it to %x", b, in)
		c.Check(t == refBase58(b), "base58-text", "%x is encoded as %q, want %q", b, t, refBase58(b))
		d := Base58Decode(t)
		if len(d) > 0 && c.R.Intn(4) == 0 { // it is the caller's
			c.Ev("decoded-changed")
			d[c.R.Intn(len(d))]++
			d = Base58Decode(t)
		}
		c.Hold("decoded text", d)
		c.Check(d != nil && bytes.Equal(d, b), "base58-round-trip", "%x is encoded as %q, which decodes to %x", b, t, d)
	}
	dec := func(c *mon.Case, t string) {
		valid := true
		for i := 0; i < len(t); i++ {
			valid = valid && strings.IndexByte(btc, t[i]) >= 0
		}
		d := Base58Decode(t)
		c.Hold("decoded text", d)
		if !valid {
			c.Ev("invalid")
			c.Check(d == nil, "base58-invalid", "%q decodes to %x", t, d)
			return
		}
		c.Ev("decode")
		c.Nontrivial(mon.Mix(mon.HashStr(t), 7))
		c.Check(d != nil, "base58-refused", "%q is refused", t)
		v := new(big.Int)
		for i := 0; i < len(t); i++ {
			v.Add(v.Mul(v, big.NewInt(58)), big.NewInt(int64(strings.IndexByte(btc, t[i]))))
		}
		want := v.Bytes()
		for i := 0; i < len(t) && t[i] == '1'; i++ {
			want = append([]byte{0}, want...)
		}
		c.Check(bytes.Equal(d, want), "base58-value", "%q decodes to %x, want %x", t, d, want)
		c.Check(Base58Encode(d) == t, "base58-round-trip", "%q decodes to %x, which is encoded as %q", t, d, Base58Encode(d))
	}
	x.Stream("short", 256, func(c *mon.Case) {
		if c.Index == 0 {
			enc(c, nil)
			enc(c, []byte{})
			dec(c, "")
		}
		i := byte(c.Index)
		enc(c, []byte{i})
		dec(c, string([]byte{i}))
		for j := 0; j < 256; j++ {
			enc(c, []byte{i, byte(j)})
			enc(c, []byte{0, i, byte(j)})
			dec(c, string([]byte{i, byte(j)}))
			dec(c, string([]byte{'z', i, byte(j), '2'}))
		}
		c.Desc("all strings of up to 2 bytes that start with %02x, and texts around them", i)
	})
	x.Stream("long", x.N(24, 300), func(c *mon.Case) {
		n := 400 + c.R.Intn(2000)
		if c.Index%4 == 0 {
			n = 2000 + c.R.Intn(10000)
		}
		b := randBytes(c.R, n)
		for i := c.R.Intn(n) * (c.Index % 2); i > 0; i-- {
			b[i-1] = 0
		}
		enc(c, b)
		t := []byte(Base58Encode(b))
		for i := 0; i < 3; i++ {
			t[c.R.Intn(len(t))] = btc[c.R.Intn(58)]
		}
		dec(c, string(t))
		t[c.R.Intn(len(t))] = byte(c.R.Intn(256))
		dec(c, string(t))
		c.Desc("%d bytes", n)
	})
	x.Stream("random", x.N(4000, 200000), func(c *mon.Case) {
		n := c.R.Intn(50)
		if c.R.Intn(20) == 0 {
			n = c.R.Intn(400)
		}
		b := randBytes(c.R, n)
		for i := c.R.Intn(6); i > 0 && c.R.Intn(2) == 0; i-- {
			b = append([]byte{0}, b...)
		}
		enc(c, b)
		t := make([]byte, c.R.Intn(60))
		for i := range t {
			t[i] = btc[c.R.Intn(58)]
			if i < 3 && c.R.Intn(3) == 0 {
				t[i] = '1'
			}
		}
		dec(c, string(t))
		if len(t) > 0 { // one foreign character anywhere
			p := c.R.Intn(len(t))
			for _, f := range []byte{0, ' ', '0', 'O', 'I', 'l', '\n', 0x7f, 0x80, 0xff, '/', ':', '@', '[', '`', '{', '+', '-', byte(c.R.Intn(256))} {
				o := t[p]
				t[p] = f
				dec(c, string(t))
				t[p] = o
			}
		}
		c.Desc("%x", b)
	})
	// around powers of 58 and 256
	x.Stream("powers", 120, func(c *mon.Case) {
		p := new(big.Int).Exp(big.NewInt([]int64{58, 256}[c.Index%2]), big.NewInt(int64(c.Index/2)), nil)
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Add(p, big.NewInt(d))
			if v.Sign() >= 0 {
				enc(c, v.Bytes())
				enc(c, append([]byte{0, 0}, v.Bytes()...))
				dec(c, refBase58(v.Bytes()))
			}
		}
		c.Desc("numbers around %v", p)
	})
}

// ---------------------------------------------------------------- U17

type ranger struct {
	name  string
	bits  uint
	sign  bool
	full  func() uint64            // raw bits
	rng   func(lo, hi int64) int64 // for all but uint64
	rng64 func(lo, hi uint64) uint64
}

var rangers = []ranger{
	{"int8", 8, true, func() uint64 { return uint64(uint8(RandInt8())) }, func(a, b int64) int64 { return int64(RandInt8Range(int8(a), int8(b))) }, nil},
	{"uint8", 8, false, func() uint64 { return uint64(RandUint8()) }, func(a, b int64) int64 { return int64(RandUint8Range(uint8(a), uint8(b))) }, nil},
	{"int16", 16, true, func() uint64 { return uint64(uint16(RandInt16())) }, func(a, b int64) int64 { return int64(RandInt16Range(int16(a), int16(b))) }, nil},
	{"uint16", 16, false, func() uint64 { return uint64(RandUint16()) }, func(a, b int64) int64 { return int64(RandUint16Range(uint16(a), uint16(b))) }, nil},
	{"int32", 32, true, func() uint64 { return uint64(uint32(RandInt32())) }, func(a, b int64) int64 { return int64(RandInt32Range(int32(a), int32(b))) }, nil},
	{"uint32", 32, false, func() uint64 { return uint64(RandUint32()) }, func(a, b int64) int64 { return int64(RandUint32Range(uint32(a), uint32(b))) }, nil},
	{"int64", 64, true, func() uint64 { return uint64(RandInt64()) }, func(a, b int64) int64 { return RandInt64Range(a, b) }, nil},
	{"uint64", 64, false, func() uint64 { return RandUint64() }, nil, RandUint64Range},
}

func u17(x *mon.Ctx) {
	x.Rule("distinct pairs of bounds, or batches of numbers of a type")
	// bounds as distance from the smallest number of the type
	draw := func(q ranger, lo, hi uint64) uint64 { // offsets
		if q.rng64 != nil {
			return q.rng64(lo, hi)
		}
		if !q.sign {
			return uint64(q.rng(int64(lo), int64(hi)))
		}
		min := int64(-1) << (q.bits - 1)
		return uint64(q.rng(int64(lo)+min, int64(hi)+min) - min)
	}
	show := func(q ranger, v uint64) string {
		if q.sign {
			return fmt.Sprint(int64(v) + int64(-1)<<(q.bits-1))
		}
		return fmt.Sprint(v)
	}
	for _, q := range rangers {
		q := q
		top := ^uint64(0) >> (64 - q.bits)
		pick := func(r *rand.Rand) uint64 {
			switch r.Intn(5) {
			case 0:
				return uint64(r.Intn(5)) & top
			case 1:
				return top - uint64(r.Intn(5))
			case 2:
				return (top>>1 + uint64(r.Intn(9)) - 4) & top
			case 3:
				return r.Uint64() >> (64 - q.bits) >> uint(r.Intn(int(q.bits)))
			}
			return r.Uint64() >> (64 - q.bits)
		}
		x.Stream("range-"+q.name, x.N(1200, 40000), func(c *mon.Case) {
			lo, hi := pick(c.R), pick(c.R)
			if c.Index == 0 {
				lo, hi = 0, top
			}
			if c.Index%5 == 1 { // small
				hi = lo + 1 + uint64(c.R.Intn(8))
				if hi > top || hi < lo {
					lo, hi = top-7, top
				}
			}
			if lo == hi {
				if hi < top {
					hi++
				} else {
					lo--
				}
			}
			if lo > hi {
				lo, hi = hi, lo
			}
			width := hi - lo
			seen := [4]int{}
			n := 400
			vals := map[uint64]bool{}
			if width <= 12 {
				n = int(width) * 120 // at least 1/2^8 each, for 8 bits
			}
			for i := 0; i < n; i++ {
				v := draw(q, lo, hi)
				c.Ev("drawn")
				if v < lo || v >= hi {
					c.Failf("range-"+q.name, "a number from %s to below %s is %s", show(q, lo), show(q, hi), show(q, v))
				}
				if width <= 12 {
					vals[v] = true
				}
				part := 0
				for p := 3; p > 0; p-- {
					if v-lo >= width/4*uint64(p) {
						part = p
						break
					}
				}
				seen[part]++
			}
			if width <= 12 {
				c.Ev("small-range")
				c.Check(len(vals) == int(width), "reach-"+q.name, "%d numbers from %s to below %s take only %d values", n, show(q, lo), show(q, hi), len(vals))
			} else {
				c.Ev("wide-range")
				for p, k := range seen {
					c.Check(k > 0, "reach-"+q.name, "%d numbers from %s to below %s never lie in quarter %d", n, show(q, lo), show(q, hi), p)
				}
			}
			c.Nontrivial(mon.Mix(mon.HashStr(q.name), lo, hi))
			c.Desc("%s from %s to below %s", q.name, show(q, lo), show(q, hi))
		})
		// every value of ranges of many widths, every 512th part of wider ones
		x.Stream("cover-"+q.name, x.N(160, 1600), func(c *mon.Case) {
			w := uint64(c.Index + 1)
			if c.Index%2 == 1 {
				w = uint64(1 + c.R.Intn(700))
				for k := uint(0); k < 3 && c.R.Intn(2) == 0; k++ {
					w = 256 + uint64(c.R.Intn(60)) - 3
				}
			}
			if c.Index%4 == 2 && q.bits > 8 {
				k := 9 + uint(c.R.Intn(int(q.bits)-9))
				w = 1<<k + 1<<k>>uint(c.R.Intn(9)) + uint64(c.R.Intn(3)) - 1
			}
			if c.Index%8 == 4 && q.bits > 8 { // powers of two, the largest too
				w = 1 << (q.bits - 1 - uint(c.Index/8)%(q.bits-8))
			}
			if w > top {
				w = top
			}
			lo := uint64(0)
			if top > w {
				lo = pick(c.R)
				if lo > top-w {
					lo = top - w
				}
			}
			parts, n := int(w), 80*int(w)
			size := uint64(1)
			if w > 2000 {
				parts, n, size = 512, 50000, w/512
			}
			seen := make([]int, parts)
			// the remainders by every divisor up to 64, and every single bit
			var rests [65]uint64
			ones, zeros := uint64(0), uint64(0)
			for i := 0; i < n; i++ {
				v := draw(q, lo, lo+w)
				if v < lo || v >= lo+w {
					c.Failf("range-"+q.name, "a number from %s to below %s is %s", show(q, lo), show(q, lo+w), show(q, v))
				}
				if size > 1 {
					ones |= v - lo
					zeros |= ^(v - lo)
					if i < 5000 {
						for m := uint64(2); m <= 64; m++ {
							rests[m] |= 1 << ((v - lo) % m)
						}
					}
				}
				part := (v - lo) / size
				if part >= uint64(parts) {
					part = uint64(parts) - 1
				}
				seen[part]++
			}
			c.EvN("drawn", n)
			c.EvN("part-covered", parts)
			if size > 1 {
				for m := uint(2); m <= 64; m++ {
					c.EvN("remainder-covered", int(m))
					c.Check(rests[m] == ^uint64(0)>>(64-m), "remainder-"+q.name, "5000 numbers from %s to below %s, less the smallest, have only the remainders %x by %d", show(q, lo), show(q, lo+w), rests[m], m)
				}
				for b := uint(0); w>>b > 1; b++ {
					if w&(w-1) != 0 && w>>b < 4 {
						break // the top bits can be rarely set
					}
					c.Ev("bit-covered")
					c.Check(ones>>b&1 == 1 && zeros>>b&1 == 1, "bit-"+q.name, "%d numbers from %s to below %s, less the smallest, have only one value of bit %d", n, show(q, lo), show(q, lo+w), b)
				}
			}
			for i, k := range seen {
				c.Check(k > 0, "reach-"+q.name, "%d numbers from %s to below %s are never in part %d of %d", n, show(q, lo), show(q, lo+w), i, parts)
			}
			c.Nontrivial(mon.Mix(mon.HashStr(q.name), lo, lo+w))
			c.Desc("%s from %s to below %s, %d parts", q.name, show(q, lo), show(q, lo+w), parts)
		})
		// no bit follows from other bits: every exclusive or of some bits of
		// consecutive numbers takes both values
		x.Stream("linear-"+q.name, x.N(16, 400), func(c *mon.Case) {
			const cols = 257 // 256 bits and a constant
			per := 256 / int(q.bits)
			pivots := [cols][5]uint64{}
			rank, n := 0, 0
			for ; n < cols+100; n++ {
				row := [5]uint64{4: 1}
				for i := 0; i < per; i++ {
					at := i * int(q.bits)
					row[at/64] |= q.full() << uint(at%64)
				}
				for i := 0; i < cols; i++ {
					if row[i/64]>>uint(i%64)&1 == 0 {
						continue
					}
					if pivots[i][i/64]>>uint(i%64)&1 == 0 {
						pivots[i] = row
						rank++
						break
					}
					for j := range row {
						row[j] ^= pivots[i][j]
					}
				}
			}
			c.EvN("full", n*per)
			c.Ev("rank")
			c.Check(rank == cols, "linear-"+q.name, "in %d runs of %d numbers of %s, some bits always follow from others: rank %d of %d", n, per, q.name, rank, cols)
			c.Nontrivial(mon.HashBytes([]byte(fmt.Sprint(pivots[0], pivots[100]))))
			c.Desc("%d runs of %d numbers of %s: rank of their bits", n, per, q.name)
		})
		// no byte is a function of another byte of the same or the next number
		x.Stream("bytes-"+q.name, x.N(8, 100), func(c *mon.Case) {
			const n = 20000
			by := int(q.bits / 8)
			vs := make([]uint64, n+1)
			for i := range vs {
				vs[i] = q.full()
			}
			c.EvN("full", n)
			at := func(i, b int) int { return int(vs[i+b/by] >> uint(b%by*8) & 255) }
			for a := 0; a < by; a++ {
				for b := a + 1; b < 2*by; b++ {
					seen, k := make([]bool, 65536), 0
					for i := 0; i < n; i++ {
						if p := at(i, a)<<8 | at(i, b); !seen[p] {
							seen[p] = true
							k++
						}
					}
					// 17230 expected, deviation below 65
					c.Check(k > 16000, "bytes-"+q.name, "bytes %d and %d of %s make only %d pairs in %d numbers", a, b, q.name, k, n)
					c.Ev("byte-pair")
				}
			}
			c.Nontrivial(mon.Mix(mon.HashStr(q.name), vs[0], vs[1], vs[2]))
			c.Desc("%d numbers of %s: pairs of bytes", n, q.name)
		})
		x.Stream("bits-"+q.name, x.N(16, 200), func(c *mon.Case) {
			const n = 4000
			vs := make([]uint64, n)
			for i := range vs {
				vs[i] = q.full()
			}
			c.EvN("full", n)
			// 10 standard deviations of n fair coins
			const tol = 320
			off := func(k int) bool { return k < n/2-tol || k > n/2+tol }
			bit := func(v uint64, i uint) int { return int(v >> i & 1) }
			for i := uint(0); i < q.bits; i++ {
				k := 0
				for _, v := range vs {
					k += bit(v, i)
				}
				c.Check(!off(k), "bit-"+q.name, "bit %d of %s is set in %d of %d numbers", i, q.name, k, n)
				for j := uint(0); j < i; j++ {
					k := 0
					for _, v := range vs {
						k += bit(v, i) ^ bit(v, j)
					}
					c.Check(!off(k), "bits-"+q.name, "bits %d and %d of %s differ in %d of %d numbers", i, j, q.name, k, n)
					c.Ev("bit-pair")
				}
			}
			for lag := 1; lag <= 40; lag++ {
				for i := uint(0); i < q.bits; i++ {
					k := 0
					for t := range vs {
						k += bit(vs[t], i) ^ bit(vs[(t+lag)%n], i)
					}
					c.Check(!off(k), "lag-"+q.name, "bit %d of %s differs in %d of %d numbers that are %d apart", i, q.name, k, n, lag)
				}
				c.Ev("lag")
			}
			if q.bits >= 32 {
				seen := map[uint64]bool{}
				for _, v := range vs {
					seen[v] = true
				}
				c.Check(len(seen) > n-6, "repeat-"+q.name, "%d numbers of %s take only %d values", n, q.name, len(seen))
			} else if q.bits == 8 {
				seen := map[uint64]bool{}
				for i := 0; i < 3; i++ {
					for _, v := range vs {
						seen[v] = true
					}
					for i := range vs {
						vs[i] = q.full()
					}
				}
				c.Check(len(seen) == 256, "reach-"+q.name, "12000 numbers of %s take only %d values", q.name, len(seen))
			}
			c.Nontrivial(mon.Mix(mon.HashStr(q.name), vs[0], vs[1], vs[2]))
			c.Desc("%d numbers of %s: bits, pairs of bits, lags", n, q.name)
		})
	}
	x.Note("threshold", "false alarms: below 1e-12 per run (10 standard deviations for bit counts, e^-30 and less for missing values)")
}
