package main

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"runtime"
	"runtime/metrics"

	. "../../../repo/src/util"
	"../mon"
)

var hot = []byte{0, 1, 2, 3, 0x04, 0x08, 0x0f, 0x10, 0x11, 0x12, 0x20, 0x21, 0x22, 0x40, 0x41, 0x42, 0x60, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0xc0, 0xe0, 0xf8, 0xfe, 0xff}

// mutate makes valid bytes hostile.
func mutate(r *rand.Rand, b []byte, other func() []byte) []byte {
	b = cp(b)
	for n := 1 + r.Intn(4); n > 0; n-- {
		at := 0
		if len(b) > 0 {
			at = r.Intn(len(b))
			if r.Intn(3) == 0 { // headers are at the start
				at = r.Intn(min(len(b), 12))
			}
		}
		switch r.Intn(13) {
		case 0:
			if len(b) > 0 {
				b[at] ^= 1 << uint(r.Intn(8))
			}
		case 1, 2:
			if len(b) > 0 {
				b[at] = hot[r.Intn(len(hot))]
			}
		case 3:
			b = b[:at]
		case 4:
			b = append(b[:at:at], append(randBytes(r, 1+r.Intn(6)), b[at:]...)...)
		case 5:
			end := min(len(b), at+1+r.Intn(8))
			b = append(b[:at:at], b[end:]...)
		case 6: // huge variable-length number
			v := []uint64{1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<32 - 1, 65535, 65536, 1 << 20, uint64(len(b)), uint64(len(b) - at), uint64(len(b)-at) - 1}[r.Intn(12)]
			b = append(b[:at:at], append(binary.AppendUvarint(nil, v), b[at:]...)...)
		case 7: // number that does not end, or overflows
			b = append(b[:at:at], append(bytes.Repeat([]byte{0xff}, 1+r.Intn(12)), b[at:]...)...)
		case 8: // huge fixed-length number
			v := []uint32{0xffffffff, 0x7fffffff, 0x80000000, 1 << 24, 1 << 16, 0, 1, uint32(len(b)), 0x40000000, 0x3fffffff}[r.Intn(10)]
			if len(b) >= at+4 {
				binary.BigEndian.PutUint32(b[at:], v)
			}
		case 9:
			if len(b) >= at+2 {
				binary.BigEndian.PutUint16(b[at:], []uint16{0xffff, 0x8000, 0x100, uint16(len(b)), 1}[r.Intn(5)])
			}
		case 10: // splice
			o := other()
			if len(o) > 0 {
				b = append(b[:at:at], o[r.Intn(len(o)):]...)
			}
		case 11: // repeat a part
			end := min(len(b), at+1+r.Intn(20))
			b = append(b[:end:end], b[at:]...)
		case 12:
			b = append(b, randBytes(r, 1+r.Intn(20))...)
		}
		if len(b) > 6000 {
			b = b[:6000]
		}
	}
	return b
}

// allocated tells about how much f allocates: precisely if it is more than a few
// KB, because only large allocations are accounted for at once.
func allocated(f func()) int64 {
	sample := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(sample)
	a := sample[0].Value.Uint64()
	f()
	metrics.Read(sample)
	if d := int64(sample[0].Value.Uint64() - a); d < 8<<10 {
		return d
	}
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	f()
	runtime.ReadMemStats(&y)
	return int64(y.TotalAlloc - x.TotalAlloc)
}

// Decoding may allocate this much, plus this much per byte of input. The
// largest amounts seen are about a quarter of it (tries, hash tables).
const allocBase, allocPerByte = 64 << 10, 600

// hostile decodes any bytes at all.
func hostile(c *mon.Case, k *kind, b []byte) {
	in := cp(b)
	if b == nil && c.R.Intn(2) == 0 {
		in = []byte{}
	}
	var obj interface{}
	var n int
	var err error
	what := func() string { return k.name + " from " + short(b) }
	c.Ev("decode")
	var alloc int64
	c.NoPanic("decode-"+k.name, what, func() {
		alloc = allocated(func() { obj, n, err = k.open(in) })
	})
	c.X.Max("alloc-"+k.name, alloc-int64(len(b))*allocPerByte)
	c.Check(alloc <= allocBase+allocPerByte*int64(len(b)), "allocation-"+k.name, "decoding %d bytes as %s allocated %d bytes: %x", len(b), k.name, alloc, short(b))
	c.Check(bytes.Equal(in, b), "input-changed-"+k.name, "decoding %s changed its input", what())
	if err != nil {
		c.Ev("refused")
		return
	}
	c.Ev("accepted")
	c.Ev("accepted-" + k.name)
	c.Check(n >= 0 && n <= len(b), "consumed-"+k.name, "%s: %d of %d bytes consumed", what(), n, len(b))
	if buf, ok := bufOf(obj); ok && k.delimit {
		// an empty key has one buffer, however its count was written
		if key, ok := obj.(IKey); !ok || !key.IsEmpty() {
			c.Check(len(buf) == n, "consumed-"+k.name, "%s: %d bytes consumed, but the buffer has %d", what(), n, len(buf))
		}
	}
	w := &walker{r: c.R, budget: 300, c: c}
	c.NoPanic("use-"+k.name, what, func() { c.State(w.walk(obj)) })
	c.Check(bytes.Equal(in, b), "input-changed-"+k.name, "using %s changed its input", what())
	c.Ev("walked")
}

func u07(x *mon.Ctx) {
	x.Rule("distinct inputs that were decoded (as hashed), states are distinct digests of accepted objects")
	// short inputs, all of them
	short2 := func(c *mon.Case, k *kind) {
		hostile(c, k, nil)
		hostile(c, k, []byte{})
		hostile(c, k, []byte{byte(c.Index)})
		for i := 0; i < 256; i++ {
			hostile(c, k, []byte{byte(c.Index), byte(i)})
		}
		for i := 0; i < 300; i++ {
			hostile(c, k, []byte{byte(c.Index), hot[c.R.Intn(len(hot))], hot[c.R.Intn(len(hot))], hot[c.R.Intn(len(hot))], hot[c.R.Intn(len(hot))]}[:3+c.R.Intn(3)])
		}
		c.Nontrivial(mon.Mix(mon.HashStr(k.name), uint64(c.Index)))
		c.Desc("%s: all inputs of up to 2 bytes that start with %02x", k.name, c.Index)
	}
	for _, k := range kinds {
		k := k
		if x.Variant == "plain" {
			x.Stream("short-"+k.name, 256, func(c *mon.Case) { short2(c, k) })
		}
		n := x.N(1200, 60000)
		switch k.name {
		case "value", "record", "trie", "hash-table":
			n *= 3
		}
		x.Stream("mutated-"+k.name, n, func(c *mon.Case) {
			valid := k.valid(c.R)
			other := func() []byte { return kinds[c.R.Intn(len(kinds))].valid(c.R) }
			for i := 0; i < 12; i++ {
				b := mutate(c.R, valid, other)
				if i == 0 {
					b = valid
				}
				c.Evf("input", "%s %x", k.name, b)
				c.Nontrivial(mon.Mix(mon.HashStr(k.name), mon.HashBytes(b)))
				hostile(c, k, b)
				if i%4 == 3 && len(b) < 2000 {
					valid = b // build on it
				}
			}
			c.Desc("%s: valid bytes %s and mutations of them", k.name, short(valid))
		})
		x.Stream("random-"+k.name, x.N(300, 20000), func(c *mon.Case) {
			for i := 0; i < 10; i++ {
				b := randBytes(c.R, c.R.Intn(80))
				if c.R.Intn(2) == 0 {
					for j := range b {
						b[j] = hot[c.R.Intn(len(hot))]
					}
				}
				hostile(c, k, b)
				c.Nontrivial(mon.Mix(mon.HashStr(k.name), mon.HashBytes(b)))
			}
			c.Desc("%s: random bytes", k.name)
		})
		// one kind taken for another
		x.Stream("foreign-"+k.name, x.N(200, 5000), func(c *mon.Case) {
			for _, o := range kinds {
				hostile(c, k, o.valid(c.R))
			}
			c.Nontrivial(c.R.Uint64())
			c.Desc("%s: encodings of other kinds", k.name)
		})
		// every truncation of larger valid encodings
		x.Stream("truncated-"+k.name, x.N(60, 3000), func(c *mon.Case) {
			b := k.valid(c.R)
			for i := 0; i < len(b) && i < 600; i++ {
				hostile(c, k, b[:i:i])
			}
			c.Nontrivial(mon.HashBytes(b))
			c.Desc("%s: every truncation of %s", k.name, short(b))
		})
	}
	// deep and wide
	x.Stream("deep", x.N(24, 200), func(c *mon.Case) {
		depth := 1 << uint(c.Index%12)
		inner := []byte{0}
		var b []byte
		switch c.Index % 3 {
		case 0: // arrays within arrays, as deep as the format goes
			b = nest(inner, depth*4, func(int) byte { return 0x40 })
		case 1: // records within lists
			b = nest(inner, depth, func(i int) byte { return []byte{0x40, 0x10}[i%2] })
		default: // many elements
			n := min(depth*16, 65535)
			b = append([]byte{0x82, byte(n >> 8), byte(n), byte(n >> 8), byte(n)}, make([]byte, n)...)
		}
		c.Desc("nested or wide input of %d bytes", len(b))
		c.Nontrivial(mon.HashBytes(b))
		hostile(c, kindNamed("value"), b)
		rec := append([]byte{0x20}, b...)
		hostile(c, kindNamed("record"), rec)
		// a chain of trie nodes
		d := min(depth, 200)
		var tr []byte
		tr = append(tr, 1, 0, 0, 0, 1)
		parent := 0
		for i := 0; i < d; i++ {
			at := len(tr)
			tr = append(tr, 1, 1, byte(i))
			tr = binary.AppendUvarint(tr, uint64(parent))
			cs := byte(1)
			if i == d-1 {
				cs = 0
			}
			tr = append(tr, 1, 1, 7, cs)
			parent = at
		}
		tr = append(tr, make([]byte, d)...)
		hostile(c, kindNamed("trie"), tr)
	})
}

func nest(inner []byte, depth int, magic func(i int) byte) []byte {
	b := inner
	for i := 0; i < depth; i++ {
		n := len(b)
		m := magic(i)
		if m == 0x10 { // a record with that value
			b = append([]byte{0x20}, b...)
			n++
		}
		var h []byte
		switch {
		case n < 256:
			h = []byte{m | 1, 1, byte(n)}
		case n < 65536:
			h = []byte{m | 2, 1, byte(n >> 8), byte(n)}
		default:
			return b
		}
		b = append(h, b...)
	}
	return b
}

// ---------------------------------------------------------------- U08

// partial tells whether bytes are one of those from which an object is made
// although more could follow: nothing, for a key and a simple value, and a
// record that says to be signed, of which the signature is not there.
func partial(k *kind, b []byte) bool {
	switch k.name {
	case "key", "simple-value":
		return len(b) == 0
	case "record":
		o, _, err := NewMappedRecord(cp(b))
		if err != nil || b[0]&2 == 0 {
			return false
		}
		r, s := o.Signature()
		return r == nil && s == nil
	}
	return false
}

func u08(x *mon.Ctx) {
	mon.FaultsPanic()
	x.Rule("distinct valid encodings that were decoded between guard pages and with different bytes behind them")
	all := []string{}
	for _, k := range kinds {
		if k.name != "base58" {
			all = append(all, k.name)
		}
	}
	reused(x, x.N(300, 6000), all...)
	g := mon.NewGuarded(128 << 10)
	defer g.Free()
	digest := func(c *mon.Case, k *kind, o interface{}, seed int64) uint64 {
		w := &walker{r: rand.New(rand.NewSource(seed)), budget: 4000, all: true, c: c}
		return w.walk(o)
	}
	one := func(c *mon.Case, k *kind, enc []byte, light bool) {
		what := func() string { return k.name + " from " + short(enc) }
		c.Nontrivial(mon.Mix(mon.HashStr(k.name), mon.HashBytes(enc)))
		c.Desc("%s", what())
		// the plain object
		o, n, err := k.open(cp(enc))
		c.Check(err == nil && n == len(enc), "valid-refused-"+k.name, "%s: %d bytes consumed, %v", what(), n, err)
		if buf, ok := bufOf(o); ok {
			c.Check(bytes.Equal(buf, enc), "buffer-"+k.name, "%s: buffer is %s", what(), short(buf))
		}
		want := digest(c, k, o, 1)
		c.State(want)
		c.Ev("plain")
		// write protected, next to memory that cannot be accessed
		for i := 0; i < 2; i++ {
			in := g.Place(enc, i == 0)
			g.ReadOnly()
			var got uint64
			c.NoPanic("outside-"+k.name, what, func() {
				o, n, err = k.open(in)
				if err == nil {
					got = digest(c, k, o, int64(2+i))
				}
			})
			g.Writable()
			c.Check(err == nil && n == len(enc) && got == want, "guarded-"+k.name, "%s gives another object in guarded memory: %v", what(), err)
			c.Check(bytes.Equal(in, enc), "input-changed-"+k.name, "using %s changed its input", what())
			c.Ev("guarded")
		}
		// with other bytes behind it
		if !k.delimit {
			return
		}
		for i := 0; i < 5; i++ {
			in := follow(c.R, enc)
			if i == 4 { // a longer buffer, of which only the length counts
				in = follow(c.R, enc)[:len(enc)]
			}
			before := cp(in)
			o, n, err := k.open(in)
			c.Check(err == nil && n == len(enc), "suffix-consumed-"+k.name, "%s followed by %s: %d of %d bytes consumed, %v", what(), short(in[len(enc):]), n, len(enc), err)
			if buf, ok := bufOf(o); ok {
				c.Check(bytes.Equal(buf, enc), "suffix-buffer-"+k.name, "%s followed by %s: buffer is %s", what(), short(in[len(enc):]), short(buf))
			}
			c.Check(digest(c, k, o, int64(4+i)) == want, "suffix-content-"+k.name, "%s followed by %s decodes to something else", what(), short(in[len(enc):]))
			c.Check(bytes.Equal(in, before), "input-changed-"+k.name, "using %s changed its input", what())
			// what follows the encoding may change later
			for j := len(enc); j < len(in); j++ {
				in[j] ^= 0x5a
			}
			c.Check(digest(c, k, o, int64(20+i)) == want, "suffix-content-"+k.name, "%s depends on the bytes behind it", what())
			c.Ev("suffix")
		}
	}
	// any bytes at all: what is decoded depends on these bytes only, whatever
	// is behind them in the same allocation
	anything := func(c *mon.Case, k *kind, b []byte) {
		what := func() string { return k.name + " from " + short(b) }
		c.Nontrivial(mon.Mix(mon.HashStr(k.name), mon.HashBytes(b)))
		seed := c.R.Int63()
		use := func(in []byte) (ok bool, n int, d uint64) {
			c.NoPanic("outside-"+k.name, what, func() {
				o, m, err := k.open(in)
				if err == nil {
					w := &walker{r: rand.New(rand.NewSource(seed)), budget: 300, c: c}
					ok, n, d = true, m, w.walk(o)
				}
			})
			return
		}
		in := g.Place(b, false)
		g.ReadOnly()
		ok, n, d := use(in)
		g.Writable()
		c.Check(bytes.Equal(in, b), "input-changed-"+k.name, "using %s changed its input", what())
		c.Check(!ok || n >= 0 && n <= len(b), "consumed-"+k.name, "%s: %d of %d bytes consumed", what(), n, len(b))
		for i := 0; i < 2; i++ {
			room := follow(c.R, b)
			before := cp(room)
			ok2, n2, d2 := use(room[:len(b)])
			c.Check(ok2 == ok && n2 == n && d2 == d, "room-"+k.name, "%s with room for %s behind it: accepted %v (without room %v), %d bytes consumed (%d), same content %v", what(), short(room[len(b):]), ok2, ok, n2, n, d == d2)
			c.Check(bytes.Equal(room, before), "input-changed-"+k.name, "using %s changed its input or what is behind it", what())
		}
		if ok {
			c.Ev("room-accepted")
			for i := 0; i < 2 && k.delimit && !partial(k, b[:n]); i++ { // valid as well, with anything behind it
				ok2, n2, d2 := use(follow(c.R, b[:n:n]))
				c.Check(ok2 && n2 == n && d2 == d, "accepted-suffix-"+k.name, "%s with other bytes behind the %d consumed: accepted %v, %d bytes consumed, same content %v", what(), n, ok2, n2, d == d2)
			}
		} else {
			c.Ev("room-refused")
		}
	}
	for _, k := range kinds {
		k := k
		x.Stream("any-"+k.name, x.N(400, 20000), func(c *mon.Case) {
			valid := k.valid(c.R)
			other := func() []byte { return kinds[c.R.Intn(len(kinds))].valid(c.R) }
			c.Desc("%s: truncations and mutations of %s", k.name, short(valid))
			for i := 0; i < 12; i++ {
				b := valid
				switch {
				case i < 6 && len(b) > 0:
					b = b[:len(b)-1-c.R.Intn(min(len(b), []int{1, 3, 9, 70, 300, 1 << 20}[i]))]
				case i < 11:
					b = mutate(c.R, valid, other)
				}
				anything(c, k, b)
			}
		})
	}
	// a valid encoding that is cut short is refused, as the bytes that are
	// missing could be anything
	for _, k := range kinds {
		k := k
		if !k.delimit {
			continue
		}
		x.Stream("cut-"+k.name, x.N(150, 6000), func(c *mon.Case) {
			enc := k.valid(c.R)
			c.Desc("%s: prefixes of %s", k.name, short(enc))
			for i := 0; i < 60 && i < len(enc); i++ {
				n := i
				switch {
				case len(enc) <= 60:
				case i < 20:
				case i < 40:
					n = len(enc) - 1 - (i - 20)
				default:
					n = c.R.Intn(len(enc))
				}
				in := enc[:n]
				if i%2 == 0 {
					in = cp(in)
				}
				if k.name != "record" && partial(k, in) {
					continue
				}
				unsigned := k.name == "record" && enc[0]&2 != 0 && n >= len(enc)-64
				var o interface{}
				var m int
				var err error
				c.NoPanic("cut-"+k.name, func() string { return k.name + " from " + short(in) }, func() { o, m, err = k.open(in) })
				if unsigned {
					c.Check(err == nil && m == len(enc)-64, "cut-"+k.name, "%s of %d bytes without its last %d: %d bytes consumed, %v: %s", k.name, len(enc), len(enc)-n, m, err, short(enc))
					a, b := o.(IRecord).Signature()
					c.Check(a == nil && b == nil, "cut-"+k.name, "%s of %d bytes without its last %d has a signature: %s", k.name, len(enc), len(enc)-n, short(enc))
					c.Ev("unsigned")
					continue
				}
				c.Check(err != nil, "cut-"+k.name, "%s of %d bytes without its last %d is accepted, %d bytes consumed: %s", k.name, len(enc), len(enc)-n, m, short(enc))
				c.Ev("cut")
			}
			c.Nontrivial(mon.Mix(mon.HashStr(k.name), mon.HashBytes(enc), 3))
		})
	}
	for _, k := range kinds {
		k := k
		n := x.N(1000, 40000)
		if !k.delimit {
			n = x.N(300, 5000)
		}
		x.Stream("valid-"+k.name, n, func(c *mon.Case) { one(c, k, k.valid(c.R), false) })
	}
	if x.Variant == "plain" {
		x.Stream("large", x.N(60, 600), func(c *mon.Case) {
			switch c.Index % 6 {
			case 0:
				one(c, kindNamed("key"), validKey(c.R, 4000), false)
			case 1:
				one(c, kindNamed("value"), validVal(c.R, 20000), false)
			case 2:
				one(c, kindNamed("trie"), validTrie(c.R, 150), false)
			case 3:
				one(c, kindNamed("hash-table"), validMPH(c.R, 200), false)
			case 4:
				b := append([]byte{0x02, 0xff, 0xff}, randFull(c.R, 65535)...)
				one(c, kindNamed("value"), b, false)
			case 5:
				one(c, kindNamed("varchar"), append(binary.AppendUvarint(nil, 60000), randFull(c.R, 60000)...), false)
			}
		})
	}
}
