package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"time"
	"unsafe"

	. "../../../repo/src/collection"
	"../mon"
)

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

// allSeqs returns every sequence of up to maxLen ranks below k, and nil.
func allSeqs(maxLen, k int) [][]int {
	res := [][]int{nil, {}}
	last := [][]int{{}}
	for l := 1; l <= maxLen; l++ {
		next := [][]int{}
		for _, s := range last {
			for v := 0; v < k; v++ {
				next = append(next, append(append([]int{}, s...), v))
			}
		}
		res = append(res, next...)
		last = next
	}
	return res
}

// rawCompare calls the comparison and equality functions on plain slices.
func rawCompare(kind string, a, b []int) (cmp int, eq, have bool) {
	switch kind {
	case "byte":
		return CompareByteSlice(conv(a, rByte), conv(b, rByte)), EqualByteSlice(conv(a, rByte), conv(b, rByte)), true
	case "int8":
		return CompareInt8Slice(conv(a, rI8), conv(b, rI8)), EqualInt8Slice(conv(a, rI8), conv(b, rI8)), true
	case "int16":
		return CompareInt16Slice(conv(a, rI16), conv(b, rI16)), EqualInt16Slice(conv(a, rI16), conv(b, rI16)), true
	case "uint16":
		return CompareUint16Slice(conv(a, rU16), conv(b, rU16)), EqualUint16Slice(conv(a, rU16), conv(b, rU16)), true
	case "int32":
		return CompareInt32Slice(conv(a, rI32), conv(b, rI32)), EqualInt32Slice(conv(a, rI32), conv(b, rI32)), true
	case "uint32":
		return CompareUint32Slice(conv(a, rU32), conv(b, rU32)), EqualUint32Slice(conv(a, rU32), conv(b, rU32)), true
	case "int64":
		return CompareInt64Slice(conv(a, rI64), conv(b, rI64)), EqualInt64Slice(conv(a, rI64), conv(b, rI64)), true
	case "uint64":
		return CompareUint64Slice(conv(a, rU64), conv(b, rU64)), EqualUint64Slice(conv(a, rU64), conv(b, rU64)), true
	case "goint":
		return CompareIntSlice(conv(a, rInt), conv(b, rInt)), EqualIntSlice(conv(a, rInt), conv(b, rInt)), true
	}
	return 0, false, false
}

func c06(x *mon.Ctx) {
	x.Rule("a case compares one value with every value of a set (all ordered pairs) by Compare and Equal against a reference lexicographic order; non-trivial: the pair differs; distinct by pair and element type")
	absentWrappers(x, false)
	kinds := append([]string{"goint"}, cmpKinds[1:]...)
	for _, kind := range kinds {
		kind := kind
		ml := 3
		if x.Thorough {
			ml = 4
		}
		all := allSeqs(ml, 5)
		pair := func(c *mon.Case, a, b []int) {
			want := cmpSeq(a, b)
			c.Evf("pair", "%s %v %v", kind, a, b)
			if cmp, eq, ok := rawCompare(kind, a, b); ok {
				c.Check(sign(cmp) == want, "compare-"+kind, "comparing %s slices %v and %v (by rank) gives %d, expected sign %d", kind, a, b, cmp, want)
				c.Check(eq == (want == 0), "equal-"+kind, "equality of %s slices %v and %v (by rank) is %v", kind, a, b, eq)
			}
			if kind != "goint" {
				x, y := mkComparable(kind, a), mkComparable(kind, b)
				cmp := x.Compare(y)
				c.Check(sign(cmp) == want, "compare-wrapped-"+kind, "comparing comparable %s slices %v and %v (by rank) gives %d, expected sign %d", kind, a, b, cmp, want)
				c.Check(x.Equal(y) == (want == 0), "equal-wrapped-"+kind, "equality of comparable %s slices %v and %v (by rank) is %v", kind, a, b, x.Equal(y))
			}
		}
		x.Stream("pairs-"+kind, len(all), func(c *mon.Case) {
			a := all[c.Index]
			if c.Index < 4 {
				c.Desc("%s slice of ranks %v against all %d slices", kind, a, len(all))
			}
			for _, b := range all {
				pair(c, a, b)
				if len(all) < 200 {
					c.Nontrivial(mon.HashStr(fmt.Sprint(kind, a, b)))
				}
			}
			c.Nontrivial(mon.HashStr(fmt.Sprint(kind, a)))
			c.State(mon.HashStr(fmt.Sprint(a)))
		})
		x.Stream("shared-"+kind, x.N(150, 4000), func(c *mon.Case) {
			// parts of one array
			sharing(c.R, func(a, b []int) {
				pair(c, a, b)
				pair(c, b, a)
				c.Ev("shared")
				c.Nontrivial(mon.HashStr(fmt.Sprint(kind, a, b)))
			})
		})
		x.Stream("long-"+kind, x.N(150, 4000), func(c *mon.Case) {
			// long values that agree up to a late position
			l := c.R.Intn(300)
			a := make([]int, l)
			for i := range a {
				a[i] = c.R.Intn(5)
			}
			for k := 0; k < 20; k++ {
				b := append([]int{}, a...)
				switch c.R.Intn(4) {
				case 0:
					b = b[:c.R.Intn(l+1)]
				case 1:
					b = append(b, c.R.Intn(5))
				case 2:
					if l > 0 {
						b[c.R.Intn(l)] = c.R.Intn(5)
					}
				}
				pair(c, a, b)
				pair(c, b, a)
				c.Nontrivial(mon.HashStr(fmt.Sprint(kind, a, b)))
			}
		})
	}
	// random elements of the full range against the reference on the numbers
	// themselves, and triples for transitivity
	x.Stream("random-elements", x.N(3000, 80000), func(c *mon.Case) {
		type num struct {
			i int64
			u uint64
		}
		gen := func() []num {
			n := make([]num, c.R.Intn(4))
			for i := range n {
				switch c.R.Intn(3) {
				case 0:
					n[i] = num{int64(c.R.Uint64()), c.R.Uint64()}
				case 1:
					n[i] = num{int64(c.R.Intn(3) - 1), uint64(c.R.Intn(3))}
				default:
					s := uint(c.R.Intn(64))
					n[i] = num{int64(1) << s, uint64(1) << s}
					if c.R.Intn(2) == 0 {
						n[i].i = -n[i].i
					}
				}
			}
			return n
		}
		a, b, d := gen(), gen(), gen()
		ref := func(a, b []num, signed bool, bits uint) int {
			for i := 0; i < len(a) && i < len(b); i++ {
				if signed {
					p, q := a[i].i<<(64-bits)>>(64-bits), b[i].i<<(64-bits)>>(64-bits)
					if p < q {
						return -1
					} else if p > q {
						return 1
					}
				} else {
					p, q := a[i].u<<(64-bits)>>(64-bits), b[i].u<<(64-bits)>>(64-bits)
					if p < q {
						return -1
					} else if p > q {
						return 1
					}
				}
			}
			return sign(len(a) - len(b))
		}
		mk := func(kind string, a []num) IComparable {
			switch kind {
			case "byte":
				s := []byte{}
				for _, v := range a {
					s = append(s, byte(v.u))
				}
				return NewComparableByteSlice(s)
			case "int8":
				s := []int8{}
				for _, v := range a {
					s = append(s, int8(v.i))
				}
				return NewComparableInt8Slice(s)
			case "int16":
				s := []int16{}
				for _, v := range a {
					s = append(s, int16(v.i))
				}
				return NewComparableInt16Slice(s)
			case "uint16":
				s := []uint16{}
				for _, v := range a {
					s = append(s, uint16(v.u))
				}
				return NewComparableUint16Slice(s)
			case "int32":
				s := []int32{}
				for _, v := range a {
					s = append(s, int32(v.i))
				}
				return NewComparableInt32Slice(s)
			case "uint32":
				s := []uint32{}
				for _, v := range a {
					s = append(s, uint32(v.u))
				}
				return NewComparableUint32Slice(s)
			case "int64":
				s := []int64{}
				for _, v := range a {
					s = append(s, v.i)
				}
				return NewComparableInt64Slice(s)
			}
			s := []uint64{}
			for _, v := range a {
				s = append(s, v.u)
			}
			return NewComparableUint64Slice(s)
		}
		info := []struct {
			k      string
			signed bool
			bits   uint
		}{{"byte", false, 8}, {"int8", true, 8}, {"int16", true, 16}, {"uint16", false, 16}, {"int32", true, 32}, {"uint32", false, 32}, {"int64", true, 64}, {"uint64", false, 64}}
		c.Desc("%v %v %v as all element types", a, b, d)
		vals := [][]num{a, b, d}
		for _, in := range info {
			for i := range vals {
				for j := range vals {
					p, q := mk(in.k, vals[i]), mk(in.k, vals[j])
					want := ref(vals[i], vals[j], in.signed, in.bits)
					got := p.Compare(q)
					c.Check(sign(got) == want, "compare-random-"+in.k, "comparing %s slices %v and %v gives %d, expected sign %d", in.k, vals[i], vals[j], got, want)
					c.Check(p.Equal(q) == (want == 0), "equal-random-"+in.k, "equality of %s slices %v and %v is %v", in.k, vals[i], vals[j], p.Equal(q))
					c.Ev("pair")
				}
			}
		}
		c.Nontrivial(mon.HashStr(fmt.Sprint(a, b, d)))
	})
	// long ones that are alike for most of their length
	x.Stream("long", x.N(48, 1500), func(c *mon.Case) {
		for _, k := range cmpKinds[1:] {
			n := 1 + c.R.Intn(1<<uint(8+c.R.Intn(11)))
			if c.R.Intn(3) == 0 {
				n = []int{255, 256, 257, 4096, 65534, 65535, 65536, 65537, 131072, 131073}[c.R.Intn(10)]
			}
			a := make([]int, n)
			for i := range a {
				a[i] = 1 + c.R.Intn(3)
			}
			for v := 0; v < 5; v++ {
				b := append([]int{}, a...)
				switch v {
				case 0:
				case 1:
					b = b[:c.R.Intn(n)]
				case 2:
					b[n-1]++
				case 3:
					b[c.R.Intn(n)]++
				case 4:
					b = append(b, 1)
				}
				p, q := mkComparable(k, a), mkComparable(k, b)
				want := cmpSeq(a, b)
				c.Ev("pair")
				c.Check(sign(p.Compare(q)) == want && sign(q.Compare(p)) == -want, "compare-long-"+k, "comparing %s slices of %d and %d elements, variation %d, gives %d and %d, expected sign %d", k, len(a), len(b), v, p.Compare(q), q.Compare(p), want)
				c.Check(p.Equal(q) == (want == 0) && q.Equal(p) == (want == 0), "equal-long-"+k, "equality of %s slices of %d and %d elements, variation %d, is %v", k, len(a), len(b), v, p.Equal(q))
			}
			c.Nontrivial(mon.Mix(uint64(n), c.R.Uint64()))
			c.X.Max("elements", int64(n))
		}
		c.Desc("long slices of all types")
	})
	// nested slices of comparables, and values of another type or absent ones
	x.Stream("nested-and-foreign", x.N(600, 10000), func(c *mon.Case) {
		u := seqUniverse(c.R, 12, true)
		mkN := func(s []int) IComparable { // a slice of slices
			if s == nil {
				return NewComparableSlice(nil)
			}
			e := make([]IComparable, len(s))
			for i, v := range s {
				if v > 0 {
					e[i] = NewComparableSlice([]IComparable{NewComparableInt32Slice([]int32{int32(v)})})
				}
			}
			return NewComparableSlice(e)
		}
		for i := range u {
			for j := range u {
				p, q := mkN(u[i]), mkN(u[j])
				c.Ev("pair")
				c.Check(sign(p.Compare(q)) == cmpSeq(u[i], u[j]), "compare-nested", "comparing nested slices %v and %v gives %d", u[i], u[j], p.Compare(q))
				c.Check(p.Equal(q) == (cmpSeq(u[i], u[j]) == 0), "equal-nested", "equality of nested slices %v and %v is %v", u[i], u[j], p.Equal(q))
			}
			for _, k := range cmpKinds[1:] {
				for _, k2 := range cmpKinds[1:] {
					if k != k2 {
						c.Ev("foreign")
						c.Check(!mkComparable(k, u[i]).Equal(mkComparable(k2, u[i])), "equal-foreign", "a %s slice equals a %s slice", k, k2)
					}
				}
				c.Check(!mkComparable(k, u[i]).Equal(nil), "equal-nothing", "a %s slice equals nothing", k)
				c.Check(mkComparable(k, u[i]).Compare(nil) > 0, "compare-nothing", "a %s slice does not come after nothing", k)
				c.Ev("nothing")
			}
		}
		// self comparison of one and the same object
		for _, k := range cmpKinds[1:] {
			o := mkComparable(k, u[c.R.Intn(len(u))])
			c.Check(o.Compare(o) == 0 && o.Equal(o), "self", "a %s slice differs from itself", k)
		}
	})
}

////////////////////////////////////////////////////////////////////////////////

// refMurmur3 is MurmurHash3 x86 32 as published.
func refMurmur3(b []byte, seed uint32) uint32 {
	h := seed
	i := 0
	for ; i+4 <= len(b); i += 4 {
		k := uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
		k *= 0xcc9e2d51
		k = k<<15 | k>>17
		k *= 0x1b873593
		h ^= k
		h = h<<13 | h>>19
		h = h*5 + 0xe6546b64
	}
	k := uint32(0)
	for j := len(b) - 1; j >= i; j-- {
		k = k<<8 | uint32(b[j])
	}
	if i < len(b) {
		k *= 0xcc9e2d51
		k = k<<15 | k>>17
		k *= 0x1b873593
		h ^= k
	}
	h ^= uint32(len(b))
	h ^= h >> 16
	h *= 0x85ebca6b
	h ^= h >> 13
	h *= 0xc2b2ae35
	h ^= h >> 16
	return h
}

// short leaves out most of long content.
func short(b []byte) []byte {
	if len(b) > 2000 {
		return append(append([]byte{}, b[:300]...), b[len(b)-300:]...)
	}
	return b
}

func typed[T any](b []byte) []T {
	var t T
	sz := int(unsafe.Sizeof(t))
	if len(b) < sz {
		return []T{}
	}
	return unsafe.Slice((*T)(unsafe.Pointer(&b[0])), len(b)/sz)
}

func hashOf(kind string, b []byte) IHashable {
	switch kind {
	case "byte":
		return NewHashableByteSlice(b)
	case "int16":
		return NewHashableInt16Slice(typed[int16](b))
	case "uint16":
		return NewHashableUint16Slice(typed[uint16](b))
	case "int32":
		return NewHashableInt32Slice(typed[int32](b))
	case "uint32":
		return NewHashableUint32Slice(typed[uint32](b))
	case "int64":
		return NewHashableInt64Slice(typed[int64](b))
	case "uint64":
		return NewHashableUint64Slice(typed[uint64](b))
	}
	return NewHashableSlice([]IHashable{NewHashableByteSlice(b), nil, NewHashableSlice(nil), NewHashableUint64Slice(typed[uint64](b))})
}

func elemSize(kind string) int {
	switch kind {
	case "byte":
		return 1
	case "int16", "uint16":
		return 2
	case "int32", "uint32":
		return 4
	}
	return 8
}

// fns are hash functions that tell inputs apart; together they collide on
// different inputs with probability 2^-128 only.
func fns(r *rand.Rand) []func([]byte) uint32 {
	res := []func([]byte) uint32{}
	for i := 0; i < 4; i++ {
		s := r.Uint64()
		res = append(res, func(b []byte) uint32 {
			h := s ^ uint64(len(b))
			for _, v := range b {
				h = mon.Mix(h, uint64(v))
			}
			return uint32(h ^ h>>32)
		})
	}
	return res
}

func hashAll(h IHashable, f []func([]byte) uint32) [4]uint32 {
	var res [4]uint32
	for i := range f {
		res[i] = h.HashUint32(f[i])
	}
	return res
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		for i := range b {
			b[i] = byte(r.Intn(2)) * 255
		}
	case 1:
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	default:
		r.Read(b)
	}
	return b
}

func c07(x *mon.Ctx) {
	x.Rule("a case hashes one content under several hash functions, seeds, alignments and memory placements; non-trivial: the content is not empty; distinct by content and type")
	mon.FaultsPanic()
	kinds := hashKinds[1:]
	absentWrappers(x, true)
	x.Stream("murmur", x.N(3000, 100000), func(c *mon.Case) {
		n := c.R.Intn(70)
		if c.Index%20 == 0 {
			n = c.R.Intn(5000)
		}
		if c.Index < 140 {
			n = c.Index / 2
		}
		if c.Index%60 == 7 { // around the limits of 16 bits and beyond
			n = []int{1 << 16, 1 << 17, 1 << 15, 100000, 1 << 20, 3 << 16}[c.Index/60%6] - 6 + c.R.Intn(12)
		}
		b := randBytes(c.R, n)
		g := mon.NewGuarded(n + 16)
		defer g.Free()
		what := fmt.Sprintf("%d bytes, %x", n, b[:min(n, 5000)])
		c.Desc("murmur of %s", what)
		for k := 0; k < 12; k++ {
			seed := []uint32{0, 1, math.MaxUint32, 0x80000000, c.R.Uint32()}[k%5]
			want := refMurmur3(b, seed)
			ms := MurmurSeed(seed)
			g.Fill(byte(c.R.Intn(256)))
			var s []byte
			if k < 3 {
				s = g.Place(b, true)
			} else if k < 5 {
				s = g.Place(b, false)
			} else {
				g.Writable()
				off := k - 5
				s = g.All()[off : off+n]
				copy(s, b)
			}
			g.ReadOnly()
			got := ms.Hash(s)
			c.Evf("murmur", "seed %x alignment %d length %d", seed, k, n)
			c.Check(got == want, "murmur", "Murmur3 of %s with seed %x is %x, expected %x", what, seed, got, want)
			c.Check(ms.Hash(append([]byte{}, b...)) == want, "murmur-heap", "Murmur3 of %s with seed %x depends on where the bytes are", what, seed)
			c.Check(ms.Hash(s) == want, "murmur-again", "Murmur3 of %s with seed %x changes on the second call", what, seed)
		}
		if n > 0 {
			c.Nontrivial(mon.HashBytes(b))
		}
		c.State(uint64(n))
	})
	for _, kind := range kinds {
		kind := kind
		x.Stream("memory-"+kind, x.N(300, 6000), func(c *mon.Case) {
			sz := elemSize(kind)
			n := c.R.Intn(20) * sz
			if kind == "slice" {
				n = c.R.Intn(12) * 8
			}
			if c.R.Intn(10) == 0 {
				n = c.R.Intn(400) * sz
			}
			b := randBytes(c.R, n)
			g := mon.NewGuarded(n)
			defer g.Free()
			f := fns(c.R)
			c.Desc("hash %s slice over %x next to inaccessible memory", kind, b)
			ref := hashAll(hashOf(kind, append([]byte{}, b...)), f)
			for k := 0; k < 2; k++ {
				s := g.Place(b, k == 0)
				g.ReadOnly()
				h := hashOf(kind, s)
				got := hashAll(h, f)
				c.Check(got == ref, "hash-placement", "hash of %s slice over %x depends on where it is stored", kind, b)
				c.Check(h.Equal(hashOf(kind, append([]byte{}, b...))), "equal-placement", "equality of %s slice over %x depends on where it is stored", kind, b)
				c.Ev("hashed-guarded")
			}
			// every byte that f is shown belongs to the value, and f may keep it
			seen := 0
			h := hashOf(kind, append([]byte{}, b...))
			h.HashUint32(func(p []byte) uint32 { seen += len(p); return refMurmur3(p, 1) })
			c.EvN("hashed-bytes", seen)
			if kind != "slice" {
				c.Check(seen >= n, "hash-bytes", "hash of a %s slice of %d bytes was computed from %d bytes", kind, n, seen)
			}
			if n > 0 {
				c.Nontrivial(mon.Mix(mon.HashBytes(b), mon.HashStr(kind)))
			}
		})
		tell := func(c *mon.Case, sz, n int) {
			if kind == "slice" {
				// equal values made separately hash alike
				s := seqUniverse(c.R, 8, false)
				f := fns(c.R)
				for _, p := range s {
					for _, q := range s {
						a, b := mkHashable(kind, p), mkHashable(kind, q)
						eq := a.Equal(b)
						c.Check(eq == (cmpSeq(p, q) == 0), "equal-slice", "equality of hashable slices %v and %v is %v", p, q, eq)
						if eq {
							c.Check(hashAll(a, f) == hashAll(b, f), "hash-equal-slice", "equal hashable slices %v hash differently", p)
						}
						c.Ev("pair")
					}
				}
				c.Nontrivial(mon.HashStr(fmt.Sprint(s)))
				return
			}
			b := randBytes(c.R, n*sz)
			f := fns(c.R)
			a := hashOf(kind, b)
			ha := hashAll(a, f)
			c.Desc("%s slice over %x against variations", kind, short(b))
			for k := 0; k < 12; k++ {
				v := append([]byte{}, b...)
				switch k {
				case 0: // the same
				case 1: // shorter by one element
					if n > 0 {
						v = v[:len(v)-sz]
					}
				case 2: // first element dropped
					if n > 0 {
						v = v[sz:]
					}
				case 3: // a zero element appended
					v = append(v, make([]byte, sz)...)
				case 10: // an element in the middle half, by a bit
					if n > 3 {
						v[n/4*sz+c.R.Intn(n/2*sz)] ^= 1 << uint(c.R.Intn(8))
					}
				case 4: // one bit changed, anywhere
					if n > 0 {
						v[c.R.Intn(len(v))] ^= 1 << uint(c.R.Intn(8))
					}
				case 5: // last byte changed
					if n > 0 {
						v[len(v)-1] ^= 0x80
					}
				case 6: // two elements exchanged
					if n > 1 {
						i, j := c.R.Intn(n), c.R.Intn(n)
						t := append([]byte{}, v[i*sz:(i+1)*sz]...)
						copy(v[i*sz:(i+1)*sz], v[j*sz:(j+1)*sz])
						copy(v[j*sz:(j+1)*sz], t)
					}
				case 7: // an element repeated
					if n > 0 {
						i := c.R.Intn(n)
						v = append(v, v[i*sz:(i+1)*sz]...)
					}
				case 8: // reversed
					for i := 0; i < n/2; i++ {
						for q := 0; q < sz; q++ {
							v[i*sz+q], v[(n-1-i)*sz+q] = v[(n-1-i)*sz+q], v[i*sz+q]
						}
					}
				case 9: // first byte changed
					if n > 0 {
						v[0] ^= 1
					}
				default: // unrelated, same length
					v = randBytes(c.R, n*sz)
				}
				o := hashOf(kind, v)
				same := string(v) == string(b)
				c.Evf("pair", "variation %d", k)
				c.Check(a.Equal(o) == same && o.Equal(a) == same, "equal-"+kind, "equality of %s slices over %x and %x is %v/%v", kind, short(b), short(v), a.Equal(o), o.Equal(a))
				ho := hashAll(o, f)
				if same {
					c.Check(ha == ho, "hash-equal-"+kind, "equal %s slices over %x hash differently", kind, short(b))
				} else {
					c.Check(ha != ho, "hash-differs-"+kind, "different %s slices over %x and %x hash alike under every hash function", kind, short(b), short(v))
				}
				c.Check(hashAll(a, f) == ha, "hash-again", "hashing a %s slice again gives another hash", kind)
			}
			c.Nontrivial(mon.Mix(mon.HashBytes(b), mon.HashStr(kind)))
		}
		x.Stream("shared-"+kind, x.N(100, 3000), func(c *mon.Case) {
			// parts of one array
			f := fns(c.R)
			sharing(c.R, func(p, q []int) {
				a, b := mkHashable(kind, p), mkHashable(kind, q)
				same := cmpSeq(p, q) == 0
				c.Check(a.Equal(b) == same && b.Equal(a) == same, "equal-"+kind, "equality of %s slices over %v and %v, parts of one array, is %v/%v", kind, p, q, a.Equal(b), b.Equal(a))
				c.Check(!same || hashAll(a, f) == hashAll(b, f), "hash-equal-"+kind, "equal %s slices over %v, parts of one array, hash differently", kind, p)
				c.Check(same || kind == "slice" || hashAll(a, f) != hashAll(b, f), "hash-differs-"+kind, "different %s slices over %v and %v, parts of one array, hash alike under every hash function", kind, p, q)
				c.Ev("shared")
				c.Nontrivial(mon.HashStr(fmt.Sprint(kind, p, q)))
			})
		})
		x.Stream("tell-apart-"+kind, x.N(500, 15000), func(c *mon.Case) {
			n := c.R.Intn(12)
			if c.R.Intn(20) == 0 {
				n = 100 + c.R.Intn(200)
			}
			tell(c, elemSize(kind), n)
		})
		if kind != "slice" {
			x.Stream("long-"+kind, x.N(6, 80), func(c *mon.Case) {
				sz := elemSize(kind)
				n := (1<<uint(12+c.Index%6) + 100 + c.R.Intn(1<<uint(12+c.Index%6)))
				if c.Index%6 < 4 {
					n /= sz
				}
				c.X.Max("elements", int64(n))
				tell(c, sz, n)
			})
		}
	}
	x.Stream("replaced", x.N(400, 8000), func(c *mon.Case) {
		// a slice of hashables depends on each of its elements: replacing one
		// by a value of another hash changes the hash of the whole
		f := fns(c.R)
		n := 1 + c.R.Intn(9)
		if c.Index%20 == 0 { // many
			n = 10 + c.R.Intn(1<<uint(4+c.R.Intn(8)))
		}
		el := make([]IHashable, n)
		mk := func() IHashable {
			if c.R.Intn(5) == 0 {
				return NewHashableSlice([]IHashable{hashOf(kinds[c.R.Intn(len(kinds))], randBytes(c.R, 8*(1+c.R.Intn(4))))})
			}
			return hashOf(kinds[c.R.Intn(len(kinds))], randBytes(c.R, 8*(1+c.R.Intn(4))))
		}
		for i := range el {
			if c.R.Intn(6) > 0 {
				el[i] = mk()
			}
		}
		c.Desc("slice of %d hashables, each replaced in turn", n)
		before := make([]uint32, len(f))
		for k, g := range f {
			before[k] = NewHashableSlice(el).HashUint32(g)
		}
		for i := range el {
			if el[i] == nil || n > 40 && i > 0 && i < n-1 && c.R.Intn(n) > 20 {
				continue
			}
			o := append([]IHashable{}, el...)
			o[i] = mk()
			for k, g := range f {
				if el[i].HashUint32(g) == o[i].HashUint32(g) {
					continue
				}
				c.Check(NewHashableSlice(o).HashUint32(g) != before[k], "hash-element", "a slice of %d hashables hashes alike after element %d was replaced by one of another hash", n, i)
				c.Ev("replaced")
			}
		}
		// the same elements hash the same again
		for k, g := range f {
			c.Check(NewHashableSlice(append([]IHashable{}, el...)).HashUint32(g) == before[k], "hash-equal-slice", "equal slices of %d hashables hash differently", n)
		}
		c.Nontrivial(mon.Mix(uint64(before[0]), uint64(n)))
	})
	x.Stream("foreign", x.N(60, 600), func(c *mon.Case) {
		s := seqUniverse(c.R, 8, false)
		for _, k := range kinds {
			for _, k2 := range kinds {
				for _, p := range s {
					if k != k2 {
						c.Check(!mkHashable(k, p).Equal(mkHashable(k2, p)), "equal-foreign", "a %s slice equals a %s slice", k, k2)
						c.Ev("foreign")
					}
				}
			}
			c.Check(!mkHashable(k, s[0]).Equal(nil), "equal-nothing", "a %s slice equals nothing", k)
			c.Check(!mkHashable(k, s[0]).Equal("text"), "equal-foreign", "a %s slice equals a text", k)
		}
		f := fns(c.R)
		for _, k := range kinds {
			if k == "slice" {
				continue
			}
			// absent and empty contents can be hashed
			hashAll(mkHashable(k, nil), f)
			hashAll(mkHashable(k, []int{}), f)
			c.Ev("empty")
		}
		hashAll(NewHashableSlice(nil), f)
	})
}

////////////////////////////////////////////////////////////////////////////////

func c08(x *mon.Ctx) {
	x.Rule("a case converts one value of each type to bytes and back, with following bytes and truncations; non-trivial: always; distinct by value")
	edge := func(r *rand.Rand) uint64 {
		switch r.Intn(4) {
		case 0:
			return r.Uint64()
		case 1:
			return uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(3)) + 1
		case 2:
			return []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, math.MaxInt32, math.MaxUint32, math.MaxInt64, 1 << 63, math.MaxUint64}[r.Intn(13)]
		default:
			return -uint64(r.Intn(70000))
		}
	}
	be := func(v uint64, n int) string {
		b := make([]byte, n)
		for i := 0; i < n; i++ {
			b[n-1-i] = byte(v >> uint(8*i))
		}
		return string(b)
	}
	x.Stream("integers", x.N(6000, 200000), func(c *mon.Case) {
		v, w := edge(c.R), edge(c.R)
		tail := randBytes(c.R, c.R.Intn(10))
		c.Desc("%d and %d followed by %x", v, w, tail)
		b := Int64ToByteArray(int64(v))
		c.Check(string(b) == be(v, 8), "int64-bytes", "bytes of int64 %d are %x", int64(v), b)
		c.Check(ByteArrayToInt64(append(append([]byte{}, b...), tail...)) == int64(v), "int64", "int64 %d followed by %x reads as %d", int64(v), tail, ByteArrayToInt64(append(append([]byte{}, b...), tail...)))
		b = Int32ToByteArray(int32(v))
		c.Check(string(b) == be(uint64(uint32(v)), 4), "int32-bytes", "bytes of int32 %d are %x", int32(v), b)
		c.Check(ByteArrayToInt32(append(append([]byte{}, b...), tail...)) == int32(v), "int32", "int32 %d followed by %x reads as %d", int32(v), tail, ByteArrayToInt32(append(append([]byte{}, b...), tail...)))
		b = Uint32ToByteArray(uint32(v))
		c.Check(string(b) == be(uint64(uint32(v)), 4), "uint32-bytes", "bytes of uint32 %d are %x", uint32(v), b)
		c.Check(ByteArrayToUint32(append(append([]byte{}, b...), tail...)) == uint32(v), "uint32", "uint32 %d followed by %x reads wrong", uint32(v), tail)
		b2 := Uint32ToByteArray(uint32(w))
		c.Check((string(b) < string(b2)) == (uint32(v) < uint32(w)), "uint32-order", "bytes of uint32 %d and %d are not ordered like them", uint32(v), uint32(w))
		// results are independent objects
		for i := 0; i < 2; i++ {
			b[0] ^= 255
			b = Uint32ToByteArray(uint32(v))
			c.Check(string(b) == be(uint64(uint32(v)), 4), "shared", "conversion results share memory")
			b3 := Int64ToByteArray(int64(v))
			c.Check(string(b3) == be(v, 8), "shared", "conversion results share memory")
			b3[7] ^= 255
			b3 = Int32ToByteArray(int32(v))
			c.Check(string(b3) == be(uint64(uint32(v)), 4), "shared", "conversion results share memory")
			b3[3] ^= 255
		}
		c.EvN("conversion", 6)
		c.Nontrivial(mon.Mix(v, w))
	})
	x.Stream("times", x.N(4000, 100000), func(c *mon.Case) {
		v := edge(c.R)
		t := time.Unix(0, int64(v))
		tail := randBytes(c.R, c.R.Intn(10))
		c.Desc("time %v", t)
		b := TimeToBytes(&t)
		c.Check(string(b) == be(v, 8), "time-bytes", "bytes of time %d ns are %x", int64(v), b)
		in := append(append([]byte{}, b...), tail...)
		u, err := BytesToTime(in)
		c.Check(err == nil && u != nil && u.Equal(t) && u.UnixNano() == int64(v), "time", "time %d ns followed by %x reads as %v (error %v)", int64(v), tail, u, err)
		c.Check(string(in[:8]) == be(v, 8) && string(in[8:]) == string(tail), "time-input", "reading a time changed its bytes")
		z := t.In(time.FixedZone("x", c.R.Intn(80000)-40000))
		c.Check(string(TimeToBytes(&z)) == be(v, 8), "time-zone", "bytes of a time depend on its zone")
		i := Int64ToTime(int64(v))
		c.Check(i != nil && i.UnixNano() == int64(v), "int64-time", "time of %d ns is %v", int64(v), i)
		// results are the caller's
		if u != nil && i != nil {
			*u, *i = time.Unix(1, 1), time.Unix(2, 2)
			b[3] ^= 255
			b = TimeToBytes(&t)
			u, err = BytesToTime(in)
			i = Int64ToTime(int64(v))
			c.Check(string(b) == be(v, 8) && err == nil && u.Equal(t) && i.UnixNano() == int64(v), "shared", "converting %d ns again gives what was done to the result, %x %v %v", int64(v), b, u, i)
		}
		for n := 0; n < 8; n++ {
			u, err := BytesToTime(b[:n:n])
			c.Check(err != nil, "time-short", "%d bytes %x are accepted as time %v", n, b[:n], u)
			c.Ev("truncation")
		}
		_, err = BytesToTime(nil)
		c.Check(err != nil, "time-short", "nothing is accepted as a time")
		c.EvN("conversion", 4)
		c.Nontrivial(mon.Mix(v, 3))
	})
	x.Stream("big", x.N(4000, 100000), func(c *mon.Case) {
		n := new(big.Int)
		if c.Index < 257 {
			n.Lsh(big.NewInt(1), uint(c.Index))
			if c.Index == 256 {
				n.Sub(n, big.NewInt(1))
			}
			if c.Index%2 == 1 && c.Index < 256 {
				n.Sub(n, big.NewInt(1))
			}
		} else {
			n.SetBytes(randBytes(c.R, c.R.Intn(33)))
		}
		m := new(big.Int).SetBytes(randBytes(c.R, c.R.Intn(33)))
		orig := new(big.Int).Set(n)
		b := BigIntToByteArray(n)
		c.Desc("big integer %v", n)
		want := make([]byte, 32)
		raw := n.Bytes()
		copy(want[32-len(raw):], raw)
		c.Check(len(b) == 32, "big-size", "bytes of %v are %d bytes long", n, len(b))
		c.Check(string(b) == string(want), "big-bytes", "bytes of %v are %x", n, b)
		in := append([]byte{}, b...)
		r := ByteArrayToBigInt(in)
		c.Check(r.Cmp(n) == 0, "big", "%v reads back as %v", n, r)
		c.Check(string(in) == string(b), "big-input", "reading a big integer changed its bytes")
		b2 := BigIntToByteArray(m)
		c.Check((string(b) < string(b2)) == (n.Cmp(m) < 0), "big-order", "bytes of %v and %v are not ordered like them", n, m)
		b[31] ^= 1
		c.Check(n.Cmp(orig) == 0, "big-argument", "converting changed the big integer")
		in[0] ^= 255
		c.Check(r.Cmp(orig) == 0, "big-shared", "the big integer changes with the bytes it was read from")
		in[0] ^= 255
		r.SetInt64(77)
		c.Check(string(BigIntToByteArray(n)) == string(want) && ByteArrayToBigInt(in).Cmp(orig) == 0, "shared", "converting %v again gives what was done to the result", n)
		c.EvN("conversion", 3)
		c.Nontrivial(mon.HashStr(n.String()))
	})
}
