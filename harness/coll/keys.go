package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	. "../../../repo/src/collection"
	"../mon"
)

// counters watches the calls on caller supplied keys.
type counters struct {
	eq, cmp, hash int
	touched       map[int]struct{} // stored keys looked at by the current operation
	query         *IntKey
}

func (n *counters) begin(q *IntKey) {
	n.eq, n.cmp, n.hash = 0, 0, 0
	if n.touched == nil {
		n.touched = map[int]struct{}{}
	}
	for k := range n.touched {
		delete(n.touched, k)
	}
	n.query = q
}

func (n *counters) see(k *IntKey) {
	if n.touched != nil && k != n.query {
		n.touched[k.v] = struct{}{}
	}
}

// IntKey is an ordered key that reports how it is used.
type IntKey struct {
	v int
	n *counters
}

func (k *IntKey) Equal(o IObject) bool {
	t, ok := o.(*IntKey)
	if !ok || t == nil {
		return false
	}
	if k.n != nil {
		k.n.eq++
		k.n.see(k)
		k.n.see(t)
	}
	return k.v == t.v
}

func (k *IntKey) Compare(o IComparable) int {
	t := o.(*IntKey)
	if k.n != nil {
		k.n.cmp++
		k.n.see(k)
		k.n.see(t)
	}
	// any negative or positive number is a valid answer
	return (k.v - t.v) * 3
}

func (k *IntKey) String() string { return fmt.Sprint(k.v) }

// HKey is a hashable key with a chosen distribution of its hash values.
type HKey struct {
	v    int
	mode int
	n    *counters
}

const (
	hByFunc  = iota // through the hash function it is given
	hSpread         // well spread, independent of the table's seed
	hEqual          // all equal
	hFew            // three values
	hSeq            // the number itself
	hStride         // multiples of a large power of two
	hHigh           // only the highest bits differ
	hExtreme        // 0 and 2^32-1
	hModes
)

var hModeName = []string{"by-function", "spread", "all-equal", "three", "sequential", "stride", "high-bits", "extremes"}

func (k *HKey) Equal(o IObject) bool {
	t, ok := o.(*HKey)
	if !ok || t == nil {
		return false
	}
	if k.n != nil {
		k.n.eq++
	}
	return k.v == t.v
}

func (k *HKey) HashUint32(f func([]byte) uint32) uint32 {
	if k.n != nil {
		k.n.hash++
	}
	switch k.mode {
	case hByFunc:
		v := uint64(k.v)
		return f([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), 7})
	case hSpread:
		return uint32(mon.Mix(uint64(k.v)))
	case hEqual:
		return 0xdeadbeef
	case hFew:
		return uint32(k.v%3) * 0x55555555
	case hSeq:
		return uint32(k.v)
	case hStride:
		return uint32(k.v) << 20
	case hHigh:
		return uint32(k.v)<<28 | uint32(k.v>>4)&7
	default:
		if k.v&1 == 0 {
			return 0
		}
		return math.MaxUint32
	}
}

func (k *HKey) String() string { return fmt.Sprint(k.v) }

// seqUniverse returns n distinct sequences over ranks 0..4 in lexicographic
// order; the first may be nil.
func seqUniverse(r *rand.Rand, n int, withNil bool) [][]int {
	maxLen := 2
	for p := 5; p < 3*n; p *= 5 {
		maxLen++
	}
	seen := map[string]bool{}
	res := [][]int{}
	for tries := 0; len(res) < n && tries < 50*n+100; tries++ {
		l := r.Intn(maxLen + 1)
		s := make([]int, l)
		for i := range s {
			s[i] = r.Intn(5)
		}
		if len(res) > 0 && r.Intn(3) == 0 { // a prefix or an extension of an earlier one
			o := res[r.Intn(len(res))]
			s = append([]int{}, o[:r.Intn(len(o)+1)]...)
			for r.Intn(2) == 0 {
				s = append(s, r.Intn(5))
			}
		}
		if k := fmt.Sprint(s); !seen[k] {
			seen[k] = true
			res = append(res, s)
		}
	}
	sort.Slice(res, func(i, j int) bool { return cmpSeq(res[i], res[j]) < 0 })
	if withNil && len(res) > 1 {
		res = append([][]int{nil}, res[:len(res)-1]...)
	}
	return res
}

// cmpSeq is the reference order: nil first, then lexicographic.
func cmpSeq(a, b []int) int {
	if a == nil || b == nil {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return -1
		}
		return 1
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

// values of each element type, in numeric order
var (
	rByte = []byte{0, 1, 127, 128, 255}
	rI8   = []int8{-128, -1, 0, 1, 127}
	rI16  = []int16{-32768, -1, 0, 255, 32767}
	rU16  = []uint16{0, 1, 255, 256, 65535}
	rI32  = []int32{math.MinInt32, -1, 0, 65536, math.MaxInt32}
	rU32  = []uint32{0, 1, 1 << 16, 1 << 31, math.MaxUint32}
	rI64  = []int64{math.MinInt64, -1, 0, 1 << 32, math.MaxInt64}
	rU64  = []uint64{0, 1, 1 << 32, 1 << 63, math.MaxUint64}
	rInt  = []int{math.MinInt64, -1, 0, 1 << 33, math.MaxInt64}
)

func conv[T any](s []int, tab []T) []T {
	if s == nil {
		return nil
	}
	if n := cap(sharedBase); n > 0 && cap(s) > 0 && cap(s) <= n && &s[:cap(s)][cap(s)-1] == &sharedBase[:n][n-1] {
		// a part of the shared sequence is the same part of one array
		all, ok := sharedArrays[&tab[0]].([]T)
		if !ok {
			for _, v := range sharedBase {
				all = append(all, tab[v])
			}
			sharedArrays[&tab[0]] = all
		}
		return all[n-cap(s):][:len(s)]
	}
	r := make([]T, len(s))
	for i, v := range s {
		r[i] = tab[v]
	}
	return r
}

// sharedBase is a sequence of which the parts are converted to parts of one array.
var sharedBase []int
var sharedArrays map[interface{}]interface{}

// sharing runs f with a random sequence, and gives it pairs of its parts.
func sharing(r *rand.Rand, f func(a, b []int)) {
	n := 1 + r.Intn(30)
	base := make([]int, n, n)
	for i := range base {
		base[i] = r.Intn(5)
		if r.Intn(2) == 0 {
			base[i] = base[0]
		}
	}
	sharedBase, sharedArrays = base, map[interface{}]interface{}{}
	defer func() { sharedBase, sharedArrays = nil, nil }()
	part := func(i int) []int { return base[i : i+r.Intn(n-i+1)] }
	for k := 0; k < 24; k++ {
		i := r.Intn(n)
		j := i
		if r.Intn(3) == 0 {
			j = r.Intn(n)
		}
		f(part(i), part(j))
	}
}

var cmpKinds = []string{"int", "byte", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "slice"}

// mkComparable makes a new comparable object for a sequence.
func mkComparable(kind string, s []int) IComparable {
	switch kind {
	case "byte":
		return NewComparableByteSlice(conv(s, rByte))
	case "int8":
		return NewComparableInt8Slice(conv(s, rI8))
	case "int16":
		return NewComparableInt16Slice(conv(s, rI16))
	case "uint16":
		return NewComparableUint16Slice(conv(s, rU16))
	case "int32":
		return NewComparableInt32Slice(conv(s, rI32))
	case "uint32":
		return NewComparableUint32Slice(conv(s, rU32))
	case "int64":
		return NewComparableInt64Slice(conv(s, rI64))
	case "uint64":
		return NewComparableUint64Slice(conv(s, rU64))
	case "slice":
		if s == nil {
			return NewComparableSlice(nil)
		}
		if sharedBase != nil {
			return NewComparableSlice(conv(s, sharedComparables))
		}
		e := make([]IComparable, len(s))
		for i, v := range s {
			switch v {
			case 0: // absent element
			case 1:
				e[i] = NewComparableByteSlice(nil)
			case 2:
				e[i] = NewComparableByteSlice([]byte{})
			case 3:
				e[i] = NewComparableByteSlice([]byte{5})
			case 4:
				e[i] = NewComparableByteSlice([]byte{5, 0})
			}
		}
		return NewComparableSlice(e)
	}
	panic("kind " + kind)
}

var sharedComparables = []IComparable{nil, NewComparableByteSlice(nil), NewComparableByteSlice([]byte{}), NewComparableByteSlice([]byte{5}), NewComparableByteSlice([]byte{5, 0})}
var sharedHashables = []IHashable{nil, NewHashableByteSlice([]byte{}), NewHashableByteSlice([]byte{5}), NewHashableInt32Slice([]int32{5}), NewHashableSlice([]IHashable{NewHashableByteSlice([]byte{5})})}

var hashKinds = []string{"own", "byte", "int16", "uint16", "int32", "uint32", "int64", "uint64", "slice"}

func mkHashable(kind string, s []int) IHashable {
	switch kind {
	case "byte":
		return NewHashableByteSlice(conv(s, rByte))
	case "int16":
		return NewHashableInt16Slice(conv(s, rI16))
	case "uint16":
		return NewHashableUint16Slice(conv(s, rU16))
	case "int32":
		return NewHashableInt32Slice(conv(s, rI32))
	case "uint32":
		return NewHashableUint32Slice(conv(s, rU32))
	case "int64":
		return NewHashableInt64Slice(conv(s, rI64))
	case "uint64":
		return NewHashableUint64Slice(conv(s, rU64))
	case "slice":
		if sharedBase != nil {
			return NewHashableSlice(conv(s, sharedHashables))
		}
		e := make([]IHashable, len(s))
		for i, v := range s {
			switch v {
			case 0:
			case 1:
				e[i] = NewHashableByteSlice([]byte{})
			case 2:
				e[i] = NewHashableByteSlice([]byte{5})
			case 3:
				e[i] = NewHashableInt32Slice([]int32{5})
			case 4:
				e[i] = NewHashableSlice([]IHashable{NewHashableByteSlice([]byte{5})})
			}
		}
		return NewHashableSlice(e)
	}
	panic("kind " + kind)
}

// universe makes key objects for abstract indexes, ascending by index, and
// remembers which index each object stands for.
type universe struct {
	kind string
	n    int
	seqs [][]int
	cnt  *counters
	mode int
	ids  map[interface{}]int
}

func newSorted(r *rand.Rand, kind string, n int) *universe {
	u := &universe{kind: kind, n: n, ids: map[interface{}]int{}}
	if kind != "int" {
		u.seqs = seqUniverse(r, n, r.Intn(2) == 0)
		u.n = len(u.seqs)
	}
	return u
}

func newHashed(r *rand.Rand, kind string, n, mode int) *universe {
	u := &universe{kind: kind, n: n, mode: mode, ids: map[interface{}]int{}}
	if kind != "own" {
		u.seqs = seqUniverse(r, n, kind != "slice" && r.Intn(2) == 0)
		u.n = len(u.seqs)
	}
	return u
}

func (u *universe) cmpKey(i int) IComparable {
	var k IComparable
	if u.kind == "int" {
		k = &IntKey{v: i, n: u.cnt}
	} else {
		k = mkComparable(u.kind, u.seqs[i])
	}
	u.ids[k] = i
	return k
}

func (u *universe) hashKey(i int) IHashable {
	var k IHashable
	if u.kind == "own" {
		k = &HKey{v: i, mode: u.mode, n: u.cnt}
	} else {
		k = mkHashable(u.kind, u.seqs[i])
	}
	u.ids[k] = i
	return k
}

// id returns the index of a key object, -1 for none, -2 for a foreign object.
func (u *universe) id(k interface{}) int {
	if IsNil(k) {
		return -1
	}
	if i, ok := u.ids[k]; ok {
		return i
	}
	return -2
}
