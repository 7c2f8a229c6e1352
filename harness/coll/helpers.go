package main

import (
	"fmt"
	"math"
	"reflect"

	. "../../../repo/src/collection"
	"../mon"
)

type number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// extremes judges a pair of minimum and maximum functions.
func extremes[T number](x *mon.Ctx, kind string, low, high T, lo, hi func(a, b T) T) {
	judge := func(c *mon.Case, a, b T) {
		c.Evf("extreme", "%s %v %v", kind, a, b)
		wl, wh := a, b
		if b < a {
			wl, wh = b, a
		}
		l, h := lo(a, b), hi(a, b)
		c.Check(l == wl, "minimum-"+kind, "the smaller of the %s %v and %v is %v", kind, a, b, l)
		c.Check(h == wh, "maximum-"+kind, "the larger of the %s %v and %v is %v", kind, a, b, h)
		c.State(mon.Mix(uint64(int64(a)), uint64(int64(b)), mon.HashStr(kind)))
	}
	corners := []T{low, low + 1, high - 1, high, high / 2, high/2 + 1, low / 2, low/2 - 1, 0, 1, 2, T(0) - 1}
	for b := uint(1); b < 64; b++ {
		corners = append(corners, T(uint64(1)<<b), T(uint64(1)<<b-1), T(0)-T(uint64(1)<<b))
	}
	x.Stream("corners-"+kind, len(corners), func(c *mon.Case) {
		for _, b := range corners {
			judge(c, corners[c.Index], b)
		}
		c.Desc("%s: %v against %d others", kind, corners[c.Index], len(corners))
		c.Nontrivial(mon.Mix(mon.HashStr(kind), uint64(int64(corners[c.Index]))))
	})
	x.Stream("random-"+kind, x.N(300, 20000), func(c *mon.Case) {
		for k := 0; k < 40; k++ {
			a, b := T(c.R.Uint64()), T(c.R.Uint64())
			switch c.R.Intn(4) {
			case 0:
				b = a
			case 1:
				b = a + T(c.R.Intn(3)) - 1
			case 2: // differs in one bit
				b = a ^ T(uint64(1)<<uint(c.R.Intn(64)))
			}
			judge(c, a, b)
			c.Nontrivial(mon.Mix(mon.HashStr(kind), uint64(int64(a)), uint64(int64(b))))
		}
	})
}

type iface interface{ m() }

func (k *IntKey) m() {}

func c10(x *mon.Ctx) {
	x.Rule("a case is one pair of numbers, or one value asked for absence; distinct by type and values")
	extremes(x, "int", math.MinInt64, math.MaxInt64, MinInt, MaxInt)
	extremes(x, "unt", math.MinInt64, math.MaxInt64, MinUnt, MaxUint)
	extremes(x, "int8", math.MinInt8, math.MaxInt8, MinInt8, MaxInt8)
	extremes(x, "uint8", 0, math.MaxUint8, MinUnt8, MaxUint8)
	extremes(x, "int16", math.MinInt16, math.MaxInt16, MinInt16, MaxInt16)
	extremes(x, "uint16", 0, math.MaxUint16, MinUnt16, MaxUint16)
	extremes(x, "int32", math.MinInt32, math.MaxInt32, MinInt32, MaxInt32)
	extremes(x, "uint32", 0, math.MaxUint32, MinUint32, MaxUint32)
	extremes(x, "int64", math.MinInt64, math.MaxInt64, MinInt64, MaxInt64)
	extremes(x, "uint64", 0, math.MaxUint64, MinUint64, MaxUint64)
	x.Stream("small-all", 256, func(c *mon.Case) { // all pairs of the smallest types
		for b := 0; b < 256; b++ {
			p, q := int8(c.Index), int8(b)
			u, v := uint8(c.Index), uint8(b)
			c.Ev("extreme")
			c.Check(MinInt8(p, q) == min(p, q) && MaxInt8(p, q) == max(p, q), "minimum-int8", "%d, %d: %d, %d", p, q, MinInt8(p, q), MaxInt8(p, q))
			c.Check(MinUnt8(u, v) == min(u, v) && MaxUint8(u, v) == max(u, v), "minimum-uint8", "%d, %d: %d, %d", u, v, MinUnt8(u, v), MaxUint8(u, v))
		}
		c.Desc("%d against all of its type", c.Index)
		c.Nontrivial(uint64(c.Index))
	})
	var (
		noIface iface
		noErr   error
		noKey   *IntKey
		noFunc  func()
		noChan  chan int
		noMap   map[string]int
		noSlice []IComparable
		noBytes []byte
		noPP    **IntKey
		array   [3]*IntKey
		zero    struct{ p *IntKey }
	)
	pp := &noKey
	absent := []interface{}{nil, noIface, noErr, noKey, noFunc, noChan, noMap, noSlice, noBytes, noPP, iface(noKey), IComparable(noKey), (*ComparableByteSlice)(nil), (*SortedMap)(nil), (*interface{})(nil), (<-chan int)(nil), (map[interface{}]interface{})(nil), (func(int) error)(nil), ([][]byte)(nil), (*[2]int)(nil), IComparable(nil), IObject(nil)}
	present := []interface{}{0, 1, "", "x", false, true, 0.0, byte(0), 'x', uintptr(0), complex(0, 0), array, [0]int{}, [1]byte{}, zero, struct{}{}, &zero, &array, pp, &noSlice, &noMap, &noFunc, []byte{}, []int{0}, []IComparable{}, []IComparable{nil}, map[string]int{}, map[string]int{"": 0}, func() {}, make(chan int), make(<-chan string, 2), &IntKey{}, iface(&IntKey{}), IComparable(&IntKey{}), NewComparableByteSlice(nil), NewHashableByteSlice(nil), NewSortedMap(), NewHashMap(), math.NaN(), int8(-1), [2][]byte{}, new(interface{})}
	x.Stream("absence", 1, func(c *mon.Case) {
		c.Desc("%d absent and %d present values", len(absent), len(present))
		for _, v := range absent {
			c.Check(IsNil(v), "absence", "%T %v is not told to be absent", v, reflect.ValueOf(v))
			c.Ev("absent")
			c.Nontrivial(mon.HashStr(fmt.Sprintf("a%T", v)))
		}
		for _, v := range present {
			c.Check(!IsNil(v), "absence", "%T %v is told to be absent", v, v)
			c.Ev("present")
			c.Nontrivial(mon.HashStr(fmt.Sprintf("p%T%v", v, reflect.TypeOf(v).Kind() == reflect.Func || IsNil(v))))
		}
	})
}

// wrapperless lists every wrapper kind: an absent wrapper, one of a nil slice,
// of an empty one and of one with an element.
func wrapperless(hashable bool) map[string][]interface{} {
	c := map[string][]interface{}{
		"slice":  {(*ComparableSlice)(nil), NewComparableSlice(nil), NewComparableSlice([]IComparable{}), NewComparableSlice([]IComparable{nil})},
		"byte":   {(*ComparableByteSlice)(nil), NewComparableByteSlice(nil), NewComparableByteSlice([]byte{}), NewComparableByteSlice([]byte{0})},
		"int8":   {(*ComparableInt8Slice)(nil), NewComparableInt8Slice(nil), NewComparableInt8Slice([]int8{}), NewComparableInt8Slice([]int8{0})},
		"int16":  {(*ComparableInt16Slice)(nil), NewComparableInt16Slice(nil), NewComparableInt16Slice([]int16{}), NewComparableInt16Slice([]int16{0})},
		"uint16": {(*ComparableUint16Slice)(nil), NewComparableUint16Slice(nil), NewComparableUint16Slice([]uint16{}), NewComparableUint16Slice([]uint16{0})},
		"int32":  {(*ComparableInt32Slice)(nil), NewComparableInt32Slice(nil), NewComparableInt32Slice([]int32{}), NewComparableInt32Slice([]int32{0})},
		"uint32": {(*ComparableUint32Slice)(nil), NewComparableUint32Slice(nil), NewComparableUint32Slice([]uint32{}), NewComparableUint32Slice([]uint32{0})},
		"int64":  {(*ComparableInt64Slice)(nil), NewComparableInt64Slice(nil), NewComparableInt64Slice([]int64{}), NewComparableInt64Slice([]int64{0})},
		"uint64": {(*ComparableUint64Slice)(nil), NewComparableUint64Slice(nil), NewComparableUint64Slice([]uint64{}), NewComparableUint64Slice([]uint64{0})},
	}
	if !hashable {
		return c
	}
	return map[string][]interface{}{
		"slice":  {(*HashableSlice)(nil), NewHashableSlice([]IHashable{}), NewHashableSlice([]IHashable{nil})},
		"byte":   {(*HashableByteSlice)(nil), NewHashableByteSlice([]byte{}), NewHashableByteSlice([]byte{0})},
		"int16":  {(*HashableInt16Slice)(nil), NewHashableInt16Slice([]int16{}), NewHashableInt16Slice([]int16{0})},
		"uint16": {(*HashableUint16Slice)(nil), NewHashableUint16Slice([]uint16{}), NewHashableUint16Slice([]uint16{0})},
		"int32":  {(*HashableInt32Slice)(nil), NewHashableInt32Slice([]int32{}), NewHashableInt32Slice([]int32{0})},
		"uint32": {(*HashableUint32Slice)(nil), NewHashableUint32Slice([]uint32{}), NewHashableUint32Slice([]uint32{0})},
		"int64":  {(*HashableInt64Slice)(nil), NewHashableInt64Slice([]int64{}), NewHashableInt64Slice([]int64{0})},
		"uint64": {(*HashableUint64Slice)(nil), NewHashableUint64Slice([]uint64{}), NewHashableUint64Slice([]uint64{0})},
	}
}

var hashKindsAndInt8 = append(append([]string{}, hashKinds[1:]...), "int8")

// absentWrappers judges equality and order where one side, or both, is absent:
// absent first, and equal to absent only.
func absentWrappers(x *mon.Ctx, hashable bool) {
	for _, kind := range hashKindsAndInt8 {
		kind, vals := kind, wrapperless(hashable)[kind]
		if vals == nil {
			continue
		}
		x.Stream("absent-"+kind, 1, func(c *mon.Case) {
			c.Desc("%s wrappers, present and absent", kind)
			var others []interface{}
			for _, v := range wrapperless(!hashable) {
				others = append(others, v[len(v)-1])
			}
			for k, v := range wrapperless(hashable) {
				if k != kind {
					others = append(others, v[len(v)-1])
				}
			}
			others = append(others, 1, "x", []byte{0}, &IntKey{})
			for i, v := range vals {
				e := v.(interface{ Equal(IObject) bool })
				for j, w := range vals {
					c.Evf("pair", "%T: %d, %d", v, i, j)
					got := e.Equal(w)
					c.Check(got == (i == j), "absent-equal", "%T %d equals %d: %v (0 is absent)", v, i, j, got)
					if !hashable {
						d := v.(IComparable).Compare(w.(IComparable))
						c.Check(sign(d) == sign(i-j), "absent-compare", "%T %d compared to %d: %d (0 is absent)", v, i, j, d)
					}
					c.Nontrivial(mon.HashStr(fmt.Sprintf("%T%d,%d", v, i, j)))
				}
				// nothing at all
				c.Check(e.Equal(nil) == (i == 0), "absent-equal", "%T %d equals nil: %v (0 is absent)", v, i, e.Equal(nil))
				if !hashable {
					d := v.(IComparable).Compare(nil)
					c.Check(sign(d) == sign(i), "absent-compare", "%T %d compared to nil: %d (0 is absent)", v, i, d)
				}
				for _, o := range others {
					c.Check(!e.Equal(o), "absent-equal", "%T %d equals a %T (0 is absent)", v, i, o)
				}
				c.Ev("nothing")
			}
		})
	}
}
