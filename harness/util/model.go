package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"time"

	. "../../../repo/src/util"
	"../mon"
)

// The abstract contents that the real objects are judged against.

type aKey [][]byte

// aVal is a primitive ('p'), a value array ('a') or a record list ('r').
type aVal struct {
	kind byte
	data []byte
	vals []*aVal
	recs []*aRec
}

type aRec struct {
	key    aKey // empty: no key
	value  *aVal
	scheme *aVal
	ts     *int64
	r, s   *big.Int
}

func (v *aVal) isNil() bool {
	return v == nil || len(v.data) == 0 && len(v.vals) == 0 && len(v.recs) == 0
}

const (
	maxKey     = 4096
	maxRecVal  = 56 * 1024
	maxScheme  = 1024
	maxContent = 65535
)

// ---------------------------------------------------------------- sizes

func uvLen(n int) int {
	l := 1
	for n >= 0x80 {
		n >>= 7
		l++
	}
	return l
}

func varLen(n int) int { return uvLen(n) + n }

func (k aKey) size() int {
	n := uvLen(len(k))
	for _, s := range k {
		n += varLen(len(s))
	}
	return n
}

// size returns the encoded size, and whether the content fits the format.
func (v *aVal) size() (int, bool) {
	if v == nil {
		return 1, true
	}
	content, count, ok := 0, 0, true
	switch v.kind {
	case 'p':
		content = len(v.data)
	case 'a':
		count = len(v.vals)
		for _, e := range v.vals {
			n, o := e.size()
			content += n
			ok = ok && o
		}
	case 'r':
		count = len(v.recs)
		for _, e := range v.recs {
			n, o := e.size()
			content += n
			ok = ok && o
		}
	}
	if content > maxContent || count > maxContent {
		ok = false
	}
	return 1 + lenBytes(content) + lenBytes(count) + content, ok
}

func lenBytes(n int) int {
	switch {
	case n == 0:
		return 0
	case n < 256:
		return 1
	default:
		return 2
	}
}

func (r *aRec) size() (int, bool) {
	n, ok := 1, true
	if len(r.key) > 0 {
		n += r.key.size()
		ok = ok && r.key.size() <= maxKey
	}
	if !r.value.isNil() {
		m, o := r.value.size()
		n += m
		ok = ok && o && m <= maxRecVal
	}
	if !r.scheme.isNil() {
		m, o := r.scheme.size()
		n += m
		ok = ok && o && m <= maxScheme
	}
	if r.ts != nil {
		n += 8
		if r.r != nil && r.s != nil {
			n += 64
		}
	}
	return n, ok
}

// ---------------------------------------------------------------- generators

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(5) {
	case 0:
		r.Read(b)
	case 1: // zeros
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	default:
		for i := range b {
			b[i] = byte(i + 1)
		}
	}
	return b
}

// someLen prefers lengths at the borders of the formats.
func someLen(r *rand.Rand, max int) int {
	b := []int{0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 4095, 16383, 16384, 65534, 65535, 65536, 70000}
	for {
		var n int
		switch r.Intn(3) {
		case 0:
			n = b[r.Intn(len(b))]
		case 1:
			n = r.Intn(20)
		default:
			n = r.Intn(max + 1)
		}
		if n <= max {
			return n
		}
	}
}

func genKey(r *rand.Rand, max int) aKey {
	var k aKey
	switch r.Intn(12) {
	case 0:
		return aKey{}
	case 1: // one sub key, around the limit
		return aKey{randBytes(r, someLen(r, max))}
	case 2: // as many sub keys as fit
		n := r.Intn(max/2 + 1)
		for i := 0; i < n; i++ {
			k = append(k, []byte{byte(r.Intn(4))})
		}
		return k
	case 3:
		n := 100 + r.Intn(100)
		for i := 0; i < n; i++ {
			k = append(k, randBytes(r, 1+r.Intn(3)))
		}
		return k
	}
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		l := 1 + someLen(r, 20)
		if r.Intn(20) == 0 {
			l = 1 + someLen(r, max/2)
		}
		k = append(k, randBytes(r, l))
	}
	return k
}

// genVal builds a value of roughly up to budget bytes.
func genVal(r *rand.Rand, depth, budget int) *aVal {
	k := r.Intn(10)
	if depth <= 0 || budget < 4 {
		k = 0
	}
	switch {
	case k < 4:
		v := &aVal{kind: 'p'}
		switch r.Intn(8) {
		case 0: // nil
		case 1:
			v.data = []byte{}
		case 2:
			v.data = randBytes(r, someLen(r, budget))
		default:
			v.data = randBytes(r, someLen(r, min(budget, 40)))
		}
		return v
	case k < 7:
		v := &aVal{kind: 'a'}
		n := r.Intn(6)
		if r.Intn(12) == 0 {
			n = someLen(r, min(budget, 300))
		}
		for i := 0; i < n; i++ {
			d := depth - 1
			if n > 20 {
				d = 0
			}
			v.vals = append(v.vals, genVal(r, d, budget/(n+1)))
		}
		return v
	default:
		v := &aVal{kind: 'r'}
		n := r.Intn(5)
		if r.Intn(12) == 0 {
			n = someLen(r, min(budget/20, 300))
		}
		for i := 0; i < n; i++ {
			d := depth - 1
			if n > 20 {
				d = 0
			}
			v.recs = append(v.recs, genRec(r, d, budget/(n+1)))
		}
		return v
	}
}

func genTs(r *rand.Rand) *int64 {
	var t int64
	switch r.Intn(6) {
	case 0:
		t = 0
	case 1:
		t = math.MaxInt64 - int64(r.Intn(3))
	case 2:
		t = math.MinInt64 + int64(r.Intn(3))
	case 3:
		t = -1 - int64(r.Intn(1000))
	default:
		t = int64(r.Uint64())
	}
	return &t
}

func genBig(r *rand.Rand) *big.Int {
	switch r.Intn(5) {
	case 0:
		return big.NewInt(int64(r.Intn(3)))
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	case 2: // leading zero bytes
		return new(big.Int).SetBytes(randFull(r, 1+r.Intn(31)))
	default:
		return new(big.Int).SetBytes(randFull(r, 32))
	}
}

func randFull(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func genRec(r *rand.Rand, depth, budget int) *aRec {
	rec := &aRec{}
	if r.Intn(2) == 0 {
		rec.key = genKey(r, max(4, min(budget/3, 300)))
	}
	if r.Intn(2) == 0 {
		rec.value = genVal(r, depth, budget/2)
	}
	if r.Intn(2) == 0 {
		rec.scheme = genVal(r, depth-1, min(budget/4, 800))
	}
	if r.Intn(2) == 0 {
		rec.ts = genTs(r)
	}
	if r.Intn(3) == 0 {
		rec.r, rec.s = genBig(r), genBig(r)
	}
	return rec
}

// ---------------------------------------------------------------- building

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func cpKey(k aKey) aKey {
	res := aKey{}
	for _, s := range k {
		res = append(res, cp(s))
	}
	return res
}

// buildKey makes a constructed key.
func buildKey(k aKey) *Key {
	if len(k) == 1 && len(k[0]) == 0 {
		return NewSimpleKey([]byte{})
	}
	res := NewKey()
	for i, s := range k {
		if i == 0 && len(k) == 1 && len(s)%2 == 0 {
			return NewSimpleKey(cp(s))
		}
		if i == 0 && len(k) == 1 && len(s)%3 == 0 {
			return NewStringKey(string(s))
		}
		res.Add(cp(s))
	}
	return res
}

func build(v *aVal) IValue {
	switch v.kind {
	case 'p':
		return NewPrimitive(cp(v.data))
	case 'a':
		res := NewValueArray()
		for _, e := range v.vals {
			res.Append(build(e))
		}
		return res
	}
	res := NewRecordList()
	for _, e := range v.recs {
		res.Append(buildRec(e))
	}
	return res
}

func buildRec(a *aRec) *Record {
	r := NewRecord()
	if a.key != nil {
		if len(a.key) == 1 && len(a.key[0]) > 0 && len(a.key[0])%2 == 1 {
			r.SetK(cp(a.key[0]))
		} else if len(a.key) == 0 {
			r.SetKey(NewEmptyKey())
		} else {
			r.SetKey(buildKey(a.key))
		}
	}
	if a.value != nil {
		if a.value.kind == 'p' && len(a.value.data)%2 == 1 {
			r.SetV(cp(a.value.data))
		} else {
			r.SetValue(build(a.value))
		}
	}
	if a.scheme != nil {
		if a.scheme.kind == 'p' && len(a.scheme.data)%2 == 1 {
			r.SetS(cp(a.scheme.data))
		} else {
			r.SetScheme(build(a.scheme))
		}
	}
	if a.ts != nil {
		t := time.Unix(0, *a.ts)
		r.SetTimestamp(&t)
	}
	if a.r != nil || a.s != nil {
		r.SetSignature(a.r, a.s)
	}
	return r
}

// ---------------------------------------------------------------- comparing

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func (k aKey) String() string {
	s := "["
	for i, e := range k {
		if i == 8 {
			s += fmt.Sprintf("...(%d)", len(k))
			break
		}
		s += short(e) + " "
	}
	return s + "]"
}

func (v *aVal) String() string {
	if v == nil {
		return "-"
	}
	switch v.kind {
	case 'p':
		return "p" + short(v.data)
	case 'a':
		s := fmt.Sprintf("a%d(", len(v.vals))
		for i, e := range v.vals {
			if i == 6 {
				s += "..."
				break
			}
			s += e.String() + " "
		}
		return s + ")"
	}
	s := fmt.Sprintf("r%d(", len(v.recs))
	for i, e := range v.recs {
		if i == 6 {
			s += "..."
			break
		}
		s += e.String() + " "
	}
	return s + ")"
}

func (a *aRec) String() string {
	s := "{"
	if a.key != nil {
		s += "k" + a.key.String()
	}
	if a.value != nil {
		s += " v" + a.value.String()
	}
	if a.scheme != nil {
		s += " s" + a.scheme.String()
	}
	if a.ts != nil {
		s += fmt.Sprintf(" t%d", *a.ts)
	}
	if a.r != nil {
		s += fmt.Sprintf(" sig%x,%x", a.r, a.s)
	}
	return s + "}"
}

func (v *aVal) hash(h uint64) uint64 {
	if v == nil {
		return mon.Mix(h, 1)
	}
	h = mon.Mix(h, uint64(v.kind), uint64(len(v.data)), mon.HashBytes(v.data), uint64(len(v.vals)), uint64(len(v.recs)))
	for _, e := range v.vals {
		h = e.hash(h)
	}
	for _, e := range v.recs {
		h = e.hash(h)
	}
	return h
}

func (k aKey) hash(h uint64) uint64 {
	h = mon.Mix(h, uint64(len(k)))
	for _, s := range k {
		h = mon.Mix(h, uint64(len(s)), mon.HashBytes(s))
	}
	return h
}

func (a *aRec) hash(h uint64) uint64 {
	h = a.scheme.hash(a.value.hash(a.key.hash(h)))
	if a.ts != nil {
		h = mon.Mix(h, uint64(*a.ts))
	}
	if a.r != nil && a.s != nil {
		h = mon.Mix(h, mon.HashBytes(a.r.Bytes()), mon.HashBytes(a.s.Bytes()))
	}
	return h
}

// diffKey says how a key differs from its abstract content ("" if it does not).
func diffKey(got IKey, want aKey) string {
	if got == nil {
		return "key is nil"
	}
	ks := got.Key()
	if len(ks) != len(want) {
		return fmt.Sprintf("key has %d sub keys, want %d", len(ks), len(want))
	}
	if got.IsEmpty() != (len(want) == 0) {
		return fmt.Sprintf("IsEmpty %v of a key with %d sub keys", got.IsEmpty(), len(want))
	}
	for i, s := range ks {
		if !bytes.Equal(s, want[i]) {
			return fmt.Sprintf("sub key %d is %s, want %s", i, short(s), short(want[i]))
		}
		if !bytes.Equal(got.SubKeyAt(i), want[i]) {
			return fmt.Sprintf("SubKeyAt(%d) is %s, want %s", i, short(got.SubKeyAt(i)), short(want[i]))
		}
	}
	return ""
}

// order returns the indexes to look at, in random order; all of them unless
// there are very many.
func order(r *rand.Rand, n int) []int {
	if n == 0 {
		return nil
	}
	if n <= 600 {
		p := r.Perm(n)
		if r.Intn(3) == 0 {
			for i := range p {
				p[i] = i
			}
		} else if r.Intn(3) == 0 {
			for i := range p {
				p[i] = n - 1 - i
			}
		}
		return p
	}
	res := []int{n - 1, 0, n / 2, 255, 256, 257}
	for i := 0; i < 40; i++ {
		res = append(res, r.Intn(n))
	}
	return res
}

// diffVal says how a value, constructed or decoded, differs from its abstract
// content, looking at it in random order.
func diffVal(c *mon.Case, got IValue, want *aVal, decoded bool) string {
	if got == nil {
		return "value is nil"
	}
	c.Ev("value-compared")
	if got.IsNil() != want.isNil() {
		return fmt.Sprintf("IsNil %v, want %v", got.IsNil(), want.isNil())
	}
	if want.isNil() {
		// empty values of any kind encode alike
		if len(got.Value()) != 0 || got.Size() != 0 {
			return fmt.Sprintf("empty value has %d bytes and %d elements", len(got.Value()), got.Size())
		}
		if _, err := got.ValueAt(0); err == nil {
			return "empty value has an array element"
		}
		if _, err := got.RecordAt(0); err == nil {
			return "empty value has a record"
		}
		if decoded && (!got.IsPrimitive() || got.IsValueArray() || got.IsRecordList()) {
			return "decoded empty value is not a primitive"
		}
		return ""
	}
	if got.IsPrimitive() != (want.kind == 'p') || got.IsValueArray() != (want.kind == 'a') || got.IsRecordList() != (want.kind == 'r') {
		return fmt.Sprintf("kind: primitive %v array %v record list %v, want %c", got.IsPrimitive(), got.IsValueArray(), got.IsRecordList(), want.kind)
	}
	if int(got.Size()) != len(want.vals)+len(want.recs) {
		return fmt.Sprintf("size %d, want %d", got.Size(), len(want.vals)+len(want.recs))
	}
	wrongV, wrongR := true, true
	switch want.kind {
	case 'p':
		if !bytes.Equal(got.Value(), want.data) {
			return fmt.Sprintf("content %s, want %s", short(got.Value()), short(want.data))
		}
	case 'a':
		wrongV = false
		for _, i := range order(c.R, len(want.vals)) {
			e, err := got.ValueAt(uint16(i))
			c.Ev("element")
			if err != nil {
				return fmt.Sprintf("ValueAt(%d): %v", i, err)
			}
			if d := diffVal(c, e, want.vals[i], decoded); d != "" {
				return fmt.Sprintf("element %d: %s", i, d)
			}
		}
		i := c.R.Intn(len(want.vals)) // one of them again
		if e, err := got.ValueAt(uint16(i)); err != nil || e.IsNil() != want.vals[i].isNil() || !bytes.Equal(e.Value(), want.vals[i].data) {
			return fmt.Sprintf("ValueAt(%d) again differs: %v", i, err)
		}
	case 'r':
		wrongR = false
		for _, i := range order(c.R, len(want.recs)) {
			e, err := got.RecordAt(uint16(i))
			c.Ev("record-element")
			if err != nil {
				return fmt.Sprintf("RecordAt(%d): %v", i, err)
			}
			if d := diffRec(c, e, want.recs[i], decoded); d != "" {
				return fmt.Sprintf("record %d: %s", i, d)
			}
		}
	}
	n := len(want.vals) + len(want.recs)
	if want.kind != 'p' && len(got.Value()) != 0 {
		return "array or list has primitive content"
	}
	if n < maxContent {
		for _, i := range []int{n, n + 1, maxContent} {
			if _, err := got.ValueAt(uint16(i)); err == nil {
				return fmt.Sprintf("ValueAt(%d) of %d elements is not an error", i, n)
			}
			if _, err := got.RecordAt(uint16(i)); err == nil {
				return fmt.Sprintf("RecordAt(%d) of %d elements is not an error", i, n)
			}
		}
	}
	if _, err := got.ValueAt(0); wrongV && err == nil {
		return "ValueAt of something that is not an array is not an error"
	}
	if _, err := got.RecordAt(0); wrongR && err == nil {
		return "RecordAt of something that is not a record list is not an error"
	}
	return ""
}

func diffRec(c *mon.Case, got IRecord, want *aRec, decoded bool) string {
	if got == nil {
		return "record is nil"
	}
	k, v, s := got.Key(), got.Value(), got.Scheme()
	switch {
	case k != nil:
		if d := diffKey(k, want.key); d != "" {
			return "key: " + d
		}
	case decoded || len(want.key) != 0:
		return "key is missing"
	}
	switch {
	case v != nil:
		w := want.value
		if w == nil {
			w = &aVal{kind: 'p'}
		}
		if d := diffVal(c, v, w, decoded); d != "" {
			return "value: " + d
		}
	case decoded || !want.value.isNil():
		return "value is missing"
	}
	switch {
	case s != nil:
		w := want.scheme
		if w == nil {
			w = &aVal{kind: 'p'}
		}
		if d := diffVal(c, s, w, decoded); d != "" {
			return "scheme: " + d
		}
	case decoded || !want.scheme.isNil():
		return "scheme is missing"
	}
	ts := got.Timestamp()
	if (ts == nil) != (want.ts == nil) {
		return fmt.Sprintf("timestamp %v, want %v", ts, want.ts)
	}
	if ts != nil && ts.UnixNano() != *want.ts {
		return fmt.Sprintf("timestamp %d, want %d", ts.UnixNano(), *want.ts)
	}
	gr, gs := got.Signature()
	wr, ws := want.r, want.s
	if decoded && (want.ts == nil || wr == nil || ws == nil) {
		wr, ws = nil, nil
	}
	if (gr == nil) != (wr == nil) || (gs == nil) != (ws == nil) {
		return fmt.Sprintf("signature %v %v, want %v %v", gr, gs, wr, ws)
	}
	if gr != nil && gr.Cmp(wr) != 0 || gs != nil && gs.Cmp(ws) != 0 {
		return fmt.Sprintf("signature %x %x, want %x %x", gr, gs, wr, ws)
	}
	return ""
}

// ---------------------------------------------------------------- following bytes

// follow appends bytes that an over-reading decoder would take for more content.
func follow(r *rand.Rand, enc []byte) []byte {
	var tail []byte
	switch r.Intn(6) {
	case 0:
	case 1:
		tail = randFull(r, 1+r.Intn(100))
	case 2:
		tail = bytes.Repeat([]byte{0xff}, 1+r.Intn(100))
	case 3:
		tail = make([]byte, 1+r.Intn(100))
	case 4:
		tail = cp(enc)
	default:
		tail = []byte{byte(r.Intn(256))}
	}
	res := make([]byte, 0, len(enc)+len(tail))
	return append(append(res, enc...), tail...)
}
