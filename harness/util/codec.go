package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"time"

	. "../../../repo/src/util"
	"../mon"
)

// checkDecodedKey decodes the bytes, followed by others, and judges the result.
func checkDecodedKey(c *mon.Case, enc []byte, want aKey) *MappedKey {
	buf := follow(c.R, enc)
	c.Hold("the buffer decoded", buf)
	k, n, err := NewMappedKey(buf)
	c.Ev("decode")
	c.Check(err == nil, "key-decode-error", "decoding %x: %v", enc, err)
	c.Check(n == len(enc), "key-consumed", "decoding the %d bytes of %v followed by %d others consumed %d", len(enc), want, len(buf)-len(enc), n)
	again(c, k, len(enc))
	if d := diffKey(k, want); d != "" {
		c.Failf("key-content", "%s; key %v, encoding %s", d, want, short(enc))
	}
	again(c, k, len(enc))
	c.Check(bytes.Equal(k.Buf(), enc), "key-buf", "buffer %s of the decoded key, want %s", short(k.Buf()), short(enc))
	c.Check(k.IsDecoded() && k.IsEncoded(), "key-flags", "IsDecoded %v IsEncoded %v of a decoded key", k.IsDecoded(), k.IsEncoded())
	return k
}

// again decodes an object once more, at times: nothing changes.
func again(c *mon.Case, o IEncodable, size int) bool {
	if c.R.Intn(4) > 0 {
		return false
	}
	n, err := o.Decode(nil)
	c.Ev("decode-again")
	c.Check(err == nil && n == size, "decode-again", "decoding once more gives %d of %d bytes, %v", n, size, err)
	return true
}

// encodeKey encodes a constructed key and judges refusals.
func encodeKey(c *mon.Case, k *Key, want aKey) []byte {
	err := k.Encode(nil)
	c.Ev("encode")
	if want.size() > maxKey {
		c.Ev("refused")
		c.Check(err != nil, "key-too-large-accepted", "key of %d encoded bytes is not refused", want.size())
		return nil
	}
	c.Check(err == nil, "key-refused", "encoding %v of %d bytes: %v", want, want.size(), err)
	c.Check(k.IsEncoded(), "key-flags", "key is not encoded after Encode")
	return c.Hold("an encoded key", k.Buf())
}

func u01(x *mon.Ctx) {
	x.Rule("every case encodes and decodes a key of a different shape")
	reused(x, x.N(600, 12000), "key")
	one := func(c *mon.Case, a aKey) {
		k := buildKey(a)
		if d := diffKey(k, a); d != "" {
			c.Failf("key-constructed", "constructed key %v: %s", a, d)
		}
		c.Check(k.IsDecoded(), "key-flags", "constructed key is not decoded")
		enc := encodeKey(c, k, a)
		if enc == nil {
			return
		}
		if len(a) == 0 {
			c.Ev("empty-key")
			c.Check(bytes.Equal(enc, []byte{0}), "key-empty", "empty key is encoded as %x", enc)
		}
		m := checkDecodedKey(c, enc, a)
		// a decoded key decodes from its own buffer, and encodes to it
		c.Check(m.Encode(nil) == nil && bytes.Equal(m.Buf(), enc), "key-buf", "encoding the decoded key changes it")
		// the copies of it
		cc, err := m.CopyConstruct()
		c.Check(err == nil, "key-copy", "CopyConstruct: %v", err)
		if d := diffKey(cc.(IKey), a); d != "" {
			c.Failf("key-copy", "constructed copy of %v: %s", a, d)
		}
	}
	if x.Variant == "plain" {
		// all keys of up to 3 sub keys of up to 2 bytes out of 3 values
		subs := [][]byte{}
		al := []byte{0, 1, 0xff}
		for _, p := range al {
			subs = append(subs, []byte{p})
			for _, q := range al {
				subs = append(subs, []byte{p, q})
			}
		}
		x.Stream("small", len(subs)+1, func(c *mon.Case) {
			if c.Index == 0 {
				one(c, aKey{})
				one(c, aKey{[]byte{}})
				c.Nontrivial(1)
				c.Desc("empty key, and one empty sub key")
				return
			}
			s := subs[c.Index-1]
			one(c, aKey{s})
			for _, t := range subs {
				one(c, aKey{s, t})
				for _, u := range subs {
					one(c, aKey{s, t, u})
				}
			}
			c.Nontrivial(mon.HashBytes(s))
			c.Desc("all keys of up to 3 sub keys that start with %x", s)
		})
		// every size around the limit
		x.Stream("limit", 140, func(c *mon.Case) {
			n := 4026 + c.Index
			one(c, aKey{randBytes(c.R, n)})
			one(c, aKey{randBytes(c.R, n-100), randBytes(c.R, 97)})
			many := aKey{}
			for i := 0; i < n/2-1; i++ {
				many = append(many, []byte{7})
			}
			one(c, many)
			c.Nontrivial(uint64(n))
			c.Desc("keys of %d bytes, limit 4096", n)
		})
	}
	x.Stream("changing", x.N(12000, 400000), func(c *mon.Case) {
		a := genKey(c.R, 4200)
		k := buildKey(a)
		c.Desc("key %v", a)
		c.Nontrivial(a.hash(1))
		for step := 0; step < 5; step++ {
			enc := encodeKey(c, k, a)
			if enc != nil {
				checkDecodedKey(c, enc, a)
			}
			s := randBytes(c.R, 1+someLen(c.R, 30))
			if c.R.Intn(30) == 0 {
				s = randBytes(c.R, 1+someLen(c.R, 4200))
			}
			k.Add(cp(s))
			a = append(a, s)
			c.Evf("add", "%s", short(s))
			if k.IsEncoded() { // then its bytes must be those of the new content
				c.Check(bytes.Equal(k.Buf(), refKey(a)), "key-stale", "key says it is encoded after Add, but its bytes are those of the old content")
			}
		}
	})
}

// refKey is the encoding of a key.
func refKey(k aKey) []byte {
	b := binary.AppendUvarint(nil, uint64(len(k)))
	for _, s := range k {
		b = binary.AppendUvarint(b, uint64(len(s)))
		b = append(b, s...)
	}
	return b
}

// ---------------------------------------------------------------- values

func checkDecodedVal(c *mon.Case, enc []byte, want *aVal) *StandardMappedValue {
	buf := follow(c.R, enc)
	c.Hold("the buffer decoded", buf)
	m, n, err := NewStandardMappedValue(buf)
	c.Ev("decode")
	c.Check(err == nil, "value-decode-error", "decoding %s: %v", short(enc), err)
	c.Check(n == len(enc), "value-consumed", "decoding the %d bytes of %v followed by %d others consumed %d", len(enc), want, len(buf)-len(enc), n)
	if again(c, m, len(enc)) {
		if d := diffVal(c, m, want, true); d != "" {
			c.Failf("value-content", "%s; value %v, decoded again, encoding %s", d, want, short(enc))
		}
		again(c, m, len(enc))
	}
	if d := diffVal(c, m, want, true); d != "" {
		c.Failf("value-content", "%s; value %v, encoding %s", d, want, short(enc))
	}
	c.Check(bytes.Equal(m.Buf(), enc) && m.ValueMagic() == enc[0], "value-buf", "buffer %s of the decoded value, want %s", short(m.Buf()), short(enc))
	return m
}

func encodeVal(c *mon.Case, v IValue, want *aVal) []byte {
	err := v.Encode(nil)
	c.Ev("encode")
	if _, fits := want.size(); !fits {
		c.Ev("refused")
		c.Check(err != nil, "value-too-large-accepted", "value too large for the format is not refused: %v", want)
		return nil
	}
	if err != nil {
		c.Failf("value-refused", "encoding %v: %v", want, err)
	}
	c.Check(v.IsEncoded(), "value-flags", "value is not encoded after Encode")
	return c.Hold("an encoded value", v.Buf())
}

// changeVal makes a random change to a value and its abstract content.
// It reports whether the value itself was told (and not one of its elements).
func changeVal(c *mon.Case, v IValue, a *aVal) bool {
	switch t := v.(type) {
	case *ValueArray:
		switch k := c.R.Intn(4); {
		case k == 0 && len(a.vals) > 0:
			i := c.R.Intn(len(a.vals))
			t.DeleteAt(uint16(i))
			a.vals = append(append([]*aVal{}, a.vals[:i]...), a.vals[i+1:]...)
			c.Evf("delete", "element %d of %d", i, len(a.vals)+1)
			return true
		case k == 1 && len(a.vals) > 0:
			i := c.R.Intn(len(a.vals))
			e, err := t.ValueAt(uint16(i))
			c.Check(err == nil, "value-content", "ValueAt(%d): %v", i, err)
			changeVal(c, e, a.vals[i])
			return false
		default:
			e := genVal(c.R, 1, 60)
			t.Append(build(e))
			a.vals = append(a.vals, e)
			c.Evf("append", "%v", e)
			return true
		}
	case *RecordList:
		switch k := c.R.Intn(4); {
		case k == 0 && len(a.recs) > 0:
			i := c.R.Intn(len(a.recs))
			t.DeleteAt(uint16(i))
			a.recs = append(append([]*aRec{}, a.recs[:i]...), a.recs[i+1:]...)
			c.Evf("delete", "record %d of %d", i, len(a.recs)+1)
			return true
		case k == 1 && len(a.recs) > 0:
			i := c.R.Intn(len(a.recs))
			e, err := t.RecordAt(uint16(i))
			c.Check(err == nil, "value-content", "RecordAt(%d): %v", i, err)
			changeRec(c, e.(*Record), a.recs[i])
			return false
		default:
			e := genRec(c.R, 1, 100)
			t.Append(buildRec(e))
			a.recs = append(a.recs, e)
			c.Evf("append", "%v", e)
			return true
		}
	}
	return false
}

func changeRec(c *mon.Case, r *Record, a *aRec) {
	itself := func(o *Record) {
		c.Check(o == r, "setter-result", "a setter of a record does not return the record")
	}
	switch c.R.Intn(10) {
	case 0:
		a.key = genKey(c.R, 60)
		itself(r.SetKey(buildKey(a.key)))
		c.Evf("set-key", "%v", a.key)
	case 1:
		s := randBytes(c.R, 1+c.R.Intn(20))
		a.key = aKey{s}
		itself(r.SetK(cp(s)))
		c.Evf("set-k", "%v", a.key)
	case 2:
		a.value = genVal(c.R, 1, 60)
		itself(r.SetValue(build(a.value)))
		c.Evf("set-value", "%v", a.value)
	case 3:
		a.value = &aVal{kind: 'p', data: randBytes(c.R, c.R.Intn(20))}
		itself(r.SetV(cp(a.value.data)))
		c.Evf("set-v", "%v", a.value)
	case 4:
		a.scheme = genVal(c.R, 1, 60)
		itself(r.SetScheme(build(a.scheme)))
		c.Evf("set-scheme", "%v", a.scheme)
	case 5:
		a.scheme = &aVal{kind: 'p', data: randBytes(c.R, c.R.Intn(20))}
		itself(r.SetS(cp(a.scheme.data)))
		c.Evf("set-s", "%v", a.scheme)
	case 6:
		a.ts = genTs(c.R)
		t := time.Unix(0, *a.ts)
		itself(r.SetTimestamp(&t))
		c.Evf("set-timestamp", "%d", *a.ts)
	case 7:
		a.ts = nil
		itself(r.SetTimestamp(nil))
		c.Evf("set-timestamp", "nil")
	case 8:
		a.r, a.s = genBig(c.R), genBig(c.R)
		itself(r.SetSignature(a.r, a.s))
		c.Evf("set-signature", "%x %x", a.r, a.s)
	default:
		if c.R.Intn(2) == 0 {
			a.r, a.s = nil, nil
			itself(r.SetSignature(nil, nil))
			c.Evf("set-signature", "nil")
		} else if v, ok := r.Value().(*ValueArray); ok && a.value != nil && a.value.kind == 'a' {
			changeVal(c, v, a.value)
		}
	}
}

// staleVal fails if a value that was told of a change still hands out old bytes.
func staleVal(c *mon.Case, v IValue, a *aVal) {
	if _, fits := a.size(); fits && v.IsEncoded() {
		old := cp(v.Buf())
		c.Check(v.Encode(nil) == nil && bytes.Equal(v.Buf(), old), "value-stale", "value says it is encoded after a change, but its bytes are those of the old content: %v", a)
	}
}

func u03(x *mon.Ctx) {
	x.Rule("every case encodes and decodes a value of a different structure and content")
	reused(x, x.N(300, 6000), "value", "value", "simple-value")
	x.Stream("random", x.N(16000, 500000), func(c *mon.Case) {
		budget := []int{10, 60, 300, 300, 2000, 8000}[c.R.Intn(6)]
		a := genVal(c.R, 1+c.R.Intn(4), budget)
		c.Desc("%v", a)
		c.Nontrivial(a.hash(1))
		v := build(a)
		if d := diffVal(c, v, a, false); d != "" {
			c.Failf("value-constructed", "constructed value %v: %s", a, d)
		}
		c.Check(v.IsDecoded(), "value-flags", "constructed value is not decoded")
		enc := encodeVal(c, v, a)
		if enc != nil {
			m := checkDecodedVal(c, enc, a)
			if c.R.Intn(4) == 0 { // again, the elements are there now
				if d := diffVal(c, m, a, true); d != "" {
					c.Failf("value-content", "looking again: %s; value %v", d, a)
				}
			}
			if c.R.Intn(4) == 0 && len(enc) < 4000 {
				cc, err := m.CopyConstruct()
				c.Check(err == nil, "value-copy", "CopyConstruct: %v", err)
				if d := diffVal(c, cc.(IValue), canonVal(a), false); d != "" {
					c.Failf("value-copy", "constructed copy of %v: %s", a, d)
				}
			}
		}
		for step := 0; a.kind != 'p' && step < 4; step++ {
			if changeVal(c, v, a) {
				staleVal(c, v, a)
			}
			if c.R.Intn(3) == 0 {
				continue
			}
			if enc := encodeVal(c, v, a); enc != nil {
				checkDecodedVal(c, enc, a)
			}
			if d := diffVal(c, v, a, false); d != "" {
				c.Failf("value-constructed", "changed value %v: %s", a, d)
			}
		}
	})
	// one object in many places
	x.Stream("shared", x.N(1500, 50000), func(c *mon.Case) {
		p := newPool(c)
		for n := 2 + c.R.Intn(6); n > 0; n-- {
			p.grow(c)
		}
		for step := 0; step < 4; step++ {
			i := c.R.Intn(len(p.vals))
			if step == 0 {
				i = len(p.vals) - 1
			}
			if enc := encodeVal(c, p.vals[i], p.absVals[i]); enc != nil {
				checkDecodedVal(c, enc, p.absVals[i])
			}
			if step == 0 {
				c.Desc("%v", p.absVals[i])
				c.Nontrivial(p.absVals[i].hash(3))
			}
			if j := c.R.Intn(len(p.vals)); p.absVals[j].kind != 'p' && p.size(j) < 2000 {
				changeVal(c, p.vals[j], p.absVals[j])
			}
			if d := diffVal(c, p.vals[i], p.absVals[i], false); d != "" {
				c.Failf("value-constructed", "changed value %v: %s", p.absVals[i], d)
			}
		}
	})
	// changes of many elements
	x.Stream("wide", x.N(60, 1500), func(c *mon.Case) {
		n := 100 + c.R.Intn(1000)
		if c.R.Intn(2) == 0 {
			n = 1000 + c.R.Intn(7000)
		}
		a := &aVal{kind: []byte{'a', 'r'}[c.Index%2]}
		for i := 0; i < n; i++ {
			v := &aVal{kind: 'p'}
			if c.R.Intn(20) == 0 || i < 3 || i > n-4 {
				v.data = randFull(c.R, 1+c.R.Intn(6))
			}
			if a.kind == 'a' {
				a.vals = append(a.vals, v)
			} else {
				a.recs = append(a.recs, &aRec{value: v})
			}
		}
		c.Desc("%c of %d elements", a.kind, n)
		c.Nontrivial(a.hash(1))
		v := build(a)
		for step := 0; step < 4; step++ {
			for k := c.R.Intn(4); k >= 0; k-- {
				if changeVal(c, v, a) {
					staleVal(c, v, a)
				}
			}
			if enc := encodeVal(c, v, a); enc != nil {
				checkDecodedVal(c, enc, a)
			}
			for k := c.R.Intn(3); k > 0; k-- {
				changeVal(c, v, a)
			}
			if d := diffVal(c, v, a, false); d != "" {
				c.Failf("value-constructed", "changed value of %d elements: %s", n, d)
			}
		}
	})
	// sizes around every border of the format
	borders := []int{}
	for _, b := range []int{0, 127, 128, 255, 256, 257, 511, 512, 16383, 16384, 32767, 32768, 65279, 65280, 65535, 65536, 65537, 65792, 131071, 131072} {
		for d := -3; d <= 3; d++ {
			if b+d >= 0 {
				borders = append(borders, b+d)
			}
		}
	}
	if x.Variant == "plain" {
		x.Stream("primitive-size", len(borders), func(c *mon.Case) {
			n := borders[c.Index]
			a := &aVal{kind: 'p', data: randFull(c.R, n)}
			c.Desc("primitive of %d bytes", n)
			c.Nontrivial(a.hash(1))
			if enc := encodeVal(c, build(a), a); enc != nil {
				checkDecodedVal(c, enc, a)
			}
			// the simple form
			buf := follow(c.R, EncodeVarchar(a.data))
			s, k, err := NewSimpleMappedValue(buf)
			c.Ev("simple-value")
			c.Check(err == nil && k == varLen(n), "simple-consumed", "simple value of %d bytes consumed %d: %v", n, k, err)
			c.Check(bytes.Equal(s.Value(), a.data) && s.IsNil() == (n == 0) && s.IsPrimitive() && !s.IsValueArray() && !s.IsRecordList() && s.Size() == 0, "simple-content", "simple value of %d bytes differs", n)
			c.Check(bytes.Equal(s.Buf(), buf[:k]), "simple-buf", "buffer of the simple value differs")
		})
		x.Stream("content-size", len(borders), func(c *mon.Case) {
			n := borders[c.Index]
			if n < 8 {
				return
			}
			// an array whose content has exactly n bytes: a primitive and nils
			nils := c.R.Intn(4)
			p := n - nils
			for {
				m, _ := (&aVal{kind: 'p', data: make([]byte, p)}).size()
				if m+nils <= n {
					break
				}
				p--
			}
			a := &aVal{kind: 'a'}
			for i := 0; i < nils; i++ {
				a.vals = append(a.vals, &aVal{kind: 'p'})
			}
			a.vals = append(a.vals, &aVal{kind: 'p', data: randFull(c.R, p)})
			for {
				if m, _ := a.vals[len(a.vals)-1].size(); m+len(a.vals)-1 >= n {
					break
				}
				a.vals = append([]*aVal{{kind: 'p'}}, a.vals...)
			}
			c.Desc("array with %d bytes of content", n)
			c.Nontrivial(a.hash(1))
			if enc := encodeVal(c, build(a), a); enc != nil {
				checkDecodedVal(c, enc, a)
			}
			// and a record list: one record with a value
			b := &aVal{kind: 'r', recs: []*aRec{{value: &aVal{kind: 'p', data: randFull(c.R, max(1, min(n-4, maxRecVal-3)))}}}}
			for {
				m := 0
				for _, e := range b.recs {
					k, _ := e.size()
					m += k
				}
				if m >= n {
					break
				}
				b.recs = append(b.recs, &aRec{})
				if len(b.recs) > 300 {
					last := &aRec{value: &aVal{kind: 'p', data: randFull(c.R, max(1, min(n-m-5, maxRecVal-3)))}}
					b.recs = append(b.recs, last)
				}
			}
			if enc := encodeVal(c, build(b), b); enc != nil {
				checkDecodedVal(c, enc, b)
			}
		})
		x.Stream("element-count", len(borders), func(c *mon.Case) {
			n := borders[c.Index]
			a := &aVal{kind: 'a', vals: make([]*aVal, n)}
			b := &aVal{kind: 'r', recs: make([]*aRec, n)}
			for i := 0; i < n; i++ {
				a.vals[i], b.recs[i] = &aVal{kind: 'p'}, &aRec{}
				if n < 1000 {
					a.vals[i].data = randBytes(c.R, c.R.Intn(3))
					if c.R.Intn(3) == 0 {
						b.recs[i].ts = genTs(c.R)
					}
				}
			}
			c.Desc("array and record list with %d elements", n)
			c.Nontrivial(a.hash(1))
			if n < 65536 { // more elements cannot be addressed
				if enc := encodeVal(c, build(a), a); enc != nil {
					checkDecodedVal(c, enc, a)
				}
				if enc := encodeVal(c, build(b), b); enc != nil {
					checkDecodedVal(c, enc, b)
				}
			} else {
				c.Check(build(a).Encode(nil) != nil, "value-too-large-accepted", "array of %d elements is not refused", n)
				c.Check(build(b).Encode(nil) != nil, "value-too-large-accepted", "record list of %d elements is not refused", n)
				c.Ev("refused")
			}
		})
		// more elements than can be encoded, until enough of them are gone
		crowds := []int{65535, 65536, 65537, 65538, 65600, 65792, 66000, 70000, 131071, 131072, 131080}
		x.Stream("crowded", 2*len(crowds), func(c *mon.Case) {
			n, list := crowds[c.Index/2], c.Index%2 == 1
			a, b := &aVal{kind: 'a'}, &aVal{kind: 'r'}
			for i := 0; i < n; i++ {
				v, r := &aVal{kind: 'p'}, &aRec{}
				if c.R.Intn(1500) == 0 || i < 3 || i > n-4 || i > 65533 && i < 65539 { // to tell them apart
					v.data = randFull(c.R, 1+c.R.Intn(6))
					r.value = v
				}
				if list {
					b.recs = append(b.recs, r)
				} else {
					a.vals = append(a.vals, v)
				}
			}
			w := a
			if list {
				w = b
			}
			count := func() int { return len(a.vals) + len(b.recs) }
			c.Desc("%c of %d elements", w.kind, n)
			c.Nontrivial(w.hash(1))
			v := build(w)
			look := func() {
				for k := 0; k < 400; k++ {
					i := c.R.Intn(min(count(), 65536))
					switch k {
					case 0, 1, 2:
						i = k
					case 3, 4, 5, 6:
						i = min(count(), 65536) - k + 2
					}
					var d string
					if list {
						e, err := v.RecordAt(uint16(i))
						c.Check(err == nil, "value-element-error", "record %d of %d: %v", i, count(), err)
						d = diffRec(c, e, b.recs[i], false)
					} else {
						e, err := v.ValueAt(uint16(i))
						c.Check(err == nil, "value-element-error", "element %d of %d: %v", i, count(), err)
						d = diffVal(c, e, a.vals[i], false)
					}
					c.Check(d == "", "value-constructed", "element %d of %d: %s", i, count(), d)
				}
			}
			look()
			err := v.Encode(nil)
			c.Check(n < 65536 || err != nil, "value-too-large-accepted", "%d elements are not refused", n)
			drop := func(i int) {
				if list {
					v.(*RecordList).DeleteAt(uint16(i))
					b.recs = append(b.recs[:i], b.recs[i+1:]...)
				} else {
					v.(*ValueArray).DeleteAt(uint16(i))
					a.vals = append(a.vals[:i], a.vals[i+1:]...)
				}
				c.Ev("delete")
			}
			for k := 0; k < 40; k++ {
				drop(c.R.Intn(min(count(), 65536)))
			}
			look()
			for count() > 65536 {
				drop(65535 - c.R.Intn(3))
				if c.R.Intn(400) == 0 {
					look()
				}
			}
			if v.Encode(nil) == nil {
				_, ok := w.size()
				c.Check(ok, "value-too-large-accepted", "%d elements are not refused", count())
			}
			look()
			// until the content is small enough too
			for {
				if n, ok := w.size(); ok && n < 65536-c.R.Intn(40) {
					break
				}
				for k := 0; k < 100; k++ {
					drop(c.R.Intn(min(count(), 65536)))
				}
			}
			look()
			if enc := encodeVal(c, v, w); enc != nil {
				checkDecodedVal(c, enc, w)
			}
		})
		// deep nesting
		x.Stream("deep", 60, func(c *mon.Case) {
			depth := 2 + c.Index*c.Index/4
			a := &aVal{kind: 'p', data: randFull(c.R, 1+c.R.Intn(10))}
			for i := 0; i < depth; i++ {
				if c.R.Intn(2) == 0 {
					a = &aVal{kind: 'a', vals: []*aVal{a}}
				} else {
					a = &aVal{kind: 'r', recs: []*aRec{{value: a}}}
				}
			}
			c.Desc("nested %d deep", depth)
			c.Nontrivial(a.hash(1))
			// the inner most value is the same all the way down
			if enc := encodeVal(c, build(a), a); enc != nil {
				checkDecodedVal(c, enc, a)
			}
		})
	}
}

// ---------------------------------------------------------------- records

// pool holds objects, some of which hold others, with what they are expected to be.
type pool struct {
	vals    []IValue
	absVals []*aVal
	recs    []*Record
	absRecs []*aRec
}

func newPool(c *mon.Case) *pool {
	p := &pool{}
	for n := 1 + c.R.Intn(3); n > 0; n-- {
		a := genVal(c.R, 1, 40)
		p.vals, p.absVals = append(p.vals, build(a)), append(p.absVals, a)
		b := genRec(c.R, 1, 60)
		p.recs, p.absRecs = append(p.recs, buildRec(b)), append(p.absRecs, b)
	}
	return p
}

func (p *pool) size(i int) int {
	n, _ := p.absVals[i].size()
	return n
}

// grow adds an object that holds some of those that are there, at times one of
// them in several places.
func (p *pool) grow(c *mon.Case) {
	c.Ev("shared")
	some := func() int { return c.R.Intn(len(p.vals)) }
	switch c.R.Intn(3) {
	case 0:
		v, a := NewValueArray(), &aVal{kind: 'a'}
		for n, i := c.R.Intn(5), some(); n > 0; n-- {
			if p.size(i) < 3000 {
				v.Append(p.vals[i])
				a.vals = append(a.vals, p.absVals[i])
			}
			if c.R.Intn(2) == 0 {
				i = some()
			}
		}
		p.vals, p.absVals = append(p.vals, v), append(p.absVals, a)
	case 1:
		v, a := NewRecordList(), &aVal{kind: 'r'}
		for n, i := c.R.Intn(5), c.R.Intn(len(p.recs)); n > 0; n-- {
			if k, _ := p.absRecs[i].size(); k < 3000 {
				v.Append(p.recs[i])
				a.recs = append(a.recs, p.absRecs[i])
			}
			if c.R.Intn(2) == 0 {
				i = c.R.Intn(len(p.recs))
			}
		}
		p.vals, p.absVals = append(p.vals, v), append(p.absVals, a)
	default:
		a := genRec(c.R, 1, 60)
		r := buildRec(a)
		i := some()
		a.value, a.scheme = p.absVals[i], p.absVals[i]
		r.SetValue(p.vals[i])
		r.SetScheme(p.vals[i])
		if c.R.Intn(2) == 0 {
			i = some()
			a.scheme = p.absVals[i]
			r.SetScheme(p.vals[i])
		}
		if c.R.Intn(2) == 0 { // one number for both halves of the signature
			a.r = genBig(c.R)
			a.s = a.r
			r.SetSignature(a.r, a.s)
		}
		p.recs, p.absRecs = append(p.recs, r), append(p.absRecs, a)
	}
}

func encodeRec(c *mon.Case, r *Record, want *aRec) []byte {
	err := r.Encode(nil)
	c.Ev("encode")
	if _, fits := want.size(); !fits {
		c.Ev("refused")
		c.Check(err != nil, "record-too-large-accepted", "record with a component above its limit is not refused: %v", want)
		return nil
	}
	if err != nil {
		c.Failf("record-refused", "encoding %v: %v", want, err)
	}
	c.Check(r.IsEncoded(), "record-flags", "record is not encoded after Encode")
	return c.Hold("an encoded record", r.Buf())
}

func checkDecodedRec(c *mon.Case, enc []byte, want *aRec) *MappedRecord {
	buf := follow(c.R, enc)
	c.Hold("the buffer decoded", buf)
	m, n, err := NewMappedRecord(buf)
	c.Ev("decode")
	c.Check(err == nil, "record-decode-error", "decoding %v from %s: %v", want, short(enc), err)
	c.Check(n == len(enc), "record-consumed", "decoding the %d bytes of %v followed by %d others consumed %d", len(enc), want, len(buf)-len(enc), n)
	if again(c, m, len(enc)) {
		if d := diffRec(c, m, want, true); d != "" {
			c.Failf("record-content", "%s; record %v, decoded again, encoding %s", d, want, short(enc))
		}
		again(c, m, len(enc))
	}
	if d := diffRec(c, m, want, true); d != "" {
		c.Failf("record-content", "%s; record %v, encoding %s", d, want, short(enc))
	}
	c.Check(bytes.Equal(m.Buf(), enc) && m.RecordMagic() == enc[0] && m.IsDecoded(), "record-buf", "buffer %s of the decoded record, want %s", short(m.Buf()), short(enc))
	return m
}

func u04(x *mon.Ctx) {
	x.Rule("every case encodes and decodes a record with a different subset and content of components")
	reused(x, x.N(300, 6000), "record")
	if x.Variant == "plain" {
		// every subset of components, each absent, empty, or filled in two ways
		x.Stream("subsets", 4*7*7*3*4, func(c *mon.Case) {
			i := c.Index
			pick := func(n int) int { v := i % n; i /= n; return v }
			vals := []func() *aVal{
				func() *aVal { return nil },
				func() *aVal { return &aVal{kind: 'p'} },
				func() *aVal { return &aVal{kind: 'p', data: randBytes(c.R, 1+c.R.Intn(300))} },
				func() *aVal { return &aVal{kind: 'a'} },
				func() *aVal { return &aVal{kind: 'a', vals: []*aVal{{kind: 'p'}, genVal(c.R, 1, 30)}} },
				func() *aVal { return &aVal{kind: 'r'} },
				func() *aVal { return &aVal{kind: 'r', recs: []*aRec{genRec(c.R, 1, 40), {}}} },
			}
			a := &aRec{}
			a.key = []aKey{nil, {}, {[]byte{0}}, {[]byte("k"), []byte("key2")}}[pick(4)]
			a.value = vals[pick(7)]()
			a.scheme = vals[pick(7)]()
			switch pick(3) {
			case 1:
				a.ts = genTs(c.R)
			case 2:
				t := int64(0)
				a.ts = &t
			}
			switch pick(4) {
			case 1:
				a.r, a.s = genBig(c.R), genBig(c.R)
			case 2:
				a.r = genBig(c.R)
			case 3:
				a.s = genBig(c.R)
			}
			c.Desc("%v", a)
			c.Nontrivial(mon.Mix(uint64(c.Index), 7))
			if enc := encodeRec(c, buildRec(a), a); enc != nil {
				checkDecodedRec(c, enc, a)
			}
		})
		// components around their limits
		x.Stream("limits", 2*3*41, func(c *mon.Case) {
			d := c.Index/6 - 20
			a := genRec(c.R, 1, 100)
			switch c.Index / 2 % 3 {
			case 0:
				a.key = aKey{randFull(c.R, maxKey-3+d)}
			case 1:
				a.value = &aVal{kind: 'p', data: randFull(c.R, maxRecVal-3+d)}
				if c.Index%2 == 0 {
					a.value = &aVal{kind: 'a', vals: []*aVal{{kind: 'p', data: randFull(c.R, maxRecVal-8+d)}}}
				}
			case 2:
				a.scheme = &aVal{kind: 'p', data: randFull(c.R, maxScheme-3+d)}
				if c.Index%2 == 0 {
					a.scheme = &aVal{kind: 'r', recs: []*aRec{{value: &aVal{kind: 'p', data: randFull(c.R, maxScheme-8+d)}}}}
				}
			}
			c.Desc("component at its limit%+d: %v", d, a)
			c.Nontrivial(a.hash(1))
			if enc := encodeRec(c, buildRec(a), a); enc != nil {
				checkDecodedRec(c, enc, a)
			}
		})
	}
	x.Stream("changing", x.N(12000, 400000), func(c *mon.Case) {
		a := genRec(c.R, 1+c.R.Intn(3), []int{20, 200, 1000}[c.R.Intn(3)])
		c.Desc("%v", a)
		c.Nontrivial(a.hash(1))
		r := buildRec(a)
		if d := diffRec(c, r, a, false); d != "" {
			c.Failf("record-constructed", "constructed record %v: %s", a, d)
		}
		for step := 0; step < 6; step++ {
			if enc := encodeRec(c, r, a); enc != nil {
				m := checkDecodedRec(c, enc, a)
				if c.R.Intn(5) == 0 && len(enc) < 4000 {
					// go on with a constructed copy of the decoded record
					cc, err := m.CopyConstruct()
					c.Check(err == nil, "record-copy", "CopyConstruct: %v", err)
					r = cc.(*Record)
					a = canonRec(a)
					if d := diffRec(c, r, a, false); d != "" {
						c.Failf("record-copy", "constructed copy of %v: %s", a, d)
					}
					continue
				}
			}
			for n := c.R.Intn(3); n >= 0; n-- {
				told := r.IsEncoded()
				changeRec(c, r, a)
				_ = told
			}
			if d := diffRec(c, r, a, false); d != "" {
				c.Failf("record-constructed", "changed record %v: %s", a, d)
			}
		}
	})
	// one object in many places
	x.Stream("shared", x.N(3000, 100000), func(c *mon.Case) {
		p := newPool(c)
		for n := 2 + c.R.Intn(6); n > 0; n-- {
			p.grow(c)
		}
		i := len(p.recs) - 1
		c.Desc("%v", p.absRecs[i])
		c.Nontrivial(p.absRecs[i].hash(3))
		for step := 0; step < 4; step++ {
			if enc := encodeRec(c, p.recs[i], p.absRecs[i]); enc != nil {
				checkDecodedRec(c, enc, p.absRecs[i])
			}
			if d := diffRec(c, p.recs[i], p.absRecs[i], false); d != "" {
				c.Failf("record-constructed", "record %v: %s", p.absRecs[i], d)
			}
			if j := c.R.Intn(len(p.vals)); p.absVals[j].kind != 'p' && p.size(j) < 2000 {
				changeVal(c, p.vals[j], p.absVals[j])
			}
			if c.R.Intn(2) == 0 {
				i = c.R.Intn(len(p.recs))
			}
		}
	})
	// the setters one by one, on an encoded record
	x.Stream("setters", x.N(3000, 60000), func(c *mon.Case) {
		a := genRec(c.R, 1, 100)
		r := buildRec(a)
		c.Desc("%v", a)
		c.Nontrivial(a.hash(2))
		if encodeRec(c, r, a) == nil {
			return
		}
		switch c.R.Intn(6) {
		case 0:
			a.key = genKey(c.R, 60)
			r.SetKey(buildKey(a.key))
		case 1:
			a.value = genVal(c.R, 1, 60)
			r.SetValue(build(a.value))
		case 2:
			a.scheme = genVal(c.R, 1, 60)
			r.SetScheme(build(a.scheme))
		case 3:
			a.ts = genTs(c.R)
			t := time.Unix(0, *a.ts)
			r.SetTimestamp(&t)
		case 4:
			a.r, a.s = genBig(c.R), genBig(c.R)
			r.SetSignature(a.r, a.s)
		case 5:
			a.value = &aVal{kind: 'p', data: randBytes(c.R, c.R.Intn(20))}
			r.SetV(cp(a.value.data))
		}
		if r.IsEncoded() { // then its bytes must be those of the new content
			checkDecodedRec(c, cp(r.Buf()), a)
		}
		if enc := encodeRec(c, r, a); enc != nil {
			checkDecodedRec(c, enc, a)
		}
	})
}

// canonRec is what a record is decoded as: empty values are nil primitives, and
// there is no signature without a timestamp.
func canonRec(a *aRec) *aRec {
	res := &aRec{key: cpKey(a.key), value: canonVal(a.value), scheme: canonVal(a.scheme), ts: a.ts}
	if a.ts != nil && a.r != nil && a.s != nil {
		res.r, res.s = a.r, a.s
	}
	return res
}

func canonVal(v *aVal) *aVal {
	if v.isNil() {
		return &aVal{kind: 'p'}
	}
	res := &aVal{kind: v.kind, data: v.data}
	for _, e := range v.vals {
		res.vals = append(res.vals, canonVal(e))
	}
	for _, e := range v.recs {
		res.recs = append(res.recs, canonRec(e))
	}
	return res
}

// ---------------------------------------------------------------- schemes

type aScheme struct {
	domain, tablet []byte // nil: absent
	buckets        [][]byte
}

func (s *aScheme) enc() []byte {
	b := []byte{0}
	if s.domain != nil {
		b[0] |= 0x80
		b = binary.AppendUvarint(b, uint64(len(s.domain)))
		b = append(b, s.domain...)
	}
	if s.tablet != nil {
		b[0] |= 0x40
		b = binary.AppendUvarint(b, uint64(len(s.tablet)))
		b = append(b, s.tablet...)
	}
	if s.buckets != nil {
		b[0] |= 0x20
		b = append(b, refKey(s.buckets)...)
	}
	return b
}

func (s *aScheme) String() string {
	return fmt.Sprintf("domain %v %s tablet %v %s buckets %v %v", s.domain != nil, short(s.domain), s.tablet != nil, short(s.tablet), s.buckets != nil, aKey(s.buckets))
}

func genScheme(r *rand.Rand, limit int) *aScheme {
	s := &aScheme{}
	l := func() int {
		if r.Intn(10) == 0 {
			return someLen(r, limit)
		}
		return someLen(r, 20)
	}
	if r.Intn(3) > 0 {
		s.domain = randBytes(r, l())
	}
	if r.Intn(3) > 0 {
		s.tablet = randBytes(r, l())
	}
	if r.Intn(3) > 0 {
		s.buckets = [][]byte{}
		n := r.Intn(5)
		if r.Intn(10) == 0 {
			n = someLen(r, 600)
		}
		for i := 0; i < n; i++ {
			if n > 30 {
				s.buckets = append(s.buckets, randBytes(r, r.Intn(3)))
			} else {
				s.buckets = append(s.buckets, randBytes(r, l()))
			}
		}
	}
	return s
}

func diffScheme(got IScheme, want *aScheme) string {
	opt := func(name string, g, w []byte) string {
		if (g == nil) != (w == nil) || !bytes.Equal(g, w) {
			return fmt.Sprintf("%s is %s (absent %v), want %s (absent %v)", name, short(g), g == nil, short(w), w == nil)
		}
		return ""
	}
	if d := opt("domain", got.Domain(), want.domain); d != "" {
		return d
	}
	if d := opt("tablet", got.Tablet(), want.tablet); d != "" {
		return d
	}
	if got.DomainName() != string(want.domain) || got.TabletName() != string(want.tablet) {
		return "names differ"
	}
	b := got.Buckets()
	if (b == nil) != (want.buckets == nil) || len(b) != len(want.buckets) {
		return fmt.Sprintf("%d buckets (absent %v), want %d (absent %v)", len(b), b == nil, len(want.buckets), want.buckets == nil)
	}
	for i := range b {
		if !bytes.Equal(b[i], want.buckets[i]) || !bytes.Equal(got.BucketAt(i), want.buckets[i]) {
			return fmt.Sprintf("bucket %d is %s, want %s", i, short(b[i]), short(want.buckets[i]))
		}
	}
	return ""
}

func checkDecodedScheme(c *mon.Case, enc []byte, want *aScheme) *MappedScheme {
	buf := follow(c.R, enc)
	c.Hold("the buffer decoded", buf)
	m := NewMappedSchemd(buf)
	n, err := m.Decode(nil)
	c.Ev("decode")
	c.Check(err == nil, "scheme-decode-error", "decoding %v: %v", want, err)
	c.Check(n == len(enc), "scheme-consumed", "decoding the %d bytes of %v followed by %d others consumed %d", len(enc), want, len(buf)-len(enc), n)
	again(c, m, len(enc))
	if d := diffScheme(m, want); d != "" {
		c.Failf("scheme-content", "%s; scheme %v", d, want)
	}
	c.Check(bytes.Equal(m.Buf(), enc) && m.SchemeMagic() == enc[0] && m.IsDecoded() && m.IsEncoded(), "scheme-buf", "buffer %s of the decoded scheme, want %s", short(m.Buf()), short(enc))
	return m
}

func u05(x *mon.Ctx) {
	x.Rule("every case decodes and encodes a scheme with different components")
	reused(x, x.N(600, 12000), "scheme")
	one := func(c *mon.Case, a *aScheme) {
		enc := a.enc()
		m := checkDecodedScheme(c, enc, a)
		for i := 0; i < 2; i++ {
			var e IEncodable
			if i == 0 {
				e = m.Copy()
			} else {
				var err error
				e, err = m.CopyConstruct()
				c.Check(err == nil, "scheme-copy", "CopyConstruct: %v", err)
			}
			s := e.(IScheme)
			if d := diffScheme(s, a); d != "" {
				c.Failf("scheme-constructed", "constructed scheme: %s; %v", d, a)
			}
			err := e.Encode(nil)
			c.Ev("encode")
			if len(enc) > maxScheme {
				c.Ev("refused")
				c.Check(err != nil, "scheme-too-large-accepted", "scheme of %d bytes is not refused", len(enc))
				continue
			}
			c.Check(err == nil, "scheme-refused", "encoding %v: %v", a, err)
			c.Check(bytes.Equal(e.Buf(), enc), "scheme-bytes", "encoding again gives %s, want %s", short(e.Buf()), short(enc))
			checkDecodedScheme(c, c.Hold("an encoded scheme", e.Buf()), a)
		}
	}
	if x.Variant == "plain" {
		x.Stream("subsets", 4*4*5, func(c *mon.Case) {
			i := c.Index
			opt := [][]byte{nil, {}, {0}, []byte("name")}
			a := &aScheme{domain: opt[i%4], tablet: opt[i/4%4], buckets: [][][]byte{nil, {}, {{}}, {[]byte("b"), {}}, {{1}, {2}, {3}}}[i/16]}
			c.Desc("%v", a)
			c.Nontrivial(uint64(i))
			one(c, a)
		})
		x.Stream("limit", 60, func(c *mon.Case) {
			d := c.Index - 30
			a := &aScheme{domain: randFull(c.R, 300), tablet: randFull(c.R, 400)}
			a.buckets = [][]byte{randFull(c.R, maxScheme+d-len(a.enc())-3)}
			c.Desc("scheme of %d bytes, limit 1024", len(a.enc()))
			c.Nontrivial(uint64(c.Index) + 1000)
			one(c, a)
			one(c, &aScheme{domain: randFull(c.R, maxScheme-3+d)})
			one(c, &aScheme{tablet: randFull(c.R, maxScheme-3+d)})
			one(c, &aScheme{tablet: randFull(c.R, maxScheme-4+d), buckets: [][]byte{}})
			one(c, &aScheme{domain: randFull(c.R, maxScheme-5+d), tablet: []byte{}, buckets: [][]byte{}})
			many := &aScheme{buckets: [][]byte{}}
			for len(many.enc()) < maxScheme+d {
				many.buckets = append(many.buckets, []byte{})
			}
			one(c, many)
		})
	}
	x.Stream("wide", x.N(60, 1500), func(c *mon.Case) {
		// too large to be encoded again, but decoded all the same
		n := []int{2000, 2040, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16384, 32768, 65535, 65536}[c.R.Intn(14)] + c.R.Intn(3)
		a := &aScheme{domain: randBytes(c.R, c.R.Intn(20)), buckets: [][]byte{}}
		for i := 0; i < n; i++ {
			b := []byte{}
			if c.R.Intn(4) == 0 {
				b = []byte{byte(i), byte(i >> 8)}
			}
			a.buckets = append(a.buckets, b)
		}
		if c.R.Intn(3) == 0 {
			a = &aScheme{domain: randFull(c.R, n), tablet: randFull(c.R, 70000-n), buckets: [][]byte{randFull(c.R, n/2), {}, randFull(c.R, n+1)}}
		}
		c.Desc("scheme with %d buckets, %d bytes", len(a.buckets), len(a.enc()))
		c.Nontrivial(mon.HashBytes(a.enc()))
		one(c, a)
	})
	x.Stream("random", x.N(20000, 600000), func(c *mon.Case) {
		a := genScheme(c.R, 1100)
		c.Desc("%v", a)
		c.Nontrivial(mon.HashBytes(a.enc()))
		one(c, a)
	})
}

// ---------------------------------------------------------------- varints

func u06(x *mon.Ctx) {
	x.Rule("every case encodes and decodes different numbers or byte strings")
	reused(x, x.N(1200, 20000), "varint", "uvarint", "varchar", "varchar")
	unsigned := func(c *mon.Case, v uint64) {
		enc := EncodeUvarint64(v)
		enc[0] ^= 0x55 // it is the caller's
		enc = c.Hold("an encoded number", EncodeUvarint64(v))
		c.Ev("uvarint")
		c.Check(len(enc) >= 1 && len(enc) <= 10, "uvarint-length", "%d is encoded in %d bytes", v, len(enc))
		buf := follow(c.R, enc)
		g, n, err := DecodeUvarint64(buf)
		c.Check(err == nil && g == v && n == len(enc), "uvarint", "%d decodes as %d, %d of %d bytes, error %v", v, g, n, len(enc), err)
		for i := 1; i < len(enc); i++ {
			g, n, err := DecodeUvarint64(enc[:i:i])
			c.Ev("truncated")
			c.Check(err != nil, "uvarint-truncated", "%d truncated to %x decodes as %d, %d bytes", v, enc[:i], g, n)
		}
	}
	signed := func(c *mon.Case, v int64) {
		enc := EncodeVarint64(v)
		enc[0] ^= 0x55
		enc = c.Hold("an encoded number", EncodeVarint64(v))
		c.Ev("varint")
		c.Check(len(enc) >= 1 && len(enc) <= 10, "varint-length", "%d is encoded in %d bytes", v, len(enc))
		buf := follow(c.R, enc)
		g, n, err := DecodeVarint64(buf)
		c.Check(err == nil && g == v && n == len(enc), "varint", "%d decodes as %d, %d of %d bytes, error %v", v, g, n, len(enc), err)
		for i := 1; i < len(enc); i++ {
			g, n, err := DecodeVarint64(enc[:i:i])
			c.Ev("truncated")
			c.Check(err != nil, "varint-truncated", "%d truncated to %x decodes as %d, %d bytes", v, enc[:i], g, n)
		}
	}
	str := func(c *mon.Case, b []byte) {
		c.Hold("the byte string encoded", b)
		enc := EncodeVarchar(b)
		for i := range enc {
			enc[i] ^= 0x55
		}
		enc = c.Hold("an encoded byte string", EncodeVarchar(b))
		c.Ev("varchar")
		buf := follow(c.R, enc)
		c.Hold("the buffer decoded", buf)
		g, n, err := DecodeVarchar(buf)
		c.Hold("a decoded byte string", g)
		c.Check(err == nil && bytes.Equal(g, b) && n == len(enc), "varchar", "%s decodes as %s, %d of %d bytes, error %v", short(b), short(g), n, len(enc), err)
		cuts := []int{1, len(enc) / 2, len(enc) - 1}
		if len(enc) < 40 {
			cuts = nil
			for i := 1; i < len(enc); i++ {
				cuts = append(cuts, i)
			}
		}
		for _, i := range cuts {
			if i < 1 || i >= len(enc) {
				continue
			}
			g, n, err := DecodeVarchar(enc[:i:i])
			c.Ev("truncated")
			c.Check(err != nil, "varchar-truncated", "%d bytes of the %d of %s decode as %s, %d bytes", i, len(enc), short(b), short(g), n)
		}
	}
	if x.Variant == "plain" {
		x.Stream("powers", 64, func(c *mon.Case) {
			for d := int64(-130); d <= 130; d++ {
				v := uint64(1)<<uint(c.Index) + uint64(d)
				unsigned(c, v)
				unsigned(c, ^v)
				signed(c, int64(v))
				signed(c, -int64(v))
				signed(c, int64(^v))
			}
			c.Nontrivial(uint64(c.Index))
			c.Desc("all numbers within 130 of +-2^%d", c.Index)
		})
		x.Stream("small", 64, func(c *mon.Case) {
			for v := c.Index * 1024; v < (c.Index+1)*1024; v++ {
				unsigned(c, uint64(v))
				signed(c, int64(v))
				signed(c, int64(-v))
			}
			c.Nontrivial(uint64(c.Index) + 100)
			c.Desc("all numbers from %d", c.Index*1024)
		})
		x.Stream("strings", 700, func(c *mon.Case) {
			n := c.Index
			if n >= 600 {
				n = []int{1000, 16382, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 100000}[c.Index%10]
			}
			for i := 0; i < 3; i++ {
				str(c, randBytes(c.R, n))
			}
			c.Nontrivial(uint64(c.Index) + 1000)
			c.Desc("byte strings of length %d", n)
		})
	}
	x.Stream("random", x.N(4000, 200000), func(c *mon.Case) {
		for i := 0; i < 20; i++ {
			v := c.R.Uint64() >> uint(c.R.Intn(64))
			unsigned(c, v)
			signed(c, int64(v))
			signed(c, -int64(v))
			str(c, randBytes(c.R, c.R.Intn(200)))
		}
		c.Nontrivial(c.R.Uint64())
		c.Desc("random numbers and strings")
	})
	// any bytes at all: judged against arbitrary precision
	judge := func(c *mon.Case, b []byte) {
		if len(b) == 0 {
			return
		}
		val, n := new(big.Int), 0
		for i := range b {
			val.Or(val, new(big.Int).Lsh(big.NewInt(int64(b[i]&0x7f)), uint(7*i)))
			if b[i] < 0x80 {
				n = i + 1
				break
			}
		}
		valid := n > 0 && val.IsUint64()
		c.Ev("foreign")
		g, gn, err := DecodeUvarint64(b)
		if valid && n <= 10 {
			c.Check(err == nil && g == val.Uint64() && gn == n, "uvarint-foreign", "%x decodes as %d, %d bytes, error %v; want %v, %d bytes", b, g, gn, err, val, n)
		} else if err == nil {
			c.Check(valid && g == val.Uint64() && gn == n, "uvarint-foreign", "%x decodes as %d, %d bytes, which is not an encoding of it", b, g, gn)
		}
		s, sn, err := DecodeVarint64(b)
		want := int64(val.Uint64() >> 1)
		if val.Bit(0) == 1 {
			want = ^want
		}
		if valid && n <= 10 {
			c.Check(err == nil && s == want && sn == n, "varint-foreign", "%x decodes as %d, %d bytes, error %v; want %d, %d bytes", b, s, sn, err, want, n)
		} else if err == nil {
			c.Check(valid && s == want && sn == n, "varint-foreign", "%x decodes as %d, %d bytes, which is not an encoding of it", b, s, sn)
		}
		str, tn, err := DecodeVarchar(b)
		fits := valid && val.Cmp(big.NewInt(int64(len(b)-n))) <= 0
		if err == nil {
			c.Check(fits, "varchar-foreign", "%x decodes as a byte string of %d bytes, %d consumed, but announces %v", b, len(str), tn, val)
			l := int(val.Int64())
			c.Check(tn == n+l && bytes.Equal(str, b[n:n+l]), "varchar-foreign", "%x decodes as %x, %d bytes consumed", b, str, tn)
		} else {
			c.Check(!(fits && n <= 10), "varchar-foreign", "%x is refused: %v", b, err)
		}
	}
	x.Stream("foreign", x.N(4000, 200000), func(c *mon.Case) {
		for i := 0; i < 30; i++ {
			var b []byte
			switch c.R.Intn(5) {
			case 0:
				b = randFull(c.R, 1+c.R.Intn(14))
			case 1: // long chains
				b = bytes.Repeat([]byte{[]byte{0xff, 0x80, 0x81}[c.R.Intn(3)]}, c.R.Intn(14))
				b = append(b, byte(c.R.Intn(4)))
				b = append(b, randFull(c.R, c.R.Intn(3))...)
			case 2: // around the largest number
				b = append(bytes.Repeat([]byte{0xff}, 9), byte(c.R.Intn(256)), byte(c.R.Intn(256)))
			case 3: // an announced length around what is there
				n := c.R.Intn(200)
				b = binary.AppendUvarint(nil, uint64(n+c.R.Intn(5)-2))
				b = append(b, randFull(c.R, n)...)
			default: // lengths that overflow when added to
				l := []uint64{math.MaxUint64, math.MaxUint64 - 1, math.MaxInt64, math.MaxInt64 + 1, 1 << 63, 1<<63 - 10, 1 << 32, 1<<32 - 1, 1 << 31}[c.R.Intn(9)]
				b = binary.AppendUvarint(nil, l-uint64(c.R.Intn(12)))
				b = append(b, randFull(c.R, c.R.Intn(30))...)
			}
			judge(c, b)
		}
		c.Nontrivial(c.R.Uint64())
		c.Desc("bytes that are not or not quite encodings")
	})
	if x.Variant == "plain" {
		x.Stream("all-short", 256, func(c *mon.Case) {
			judge(c, []byte{byte(c.Index)})
			for i := 0; i < 256; i++ {
				judge(c, []byte{byte(c.Index), byte(i)})
				for _, l := range []byte{0, 1, 2, 0x7f, 0x80, 0xff} {
					judge(c, []byte{byte(c.Index), byte(i), l})
				}
			}
			c.Nontrivial(uint64(c.Index) + 5000)
			c.Desc("all 1 and 2 byte inputs that start with %02x", c.Index)
		})
	}
}
