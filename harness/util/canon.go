package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"strings"
	"time"

	. "../../../repo/src/util"
	"../mon"
)

// ---------------------------------------------------------------- roundabout histories

// aroundVal makes a value of the content of v by a roundabout history: elements that
// come and go, are put in before they are filled, and encodings in between.
func aroundVal(c *mon.Case, v *aVal) IValue {
	switch v.kind {
	case 'p':
		p := NewPrimitive(cp(v.data))
		if c.R.Intn(3) == 0 {
			p.Encode(nil)
		}
		return p
	case 'a':
		res := NewValueArray()
		aroundArray(c, res, v)
		return res
	}
	res := NewRecordList()
	aroundList(c, res, v)
	return res
}

func aroundArray(c *mon.Case, res *ValueArray, v *aVal) {
	later := []func(){}
	junk := func() {
		res.Append(build(genVal(c.R, 1, 30)))
		c.Ev("detour")
		if c.R.Intn(2) == 0 {
			res.Encode(nil)
		}
		res.DeleteAt(res.Size() - 1)
	}
	if c.R.Intn(3) == 0 { // one at the front that stays till the end
		res.Append(build(genVal(c.R, 1, 30)))
		later = append(later, func() { res.DeleteAt(0) })
		c.Ev("detour")
	}
	for _, e := range v.vals {
		if c.R.Intn(6) == 0 {
			junk()
		}
		switch {
		case e.kind == 'a' && c.R.Intn(2) == 0:
			ch := NewValueArray()
			res.Append(ch)
			later = append(later, func() { aroundArray(c, ch, e) })
			c.Ev("filled-later")
		case e.kind == 'r' && c.R.Intn(2) == 0:
			ch := NewRecordList()
			res.Append(ch)
			later = append(later, func() { aroundList(c, ch, e) })
			c.Ev("filled-later")
		default:
			res.Append(aroundVal(c, e))
		}
		if c.R.Intn(6) == 0 {
			res.Encode(nil)
		}
	}
	if c.R.Intn(6) == 0 {
		junk()
	}
	if c.R.Intn(2) == 0 {
		res.Encode(nil)
	}
	for _, i := range c.R.Perm(len(later)) {
		later[i]()
		if c.R.Intn(4) == 0 {
			res.Encode(nil)
		}
	}
}

func aroundList(c *mon.Case, res *RecordList, v *aVal) {
	later := []func(){}
	if c.R.Intn(3) == 0 {
		res.Append(buildRec(genRec(c.R, 1, 30)))
		later = append(later, func() { res.DeleteAt(0) })
		c.Ev("detour")
	}
	for _, e := range v.recs {
		if c.R.Intn(6) == 0 {
			res.Append(buildRec(genRec(c.R, 1, 30)))
			res.Encode(nil)
			res.DeleteAt(res.Size() - 1)
			c.Ev("detour")
		}
		if c.R.Intn(2) == 0 {
			ch := NewRecord()
			res.Append(ch)
			later = append(later, func() { aroundRecord(c, ch, e) })
			c.Ev("filled-later")
		} else {
			ch := NewRecord()
			aroundRecord(c, ch, e)
			res.Append(ch)
		}
	}
	if c.R.Intn(2) == 0 {
		res.Encode(nil)
	}
	for _, i := range c.R.Perm(len(later)) {
		later[i]()
		if c.R.Intn(4) == 0 {
			res.Encode(nil)
		}
	}
}

func aroundRecord(c *mon.Case, r *Record, a *aRec) {
	ops := []func(){
		func() {
			if a.key != nil {
				if len(a.key) == 0 {
					r.SetKey(NewEmptyKey())
				} else {
					r.SetKey(buildKey(a.key))
				}
			} else {
				r.SetKey(NewEmptyKey())
			}
		},
		func() {
			if a.value != nil {
				r.SetValue(aroundVal(c, a.value))
			} else {
				r.SetV(nil)
			}
		},
		func() {
			if a.scheme != nil {
				r.SetScheme(aroundVal(c, a.scheme))
			} else {
				r.SetScheme(NewPrimitive(nil))
			}
		},
		func() {
			if a.ts == nil {
				r.SetTimestamp(nil)
				return
			}
			t := time.Unix(*a.ts/1e9, *a.ts%1e9).In([]*time.Location{time.UTC, time.FixedZone("x", 3600*5)}[c.R.Intn(2)])
			r.SetTimestamp(&t)
		},
		func() {
			// the same numbers, other objects
			dup := func(b *big.Int) *big.Int {
				if b == nil {
					return nil
				}
				return new(big.Int).Set(b)
			}
			r.SetSignature(dup(a.r), dup(a.s))
		},
	}
	if c.R.Intn(3) > 0 { // something else first
		dummy := &aRec{}
		for k := 1 + c.R.Intn(6); k > 0; k-- {
			changeRec(c, r, dummy)
			c.Ev("detour")
		}
		if c.R.Intn(2) == 0 {
			r.Encode(nil)
		}
	}
	for _, i := range c.R.Perm(len(ops)) {
		ops[i]()
		if c.R.Intn(5) == 0 {
			r.Encode(nil)
		}
	}
}

// encodings of one content, by different ways
type forms struct {
	c     *mon.Case
	about string
	enc   []byte
	from  string
}

func (f *forms) add(from string, b []byte, err error) {
	f.c.Check(err == nil, "encode-error", "%s: %s: %v", f.about, from, err)
	f.c.Ev("encode")
	if f.enc == nil {
		f.enc, f.from = cp(b), from
		return
	}
	f.c.Ev("compared")
	if !bytes.Equal(f.enc, b) {
		i := 0
		for i < len(b) && i < len(f.enc) && b[i] == f.enc[i] {
			i++
		}
		f.c.Failf("encoding", "%s: encoded as %s (%d bytes) by way of %q, and as %s (%d bytes) by way of %q; they differ from byte %d", f.about, short(f.enc), len(f.enc), f.from, short(b), len(b), from, i)
	}
}

func (f *forms) obj(from string, o IEncodable) {
	err := o.Encode(nil)
	var b []byte
	if err == nil {
		b = o.Buf()
	}
	f.add(from, b, err)
	if err == nil && f.c.R.Intn(3) == 0 {
		err = o.Encode(nil)
		f.add(from+", encoded again", o.Buf(), err)
	}
}

func (f *forms) copies(from string, o IEncodable, err error) {
	f.c.Check(err == nil, "copy-error", "%s: copy by way of %s: %v", f.about, from, err)
	f.obj(from, o)
}

func valForms(c *mon.Case, a *aVal) []byte {
	f := &forms{c: c, about: fmt.Sprint("value ", a)}
	v := build(a)
	f.obj("plain construction", v)
	w := aroundVal(c, a)
	f.obj("a roundabout history", w)
	f.obj("a copy", w.Copy())
	cc, err := w.CopyConstruct()
	f.copies("a constructed copy", cc, err)
	m, _, err := NewStandardMappedValue(follow(c.R, f.enc))
	c.Check(err == nil, "decode-error", "%v: %v", a, err)
	f.add("decoding", m.Buf(), nil)
	f.add("a copy of the decoded one", m.Copy().Buf(), nil)
	if c.R.Intn(2) == 0 {
		diffVal(c, m, a, true) // decode the elements
	}
	cc, err = m.CopyConstruct()
	f.copies("a constructed copy of the decoded one", cc, err)
	return f.enc
}

func recForms(c *mon.Case, a *aRec) []byte {
	f := &forms{c: c, about: fmt.Sprint("record ", a)}
	f.obj("plain construction", buildRec(a))
	w := NewRecord()
	aroundRecord(c, w, a)
	f.obj("a roundabout history", w)
	f.obj("a copy", w.Copy())
	cc, err := w.CopyConstruct()
	f.copies("a constructed copy", cc, err)
	m, _, err := NewMappedRecord(follow(c.R, f.enc))
	c.Check(err == nil, "decode-error", "%v: %v", a, err)
	f.add("decoding", m.Buf(), nil)
	f.add("a copy of the decoded one", m.Copy().Buf(), nil)
	if c.R.Intn(2) == 0 {
		diffRec(c, m, a, true)
	}
	cc, err = m.CopyConstruct()
	f.copies("a constructed copy of the decoded one", cc, err)
	return f.enc
}

func u22(x *mon.Ctx) {
	x.Rule("a case is one content whose encodings by different histories, representations and copies are compared byte by byte; non-trivial: at least four ways were compared; distinct by content")
	foreign(x)
	x.Stream("value", x.N(6000, 200000), func(c *mon.Case) {
		a := genVal(c.R, 1+c.R.Intn(4), []int{10, 60, 300, 2000}[c.R.Intn(4)])
		if _, ok := a.size(); !ok {
			return
		}
		c.Desc("%v", a)
		enc := valForms(c, a)
		c.Nontrivial(a.hash(1))
		// a different content is encoded differently
		h := canonVal(a).hash(1)
		v := build(a)
		for k := 0; k < 3 && a.kind != 'p'; k++ {
			changeVal(c, v, a)
			if _, ok := a.size(); !ok {
				break
			}
			c.Check(v.Encode(nil) == nil, "encode-error", "%v", a)
			same := canonVal(a).hash(1) == h
			c.Check(bytes.Equal(v.Buf(), enc) == same, "encoding-distinct", "after a change (to the same content: %v) the encoding is %s, before %s; value %v", same, short(v.Buf()), short(enc), a)
			c.Ev("compared")
		}
	})
	x.Stream("record", x.N(6000, 200000), func(c *mon.Case) {
		a := genRec(c.R, 1+c.R.Intn(3), []int{20, 200, 1000}[c.R.Intn(3)])
		if _, ok := a.size(); !ok {
			return
		}
		c.Desc("%v", a)
		recForms(c, a)
		c.Nontrivial(a.hash(1))
	})
	x.Stream("key", x.N(6000, 200000), func(c *mon.Case) {
		var a aKey
		switch c.R.Intn(3) {
		case 0:
			a = smallKey(c.R, 4, 4)
		default:
			a = genKey(c.R, []int{20, 300, 4000}[c.R.Intn(3)])
		}
		for _, s := range a {
			if len(s) == 0 {
				return
			}
		}
		if a.size() > maxKey {
			return
		}
		c.Desc("%v", a)
		f := &forms{c: c, about: fmt.Sprint("key ", a)}
		for _, form := range keyForms {
			if strings.Contains(form, "overlong") || form == "empty" && len(a) > 0 {
				continue
			}
			k := keyForm(c, a, form)
			f.obj(form, k)
			if c.R.Intn(3) == 0 {
				f.obj("a copy of "+form, k.Copy())
				cc, err := k.CopyConstruct()
				f.copies("a constructed copy of "+form, cc, err)
			}
		}
		c.Nontrivial(a.hash(1))
	})
	x.Stream("scheme", x.N(2000, 60000), func(c *mon.Case) {
		a := genScheme(c.R, 200)
		if len(a.enc()) > maxScheme {
			return
		}
		c.Desc("%v", a)
		f := &forms{c: c, about: fmt.Sprint("scheme ", a)}
		m := NewMappedSchemd(follow(c.R, a.enc()))
		_, err := m.Decode(nil)
		f.add("decoding", m.Buf(), err)
		cc, err := m.CopyConstruct()
		f.copies("a constructed copy", cc, err)
		f.obj("a copy of that", cc.Copy())
		f.obj("a copy", m.Copy())
		c.Nontrivial(mon.HashBytes(a.enc()))
	})
	// a trie is its keys and values, not how they got there
	for _, u := range universes {
		u := u
		x.Stream("trie-"+u.name, fewer(u.name, x.N(500, 20000), 40), func(c *mon.Case) {
			w := newWorld(u.f(c.R))
			want := map[int]*aVal{}
			for i := range w.keys {
				if c.R.Intn(3) > 0 {
					if v := smallVal(c.R); !v.isNil() {
						want[i] = v
					}
				}
			}
			c.Desc("trie of %d out of %d keys (%s)", len(want), len(w.keys), u.name)
			f := &forms{c: c, about: fmt.Sprintf("trie of %d keys", len(want))}
			enc := func(from string, t *Trie) {
				err := t.Encode(nil)
				if err != nil {
					f.add(from, nil, err)
				}
				f.add(from, t.Buf(), nil)
			}
			for way := 0; way < 4; way++ {
				t := NewTrie()
				name := "in order"
				ord := make([]int, len(w.keys))
				for i := range ord {
					ord[i] = i
				}
				switch way {
				case 1:
					name = "in reverse order"
					for i := range ord {
						ord[i] = len(ord) - 1 - i
					}
				case 2, 3:
					name = "in random order"
					ord = c.R.Perm(len(w.keys))
				}
				if way == 3 {
					name = "by a roundabout history"
					for k := 3 * len(ord); k > 0; k-- {
						i := c.R.Intn(len(ord))
						var v IValue
						if c.R.Intn(2) == 0 {
							v = build(smallVal(c.R))
						}
						t.Set(w.key(c, i), v)
						c.Ev("detour")
						if c.R.Intn(30) == 0 {
							t.Encode(nil)
						}
					}
					for _, i := range ord { // what must go, now or later
						if want[i] == nil && c.R.Intn(2) == 0 {
							t.Set(w.key(c, i), nil)
						}
					}
				}
				for _, i := range ord {
					switch {
					case want[i] != nil:
						t.Set(w.key(c, i), aroundVal(c, want[i]))
					case way == 3:
						t.Set(w.key(c, i), nil)
					}
				}
				enc(name, t)
				if c.R.Intn(3) == 0 {
					enc(name+", encoded again", t)
				}
				if c.R.Intn(3) == 0 {
					enc("a copy of the one built "+name, t.Copy().(*Trie))
				}
				if c.R.Intn(3) == 0 && len(want) > 0 { // changed and changed back
					for i, v := range want {
						t.Set(w.key(c, i), nil)
						if c.R.Intn(2) == 0 {
							t.Encode(nil)
						}
						t.Set(w.key(c, i), build(v))
						break
					}
					enc(name+", changed and changed back", t)
				}
			}
			m, n, err := NewMappedTrie(follow(c.R, f.enc))
			c.Check(err == nil && n == len(f.enc), "decode-error", "%v, %d bytes of %d", err, n, len(f.enc))
			f.add("decoding", m.Buf(), nil)
			f.add("a copy of the decoded one", m.Copy().Buf(), nil)
			c.Nontrivial(mon.HashBytes(f.enc))
		})
	}
}

// ---------------------------------------------------------------- encoding state, printing

type printer interface {
	Print(io.Writer, int)
	ToString() string
}

// printed prints an object, which must neither fail nor change anything.
func printed(c *mon.Case, what string, o interface{}, state func() string) {
	p, ok := o.(printer)
	if !ok {
		return
	}
	before := state()
	for _, indent := range []int{0, c.R.Intn(9)} {
		b := &bytes.Buffer{}
		p.Print(b, indent)
		c.Check(!strings.Contains(b.String(), "%!"), "print-format", "%s printed with indent %d: %s", what, indent, firstLines(b.String()))
		c.Check(b.Len() > 0, "print-nothing", "%s printed with indent %d is nothing", what, indent)
	}
	s := p.ToString()
	c.Check(s != "" && !strings.Contains(s, "%!"), "print-format", "%s as a string: %s", what, firstLines(s))
	c.Check(p.ToString() == s, "print-unsteady", "%s as a string differs the second time", what)
	c.Ev("printed")
	if after := state(); after != before {
		c.Failf("print-changes", "printing %s changed it from %s to %s", what, before, after)
	}
}

func firstLines(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// stateOf is what an object tells of its encoding.
func stateOf(o IEncodable) string {
	if !o.IsEncoded() {
		return fmt.Sprintf("encoded false, decoded %v", o.IsDecoded())
	}
	return fmt.Sprintf("encoded true, decoded %v, %d bytes, hash %x", o.IsDecoded(), len(o.Buf()), mon.HashBytes(o.Buf()))
}

// magicOf is the first byte of the encoding as the object tells it.
func magicOf(o interface{}) (m byte, known bool, told bool) {
	defer func() {
		if recover() != nil {
			known, told = true, false
		}
	}()
	switch v := o.(type) {
	case IValue:
		return v.ValueMagic(), true, true
	case IRecord:
		return v.RecordMagic(), true, true
	case IScheme:
		return v.SchemeMagic(), true, true
	case IConsensusID:
		return v.ConsensusMagic(), true, true
	}
	return 0, false, false
}

// magic judges it.
func magic(c *mon.Case, what string, o IEncodable) {
	m, known, told := magicOf(o)
	if !known {
		return
	}
	if !o.IsEncoded() {
		c.Check(!told, "magic", "%s is not encoded, but tells the first byte %x of its encoding", what, m)
		return
	}
	b := o.Buf()
	c.Check(told && len(b) > 0 && m == b[0], "magic", "%s: first byte told %x (%v), bytes %s", what, m, told, short(b))
	c.Ev("magic")
}

func u23(x *mon.Ctx) {
	x.Rule("a case is one object that is asked for its state and printed at every step of a history; non-trivial: it was both unencoded and encoded, or decoded; distinct by content and history")
	// constructed says what is expected of an object made by a constructor;
	// fresh encodes a new object of the present content
	constructed := func(c *mon.Case, what string, o IEncodable, fresh func() ([]byte, bool)) {
		st := func() string { return stateOf(o) }
		c.Check(o.IsDecoded(), "state", "constructed %s says it is not decoded", what)
		if o.IsEncoded() {
			want, ok := fresh()
			c.Check(ok && bytes.Equal(o.Buf(), want), "state-stale", "%s says it is encoded, but its bytes %s are not those of its content, %s", what, short(o.Buf()), short(want))
			c.Ev("claimed-encoded")
		} else {
			p, _, _ := c.Try(func() { o.Buf() })
			c.Check(p, "state-stale", "%s says it is not encoded, but gives bytes", what)
			c.Ev("claimed-unencoded")
		}
		magic(c, what, o)
		before := st()
		if _, empty := o.(*EmptyKey); !empty {
			n, err := o.Decode(nil)
			c.Check(err != nil, "state-decode", "decoding a constructed %s: %d, no error", what, n)
		}
		c.Check(st() == before, "state", "a refused decode changed %s from %s to %s", what, before, st())
		printed(c, what, o, st)
		err := o.Encode(nil)
		want, ok := fresh()
		c.Check((err == nil) == ok, "state-encode", "%s: encode: %v, a new one of the same content: %v", what, err, ok)
		if err == nil {
			c.Check(o.IsEncoded() && bytes.Equal(o.Buf(), want), "state", "%s after encoding: %s, want %d bytes %s", what, st(), len(want), short(want))
			c.Ev("encoded")
			magic(c, what, o)
			c.Check(o.EstBufSize() >= 0, "estimate", "%s estimates %d bytes", what, o.EstBufSize())
			printed(c, what, o, st)
		} else {
			c.Check(!o.IsEncoded(), "state-refused", "%s cannot be encoded, but says it is", what)
			magic(c, what, o)
			c.Ev("refused")
		}
	}
	try := func(o IEncodable) ([]byte, bool) {
		if o.Encode(nil) != nil {
			return nil, false
		}
		return o.Buf(), true
	}
	x.Stream("value", x.N(3000, 100000), func(c *mon.Case) {
		a := genVal(c.R, 1+c.R.Intn(3), []int{10, 60, 300, 3000}[c.R.Intn(4)])
		if c.R.Intn(20) == 0 {
			a = &aVal{kind: 'p', data: randBytes(c.R, 65530+c.R.Intn(12))}
		}
		c.Desc("%v", a)
		v := build(a)
		fresh := func() ([]byte, bool) { return try(build(a)) }
		constructed(c, fmt.Sprintf("value %v", a), v, fresh)
		for k := 0; k < 4; k++ {
			own := false
			if a.kind != 'p' {
				own = changeVal(c, v, a)
			}
			if own || a.kind == 'p' { // told of the change
				constructed(c, fmt.Sprintf("value %v", a), v, fresh)
			} else {
				v.Encode(nil)
			}
		}
		c.Nontrivial(a.hash(1))
	})
	x.Stream("record", x.N(3000, 100000), func(c *mon.Case) {
		a := genRec(c.R, 1+c.R.Intn(3), []int{20, 200, 1000}[c.R.Intn(3)])
		switch c.R.Intn(40) { // components around and above their limits
		case 0:
			a.key = aKey{randBytes(c.R, maxKey-6+c.R.Intn(8))}
		case 1:
			a.value = &aVal{kind: 'p', data: randBytes(c.R, maxRecVal-6+c.R.Intn(8))}
		case 2:
			a.scheme = &aVal{kind: 'p', data: randBytes(c.R, maxScheme-6+c.R.Intn(8))}
		}
		c.Desc("%v", a)
		r := buildRec(a)
		fresh := func() ([]byte, bool) { return try(buildRec(a)) }
		constructed(c, fmt.Sprintf("record %v", a), r, fresh)
		for k := 0; k < 5; k++ {
			old := a.value
			changeRec(c, r, a)
			if old != a.value || old == nil || old.kind != 'a' {
				constructed(c, fmt.Sprintf("record %v", a), r, fresh)
			} else {
				r.Encode(nil)
			}
		}
		c.Nontrivial(a.hash(1))
	})
	x.Stream("key", x.N(3000, 100000), func(c *mon.Case) {
		a := aKey{}
		if c.R.Intn(3) == 0 {
			a = genKey(c.R, []int{20, 300, 4090}[c.R.Intn(3)])
		}
		for _, s := range a {
			if len(s) == 0 {
				return
			}
		}
		k := buildKey(a)
		fresh := func() ([]byte, bool) { return refKey(a), a.size() <= maxKey }
		for step := 0; step < 5; step++ {
			constructed(c, fmt.Sprintf("key %v", a), k, fresh)
			s := randBytes(c.R, 1+c.R.Intn(40))
			if c.R.Intn(12) == 0 { // around the limit
				if n := maxKey - a.size() - 4 + c.R.Intn(8); n > 0 {
					s = randBytes(c.R, n)
				}
			}
			k.Add(s)
			a = append(a, s)
		}
		constructed(c, fmt.Sprintf("key %v", a), k, fresh)
		c.Desc("%v", a)
		c.Nontrivial(a.hash(1))
		constructed(c, "empty key", NewEmptyKey(), func() ([]byte, bool) { return []byte{0}, true })
	})
	x.Stream("trie", x.N(800, 20000), func(c *mon.Case) {
		u := universes[c.R.Intn(len(universes)-1)]
		w := newWorld(u.f(c.R))
		t := NewTrie()
		fresh := func() ([]byte, bool) {
			n := NewTrie()
			for i, a := range w.abs {
				if a != nil {
					n.Set(buildKey(w.keys[i]), build(a))
				}
			}
			return try(n)
		}
		constructed(c, "empty trie", t, fresh)
		h, big := uint64(1), c.R.Intn(10) == 0 // with values around and above the limit
		for step := 0; step < 12; step++ {
			i := c.R.Intn(len(w.keys))
			var a *aVal
			if c.R.Intn(4) > 0 {
				a = smallVal(c.R)
			}
			if big && c.R.Intn(4) == 0 {
				a = &aVal{kind: 'p', data: randBytes(c.R, maxContent-1+c.R.Intn(4))}
			}
			if step > 4 && c.R.Intn(3) == 0 { // one that is there
				for j, a := range w.abs {
					if a != nil && a.kind != 'p' && c.R.Intn(3) > 0 {
						i = j
					}
				}
			}
			if v := w.vals[i]; v != nil && w.abs[i].kind != 'p' && c.R.Intn(2) == 0 { // changed by its owner, and put again
				changeVal(c, v, w.abs[i])
				if c.R.Intn(4) == 0 {
					v.Encode(nil)
				}
				c.Check(t.Set(w.key(c, i), v) == v, "set-old", "Set of a value in its own place returns another")
				c.Ev("put-again")
			} else {
				w.set(c, t, i, a)
			}
			h = mon.Mix(h, uint64(i), hb(a == nil))
			constructed(c, fmt.Sprintf("trie %v", w), t, fresh)
		}
		c.Desc("history of a trie of %s keys", u.name)
		c.Nontrivial(h)
	})
	// decoded objects are both encoded and decoded, whatever is asked of them
	for _, k := range kinds {
		k := k
		x.Stream("decoded-"+k.name, x.N(400, 10000), func(c *mon.Case) {
			enc := k.valid(c.R)
			buf := cp(enc)
			if k.delimit {
				buf = follow(c.R, enc)
			}
			o, n, err := k.open(buf)
			c.Check(err == nil, "decode-error", "decoding a %s: %v", k.name, err)
			c.Nontrivial(mon.HashBytes(enc))
			e, ok := o.(IEncodable)
			if !ok {
				return
			}
			what := fmt.Sprintf("decoded %s %s", k.name, short(enc))
			st := func() string { return stateOf(e) }
			c.Check(e.IsEncoded() && e.IsDecoded(), "state", "%s: %s", what, st())
			if k.delimit {
				want := buf[:n]
				if key, is := o.(IKey); is && key.IsEmpty() {
					want = []byte{0}
				}
				c.Check(bytes.Equal(e.Buf(), want), "state", "%s consumed %d bytes, but its buffer is %s", what, n, short(e.Buf()))
			}
			magic(c, what, e)
			before := st()
			printed(c, what, o, st)
			e.Encode(nil) // refused, or nothing to do
			c.Check(st() == before, "state", "encoding a %s changed it from %s to %s", what, before, st())
			c.Ev("decoded")
			cc, err := e.CopyConstruct()
			if err == nil {
				printed(c, "constructed copy of "+what, cc, func() string { return stateOf(cc) })
				if fmt.Sprintf("%T", cc) != fmt.Sprintf("%T", o) {
					constructed(c, "constructed copy of "+what, cc, func() ([]byte, bool) {
						o, _, _ := k.open(cp(enc))
						n, err := o.(IEncodable).CopyConstruct()
						c.Check(err == nil, "copy", "constructed copy of %s: %v", what, err)
						return try(n)
					})
				}
				if cc.IsEncoded() && k.delimit {
					c.Check(cc.IsDecoded() && len(cc.Buf()) > 0, "state", "constructed copy of %s: %s", what, stateOf(cc))
				}
			}
			printed(c, "copy of "+what, e.Copy(), func() string { return stateOf(e.Copy()) })
			c.Check(st() == before, "state", "copying a %s changed it from %s to %s", what, before, st())
		})
	}
}

// ---------------------------------------------------------------- foreign encodings

// contentVal reads what a decoded value contains; false if a part of it is malformed.
func contentVal(v IValue, budget *int) (*aVal, bool) {
	*budget--
	if *budget < 0 || v == nil {
		return nil, false
	}
	switch {
	case v.IsNil():
		return &aVal{kind: 'p'}, true
	case v.IsValueArray():
		res := &aVal{kind: 'a'}
		for i := 0; i < int(v.Size()); i++ {
			e, err := v.ValueAt(uint16(i))
			if err != nil {
				return nil, false
			}
			a, ok := contentVal(e, budget)
			if !ok {
				return nil, false
			}
			res.vals = append(res.vals, a)
		}
		return res, true
	case v.IsRecordList():
		res := &aVal{kind: 'r'}
		for i := 0; i < int(v.Size()); i++ {
			e, err := v.RecordAt(uint16(i))
			if err != nil {
				return nil, false
			}
			a, ok := contentRec(e, budget)
			if !ok {
				return nil, false
			}
			res.recs = append(res.recs, a)
		}
		return res, true
	case v.IsPrimitive():
		return &aVal{kind: 'p', data: cp(v.Value())}, true
	}
	return nil, false
}

func contentRec(r IRecord, budget *int) (*aRec, bool) {
	*budget--
	a := &aRec{key: cpKey(r.Key().Key())}
	var ok bool
	if a.value, ok = contentVal(r.Value(), budget); !ok {
		return nil, false
	}
	if a.scheme, ok = contentVal(r.Scheme(), budget); !ok {
		return nil, false
	}
	if t := r.Timestamp(); t != nil {
		n := t.UnixNano()
		a.ts = &n
	}
	a.r, a.s = r.Signature()
	return canonRec(a), *budget >= 0
}

// foreign: whatever is decoded, from bytes in another form than the own one as
// well, is the same content after it was constructed anew, encoded and decoded;
// and that encoding is the one it stays with.
func foreign(x *mon.Ctx) {
	type content struct {
		h  uint64
		ok bool
	}
	look := func(o interface{}) content {
		budget := 3000
		switch t := o.(type) {
		case IKey:
			return content{aKey(t.Key()).hash(1), true}
		case IValue:
			if a, ok := contentVal(t, &budget); ok {
				return content{canonVal(a).hash(1), true}
			}
		case IRecord:
			if a, ok := contentRec(t, &budget); ok {
				return content{a.hash(1), true}
			}
		case IScheme:
			return content{mon.HashBytes((&aScheme{t.Domain(), t.Tablet(), t.Buckets()}).enc()), true}
		}
		return content{}
	}
	again := func(c *mon.Case, k *kind, what string, o IEncodable) (enc []byte, ok bool) {
		cc, err := o.CopyConstruct()
		c.Check(err == nil, "foreign-copy", "%s: CopyConstruct: %v", what, err)
		if cc.Encode(nil) != nil {
			c.Ev("foreign-too-large")
			return nil, false
		}
		return cp(cc.Buf()), true
	}
	for _, name := range []string{"key", "value", "record", "scheme"} {
		k := kindNamed(name)
		x.Stream("foreign-"+name, x.N(700, 20000), func(c *mon.Case) {
			valid := k.valid(c.R)
			c.Desc("%s: mutations of %s", name, short(valid))
			for i := 0; i < 25; i++ {
				b := mutate(c.R, valid, func() []byte { return kindNamed([]string{"key", "value", "record", "scheme"}[c.R.Intn(4)]).valid(c.R) })
				if i%5 == 0 && len(b) > 0 {
					b[c.R.Intn(min(len(b), 6))] ^= 1 << uint(c.R.Intn(8))
				}
				o, _, err := k.open(b)
				if err != nil {
					continue
				}
				want := look(o)
				if !want.ok {
					c.Ev("foreign-malformed")
					continue
				}
				if name == "key" { // an empty sub key is one that only bytes can hold
					empty := false
					for _, s := range o.(IKey).Key() {
						empty = empty || len(s) == 0
					}
					if empty {
						continue
					}
				}
				what := name + " decoded from " + short(b)
				enc, ok := again(c, k, what, o.(IEncodable))
				if !ok {
					continue
				}
				p, n, err := k.open(enc)
				c.Check(err == nil && n == len(enc), "foreign-decode", "%s is encoded anew as %s, which decodes with %d bytes consumed, %v", what, short(enc), n, err)
				got := look(p)
				c.Check(got == want, "foreign-content", "%s is encoded anew as %s, which is another content", what, short(enc))
				enc2, ok := again(c, k, what+", encoded anew", p.(IEncodable))
				c.Check(ok && bytes.Equal(enc, enc2), "foreign-again", "%s is encoded anew as %s, and then as %s", what, short(enc), short(enc2))
				c.Ev("foreign")
				c.Nontrivial(mon.HashBytes(b))
			}
		})
	}
}

// foreignTries: in a trie that is decoded from any bytes, iteration ascends, and
// finds what Get finds.
func foreignTries(x *mon.Ctx) {
	k := kindNamed("trie")
	x.Stream("foreign", x.N(1200, 40000), func(c *mon.Case) {
		valid := validTrie(c.R, 1+c.R.Intn(12))
		c.Desc("trie: mutations of %s", short(valid))
		for i := 0; i < 40; i++ {
			b := mutate(c.R, valid, func() []byte { return validTrie(c.R, 1+c.R.Intn(12)) })
			if i%2 == 0 { // a small change only
				b = cp(valid)
				b[c.R.Intn(len(b))] ^= 1 << uint(c.R.Intn(8))
			}
			o, _, err := k.open(b)
			if err != nil {
				continue
			}
			t := o.(*MappedTrie)
			what := "trie decoded from " + short(b)
			var prev aKey
			n := 0
			for it := t.Iterator(); it.HasNext() && n < 500; n++ {
				key, v := it.Next()
				a := cpKey(key.Key())
				c.Check(n == 0 || refCompare(prev, a) < 0, "foreign-order", "%s: %v is iterated after %v", what, a, prev)
				prev = a
				got := t.Get(key)
				c.Check((got == nil) == (v == nil) && (v == nil || bytes.Equal(got.Buf(), v.Buf())), "foreign-get", "%s: Get and iteration differ for %v", what, a)
				if ki := t.KeyIterator(key); ki.HasNext() {
					f, _ := ki.Next()
					c.Check(refCompare(f.Key(), a) == 0, "foreign-prefix", "%s: iteration below %v starts with %v", what, a, f.Key())
				} else {
					c.Failf("foreign-prefix", "%s: iteration below %v is empty", what, a)
				}
				if n < 8 {
					ri := t.RangeIterator(key, nil)
					c.Check(ri.HasNext(), "foreign-range", "%s: iteration from %v on is empty", what, a)
					f, _ := ri.Next()
					c.Check(refCompare(f.Key(), a) == 0, "foreign-range", "%s: iteration from %v on starts with %v", what, a, f.Key())
				}
			}
			c.Evf("foreign", "%d keys", n)
			c.Nontrivial(mon.HashBytes(b))
		}
	})
}
