package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"time"

	. "../../../repo/src/util"
	"../mon"
)

// scrambler changes everything that can be changed about an object.
type scrambler struct {
	r *rand.Rand
	n int
}

func (s *scrambler) bytes(b []byte) {
	for i := range b {
		b[i] ^= byte(0x11 + i%7)
		s.n++
	}
	b = b[:cap(b)] // and what append would overwrite
	for i := range b {
		b[i] ^= 0x80
	}
}

func (s *scrambler) key(k IKey) {
	if k == nil {
		return
	}
	switch t := k.(type) {
	case *Key:
		if t.IsEncoded() {
			s.bytes(t.Buf())
		}
		for i := range t.Key() {
			s.bytes(t.SubKeyAt(i))
		}
		ks := t.Key()
		for i := range ks { // the list itself
			ks[i] = []byte("overwritten")
		}
		t.Add([]byte("added"))
	case *MappedKey:
		ks := t.Key()
		s.bytes(t.Buf())
		for i := range ks {
			s.bytes(ks[i])
			ks[i] = []byte("overwritten")
		}
	}
}

func (s *scrambler) value(v IValue) {
	if v == nil {
		return
	}
	elems := []IValue{}
	recs := []IRecord{}
	if v.IsValueArray() || v.IsRecordList() {
		for i := 0; i < int(v.Size()); i++ {
			if e, err := v.ValueAt(uint16(i)); err == nil {
				elems = append(elems, e)
			}
			if e, err := v.RecordAt(uint16(i)); err == nil {
				recs = append(recs, e)
			}
		}
	}
	if v.IsEncoded() {
		s.bytes(v.Buf())
	}
	if v.IsPrimitive() {
		s.bytes(v.Value())
	}
	for _, e := range elems {
		s.value(e)
	}
	for _, e := range recs {
		s.record(e)
	}
	switch t := v.(type) {
	case *ValueArray:
		if s.r.Intn(2) == 0 && t.Size() > 0 {
			t.DeleteAt(uint16(s.r.Intn(int(t.Size()))))
		}
		t.Append(NewPrimitive([]byte("appended")))
		if s.r.Intn(2) == 0 {
			t.DeleteAt(0)
		}
		t.Encode(nil)
	case *RecordList:
		if s.r.Intn(2) == 0 && t.Size() > 0 {
			t.DeleteAt(uint16(s.r.Intn(int(t.Size()))))
		}
		t.Append(NewRecord().SetK([]byte("appended")))
		if s.r.Intn(2) == 0 {
			t.DeleteAt(0)
		}
		t.Encode(nil)
	case *Primitive:
		t.Encode(nil)
	}
	s.n++
}

func (s *scrambler) record(r IRecord) {
	k, v, sc := r.Key(), r.Value(), r.Scheme()
	if r.IsEncoded() {
		s.bytes(r.Buf())
	}
	s.key(k)
	s.value(v)
	s.value(sc)
	if t, ok := r.(*Record); ok {
		now := time.Unix(7, 7)
		switch s.r.Intn(3) {
		case 0:
			t.SetK([]byte("k")).SetV([]byte("v")).SetS([]byte("s")).SetTimestamp(&now).SetSignature(nil, nil)
		case 1:
			t.SetKey(NewStringKey("k")).SetValue(NewPrimitive([]byte("v"))).SetScheme(NewValueArray()).SetTimestamp(nil)
		}
		t.Encode(nil)
	}
	s.n++
}

func (s *scrambler) scheme(o IScheme) {
	if o.IsEncoded() {
		s.bytes(o.Buf())
	}
	s.bytes(o.Domain())
	s.bytes(o.Tablet())
	bs := o.Buckets()
	for i := range bs {
		s.bytes(bs[i])
		bs[i] = []byte("overwritten")
	}
	o.Encode(nil)
	s.n++
}

func (s *scrambler) trie(t trie) {
	type kv struct {
		k IKey
		v IValue
	}
	var all []kv
	for it := t.Iterator(); it.HasNext() && len(all) < 300; {
		k, v := it.Next()
		all = append(all, kv{k, v})
	}
	if e, ok := t.(IEncodable); ok && e.IsEncoded() {
		s.bytes(t.Buf())
	}
	if c, ok := t.(*Trie); ok {
		for _, e := range all {
			switch s.r.Intn(3) {
			case 0:
				c.Set(e.k, nil)
			case 1:
				c.Set(e.k, NewPrimitive([]byte("replaced")))
			}
		}
		c.Set(NewStringKey("added"), NewPrimitive([]byte{1}))
		c.Set(NewKey(), NewPrimitive([]byte{2}))
		c.Encode(nil)
	}
	for _, e := range all {
		s.value(e.v)
		if k, ok := e.k.(*Key); ok { // may be the trie's own bytes
			for i := range k.Key() {
				s.bytes(k.SubKeyAt(i))
			}
		}
	}
	s.n++
}

func (s *scrambler) any(o interface{}) {
	switch t := o.(type) {
	case IKey:
		s.key(t)
	case IValue:
		s.value(t)
	case IRecord:
		s.record(t)
	case IScheme:
		s.scheme(t)
	case trie:
		s.trie(t)
	case IConsensusID:
		s.bytes(t.Buf())
	default:
		panic(fmt.Sprintf("no scrambling of %T", o))
	}
}

// diffTrie compares a trie with its content.
func diffTrie(c *mon.Case, t trie, want map[string]*tEntry, decoded bool) string {
	seen := 0
	for it := t.Iterator(); it.HasNext(); {
		k, v := it.Next()
		if v == nil {
			continue
		}
		e := want[string(refKey(aKey(k.Key())))]
		if e == nil {
			return fmt.Sprintf("iteration gives %v, which is not stored", aKey(k.Key()))
		}
		if d := diffVal(c, v, e.val, decoded); d != "" {
			return fmt.Sprintf("value of %v: %s", e.key, d)
		}
		seen++
	}
	n := 0
	for _, e := range want {
		if decoded && e.val.isNil() {
			continue
		}
		n++
		v := t.Get(buildKey(e.key))
		if v == nil {
			return fmt.Sprintf("no value for %v", e.key)
		}
		if d := diffVal(c, v, e.val, decoded); d != "" {
			return fmt.Sprintf("value of %v: %s", e.key, d)
		}
	}
	if n != seen {
		return fmt.Sprintf("iteration gives %d values of %d", seen, n)
	}
	return ""
}

type tEntry struct {
	key aKey
	val *aVal
}

// subject is an object together with what is known about it.
type subject struct {
	what string
	obj  interface{}
	buf  []byte                                                       // the caller's bytes it was decoded from
	enc  []byte                                                       // what it encodes to, if it can be encoded
	diff func(c *mon.Case, o interface{}, decoded, canon bool) string // compare an object with the content
	dec  bool                                                         // it was decoded
	// constructed copies
	modify func(o interface{})
}

// mixVal builds a value of which some parts are decoded ones.
func mixVal(c *mon.Case, a *aVal) (IValue, bool) {
	if c.R.Intn(3) == 0 || a.kind == 'p' && c.R.Intn(2) == 0 {
		v := build(a)
		if v.Encode(nil) == nil {
			m, _, err := NewStandardMappedValue(cp(v.Buf()))
			if err != nil {
				c.Failf("value-decode-error", "decoding %v: %v", a, err)
			}
			return m, true
		}
	}
	switch a.kind {
	case 'p':
		return build(a), false
	case 'a':
		res, mixed := NewValueArray(), false
		for _, e := range a.vals {
			v, m := mixVal(c, e)
			res.Append(v)
			mixed = mixed || m
		}
		return res, mixed
	}
	res, mixed := NewRecordList(), false
	for _, e := range a.recs {
		v, m := mixRec(c, e)
		res.Append(v)
		mixed = mixed || m
	}
	return res, mixed
}

func mixRec(c *mon.Case, a *aRec) (IRecord, bool) {
	if c.R.Intn(3) == 0 {
		r := buildRec(a)
		if r.Encode(nil) == nil {
			m, _, err := NewMappedRecord(cp(r.Buf()))
			if err != nil {
				c.Failf("record-decode-error", "decoding %v: %v", a, err)
			}
			return m, true
		}
	}
	r, mixed := buildRec(a), false
	if a.key != nil && c.R.Intn(2) == 0 && a.key.size() <= maxKey {
		r.SetKey(keyForm(c, a.key, "decoded"))
		mixed = true
	}
	if a.value != nil {
		v, m := mixVal(c, a.value)
		r.SetValue(v)
		mixed = mixed || m
	}
	if a.scheme != nil {
		v, m := mixVal(c, a.scheme)
		r.SetScheme(v)
		mixed = mixed || m
	}
	return r, mixed
}

// embed puts bytes into a larger buffer, all of which is the caller's.
func embed(r *rand.Rand, enc []byte) []byte { return follow(r, enc) }

// wideSubjects lets some subjects be large (too much for readers watched by the race detector).
var wideSubjects bool

// wideVal is a value of many elements, or of many bytes.
func wideVal(c *mon.Case) *aVal {
	r := c.R
	c.Ev("wide")
	if r.Intn(3) == 0 {
		return &aVal{kind: 'p', data: randFull(r, []int{20000, 32768, 40000, 57000}[r.Intn(4)]+r.Intn(300))}
	}
	a := &aVal{kind: 'a'}
	if r.Intn(2) == 0 {
		a.kind = 'r'
	}
	for n := []int{250, 256, 300, 512, 1000, 1024}[r.Intn(6)] + r.Intn(12); n > 0; n-- {
		if a.kind == 'a' {
			a.vals = append(a.vals, genVal(r, 0, 20))
		} else {
			a.recs = append(a.recs, genRec(r, 0, 20))
		}
	}
	if r.Intn(3) == 0 { // below another
		a = &aVal{kind: 'a', vals: []*aVal{genVal(r, 0, 20), a}}
	}
	return a
}

func subjectVal(c *mon.Case, form string) *subject {
	limit := 300
	if c.R.Intn(10) == 0 {
		limit = 9000
	}
	gen := func() *aVal { return genVal(c.R, 3, limit) }
	if c.R.Intn(60) == 0 && wideSubjects {
		gen = func() *aVal { return wideVal(c) }
	}
	a := gen()
	for form != "constructed" && build(canonVal(a)).Encode(nil) != nil { // a key too long
		a = gen()
	}
	if _, fits := a.size(); form == "mixed" || form == "decoded" && !fits {
		a = canonVal(a)
	}
	s := &subject{what: fmt.Sprintf("%s value %v", form, a)}
	s.diff = func(c *mon.Case, o interface{}, decoded, canon bool) string {
		w := a
		if canon {
			w = canonVal(a)
		}
		return diffVal(c, o.(IValue), w, decoded)
	}
	v := build(a)
	if v.Encode(nil) == nil {
		s.enc = cp(v.Buf())
	}
	switch form {
	case "constructed":
		v = build(a)
		if c.R.Intn(2) == 0 {
			v.Encode(nil)
		}
		s.obj = v
	case "decoded":
		s.buf = embed(c.R, s.enc)
		m, _, err := NewStandardMappedValue(s.buf)
		c.Check(err == nil, "value-decode-error", "decoding %v: %v", a, err)
		s.obj, s.dec = m, true
	default:
		s.obj, _ = mixVal(c, a)
		if _, ok := s.obj.(*StandardMappedValue); ok {
			s.dec = true
		}
	}
	s.modify = func(o interface{}) {
		m := deepVal(a)
		if form != "constructed" {
			m = canonVal(a)
		}
		v := o.(IValue)
		if m.kind == 'p' {
			if _, ok := v.(*Primitive); !ok && !a.isNil() {
				c.Failf("copy-construct", "constructed copy of %s is %T", s.what, v)
			}
			if a.isNil() {
				return
			}
		}
		for i := 0; i < 3; i++ {
			changeVal(c, v, m)
		}
		if enc := encodeVal(c, v, m); enc != nil {
			checkDecodedVal(c, enc, m)
		}
	}
	return s
}

// deepVal copies the content.
func deepVal(v *aVal) *aVal {
	if v == nil {
		return nil
	}
	res := &aVal{kind: v.kind, data: v.data}
	for _, e := range v.vals {
		res.vals = append(res.vals, deepVal(e))
	}
	for _, e := range v.recs {
		res.recs = append(res.recs, deepRec(e))
	}
	return res
}

func deepRec(a *aRec) *aRec {
	return &aRec{key: cpKey(a.key), value: deepVal(a.value), scheme: deepVal(a.scheme), ts: a.ts, r: a.r, s: a.s}
}

func subjectRec(c *mon.Case, form string) *subject {
	limit := 400
	if c.R.Intn(10) == 0 {
		limit = 9000
	}
	gen := func() *aRec { return genRec(c.R, 3, limit) }
	if c.R.Intn(60) == 0 && wideSubjects {
		gen = func() *aRec {
			a := genRec(c.R, 3, limit)
			if c.R.Intn(4) > 0 {
				a.value = wideVal(c)
			} else {
				a.scheme = wideVal(c)
			}
			return a
		}
	}
	a := gen()
	for form != "constructed" {
		if buildRec(a).Encode(nil) == nil {
			break
		}
		a = gen()
	}
	if form == "mixed" {
		a = canonRec(a)
	}
	s := &subject{what: fmt.Sprintf("%s record %v", form, a)}
	s.diff = func(c *mon.Case, o interface{}, decoded, canon bool) string {
		w := a
		if canon {
			w = canonRec(a)
		}
		return diffRec(c, o.(IRecord), w, decoded)
	}
	r := buildRec(a)
	if r.Encode(nil) == nil {
		s.enc = cp(r.Buf())
	}
	switch form {
	case "constructed":
		r = buildRec(a)
		if c.R.Intn(2) == 0 {
			r.Encode(nil)
		}
		s.obj = r
	case "decoded":
		s.buf = embed(c.R, s.enc)
		m, _, err := NewMappedRecord(s.buf)
		c.Check(err == nil, "record-decode-error", "decoding %v: %v", a, err)
		s.obj, s.dec = m, true
	default:
		s.obj, _ = mixRec(c, a)
		if _, ok := s.obj.(*MappedRecord); ok {
			s.dec = true
		}
	}
	s.modify = func(o interface{}) {
		m := deepRec(a)
		if form != "constructed" {
			m = canonRec(a)
		}
		r := o.(*Record)
		for i := 0; i < 3; i++ {
			changeRec(c, r, m)
		}
		if enc := encodeRec(c, r, m); enc != nil {
			checkDecodedRec(c, enc, m)
		}
	}
	return s
}

func subjectKey(c *mon.Case, form string) *subject {
	limit := 300
	if c.R.Intn(8) == 0 {
		limit = maxKey - 100
	}
	a := genKey(c.R, limit)
	for limit > 300 && len(refKey(a)) > maxKey-100 {
		a = genKey(c.R, limit)
	}
	s := &subject{what: fmt.Sprintf("%s key %v", form, a), enc: refKey(a)}
	s.diff = func(c *mon.Case, o interface{}, decoded, canon bool) string { return diffKey(o.(IKey), a) }
	switch form {
	case "constructed":
		k := buildKey(a)
		if c.R.Intn(2) == 0 {
			k.Encode(nil)
		}
		s.obj = k
	case "decoded":
		s.buf = embed(c.R, s.enc)
		m, _, err := NewMappedKey(s.buf)
		c.Check(err == nil, "key-decode-error", "decoding %v: %v", a, err)
		s.obj, s.dec = m, true
	default:
		s.obj = keyForm(c, a, keyForms[c.R.Intn(len(keyForms))])
		_, s.dec = s.obj.(*MappedKey)
	}
	s.modify = func(o interface{}) {
		k, ok := o.(*Key)
		if !ok { // the empty key
			if len(a) > 0 {
				c.Failf("copy-construct", "constructed copy of %s is %T", s.what, o)
			}
			return
		}
		m := cpKey(a)
		for i := 0; i < 2; i++ {
			sub := randBytes(c.R, 1+c.R.Intn(9))
			k.Add(cp(sub))
			m = append(m, sub)
		}
		if enc := encodeKey(c, k, m); enc != nil {
			checkDecodedKey(c, enc, m)
		}
	}
	return s
}

func subjectScheme(c *mon.Case, form string) *subject {
	limit := 200
	if c.R.Intn(8) == 0 { // long components; too long to be encoded again, perhaps
		limit = 6000
	}
	a := genScheme(c.R, limit)
	s := &subject{what: fmt.Sprintf("%s scheme %v", form, a), enc: a.enc()}
	s.diff = func(c *mon.Case, o interface{}, decoded, canon bool) string { return diffScheme(o.(IScheme), a) }
	s.buf = embed(c.R, s.enc)
	if len(s.enc) > maxScheme {
		s.enc = nil
		c.Ev("long-scheme")
	}
	m := NewMappedSchemd(s.buf)
	_, err := m.Decode(nil)
	c.Check(err == nil, "scheme-decode-error", "decoding %v: %v", a, err)
	s.obj = m
	if form != "decoded" { // the only way to construct one
		s.obj, s.buf = m.Copy(), nil
		if form == "constructed" {
			s.obj.(*Scheme).Encode(nil)
		}
	}
	return s
}

func subjectTrie(c *mon.Case, form string) *subject {
	want := map[string]*tEntry{}
	t := NewTrie()
	n := c.R.Intn(25)
	if c.R.Intn(60) == 0 && wideSubjects {
		n = 250 + c.R.Intn(1000)
		c.Ev("wide")
	}
	deep := aKey{}
	for i := n; i > 0; i-- {
		k := smallKey(c.R, 4, 3)
		switch {
		case n > 25 && i%4 == 0 && len(deep) < 300: // many below each other
			deep = append(cpKey(deep), randFull(c.R, 1))
			k = deep
		case n > 25: // and side by side
			k = append(aKey{{byte(i), byte(i >> 8)}}, k[:min(len(k), 1)]...)
		case c.R.Intn(8) == 0:
			k = genKey(c.R, 60)
		}
		if len(k) == 1 && len(k[0]) == 0 { // sub keys of a trie have at least a byte
			continue
		}
		a := genVal(c.R, 2, 80)
		v := build(a)
		if form == "mixed" {
			a = canonVal(a)
			v, _ = mixVal(c, a)
		}
		want[string(refKey(k))] = &tEntry{k, a}
		t.Set(buildKey(k), v)
	}
	s := &subject{what: fmt.Sprintf("%s trie of %d keys", form, len(want))}
	s.diff = func(c *mon.Case, o interface{}, decoded, canon bool) string {
		w := want
		if canon {
			w = map[string]*tEntry{}
			for id, e := range want {
				w[id] = &tEntry{e.key, canonVal(e.val)}
			}
		}
		return diffTrie(c, o.(trie), w, decoded)
	}
	s.obj = t
	if form == "mixed" {
		return s
	}
	enc := NewTrie()
	for _, e := range want {
		enc.Set(buildKey(e.key), build(e.val))
	}
	c.Check(enc.Encode(nil) == nil, "trie-encode", "encoding a trie fails")
	s.enc = cp(enc.Buf())
	if form == "decoded" {
		s.buf = embed(c.R, s.enc)
		m, _, err := NewMappedTrie(s.buf)
		c.Check(err == nil, "trie-decode-error", "decoding a trie: %v", err)
		s.obj, s.dec = m, true
	} else if c.R.Intn(2) == 0 {
		t.Encode(nil)
	}
	s.modify = func(o interface{}) {
		m := o.(*Trie)
		k := smallKey(c.R, 4, 3)
		m.Set(buildKey(k), NewPrimitive([]byte("changed")))
		want[string(refKey(k))] = &tEntry{k, &aVal{kind: 'p', data: []byte("changed")}}
		c.Check(m.Encode(nil) == nil, "copy-encode", "encoding a changed copy of a trie fails")
		d, _, err := NewMappedTrie(cp(m.Buf()))
		c.Check(err == nil, "copy-encode", "decoding a changed copy of a trie: %v", err)
		if x := s.diff(c, d, true, true); x != "" {
			c.Failf("copy-encode", "changed copy of a trie: %s", x)
		}
	}
	return s
}

func tryEncode(o interface{}) ([]byte, error) {
	e := o.(IEncodable)
	if !e.IsEncoded() {
		if err := e.Encode(nil); err != nil {
			return nil, err
		}
	}
	return cp(e.Buf()), nil
}

func u09(x *mon.Ctx) {
	x.Rule("distinct objects (as hashed) that were copied, and of which one side was changed")
	wideSubjects = true
	subjects := []struct {
		name string
		f    func(*mon.Case, string) *subject
	}{{"value", subjectVal}, {"record", subjectRec}, {"key", subjectKey}, {"scheme", subjectScheme}, {"trie", subjectTrie}}
	for _, sub := range subjects {
		sub := sub
		for _, form := range []string{"constructed", "decoded", "mixed"} {
			form := form
			n := x.N(1600, 60000)
			if sub.name == "scheme" || sub.name == "key" {
				n /= 2
			}
			x.Stream(sub.name+"-"+form, n, func(c *mon.Case) {
				s := sub.f(c, form)
				c.Desc("%s", s.what)
				copyCase(c, sub.name, form, s)
			})
		}
	}
	x.Stream("consensus-id", x.N(1000, 30000), func(c *mon.Case) {
		enc := validID(c.R)
		buf := embed(c.R, enc)
		id, err := NewMappedConsensusID(buf)
		c.Check(err == nil, "id-decode-error", "decoding %x: %v", enc, err)
		cop := id.Copy()
		c.Ev("copied")
		c.Ev("copied-consensus-id")
		c.Nontrivial(mon.HashBytes(enc))
		c.Desc("consensus id %s", short(enc))
		c.Check(bytes.Equal(cop.Buf(), enc) && cop.ConsensusMagic() == enc[0], "copy-content", "copy of consensus id %x has %x", enc, cop.Buf())
		s := &scrambler{r: c.R}
		other := IConsensusID(id)
		switch c.R.Intn(3) {
		case 0:
			s.bytes(buf)
			other = cop
		case 1:
			s.any(id)
			other = cop
		default:
			s.any(cop)
		}
		c.EvN("byte-changed", s.n)
		c.Check(bytes.Equal(other.Buf(), enc) && other.ConsensusMagic() == enc[0], "copy-shares", "consensus id %x changed to %x along with its copy", enc, other.Buf())
	})
}

func copyCase(c *mon.Case, name, form string, s *subject) {
	sig := name + "-" + form
	obj := s.obj
	c.Nontrivial(mon.Mix(mon.HashStr(s.what), mon.HashBytes(s.enc), uint64(len(form))))
	// sometimes after a first look at it
	if c.R.Intn(2) == 0 {
		if d := s.diff(c, obj, s.dec, false); d != "" {
			c.Failf("original-"+sig, "%s: %s", s.what, d)
		}
	}
	type side struct {
		how  string
		obj  interface{}
		dec  bool
		cano bool
	}
	sides := []side{}
	add := func(how string, o interface{}) {
		_, d1 := o.(*StandardMappedValue)
		_, d2 := o.(*MappedRecord)
		_, d3 := o.(*MappedTrie)
		_, d4 := o.(*MappedKey)
		dec := d1 || d2 || d3 || d4
		// a constructed copy of what was decoded has what was decoded
		sides = append(sides, side{how, o, dec, s.dec || form == "mixed"})
	}
	var e1 IEncodable
	c.NoPanic("copy-"+sig, func() string { return "copying " + s.what }, func() { e1 = obj.(interface{ Copy() IEncodable }).Copy() })
	add("copy", e1)
	var e2 IEncodable
	var err error
	c.NoPanic("copy-construct-"+sig, func() string { return "copying " + s.what }, func() {
		e2, err = obj.(interface{ CopyConstruct() (IEncodable, error) }).CopyConstruct()
	})
	if _, no := obj.(*MappedTrie); no && err != nil {
		c.Ev("not-offered")
	} else {
		c.Check(err == nil, "copy-construct-"+sig, "CopyConstruct of %s: %v", s.what, err)
		add("constructed copy", e2)
	}
	// a copy of the copy
	if c.R.Intn(3) == 0 {
		add("copy of the copy", e1.Copy())
	}
	c.EvN("copied", len(sides))
	c.EvN("copied-"+name, len(sides))
	diff := func(o interface{}, dec, cano bool) string {
		return s.diff(c, o, dec, cano)
	}
	for _, sd := range sides {
		if d := diff(sd.obj, sd.dec, sd.cano); d != "" {
			c.Failf("copy-content-"+sig, "%s of %s: %s", sd.how, s.what, d)
		}
		if sd.how == "constructed copy" || form != "mixed" {
			b, err := tryEncode(sd.obj)
			if s.enc != nil {
				c.Check(err == nil, "copy-encode-"+sig, "%s of %s does not encode: %v", sd.how, s.what, err)
				c.Check(bytes.Equal(b, s.enc), "copy-bytes-"+sig, "%s of %s encodes to %s, not %s", sd.how, s.what, short(b), short(s.enc))
				c.Ev("bytes-compared")
			} else if form != "mixed" {
				c.Check(err != nil, "copy-encode-"+sig, "%s of %s encodes, unlike the original", sd.how, s.what)
			}
		}
	}
	// change one of them, or the buffer; the others stay
	all := append([]side{{"original", obj, s.dec, false}}, sides...)
	victim := c.R.Intn(len(all) + 1)
	sc := &scrambler{r: c.R}
	rest := []side{}
	who := "the buffer"
	if victim == len(all) {
		if s.buf == nil {
			victim = 0
		} else {
			sc.bytes(s.buf)
			rest = sides
		}
	}
	if victim < len(all) {
		who = all[victim].how
		c.NoPanic("change-"+sig, func() string { return "changing the " + who + " of " + s.what }, func() { sc.any(all[victim].obj) })
		for i, sd := range all {
			if i != victim {
				rest = append(rest, sd)
			}
		}
		if s.buf != nil && victim != 0 {
			c.Check(bytes.Equal(s.buf[:len(s.enc)], s.enc), "copy-shares-"+sig, "changing the %s of %s changes the bytes it was decoded from", who, s.what)
		}
	}
	c.EvN("byte-changed", sc.n)
	c.Ev("changed-" + form)
	for _, sd := range rest {
		if d := diff(sd.obj, sd.dec, sd.cano); d != "" {
			c.Failf("copy-shares-"+sig, "changing %s of %s changes the %s: %s", who, s.what, sd.how, d)
		}
		if s.enc != nil && form != "mixed" {
			e := sd.obj.(IEncodable)
			if e.IsEncoded() {
				c.Check(bytes.Equal(e.Buf(), s.enc), "copy-shares-"+sig, "changing %s of %s changes the bytes of the %s", who, s.what, sd.how)
			}
			if e.Encode(nil) == nil {
				c.Check(bytes.Equal(e.Buf(), s.enc), "copy-shares-"+sig, "changing %s of %s changes what the %s encodes to", who, s.what, sd.how)
			}
		}
		c.Ev("unaffected")
	}
	// a constructed copy can be modified and encoded
	for i, sd := range all {
		if sd.how == "constructed copy" && i != victim && s.modify != nil {
			c.NoPanic("modify-"+sig, func() string { return "modifying the constructed copy of " + s.what }, func() { s.modify(sd.obj) })
			c.Ev("modified")
		}
	}
}
