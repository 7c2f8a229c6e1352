package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"math/rand"

	"../../../repo/src/collection"
	. "../../../repo/src/util"
	"../mon"
)

// kind is one kind of object that is decoded from bytes.
type kind struct {
	name    string
	valid   func(r *rand.Rand) []byte // a valid encoding
	open    func(b []byte) (obj interface{}, n int, err error)
	delimit bool // the encoding says where it ends
	class   int  // U08: has a buffer
}

var kinds = []*kind{
	{name: "key", delimit: true, valid: func(r *rand.Rand) []byte { return validKey(r, 300) },
		open: func(b []byte) (interface{}, int, error) {
			o, n, err := NewMappedKey(b)
			return o, n, err
		}},
	{name: "value", delimit: true, valid: func(r *rand.Rand) []byte { return validVal(r, 400) },
		open: func(b []byte) (interface{}, int, error) {
			o, n, err := NewStandardMappedValue(b)
			return o, n, err
		}},
	{name: "simple-value", delimit: true, valid: func(r *rand.Rand) []byte { return EncodeVarchar(randBytes(r, someLen(r, 300))) },
		open: func(b []byte) (interface{}, int, error) {
			o, n, err := NewSimpleMappedValue(b)
			return o, n, err
		}},
	{name: "record", delimit: true, valid: func(r *rand.Rand) []byte {
		for {
			a := genRec(r, 3, 500)
			if o := buildRec(a); o.Encode(nil) == nil {
				return cp(o.Buf())
			}
		}
	},
		open: func(b []byte) (interface{}, int, error) {
			o, n, err := NewMappedRecord(b)
			return o, n, err
		}},
	{name: "scheme", delimit: true, valid: func(r *rand.Rand) []byte { return genScheme(r, 300).enc() },
		open: func(b []byte) (interface{}, int, error) {
			o := NewMappedSchemd(b)
			n, err := o.Decode(nil)
			return o, n, err
		}},
	{name: "trie", delimit: true, valid: func(r *rand.Rand) []byte { return validTrie(r, 1+r.Intn(20)) },
		open: func(b []byte) (interface{}, int, error) {
			o, n, err := NewMappedTrie(b)
			return o, n, err
		}},
	{name: "hash-table", delimit: true, valid: func(r *rand.Rand) []byte { return validMPH(r, r.Intn(20)) },
		open: func(b []byte) (interface{}, int, error) {
			o, n, err := NewMPHTable(b)
			return o, n, err
		}},
	{name: "consensus-time", valid: func(r *rand.Rand) []byte {
		if r.Intn(2) == 0 {
			return NewLedgerTime(r.Uint32()).Buf()
		}
		return NewRaftTime(r.Uint32(), r.Uint32(), r.Uint32()).Buf()
	},
		open: func(b []byte) (interface{}, int, error) {
			o, err := NewConsensusTime(b)
			if err != nil {
				return nil, 0, err
			}
			return o, len(o.Buf()), nil
		}},
	{name: "consensus-id", valid: validID,
		open: func(b []byte) (interface{}, int, error) {
			o, err := NewMappedConsensusID(b)
			if err != nil {
				return nil, 0, err
			}
			return o, len(o.Buf()), nil
		}},
	{name: "base58", valid: func(r *rand.Rand) []byte { return []byte(Base58Encode(randBytes(r, r.Intn(60)))) },
		open: func(b []byte) (interface{}, int, error) {
			o := Base58Decode(string(b))
			if o == nil {
				return nil, 0, fmt.Errorf("refused")
			}
			return o, len(b), nil
		}},
	{name: "varint", valid: func(r *rand.Rand) []byte { return EncodeVarint64(int64(r.Uint64() >> uint(r.Intn(64)))) },
		open: func(b []byte) (interface{}, int, error) {
			o, n, err := DecodeVarint64(b)
			return o, n, err
		}},
	{name: "uvarint", valid: func(r *rand.Rand) []byte { return EncodeUvarint64(r.Uint64() >> uint(r.Intn(64))) },
		open: func(b []byte) (interface{}, int, error) {
			o, n, err := DecodeUvarint64(b)
			return o, n, err
		}},
	{name: "varchar", valid: func(r *rand.Rand) []byte { return EncodeVarchar(randBytes(r, r.Intn(300))) },
		open: func(b []byte) (interface{}, int, error) {
			o, n, err := DecodeVarchar(b)
			return o, n, err
		}},
}

func kindNamed(name string) *kind {
	for _, k := range kinds {
		if k.name == name {
			return k
		}
	}
	panic(name)
}

func validKey(r *rand.Rand, max int) []byte {
	k := buildKey(genKey(r, max))
	k.Encode(nil)
	return cp(k.Buf())
}

func validVal(r *rand.Rand, budget int) []byte {
	for {
		v := build(genVal(r, 4, budget))
		if v.Encode(nil) == nil {
			return cp(v.Buf())
		}
	}
}

func validID(r *rand.Rand) []byte {
	flags := byte(1+r.Intn(31)) << 3
	n := 0
	for i := uint(4); i < 8; i++ {
		if flags>>i&1 != 0 {
			n += 32
		}
	}
	if flags>>3&1 != 0 {
		n += 64
	}
	return append([]byte{flags}, randFull(r, n)...)
}

// smallKey draws from a small universe, so that keys share prefixes.
func smallKey(r *rand.Rand, maxDepth, letters int) aKey {
	n := r.Intn(maxDepth + 1)
	k := aKey{}
	for i := 0; i < n; i++ {
		b := []byte{byte(r.Intn(letters) * 85)}
		if r.Intn(3) == 0 {
			b = append(b, byte(r.Intn(2)*255))
		}
		k = append(k, b)
	}
	return k
}

func validTrie(r *rand.Rand, n int) []byte {
	for {
		t := NewTrie()
		for i := 0; i < n; i++ {
			t.Set(buildKey(smallKey(r, 4, 3)), build(genVal(r, 1, 40)))
		}
		if t.Encode(nil) == nil {
			return cp(t.Buf())
		}
	}
}

func validMPH(r *rand.Rand, n int) []byte {
	keys := []IKey{}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := buildKey(smallKey(r, 4, 4))
		k.Encode(nil)
		if !seen[string(k.Buf())] {
			seen[string(k.Buf())] = true
			keys = append(keys, k)
		}
	}
	b, err := MPHBuild(keys, r.Intn(2) == 0).Encode()
	if err != nil {
		panic(err)
	}
	return b
}

// ---------------------------------------------------------------- walking

// walker looks at everything an object offers, and returns a digest of what it
// saw. The order in which it looks is random; the digest does not depend on it.
type walker struct {
	r      *rand.Rand
	budget int  // of elements to look at
	light  bool // leave out copies and text
	all    bool // visit the elements of every array, whatever the order
	c      *mon.Case
}

func (w *walker) fail(sig, format string, args ...interface{}) {
	w.c.Failf(sig, format, args...)
}

func hashErr(err error) uint64 {
	if err != nil {
		return 0xbad
	}
	return 0x900d
}

func (w *walker) key(k IKey) uint64 {
	if k == nil {
		return 11
	}
	h := mon.Mix(uint64(len(k.Key())))
	for i, s := range k.Key() {
		if !bytes.Equal(s, k.SubKeyAt(i)) {
			w.fail("key-inconsistent", "SubKeyAt(%d) differs from Key()", i)
		}
		h = mon.Mix(h, uint64(len(s)), mon.HashBytes(s))
	}
	if k.IsEmpty() {
		h = mon.Mix(h, 3)
	}
	h = mon.Mix(h, mon.HashBytes(k.Buf()), uint64(k.EstBufSize()), uint64(k.HashUint32(collection.MurmurSeed(7).Hash)))
	if !k.Equal(k) || k.Compare(k) != 0 {
		w.fail("key-inconsistent", "key is not equal to itself")
	}
	if !w.light {
		h = mon.Mix(h, mon.HashStr(k.ToString()))
		k.Print(io.Discard, 4)
		c1 := k.Copy().(IKey)
		c2, err := k.CopyConstruct()
		if err != nil {
			w.fail("copy", "CopyConstruct of a key: %v", err)
		}
		for _, o := range []IKey{c1, c2.(IKey)} {
			if !k.Equal(o) || !o.Equal(k) || k.Compare(o) != 0 || o.Compare(k) != 0 {
				w.fail("copy", "copy of a key differs from it")
			}
		}
	}
	return h
}

// sample returns the indexes to look at.
func (w *walker) sample(n int) []int {
	if w.all && n <= w.budget || n <= 12 {
		return w.r.Perm(n)
	}
	res := []int{0, n - 1}
	for i := 0; i < 8; i++ {
		res = append(res, w.r.Intn(n))
	}
	return res
}

func (w *walker) value(v IValue, depth int) uint64 {
	if v == nil {
		return 13
	}
	w.budget--
	h := mon.Mix(hb(v.IsNil()), hb(v.IsPrimitive()), hb(v.IsValueArray()), hb(v.IsRecordList()), uint64(v.Size()), uint64(len(v.Value())), mon.HashBytes(v.Value()))
	h = mon.Mix(h, mon.HashBytes(v.Buf()), uint64(v.EstBufSize()), uint64(v.ValueMagic()), hb(v.IsEncoded()), hb(v.IsDecoded()))
	if v.LookupEncoder() != nil || v.CompressEncoder() != nil {
		h = mon.Mix(h, 5)
	}
	n := int(v.Size())
	idx := w.sample(n)
	subs := make([]uint64, n)
	for _, i := range idx {
		if w.budget <= 0 || depth <= 0 {
			break
		}
		e, err := v.ValueAt(uint16(i))
		s := hashErr(err)
		if err == nil {
			s = w.value(e, depth-1)
		}
		q, err := v.RecordAt(uint16(i))
		t := hashErr(err)
		if err == nil {
			t = w.record(q, depth-1)
		}
		subs[i] = mon.Mix(s, t)
	}
	if w.all {
		h = mon.Mix(h, mon.Mix(subs...))
	}
	if n < 65535 {
		_, e1 := v.ValueAt(uint16(n))
		_, e2 := v.RecordAt(65535)
		h = mon.Mix(h, hashErr(e1), hashErr(e2))
	}
	if !w.light && len(v.Buf()) < 3000 && depth > 0 {
		w.light = true
		c := v.Copy().(IValue)
		if !c.IsEncoded() { // a nil value
			c.Encode(nil)
		}
		if !bytes.Equal(c.Buf(), v.Buf()) {
			w.fail("copy", "copy of a value has other bytes")
		}
		w.value(c, 0)
		cc, err := v.CopyConstruct()
		h = mon.Mix(h, hashErr(err))
		if err == nil {
			h = mon.Mix(h, hashErr(cc.Encode(nil)))
		}
		w.light = false
	}
	return h
}

func hb(b bool) uint64 {
	if b {
		return 1
	}
	return 2
}

func hbig(b *big.Int) uint64 {
	if b == nil {
		return 17
	}
	return mon.Mix(mon.HashBytes(b.Bytes()), uint64(b.Sign()+1))
}

func (w *walker) record(r IRecord, depth int) uint64 {
	w.budget--
	h := w.key(r.Key())
	h = mon.Mix(h, w.value(r.Value(), depth), w.value(r.Scheme(), depth))
	if t := r.Timestamp(); t != nil {
		h = mon.Mix(h, uint64(t.UnixNano()), mon.HashStr(t.String()))
	}
	a, b := r.Signature()
	h = mon.Mix(h, hbig(a), hbig(b), uint64(r.RecordMagic()), mon.HashBytes(r.Buf()), uint64(r.EstBufSize()), hb(r.IsEncoded()), hb(r.IsDecoded()))
	if !w.light && len(r.Buf()) < 3000 && depth > 0 {
		w.light = true
		c := r.Copy().(IRecord)
		if !bytes.Equal(c.Buf(), r.Buf()) {
			w.fail("copy", "copy of a record has other bytes")
		}
		cc, err := r.CopyConstruct()
		h = mon.Mix(h, hashErr(err))
		if err == nil {
			h = mon.Mix(h, hashErr(cc.Encode(nil)))
		}
		w.light = false
	}
	return h
}

func (w *walker) scheme(s IScheme) uint64 {
	h := mon.Mix(mon.HashBytes(s.Domain()), mon.HashBytes(s.Tablet()), mon.HashStr(s.DomainName()), mon.HashStr(s.TabletName()), hb(s.Domain() == nil), hb(s.Tablet() == nil), uint64(len(s.Buckets())), hb(s.Buckets() == nil))
	for i, b := range s.Buckets() {
		if !bytes.Equal(b, s.BucketAt(i)) {
			w.fail("scheme-inconsistent", "BucketAt(%d) differs from Buckets()", i)
		}
		h = mon.Mix(h, uint64(len(b)), mon.HashBytes(b))
	}
	h = mon.Mix(h, uint64(s.SchemeMagic()), mon.HashBytes(s.Buf()), uint64(s.EstBufSize()))
	if !w.light {
		s.Copy()
		cc, err := s.CopyConstruct()
		if err != nil {
			w.fail("copy", "CopyConstruct of a scheme: %v", err)
		}
		h = mon.Mix(h, hashErr(cc.Encode(nil)))
	}
	return h
}

// trie is what both kinds of tries have in common.
type trie interface {
	Get(IKey) IValue
	Iterator() ITrieIterator
	KeyIterator(IKey) ITrieIterator
	RangeIterator(start, end IKey) ITrieIterator
	Buf() []byte
	EstBufSize() int
	ToString() string
	Print(io.Writer, int)
	Copy() IEncodable
}

func (w *walker) iterate(it ITrieIterator, max int) (uint64, []IKey) {
	h, keys := uint64(1), []IKey{}
	light := w.light
	w.light = true
	for it.HasNext() {
		pk, pv := it.Peek()
		k, v := it.Next()
		if k == nil || pk == nil || !k.Equal(pk) || pv != v {
			w.fail("trie-iterator", "Peek and Next differ, or give nothing although HasNext")
		}
		enc := k.Encode(nil) // an error for a key above the size limit
		h = mon.Mix(h, hashErr(enc))
		if enc == nil {
			h = mon.Mix(h, w.key(k))
		}
		if v != nil {
			h = mon.Mix(h, w.value(v, 3))
		}
		keys = append(keys, k)
		if len(keys) >= max {
			break
		}
	}
	if !it.HasNext() {
		if k, v := it.Next(); k != nil || v != nil {
			w.fail("trie-iterator", "Next of an exhausted iterator gives something")
		}
	}
	w.light = light
	return h, keys
}

func (w *walker) trie(t trie) uint64 {
	h, keys := w.iterate(t.Iterator(), 400)
	h = mon.Mix(h, mon.HashBytes(t.Buf()), uint64(t.EstBufSize()))
	get := func(k IKey) {
		light := w.light
		w.light = true
		v := t.Get(k)
		h = mon.Mix(h, hb(v == nil))
		if v != nil {
			h = mon.Mix(h, w.value(v, 2))
		}
		w.light = light
	}
	n := len(keys)
	for i := 0; i < 8; i++ {
		j := i * n / 8
		if j >= n {
			break
		}
		get(keys[j])
		x, _ := w.iterate(t.KeyIterator(keys[j]), 60)
		h = mon.Mix(h, x)
		a, b := keys[j], keys[(j+n/3)%n]
		if a.Compare(b) > 0 {
			a, b = b, a
		}
		x, _ = w.iterate(t.RangeIterator(a, b), 60)
		h = mon.Mix(h, x)
	}
	for _, k := range []IKey{NewEmptyKey(), NewStringKey("no such key"), NewKey().Add([]byte{0}).Add([]byte{85}), NewKey().Add([]byte{0}).Add([]byte("absent")).Add([]byte{1})} {
		get(k)
		x, _ := w.iterate(t.KeyIterator(k), 60)
		y, _ := w.iterate(t.RangeIterator(k, nil), 60)
		z, _ := w.iterate(t.RangeIterator(nil, k), 60)
		h = mon.Mix(h, x, y, z)
	}
	if !w.light {
		t.ToString()
		if n < 100 {
			t.Print(io.Discard, 4)
		}
		c := t.Copy().(trie)
		// both walks look at the same places, whatever has been looked at before
		budget, r := w.budget, w.r
		same := func(t trie) uint64 {
			w.budget, w.r = 400, rand.New(rand.NewSource(int64(budget)))
			x, _ := w.iterate(t.Iterator(), 400)
			return x
		}
		x, y := same(c), same(t)
		w.budget, w.r = budget, r
		if x != y {
			w.fail("copy", "copy of a trie differs from it")
		}
	}
	return h
}

func probeKeys() []IKey {
	r := rand.New(rand.NewSource(77))
	res := []IKey{NewEmptyKey(), NewKey(), NewStringKey("x")}
	for i := 0; i < 40; i++ {
		res = append(res, buildKey(smallKey(r, 4, 4)))
	}
	return res
}

func (w *walker) mph(t *MPHTable) uint64 {
	h := uint64(1)
	probes := probeKeys()
	look := func(t *MPHTable) uint64 {
		h := uint64(1)
		for _, k := range probes {
			n, ok := t.Lookup(k)
			h = mon.Mix(h, hb(ok))
			if ok {
				h = mon.Mix(h, uint64(n))
			}
		}
		return h
	}
	h = look(t)
	if !w.light {
		b, err := t.Encode()
		h = mon.Mix(h, hashErr(err))
		if err == nil {
			h = mon.Mix(h, mon.HashBytes(b))
			t2, n, err := NewMPHTable(b)
			if err != nil || n != len(b) || look(t2) != look(t) {
				w.fail("copy", "perfect hash table differs after writing and reading it: %v", err)
			}
		}
	}
	return h
}

func (w *walker) walk(o interface{}) uint64 {
	switch t := o.(type) {
	case IKey:
		return w.key(t)
	case IValue:
		return w.value(t, 64)
	case IRecord:
		return w.record(t, 64)
	case IScheme:
		return w.scheme(t)
	case *MappedTrie:
		return w.trie(t)
	case *Trie:
		return w.trie(t)
	case *MPHTable:
		return w.mph(t)
	case IConsensusTime:
		h := mon.HashBytes(t.Buf())
		for i, f := range []func(IConsensusTime) (bool, error){t.EQ, t.LE, t.GE, t.LT, t.GT, t.NE} {
			if b, err := f(t); err != nil || b != (i < 3) {
				w.fail("time-inconsistent", "comparison %d of a time with itself: %v %v", i, b, err)
			}
		}
		return h
	case IConsensusID:
		if !bytes.Equal(t.Copy().Buf(), t.Buf()) {
			w.fail("copy", "copy of a consensus id differs from it")
		}
		return mon.Mix(mon.HashBytes(t.Buf()), uint64(t.ConsensusMagic()))
	case []byte:
		return mon.Mix(mon.HashBytes(t), uint64(len(t)))
	case int64:
		return mon.Mix(uint64(t))
	case uint64:
		return mon.Mix(t)
	}
	panic(fmt.Sprintf("no walk for %T", o))
}

// bufOf returns the object's buffer.
func bufOf(o interface{}) ([]byte, bool) {
	switch t := o.(type) {
	case *MPHTable:
		return nil, false
	case interface{ Buf() []byte }:
		return t.Buf(), true
	}
	return nil, false
}

// reused: one buffer holds several encodings in turn, of the given kinds; each is
// decoded as it is from a buffer of its own.
func reused(x *mon.Ctx, n int, names ...string) {
	x.Stream("reused", n, func(c *mon.Case) {
		buf := make([]byte, 1<<16)
		off := c.R.Intn(64)
		var prev []byte
		var live []interface{} // objects of the earlier encodings
		look := func(o interface{}) uint64 {
			w := &walker{r: rand.New(rand.NewSource(5)), budget: 1000, all: true, light: c.Index%2 == 0, c: c}
			return w.walk(o)
		}
		type one struct {
			k    *kind
			enc  []byte
			n    int
			err  error
			want uint64
		}
		list := make([]one, 3+c.R.Intn(8))
		for i := range list { // each from a buffer of its own
			k := kindNamed(names[c.R.Intn(len(names))])
			enc := k.valid(c.R)
			for j := 0; j < 12 && len(enc) != len(prev); j++ { // often of the same length
				if e := k.valid(c.R); len(e) == len(prev) {
					enc = e
				}
			}
			prev = enc
			o, n, err := k.open(cp(enc))
			list[i] = one{k, enc, n, err, look(o)}
			c.State(list[i].want)
		}
		for _, l := range list {
			k, enc := l.k, l.enc
			if c.R.Intn(3) == 0 {
				off = c.R.Intn(64)
			}
			copy(buf[off:], enc)
			in := buf[off : off+len(enc)]
			if k.delimit && c.R.Intn(2) == 0 { // with what was left there by others
				in = buf[off : off+len(enc)+c.R.Intn(40)]
			}
			what := k.name + " from " + short(enc) + " in a buffer that has held others"
			c.Desc("%s", what)
			if c.R.Intn(4) == 0 { // without its end
				if o, _, err := k.open(in[:c.R.Intn(len(enc)+1)]); err == nil && o != nil {
					live = append(live, o)
				}
			}
			o, n, err := k.open(in)
			c.Check(l.err == nil && err == nil && n == l.n && n == len(enc), "reused-"+k.name, "%s: %d bytes consumed, %v; alone %d, %v", what, n, err, l.n, l.err)
			c.Check(look(o) == l.want, "reused-"+k.name, "%s decodes to something else", what)
			c.Ev("reused")
			live = append(live, o)
		}
		c.Nontrivial(mon.Mix(mon.HashBytes(prev), uint64(len(live))))
	})
}
