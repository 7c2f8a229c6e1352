package main

import (
	"bytes"
	"math/rand"

	. "../../../repo/src/util"
	"../mon"
)

// ---------------------------------------------------------------- U26

// aNode is what a node of a tree is expected to be.
type aNode struct {
	n    *TrieNode
	up   *aNode
	key  []byte
	kids map[string]*aNode
	val  IValue
	abs  *aVal
}

func (a *aNode) path() aKey {
	if a.up == nil {
		return aKey{}
	}
	return append(a.up.path(), a.key)
}

// all are the node and those below it, in order.
func (a *aNode) all() []*aNode {
	res := []*aNode{a}
	for _, k := range sortedKeys(a.kids) {
		res = append(res, a.kids[k].all()...)
	}
	return res
}

func sortedKeys(m map[string]*aNode) []string {
	res := []string{}
	for k := range m {
		res = append(res, k)
	}
	for i := range res { // few
		for j := i; j > 0 && res[j] < res[j-1]; j-- {
			res[j], res[j-1] = res[j-1], res[j]
		}
	}
	return res
}

func isNilNode(n ITrieNode) bool {
	if n == nil {
		return true
	}
	t, ok := n.(*TrieNode)
	return ok && t == nil
}

// judge compares one node with what is expected of it.
func (a *aNode) judge(c *mon.Case, r *rand.Rand) {
	c.Ev("node-judged")
	p := a.path()
	c.Check(bytes.Equal(a.n.NodeKey(), a.key), "node-key", "node at %v has key %x, want %x", p, a.n.NodeKey(), a.key)
	if d := diffKey(a.n.FullKey(), p); d != "" {
		c.Failf("full-key", "node at %v has full key %v: %s", p, a.n.FullKey(), d)
	}
	if a.up == nil {
		c.Check(a.n.Parent() == nil, "parent", "the root has a parent")
		c.Check(a.n.FullKey().IsEmpty(), "full-key", "the full key of the root is not empty")
	} else {
		c.Check(a.n.Parent() == ITrieNode(a.up.n), "parent", "node at %v has another parent", p)
	}
	c.Check(a.n.Value() == a.val, "value", "node at %v has value %v, want %v", p, a.n.Value(), a.val)
	c.Check(a.n.ChildSize() == len(a.kids), "child-size", "node at %v has %d children, want %d", p, a.n.ChildSize(), len(a.kids))
	c.Check(a.n.IsDecoded(), "decoded", "node at %v is not decoded", p)
	it := a.n.Children().Iterator()
	for _, k := range sortedKeys(a.kids) {
		want := ITrieNode(a.kids[k].n)
		c.Check(a.n.GetChild([]byte(k)) == want, "child", "child %x of node at %v is another", k, p)
		_, v := it.Next()
		c.Check(v == interface{}(want), "children", "children of node at %v in the wrong order: %v, want %x", p, v, k)
		c.Ev("child")
	}
	c.Check(!it.HasNext(), "children", "node at %v has more than %d children", p, len(a.kids))
	for i := 0; i < 3; i++ {
		k := nodeKey(r)
		if a.kids[string(k)] == nil {
			c.Ev("child-missing")
			c.Check(isNilNode(a.n.GetChild(k)), "child", "node at %v has a child %x that nobody put", p, k)
		}
	}
}

func nodeKey(r *rand.Rand) []byte {
	switch r.Intn(10) {
	case 0:
		return randBytes(r, 1+r.Intn(300))
	case 1:
		return []byte{byte(r.Intn(256))}
	}
	return randBytes(r, 1+r.Intn(2))
}

// drop cuts a node off its tree.
func drop(list []*aNode, a *aNode) []*aNode {
	gone := map[*aNode]bool{}
	for _, b := range a.all() {
		gone[b] = true
	}
	res := list[:0]
	for _, b := range list {
		if !gone[b] {
			res = append(res, b)
		}
	}
	return res
}

// step is one change of a tree.
func step(c *mon.Case, list []*aNode) []*aNode {
	a := list[c.R.Intn(len(list))]
	if c.R.Intn(3) == 0 {
		a = list[len(list)-1] // deep trees
	}
	switch op := c.R.Intn(10); {
	case op < 5: // a child, in place of another at times
		b := &aNode{up: a, key: nodeKey(c.R), kids: map[string]*aNode{}}
		if a.path().size()+len(b.key) > 20000 {
			return list
		}
		if c.R.Intn(2) == 0 {
			b.abs = smallVal(c.R)
			b.val = build(b.abs)
		}
		b.n = NewTrieNode(a.n, b.key, b.val)
		c.Check(a.kids[string(b.key)] == nil == isNilNode(a.n.GetChild(b.key)), "new", "a new node puts itself below its parent, or takes another away")
		old := a.kids[string(b.key)]
		if old != nil {
			c.Ev("child-replaced")
			list = drop(list, old)
		}
		c.Check(a.n.PutChild(b.key, b.n) == nil, "put-child", "a child %x cannot be put", b.key)
		a.kids[string(b.key)] = b
		c.Ev("child-put")
		return append(list, b)
	case op < 6:
		if a.up != nil && c.R.Intn(3) > 0 {
			c.Check(a.up.n.RemoveChild(a.key) == nil, "remove-child", "a child %x cannot be removed", a.key)
			list = drop(list, a)
			delete(a.up.kids, string(a.key))
			c.Ev("child-removed")
			a.up.judge(c, c.R)
			// it is whole by itself, and can be put back
			if c.R.Intn(2) == 0 {
				c.Check(a.up.n.PutChild(a.key, a.n) == nil, "put-child", "a child %x cannot be put back", a.key)
				a.up.kids[string(a.key)] = a
				list = append(list, a.all()...)
				c.Ev("child-back")
			}
		} else {
			k := nodeKey(c.R)
			if a.kids[string(k)] == nil {
				c.Check(a.n.RemoveChild(k) == nil || true, "remove-child", "")
				c.Ev("remove-missing")
				a.judge(c, c.R)
			}
		}
	case op < 8:
		a.abs, a.val = nil, nil
		if c.R.Intn(3) > 0 {
			a.abs = smallVal(c.R)
			a.val = build(a.abs)
		}
		c.Check(a.n.SetValue(a.val) == nil, "set-value", "no value can be set at %v", a.path())
		c.Ev("value-set")
	default:
		a.judge(c, c.R)
	}
	return list
}

// toWorld is the tree as the set of its keys.
func (a *aNode) toWorld() *world {
	keys := []aKey{}
	all := a.all()
	for _, b := range all {
		keys = append(keys, b.path())
	}
	w := newWorld(append([]aKey{}, keys...))
	w.empty = map[int]bool{}
	for i, b := range all { // in order
		w.vals[i], w.abs[i] = b.val, b.abs
		w.empty[i] = b.val == nil
	}
	return w
}

type iterable interface {
	Iterator() ITrieIterator
	KeyIterator(IKey) ITrieIterator
	RangeIterator(start, end IKey) ITrieIterator
}

// nodeTrie has the iterators of a tree of nodes.
type nodeTrie struct{ root *aNode }

func (t nodeTrie) Iterator() ITrieIterator { return NewTrieKeyIterator(t.root.n, nil) }
func (t nodeTrie) KeyIterator(k IKey) ITrieIterator {
	if k == nil {
		return NewTrieKeyIterator(t.root.n, t.root.n)
	}
	n := ITrieNode(t.root.n)
	for _, s := range k.Key() {
		if n = n.GetChild(s); isNilNode(n) {
			return &TrieKeyIterator{}
		}
	}
	return NewTrieKeyIterator(t.root.n, n)
}
func (t nodeTrie) RangeIterator(from, to IKey) ITrieIterator {
	return NewTrieRangeIterator(t.root.n, from, to)
}

// encoded puts the encoded nodes together.
func (a *aNode) encoded(c *mon.Case, buf []byte) []byte {
	c.Check(a.n.SetOffset(uint32(len(buf))) == nil, "offset", "no offset can be set")
	c.Check(a.n.Offset() == uint32(len(buf)), "offset", "offset set to %d is %d", len(buf), a.n.Offset())
	err := a.n.Encode(nil)
	c.Check(err == nil && a.n.IsEncoded(), "encode", "node at %v does not encode: %v", a.path(), err)
	c.Ev("node-encoded")
	buf = append(buf, a.n.Buf()...)
	for _, k := range sortedKeys(a.kids) {
		buf = a.kids[k].encoded(c, buf)
	}
	if len(a.kids) > 0 || a.up == nil {
		buf = append(buf, 0) // no more children
	}
	return buf
}

func u26(x *mon.Ctx) {
	x.Stream("many", x.N(3, 30), func(c *mon.Case) {
		n := []int{300, 5000, 66000}[c.Index%3] + c.R.Intn(500)
		manyChildren(c, n)
		c.Nontrivial(uint64(n))
		c.Desc("a node of %d children", n)
	})
	x.Stream("deep", x.N(6, 60), func(c *mon.Case) {
		n := []int{40, 70, 135, 260, 520, 1030}[c.Index%6] + c.R.Intn(10)
		deepTree(c, n)
		c.Nontrivial(uint64(n))
		c.Desc("a tree of %d levels", n)
	})
	x.Rule("histories of changes of a tree of nodes; non-trivial: more than two nodes; distinct by keys and values")
	x.Stream("tree", x.N(2500, 60000), func(c *mon.Case) {
		root := &aNode{key: nil, kids: map[string]*aNode{}}
		if c.R.Intn(4) == 0 {
			root.abs = smallVal(c.R)
			root.val = build(root.abs)
		}
		root.n = NewTrieNode(nil, nil, root.val)
		list := []*aNode{root}
		for i := c.R.Intn(80); i >= 0; i-- {
			list = step(c, list)
			if c.R.Intn(40) == 0 { // what changes after that is encoded again
				root.encoded(c, nil)
			}
		}
		all := root.all()
		for _, a := range all {
			a.judge(c, c.R)
		}
		w := root.toWorld()
		if c.R.Intn(2) == 0 {
			w.iterAll(c, nodeTrie{root}, "nodes'", w.probes(c.R, 4), false, w.identical)
			c.Ev("iterated")
		}
		// copies
		for i := 0; i < 3; i++ {
			a := all[c.R.Intn(len(all))]
			o, err := IEncodable(nil), error(nil)
			if c.R.Intn(2) == 0 {
				o = a.n.Copy()
			} else {
				o, err = a.n.CopyConstruct()
			}
			n, ok := o.(*TrieNode)
			c.Check(err == nil && ok && n != nil && n != a.n, "copy", "copying node at %v gives %v, %v", a.path(), o, err)
			c.Ev("copied")
			b := a.copied(c, n, a.up)
			for _, d := range b.all() {
				d.judge(c, c.R)
			}
			// each is changed without the other
			bs, as := b.all(), a.all()
			for j := c.R.Intn(8); j >= 0; j-- {
				bs = stepIn(c, bs, b)
			}
			for _, d := range a.all() {
				d.judge(c, c.R)
			}
			for j := c.R.Intn(8); j >= 0; j-- {
				as = stepIn(c, as, a)
			}
			for _, d := range b.all() {
				d.judge(c, c.R)
			}
			all = root.all()
		}
		// the encoded nodes make an encoded trie
		w = root.toWorld()
		buf := root.encoded(c, nil)
		for _, a := range all {
			a.judge(c, c.R)
		}
		t, n, err := NewMappedTrie(buf)
		c.Check(err == nil && n == len(buf), "decode", "%d nodes, encoded one after another (%d bytes), are decoded to %d bytes: %v", len(all), len(buf), n, err)
		d := w.dropNil()
		for i := range d.keys {
			if w.vals[i] == nil {
				d.empty[i] = true
			}
		}
		d.iterJudge(c, t.Iterator(), "decoded Iterator()", func(aKey) bool { return true }, d.content(c))
		c.Ev("decoded")
		if len(all) > 2 {
			c.Nontrivial(w.hash())
		}
		c.Desc("%d nodes, the last at %v", len(all), all[len(all)-1].path())
	})
}

// manyChildren judges one node of so many children.
func manyChildren(c *mon.Case, n int) {
	up := NewTrieNode(nil, nil, nil)
	if c.R.Intn(2) == 0 {
		k := nodeKey(c.R)
		top := up
		up = NewTrieNode(top, k, nil)
		top.PutChild(k, up)
	}
	key := func(i int) []byte { return []byte{byte(i >> 16), byte(i), byte(i >> 8)} }
	kids := make([]*TrieNode, n)
	check := func(i int) {
		got := up.GetChild(key(i))
		if kids[i] == nil {
			c.Check(isNilNode(got), "child-removed", "child %x of a node of %d children is there, after it was removed", key(i), n)
		} else {
			c.Check(got == ITrieNode(kids[i]), "child", "child %x of a node of %d children is %v", key(i), n, got)
		}
	}
	size := 0
	for _, i := range c.R.Perm(n) {
		kids[i] = NewTrieNode(up, key(i), nil)
		err := up.PutChild(key(i), kids[i])
		size++
		c.Check(err == nil && up.ChildSize() == size, "child-put", "putting child number %d: %v, %d children", size, err, up.ChildSize())
		if size&(size-1) == 0 || size%5000 == 0 {
			check(i)
		}
	}
	c.EvN("child-put", n)
	for i := range kids {
		check(i)
	}
	for _, i := range c.R.Perm(n)[:n/2] {
		kids[i] = nil
		err := up.RemoveChild(key(i))
		size--
		c.Check(err == nil && up.ChildSize() == size, "child-remove", "removing a child of %d: %v, %d children", size+1, err, up.ChildSize())
	}
	c.EvN("child-removed", n/2)
	at, it := 0, up.Children().Iterator()
	for i := range kids {
		check(i)
	}
	for it.HasNext() {
		it.Next()
		at++
	}
	c.Check(at == size, "children", "%d of %d children are walked", at, size)
	c.X.Max("children", int64(n))
}

// deepTree judges a tree of so many levels, with a few nodes beside the deepest path, and its copies.
func deepTree(c *mon.Case, n int) {
	root := &aNode{kids: map[string]*aNode{}, n: NewTrieNode(nil, nil, nil)}
	put := func(a *aNode) *aNode {
		b := &aNode{up: a, key: randBytes(c.R, 1), kids: map[string]*aNode{}}
		if c.R.Intn(4) == 0 {
			b.abs = smallVal(c.R)
			b.val = build(b.abs)
		}
		b.n = NewTrieNode(a.n, b.key, b.val)
		c.Check(a.n.PutChild(b.key, b.n) == nil, "put-child", "a child %x cannot be put", b.key)
		a.kids[string(b.key)] = b
		c.Ev("child-put")
		return b
	}
	path := []*aNode{root}
	for len(path) <= n {
		path = append(path, put(path[len(path)-1]))
	}
	for i := 0; i < 8; i++ {
		a := path[len(path)-1-c.R.Intn(min(len(path), 1+c.R.Intn(len(path))))]
		if len(a.kids) == 0 || !bytes.Equal(path[1].key, a.key) {
			b := &aNode{up: a, key: []byte{1, 2, byte(i)}, kids: map[string]*aNode{}}
			b.n = NewTrieNode(a.n, b.key, nil)
			a.n.PutChild(b.key, b.n)
			a.kids[string(b.key)] = b
		}
	}
	judge := func(a *aNode) {
		for _, b := range a.all() {
			b.judge(c, c.R)
		}
	}
	judge(root)
	for _, a := range []*aNode{root, path[1], path[len(path)/2], path[len(path)-1]} {
		o := a.n.Copy()
		if c.R.Intn(2) == 0 {
			o, _ = a.n.CopyConstruct()
		}
		t, ok := o.(*TrieNode)
		c.Check(ok && t != nil && t != a.n, "copy", "copying a node of a tree of %d levels gives %v", n, o)
		c.Ev("copied")
		judge(a.copied(c, t, a.up))
	}
	w := root.toWorld()
	buf := root.encoded(c, nil)
	t, m, err := NewMappedTrie(buf)
	c.Check(err == nil && m == len(buf), "decode", "a tree of %d levels, encoded in %d bytes, is decoded to %d bytes: %v", n, len(buf), m, err)
	d := w.dropNil()
	for i := range d.keys {
		if w.vals[i] == nil {
			d.empty[i] = true
		}
	}
	d.iterJudge(c, t.Iterator(), "decoded Iterator()", func(aKey) bool { return true }, d.content(c))
	c.Ev("decoded")
	for i := len(path) - 1; i > 0 && i > len(path)-20; i-- { // taken apart from below
		c.Check(path[i-1].n.RemoveChild(path[i].key) == nil, "remove-child", "a child cannot be removed")
		delete(path[i-1].kids, string(path[i].key))
		path[i-1].judge(c, c.R)
		path[i].judge(c, c.R)
	}
	c.X.Max("levels", int64(n))
}

// stepIn changes something at or below a node.
func stepIn(c *mon.Case, list []*aNode, top *aNode) []*aNode {
	up := top.up
	a := list[c.R.Intn(len(list))]
	if a == top || c.R.Intn(2) == 0 {
		switch c.R.Intn(3) {
		case 0:
			a.abs = smallVal(c.R)
			a.val = build(a.abs)
			a.n.SetValue(a.val)
		case 1:
			a.abs, a.val = nil, nil
			a.n.SetValue(nil)
		default:
			b := &aNode{up: a, key: nodeKey(c.R), kids: map[string]*aNode{}}
			if a.path().size()+len(b.key) > 20000 {
				return list
			}
			b.n = NewTrieNode(a.n, b.key, nil)
			if old := a.kids[string(b.key)]; old != nil {
				list = drop(list, old)
			}
			a.n.PutChild(b.key, b.n)
			a.kids[string(b.key)] = b
			list = append(list, b)
		}
	} else {
		a.up.n.RemoveChild(a.key)
		list = drop(list, a)
		delete(a.up.kids, string(a.key))
	}
	top.up = up
	c.Ev("copy-changed")
	return list
}

// copied is what is expected of a copy of a node: the same content, in nodes
// of its own.
func (a *aNode) copied(c *mon.Case, n *TrieNode, up *aNode) *aNode {
	b := &aNode{n: n, up: up, key: cp(a.key), kids: map[string]*aNode{}, abs: a.abs}
	v := n.Value()
	switch {
	case a.val == nil:
		c.Check(v == nil, "copy-value", "the copy of node at %v has value %v, want none", a.path(), v)
	default:
		if d := diffVal(c, v, a.abs, false); d != "" {
			c.Failf("copy-value", "the copy of node at %v: %s", a.path(), d)
		}
		c.Check(v != a.val, "copy-shares", "the copy of node at %v shares its value", a.path())
		b.val = v
	}
	for k, kid := range a.kids {
		m, ok := n.GetChild([]byte(k)).(*TrieNode)
		c.Check(ok && m != nil, "copy-child", "the copy of node at %v has no child %x", a.path(), k)
		c.Check(m != kid.n, "copy-shares", "the copy of node at %v shares its child %x", a.path(), k)
		b.kids[k] = kid.copied(c, m, b)
	}
	return b
}
