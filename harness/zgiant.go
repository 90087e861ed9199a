package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"slices"

	"github.com/NVIDIA/sortedmap"
)

// zgiant.go: trees of up to 2^61 items. Their image is never stored: the bytes of a node are made up when it is
// asked for, from its place in a tree whose nodes are all alike on each level. Only what is modified is really
// written. The model holds the modifications alone. Item i of the original tree has the key 2*i+1.

const firstReal = 1 << 40 // object numbers of nodes really written

type giant struct {
	c     *Ctx
	what  string
	max   uint64
	fan   []uint64 // children (items of a leaf) of a node, by level
	span  []uint64 // items below a node, by level
	size  []uint64 // bytes of a node, by level
	n     uint64
	seed  uint64
	store map[loc][]byte
	next  uint64
	read  map[loc]bool
	gone  map[loc]bool
	reads int
	puts  []loc
	disc  []loc
	putOK bool
	disOK bool
	wrong string

	ins, del []uint64 // keys added, original keys removed
	over     map[uint64]uint64

	t     sortedmap.BPlusTree
	cache sortedmap.BPlusTreeCache
	root  loc
	h     int  // height, if clean
	clean bool // nothing modified since the last flush
	cost  int  // updates so far
}

func (g *giant) fail(kind string, format string, a ...any) {
	s := fmt.Sprintf("tree of %d items, maximum %d, %d levels: ", g.n, g.max, len(g.fan)) + fmt.Sprintf(format, a...)
	for _, k := range []byte(g.what) {
		for _, l := range []byte(kind) {
			if k == l {
				g.c.Fail("%s", s)
			}
		}
	}
	panic(&abandon{s})
}

// ---- storage ---------------------------------------------------------------------------

func (g *giant) place(l int, j uint64) loc { return loc{uint64(7 + l), j, g.size[l]} }

func (g *giant) virtual(x loc) (l int, ok bool) {
	l = int(x.N) - 7
	ok = x.N < firstReal && l >= 0 && l < len(g.fan) && x.O < g.n/g.span[l] && x.L == g.size[l]
	return
}

func (g *giant) note(format string, a ...any) error {
	s := fmt.Sprintf(format, a...)
	if g.wrong == "" {
		g.wrong = s
	}
	return fmt.Errorf("%s", s)
}

func (g *giant) node(x loc) ([]byte, error) {
	if b, ok := g.store[x]; ok {
		return b, nil
	}
	l, ok := g.virtual(x)
	if !ok {
		return nil, fmt.Errorf("no node was written to %v", x)
	}
	b := make([]byte, 0, g.size[l])
	u := func(v uint64) { b = binary.LittleEndian.AppendUint64(b, v) }
	u(g.span[l])
	leaf := l == len(g.fan)-1
	b = append(b, b2i(l == 0), b2i(leaf))
	if l == 0 {
		u(g.max)
	}
	u(g.fan[l])
	for k := uint64(0); k < g.fan[l]; k++ {
		if leaf {
			key := 2*(x.O*g.fan[l]+k) + 1
			u(key)
			u(mix(g.seed, key))
			continue
		}
		j := x.O*g.fan[l] + k
		if k > 0 {
			u(2*j*g.span[l+1] + 1)
		}
		p := g.place(l+1, j)
		u(p.N)
		u(p.O)
		u(p.L)
		u(g.span[l+1])
	}
	return b, nil
}

func b2i(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func (g *giant) GetNode(n, o, l uint64) ([]byte, error) {
	x := loc{n, o, l}
	g.reads++
	if g.gone[x] {
		return nil, g.note("node %v was read although it had been discarded", x)
	}
	b, err := g.node(x)
	if err != nil {
		return nil, g.note("GetNode: %v", err)
	}
	g.read[x] = true
	return b, nil
}

func (g *giant) PutNode(b []byte) (uint64, uint64, error) {
	if !g.putOK {
		g.note("a node was written outside Flush")
	}
	g.next++
	x := loc{firstReal + g.next%5<<33, g.next << 34, uint64(len(b))}
	g.store[x] = slices.Clone(b)
	g.puts = append(g.puts, x)
	return x.N, x.O, nil
}

func (g *giant) DiscardNode(n, o, l uint64) error {
	x := loc{n, o, l}
	if !g.disOK {
		g.note("node %v was discarded outside Prune", x)
	}
	if g.gone[x] {
		g.note("node %v was discarded twice", x)
	}
	if _, ok := g.virtual(x); !ok && g.store[x] == nil {
		g.note("%v was discarded, but no node was written there", x)
	}
	g.gone[x] = true
	g.disc = append(g.disc, x)
	return nil
}

func (g *giant) PackKey(k sortedmap.Key) ([]byte, error) {
	return binary.LittleEndian.AppendUint64(nil, k.(uint64)), nil
}
func (g *giant) PackValue(v sortedmap.Value) ([]byte, error) {
	return binary.LittleEndian.AppendUint64(nil, v.(uint64)), nil
}
func (g *giant) UnpackKey(b []byte) (sortedmap.Key, uint64, error) {
	if len(b) < 8 {
		return nil, 0, errShort("key", len(b))
	}
	return binary.LittleEndian.Uint64(b), 8, nil
}
func (g *giant) UnpackValue(b []byte) (sortedmap.Value, uint64, error) {
	if len(b) < 8 {
		return nil, 0, errShort("value", len(b))
	}
	return binary.LittleEndian.Uint64(b), 8, nil
}
func (g *giant) DumpKey(k sortedmap.Key) (string, error)     { return fmt.Sprint(k), nil }
func (g *giant) DumpValue(v sortedmap.Value) (string, error) { return fmt.Sprint(v), nil }

// ---- model -----------------------------------------------------------------------------

func (g *giant) original(k uint64) bool { return k%2 == 1 && k/2 < g.n }

func (g *giant) has(k uint64) bool {
	if g.original(k) {
		_, del := slices.BinarySearch(g.del, k)
		return !del
	}
	_, ins := slices.BinarySearch(g.ins, k)
	return ins
}

// below is the number of items with keys below k.
func (g *giant) below(k uint64) uint64 {
	a, _ := slices.BinarySearch(g.ins, k)
	d, _ := slices.BinarySearch(g.del, k)
	return min(k/2, g.n) + uint64(a) - uint64(d)
}

func (g *giant) length() uint64 { return g.n + uint64(len(g.ins)) - uint64(len(g.del)) }

// at is the key of item i.
func (g *giant) at(i uint64) uint64 {
	lo, hi := uint64(0), uint64(1)<<63
	for lo < hi {
		if m := (lo + hi) / 2; g.below(m+1) > i {
			hi = m
		} else {
			lo = m + 1
		}
	}
	return lo
}

func (g *giant) val(k uint64) uint64 {
	if v, ok := g.over[k]; ok {
		return v
	}
	return mix(g.seed, k)
}

func (g *giant) flip(k uint64) {
	s := &g.ins
	if g.original(k) {
		s = &g.del
	}
	if j, ok := slices.BinarySearch(*s, k); ok {
		*s = slices.Delete(*s, j, j+1)
	} else {
		*s = slices.Insert(*s, j, k)
	}
}

// ---- operations ------------------------------------------------------------------------

func (g *giant) begin(op string, k uint64, lookup bool) func(err error) {
	g.c.Step(op, int(k), 0)
	g.reads = 0
	var s0 sortedmap.BPlusTreeCacheStats
	if g.cache != nil {
		s0 = *g.cache.Stats()
	}
	known := g.clean
	return func(err error) {
		if g.wrong != "" {
			g.fail("arc", "%s(%d): %s", op, k, g.wrong)
		}
		if err != nil {
			g.fail("a", "%s(%d) returned error %v", op, k, err)
		}
		if !lookup {
			if g.h > 0 && g.reads > 3*(g.h+1) {
				g.fail("r", "%s(%d) read %d nodes; the tree has %d levels", op, k, g.reads, g.h)
			}
			g.clean = false
			g.cost++
			return
		}
		if known {
			g.c.Count("lookups of a tree of known height", 1)
			if g.reads > g.h {
				g.fail("r", "%s(%d) read %d nodes; the tree has %d levels", op, k, g.reads, g.h)
			}
			if g.cache != nil {
				s := *g.cache.Stats()
				if d, m := s.CacheHits+s.CacheMisses-s0.CacheHits-s0.CacheMisses, s.CacheMisses-s0.CacheMisses; d != uint64(g.h) || m != uint64(g.reads) {
					g.fail("s", "%s(%d) counted %d hits and misses, %d of them misses, on a tree of %d levels with %d fetches", op, k, d, m, g.h, g.reads)
				}
			}
		}
	}
}

func (g *giant) is(kind, op string, arg any, got, want any) {
	if got != want {
		g.fail(kind, "%s(%v) returned %v instead of %v", op, arg, got, want)
	}
}

func (g *giant) Get(k uint64) {
	end := g.begin("GetByKey", k, true)
	v, ok, err := g.t.GetByKey(k)
	end(err)
	g.is("a", "GetByKey", k, ok, g.has(k))
	if ok {
		g.is("a", "GetByKey", k, v, sortedmap.Value(g.val(k)))
	}
}

func (g *giant) GetIdx(i int) {
	in := i >= 0 && uint64(i) < g.length()
	end := g.begin("GetByIndex", uint64(i), in)
	clean := g.clean
	k, v, ok, err := g.t.GetByIndex(i)
	end(err)
	g.clean = clean
	g.is("ap", "GetByIndex", i, ok, in)
	if in {
		w := g.at(uint64(i))
		g.is("ap", "GetByIndex", i, k, sortedmap.Key(w))
		g.is("ap", "GetByIndex", i, v, sortedmap.Value(g.val(w)))
	}
}

func (g *giant) Bisect(k uint64) {
	b, in := int(g.below(k)), g.has(k)
	end := g.begin("BisectLeft", k, true)
	i, ok, err := g.t.BisectLeft(k)
	end(err)
	g.is("ap", "BisectLeft", k, ok, in)
	if w := b - 1; in {
		g.is("ap", "BisectLeft", k, i, b)
	} else {
		g.is("ap", "BisectLeft", k, i, w)
	}
	end = g.begin("BisectRight", k, true)
	i, ok, err = g.t.BisectRight(k)
	end(err)
	g.is("ap", "BisectRight", k, ok, in)
	g.is("ap", "BisectRight", k, i, b)
}

func (g *giant) Len() {
	n, err := g.t.Len()
	if err != nil {
		g.fail("a", "Len returned error %v", err)
	}
	g.is("ap", "Len", "", n, int(g.length()))
}

func (g *giant) Put(k uint64) {
	v := g.c.rng.Uint64()
	clean := g.clean
	end := g.begin("Put", k, false)
	ok, err := g.t.Put(k, v)
	end(err)
	g.is("a", "Put", k, ok, !g.has(k))
	if ok {
		g.flip(k)
		g.over[k] = v
	} else {
		g.clean = clean
	}
}

func (g *giant) Patch(k uint64) {
	v := g.c.rng.Uint64()
	clean := g.clean
	end := g.begin("PatchByKey", k, false)
	ok, err := g.t.PatchByKey(k, v)
	end(err)
	g.is("a", "PatchByKey", k, ok, g.has(k))
	if ok {
		g.over[k] = v
	} else {
		g.clean = clean
	}
}

func (g *giant) PatchIdx(i int) {
	in := i >= 0 && uint64(i) < g.length()
	v := g.c.rng.Uint64()
	clean := g.clean
	end := g.begin("PatchByIndex", uint64(i), false)
	ok, err := g.t.PatchByIndex(i, v)
	end(err)
	g.is("ap", "PatchByIndex", i, ok, in)
	if in {
		g.over[g.at(uint64(i))] = v
	} else {
		g.clean = clean
	}
}

func (g *giant) Del(k uint64) {
	clean := g.clean
	end := g.begin("DeleteByKey", k, false)
	ok, err := g.t.DeleteByKey(k)
	end(err)
	g.is("a", "DeleteByKey", k, ok, g.has(k))
	if ok {
		g.flip(k)
	} else {
		g.clean = clean
	}
}

func (g *giant) DelIdx(i int) {
	in := i >= 0 && uint64(i) < g.length()
	clean := g.clean
	end := g.begin("DeleteByIndex", uint64(i), false)
	ok, err := g.t.DeleteByIndex(i)
	end(err)
	g.is("ap", "DeleteByIndex", i, ok, in)
	if in {
		g.flip(g.at(uint64(i)))
	} else {
		g.clean = clean
	}
}

func (g *giant) Report() {
	d, err := g.t.FetchDimensionsReport()
	if err != nil {
		g.fail("d", "FetchDimensionsReport returned error %v", err)
	}
	w := sortedmap.DimensionsReport{MinKeysPerNode: g.max / 2, MaxKeysPerNode: g.max, Items: g.length(), Height: d.Height}
	if g.clean {
		w.Height = uint64(g.h)
	}
	g.is("d", "FetchDimensionsReport", "", d, w)
	n, o, l := g.t.FetchLocation()
	if g.clean {
		g.is("d", "FetchLocation", "", loc{n, o, l}, g.root)
	}
}

// ---- images ----------------------------------------------------------------------------

type gnode struct {
	items    uint64
	root     bool
	leaf     bool
	max      uint64
	keys     []uint64
	kids     []ref
	lo, hi   uint64
	height   int
	path     int
	original bool
}

// look decodes one node.
func (g *giant) look(x loc) *gnode {
	b, err := g.node(x)
	if err != nil {
		g.fail("iw", "%v", err)
	}
	r := &rd{b, binary.LittleEndian}
	n := &gnode{}
	u := func() uint64 {
		v, err := r.u64()
		if err != nil {
			g.fail("iw", "node %v: %v", x, err)
		}
		return v
	}
	f := func() bool {
		v, err := r.boolean()
		if err != nil {
			g.fail("iw", "node %v: %v", x, err)
		}
		return v
	}
	n.items = u()
	n.root = f()
	n.leaf = f()
	if n.root {
		n.max = u()
	}
	for k, cnt := uint64(0), u(); k < cnt; k++ {
		if n.leaf || k > 0 {
			n.keys = append(n.keys, u())
		}
		if n.leaf {
			v := u()
			key := n.keys[k]
			if v != g.val(key) {
				g.fail("iw", "the image has value %d for key %d instead of %d", v, key, g.val(key))
			}
			continue
		}
		n.kids = append(n.kids, ref{loc{u(), u(), u()}, u()})
	}
	if len(r.b) != 0 {
		g.fail("iw", "node %v has %d bytes left over", x, len(r.b))
	}
	return n
}

// check walks the nodes really written.
func (g *giant) check(x loc, top bool, real map[loc]bool) *gnode {
	if l, ok := g.virtual(x); ok {
		if g.gone[x] {
			g.fail("c", "node %v of the image has been discarded", x)
		}
		return &gnode{items: g.span[l], root: l == 0, lo: 2*x.O*g.span[l] + 1, hi: 2*((x.O+1)*g.span[l]-1) + 1, height: len(g.fan) - l, original: true}
	}
	if g.gone[x] {
		g.fail("c", "node %v of the image has been discarded", x)
	}
	if real[x] {
		g.fail("w", "node %v occurs twice in the image", x)
	}
	real[x] = true
	n := g.look(x)
	if n.root != top || (top && n.max != g.max) {
		g.fail("wi", "node %v: root flag %v, maximum %d", x, n.root, n.max)
	}
	if k := uint64(len(n.keys)); k > g.max || (!top && k < g.max/2) {
		g.fail("w", "node %v has %d keys", x, k)
	}
	if !slices.IsSorted(n.keys) {
		g.fail("w", "the keys of node %v are out of order", x)
	}
	if n.leaf {
		if n.items != uint64(len(n.keys)) {
			g.fail("iw", "leaf %v counts %d items and has %d", x, n.items, len(n.keys))
		}
		if n.height = 1; len(n.keys) > 0 {
			n.lo, n.hi = n.keys[0], n.keys[len(n.keys)-1]
		}
		for k, key := range n.keys {
			if !g.has(key) || (k > 0 && key == n.keys[k-1]) {
				g.fail("w", "the image has key %d (again)", key)
			}
		}
		return n
	}
	sum := uint64(0)
	for k, kid := range n.kids {
		m := g.check(kid.loc, false, real)
		if m.items != kid.items {
			g.fail("iw", "node %v has %d items, its parent says %d", kid.loc, m.items, kid.items)
		}
		if n.height == 0 {
			n.height = m.height + 1
			n.lo = m.lo
		}
		if n.height != m.height+1 {
			g.fail("w", "the children of node %v have different heights", x)
		}
		if k > 0 && m.lo < n.keys[k-1] || k < len(n.keys) && m.hi >= n.keys[k] {
			g.fail("w", "the keys of node %v do not separate its children", x)
		}
		n.hi = m.hi
		sum += m.items
	}
	if sum != n.items {
		g.fail("iw", "node %v counts %d items, its children %d", x, n.items, sum)
	}
	return n
}

// leafAt is the leaf of the image that holds item i, and the index after its last item.
func (g *giant) leafAt(i uint64) (path []loc, end uint64) {
	x, base := g.root, uint64(0)
	for {
		path = append(path, x)
		n := g.look(x)
		if n.leaf {
			return path, base + n.items
		}
		for k, kid := range n.kids {
			if i < base+kid.items || k == len(n.kids)-1 {
				x = kid.loc
				break
			}
			base += kid.items
		}
	}
}

// holds tells whether the image reaches x, which holds (or leads to) key k.
func (g *giant) holds(x loc, k uint64) bool {
	y := g.root
	for {
		if y == x {
			return true
		}
		n := g.look(y)
		if n.leaf {
			return false
		}
		j, found := slices.BinarySearch(n.keys, k)
		if found {
			j++
		}
		y = n.kids[j].loc
	}
}

func (g *giant) Flush(purge, prune bool) {
	g.c.Step("Flush", 0, 0)
	g.puts, g.putOK = nil, true
	n, o, l, err := g.t.Flush(purge)
	g.putOK = false
	if g.wrong != "" || err != nil {
		g.fail("aiw", "Flush: %v %s", err, g.wrong)
	}
	old := g.root
	g.root = loc{n, o, l}
	if g.clean && (len(g.puts) > 0 || old != g.root) {
		g.fail("f", "a flush of an unmodified tree wrote %d nodes, and its location changed from %v to %v", len(g.puts), old, g.root)
	}
	real := map[loc]bool{}
	im := g.check(g.root, true, real)
	if im.items != g.length() {
		g.fail("wi", "the image has %d items instead of %d", im.items, g.length())
	}
	g.h = im.height
	g.clean = true
	for _, x := range g.puts {
		if !real[x] {
			g.fail("f", "the flush wrote node %v, which is not part of the image", x)
		}
	}
	g.c.Count("nodes written", int64(len(g.puts)))
	if prune {
		g.c.Step("Prune", 0, 0)
		g.disc, g.disOK = nil, true
		err := g.t.Prune()
		g.disOK = false
		if g.wrong != "" || err != nil {
			g.fail("c", "Prune: %v %s", err, g.wrong)
		}
		for x := range g.store {
			if g.gone[x] == real[x] {
				g.fail("c", "after flush and prune, node %v: part of the image %v, discarded %v", x, real[x], g.gone[x])
			}
		}
		seen := map[loc]bool{}
		for _, m := range []map[loc]bool{g.read, g.gone} {
			for x := range m {
				l, ok := g.virtual(x)
				if !ok || seen[x] {
					continue
				}
				seen[x] = true
				if in := g.holds(x, 2*x.O*g.span[l]+1); in == g.gone[x] {
					g.fail("c", "after flush and prune, original node %v: part of the image %v, discarded %v", x, in, g.gone[x])
				}
			}
		}
		g.c.Count("nodes discarded", int64(len(g.disc)))
		for x := range g.store {
			if g.gone[x] {
				delete(g.store, x)
			}
		}
	}
}

func (g *giant) open() {
	switch g.c.rng.IntN(3) {
	case 0:
		g.cache = nil
	case 1:
		g.cache = sortedmap.NewBPlusTreeCache(math.MaxUint64/4, math.MaxUint64/2)
	case 2:
		if g.cache = nil; g.what == "s" {
			g.cache = sortedmap.NewBPlusTreeCache(1<<40, 1<<41)
		} else if g.max < 100 {
			lo := uint64(g.c.rng.IntN(40))
			g.cache = sortedmap.NewBPlusTreeCache(lo, lo+uint64(g.c.rng.IntN(20)))
		}
	}
	g.c.Step("OldBPlusTree", 0, 0)
	t, err := sortedmap.OldBPlusTree(g.root.N, g.root.O, g.root.L, sortedmap.CompareUint64, g, g.cache)
	if err != nil || g.wrong != "" {
		g.fail("ai", "OldBPlusTree: %v %s", err, g.wrong)
	}
	g.t = t
}

// giantTree chooses a tree.
func giantTree(c *Ctx, i int, what string) *giant {
	g := &giant{c: c, what: what, seed: c.rng.Uint64(), store: map[loc][]byte{}, read: map[loc]bool{}, gone: map[loc]bool{}, over: map[uint64]uint64{}, clean: true}
	g.max = []uint64{4, 4, 4, 6, 8, 10, 32, 100, 300}[c.rng.IntN(9)]
	bits := []int{31, 32, 33, 16, 17, 40, 48, 53, 59, 20}[i%10]
	if i%23 == 22 { // wider than 15 or 16 bits
		g.max = []uint64{40_000, 80_000, 140_000}[c.rng.IntN(3)]
		bits = 17
	}
	style := c.rng.IntN(4)
	pick := func(lo, hi uint64) uint64 {
		switch style {
		case 0:
			return lo
		case 1:
			return hi
		}
		return lo + c.rng.Uint64N(hi-lo+1)
	}
	g.fan = []uint64{pick(g.max/2, g.max)}
	g.span = []uint64{g.fan[0]}
	for g.span[0] < 1<<bits || len(g.fan) < 2 {
		f := pick(g.max/2+1, g.max+1)
		if g.max > 1000 {
			f = min(f, 70_000)
		}
		if g.span[0] > 1<<61/(g.max+1) {
			break
		}
		g.fan = slices.Insert(g.fan, 0, f)
		g.span = slices.Insert(g.span, 0, f*g.span[0])
	}
	if style == 3 && g.max < 1000 { // few children of the root
		f := 2 + c.rng.Uint64N(2)
		g.span[0] = g.span[0] / g.fan[0] * f
		g.fan[0] = f
	}
	g.n = g.span[0]
	for l, f := range g.fan {
		s := uint64(8 + 2 + 8)
		if l == 0 {
			s += 8
		}
		if l == len(g.fan)-1 {
			s += 16 * f
		} else {
			s += 32*f + 8*(f-1)
		}
		g.size = append(g.size, s)
	}
	g.root = g.place(0, 0)
	g.h = len(g.fan)
	g.open()
	c.Max("items", int64(g.n))
	c.Max("levels", int64(len(g.fan)))
	c.Max("fan-out", int64(g.max))
	return g
}

// spot is an interesting item.
func (g *giant) spot() uint64 {
	c := g.c
	n := g.length()
	d := c.rng.Uint64N(4)
	var i uint64
	switch c.rng.IntN(8) {
	case 0:
		i = d
	case 1:
		i = n - 1 - min(d, n-1)
	case 2, 3:
		i = 1<<[]uint{15, 16, 31, 32, 33, 53}[c.rng.IntN(6)] + d - 2
	case 4: // a border of two nodes
		l := c.rng.IntN(len(g.span))
		i = g.span[l]*(1+c.rng.Uint64N(g.n/g.span[l])) + d - 2
	default:
		i = c.rng.Uint64N(n)
	}
	return i % n
}

func (g *giant) key() uint64 {
	k := g.at(g.spot())
	switch g.c.rng.IntN(8) {
	case 0, 1, 2:
		k++
	case 3:
		k = 2*g.n + g.c.rng.Uint64N(50)
	case 4:
		if k > 0 {
			k--
		}
	}
	return k
}

func (g *giant) index() int {
	switch g.c.rng.IntN(12) {
	case 0:
		return []int{-1, math.MinInt64, math.MaxInt64, -1 << 32, -1<<32 + 1, math.MinInt64 + 1, -int(g.length())}[g.c.rng.IntN(7)]
	case 1:
		return int(g.length()) + g.c.rng.IntN(3)
	}
	return int(g.spot())
}

// run: a run of updates at one place.
func (g *giant) run(n int) {
	c := g.c
	i := g.spot()
	up, del := c.rng.IntN(2) == 0, c.rng.IntN(2) == 0
	for ; n > 0 && g.length() > 2; n-- {
		i = min(i, g.length()-1)
		switch {
		case del && c.rng.IntN(2) == 0:
			g.DelIdx(int(i))
		case del:
			g.Del(g.at(i))
		default:
			k := g.at(i) + 1
			if g.has(k) {
				g.Del(k - 1)
			} else {
				g.Put(k)
			}
			if i++; c.rng.IntN(3) == 0 {
				i++
			}
		}
		if !up && i > 0 && c.rng.IntN(2) == 0 {
			i--
		}
	}
}

func giantRun(what string) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		g := giantTree(c, i, what)
		huge := g.max > 1000
		looks := 12
		if huge {
			looks = 5
		}
		look := func() {
			g.Len()
			g.Report()
			for k := looks; k > 0; k-- {
				g.Get(g.key())
				g.GetIdx(g.index())
				g.Bisect(g.key())
				if k%4 == 0 && c.rng.IntN(3) == 0 {
					if err := g.t.Purge(false); err != nil {
						g.fail("a", "Purge returned error %v", err)
					}
				}
			}
			g.Report()
		}
		look()
		for round := 0; round < 3; round++ {
			if c.rng.IntN(2) == 0 { // one change by itself
				i := g.spot()
				path, _ := g.leafAt(i)
				if c.rng.IntN(2) == 0 {
					g.PatchIdx(int(i))
				} else {
					g.Patch(g.at(i))
				}
				g.Flush(c.rng.IntN(2) == 0, true)
				if len(g.puts) != len(path) {
					g.fail("f", "after a patch the flush wrote %d nodes on %d levels", len(g.puts), len(path))
				}
				slices.SortFunc(g.disc, func(a, b loc) int { return slices.Index(path, a) - slices.Index(path, b) })
				if round == 0 && !slices.Equal(g.disc, path) {
					g.fail("c", "after a patch, flush and prune discarded %v instead of %v", g.disc, path)
				}
			}
			if c.rng.IntN(2) == 0 || what == "t" { // touch a leaf
				i := g.spot()
				path, end := g.leafAt(i)
				next, err := g.t.TouchItem(i)
				if err != nil || g.wrong != "" {
					g.fail("t", "TouchItem(%d): %v %s", i, err, g.wrong)
				}
				if end == g.length() && next != 0 && next != end || end != g.length() && next != end {
					g.fail("t", "TouchItem(%d) returned %d; the leaf ends before item %d", i, next, end)
				}
				g.clean = false
				g.Flush(c.rng.IntN(2) == 0, c.rng.IntN(2) == 0)
				now, _ := g.leafAt(i)
				for _, x := range now {
					if slices.Contains(path, x) {
						g.fail("t", "node %v above item %d is still in use after it was touched", x, i)
					}
				}
				c.Count("leaves touched", 1)
			}
			for k := 2 + c.rng.IntN(4); k > 0; k-- {
				g.PatchIdx(g.index())
				g.Patch(g.key())
				g.Put(g.key())
				g.Put(g.at(g.spot()))
				g.Del(g.key())
				g.DelIdx(g.index())
				if n := int(g.max); !huge {
					g.run(1 + c.rng.IntN(min(120, 3*n)))
				} else {
					g.run(1 + c.rng.IntN(40))
				}
				if c.rng.IntN(3) == 0 {
					look()
				}
			}
			look()
			reopen := c.rng.IntN(2) == 0
			g.Flush(c.rng.IntN(2) == 0, reopen || c.rng.IntN(3) > 0)
			look()
			if reopen {
				g.open()
				c.Count("reopened", 1)
				look()
			}
		}
		c.Count("giant trees", 1)
		c.Eval(mix(c.h, g.n), true)
		if i < 2 {
			c.Sample("giant #%d: %d items, fan-out %v, %d updates", i, g.n, g.fan, g.cost)
		}
	}
}

func init() {
	for _, p := range []struct{ id, what string }{
		{"C02", "a"}, {"C03", "p"}, {"C06", "ia"}, {"C08", "c"}, {"C09", "w"}, {"C10", "r"}, {"C12", "s"}, {"C16", "t"}, {"C18", "d"}, {"C22", "i"}, {"C23", "f"},
	} {
		addPhase(p.id, Phase{Name: "giant", Items: scale(60, 1500), Run: giantRun(p.what)})
		m := map[string]int64{"giant trees": 30}
		for k, v := range props[p.id].Min {
			m[k] = v
		}
		props[p.id].Min = m
	}
}
