package main

import (
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/NVIDIA/sortedmap"
)

// ---- C19: validation ---------------------------------------------------------------------------

func validates(c *Ctx, b *BT, what string) {
	c.Step("Validate", 0, 0)
	p0, d0 := b.st.puts.Load(), b.st.discs.Load()
	if err := b.t.Validate(); err != nil {
		c.Fail("Validate of a tree with maximum %d and %d items, %s, returned error %v", b.max, len(b.mod.r), what, err)
	}
	if b.st.puts.Load() != p0 || b.st.discs.Load() != d0 {
		c.Fail("Validate wrote or discarded nodes")
	}
	c.Count("trees accepted", 1)
	c.Eval(c.h, len(b.mod.r) > 0)
}

func validAccepts(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8, 16}[i%5]
	o.cache = randCache(c)
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else if i%3 == 0 {
		b = handMade(c, o, o.cache, 200)
	} else {
		b = newBT(c, o)
	}
	b.lenient = true
	b.st.watch = ""
	x := newMix(c, o.kk, 300)
	every := 1 + c.rng.IntN(12)
	for s := 0; s < 400; s++ {
		switch {
		case c.rng.IntN(12) == 0:
			residencyOp(b)
		case c.rng.IntN(60) == 0:
			l := b.Flush(c.rng.IntN(2) == 0)
			b = b.reopen(b.st.snapshot(), l, o.cache)
			b.lenient = true
		default:
			b.RandomUpdate(x)
		}
		if s%every == 0 {
			if c.rng.IntN(4) == 0 { // it changes nothing: not even what a Flush writes
				l := b.Flush(c.rng.IntN(2) == 0)
				p0 := b.st.puts.Load()
				validates(c, b, "just flushed")
				if l2 := b.Flush(false); l2 != l || b.st.puts.Load() != p0 {
					c.Fail("after Validate a Flush of an unmodified tree wrote %d nodes and moved from %v to %v", b.st.puts.Load()-p0, l, l2)
				}
			} else {
				validates(c, b, "in use")
			}
		}
	}
	// contents are as they were
	l := b.Flush(false)
	im := b.image(l)
	before := im.ranks
	validates(c, b, "at the end")
	im2 := b.image(b.Flush(true))
	if fmt.Sprint(before) != fmt.Sprint(im2.ranks) {
		c.Fail("Validate changed the contents")
	}
}

func validAcceptsLL(c *Ctx, i int) {
	kk := keyKinds()[c.rng.IntN(len(keyKinds()))]
	d := newLL(c, kk, valKinds()[0])
	d.lenient = true
	x := newMix(c, kk, 500)
	for s := 0; s < 600; s++ {
		d.RandomUpdate(x)
		if err := d.m.Validate(); err != nil {
			c.Fail("Validate of an in-memory map of %d items returned error %v", len(d.mod.r), err)
		}
		if c.rng.IntN(200) == 0 {
			d.m.(sortedmap.LLRBTree).Reset()
			d.mod = &Model{}
		}
		c.Count("in-memory maps accepted", 1)
	}
	c.Done()
}

// rewrite stores a changed version of the image: f may change every node's decoded form. It returns the new root.
func rewrite(st *Store, n *img, kk *KeyKind, vk *ValKind, f func(old, d *img)) loc {
	d := *n
	d.kids = append([]ref{}, n.kids...)
	d.keys = append([]sortedmap.Key{}, n.keys...)
	d.vals = append([]sortedmap.Value{}, n.vals...)
	for i, s := range n.sub {
		d.kids[i].loc = rewrite(st, s, kk, vk, f)
	}
	f(n, &d)
	return st.putRaw(encodeNode(&d, curBO(), kk, vk))
}

func mustReject(c *Ctx, b *BT, root loc, what string) {
	c.Step("open and Validate an inconsistent image", 0, 0)
	t, err := sortedmap.OldBPlusTree(root.N, root.O, root.L, b.kk.Cmp, b.st, randCache(c))
	if err != nil {
		c.Count("inconsistent images refused when opened", 1)
		return
	}
	if err := t.Validate(); err == nil {
		c.Fail("Validate accepted a tree with maximum %d and %d items in which %s", b.max, len(b.mod.r), what)
	}
	c.Count("inconsistent images rejected", 1)
	c.Eval(mix(c.h, hashStr(what)), true)
}

func validRejects(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8, 10, 16}[i%6]
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else {
		b = handMade(c, o, nil, []int{20, 60, 200}[i/6%3])
	}
	b.lenient = true
	b.st.watch = ""
	im := b.image(b.last)
	// the unchanged image, rewritten, is accepted
	same := rewrite(b.st, im.root, o.kk, o.vk, func(_, _ *img) {})
	t, err := sortedmap.OldBPlusTree(same.N, same.O, same.L, o.kk.Cmp, b.st, nil)
	if err != nil {
		panic(&abandon{"a rewritten image does not open"})
	}
	if err := t.Validate(); err != nil {
		c.Fail("Validate of a well-formed image with maximum %d and %d items returned error %v", b.max, len(b.mod.r), err)
	}
	c.Count("trees accepted", 1)
	pick := func(ns []*img) *img { return ns[c.rng.IntN(len(ns))] }
	var inner []*img
	for _, n := range im.order {
		if !n.leaf {
			inner = append(inner, n)
		}
	}
	off := func(v uint64) uint64 {
		switch c.rng.IntN(6) {
		case 0:
			return v + 1
		case 1:
			return v - 1
		case 2:
			return 0
		case 3:
			return v + uint64(1+c.rng.IntN(1000))
		case 4:
			return v * 2
		}
		return ^uint64(0) - uint64(c.rng.IntN(3))
	}
	wrong := func(v uint64) uint64 {
		for {
			if w := off(v); w != v {
				return w
			}
		}
	}
	// a leaf's item count
	for k := 0; k < 4; k++ {
		l := pick(im.leaves)
		w := wrong(l.items)
		along := c.rng.IntN(3) == 0 && l.parent != nil // its parent agrees with the wrong count
		root := rewrite(b.st, im.root, o.kk, o.vk, func(old, d *img) {
			if old == l {
				d.items = w
			}
			for j, s := range old.sub {
				if along && s == l {
					d.kids[j].items = w
				}
			}
		})
		mustReject(c, b, root, fmt.Sprintf("a leaf of %d keys records %d items (its parent agrees: %v)", len(l.keys), w, along))
	}
	// a child's item count as recorded by its parent
	if len(inner) > 0 {
		for k := 0; k < 6; k++ {
			p := pick(inner)
			j := c.rng.IntN(len(p.kids))
			w := wrong(p.kids[j].items)
			root := rewrite(b.st, im.root, o.kk, o.vk, func(old, d *img) {
				if old == p {
					d.kids[j].items = w
				}
			})
			mustReject(c, b, root, fmt.Sprintf("an inner node (depth %d) records %d items for child %d of %d, which has %d", p.depth, w, j, len(p.kids), p.kids[j].items))
		}
		// two wrong counts that make up for each other
		for k := 0; k < 12; k++ {
			p := pick(inner)
			j := c.rng.Perm(len(p.kids))[:2]
			dl := uint64(1 + c.rng.IntN(3))
			if k%2 == 0 {
				dl = 1
			}
			if p.kids[j[0]].items < dl {
				continue
			}
			root := rewrite(b.st, im.root, o.kk, o.vk, func(old, d *img) {
				if old == p {
					d.kids[j[0]].items -= dl
					d.kids[j[1]].items += dl
				}
			})
			mustReject(c, b, root, fmt.Sprintf("an inner node (depth %d) of %d children records %d items too few for child %d and as many too many for child %d", p.depth, len(p.kids), dl, j[0], j[1]))
			c.Count("compensating counts", 1)
		}
	}
	// numbers of keys out of bounds, by recording another maximum in the root
	for _, m := range []uint64{4, 6, 8, 10, 16, 32} {
		if m == b.max {
			continue
		}
		badNode := ""
		for _, n := range im.order {
			if uint64(len(n.keys)) > m {
				badNode = fmt.Sprintf("a node (depth %d, leaf %v) has %d keys, above the maximum", n.depth, n.leaf, len(n.keys))
			} else if n.parent != nil && uint64(len(n.keys)) < m/2 {
				badNode = fmt.Sprintf("a node (depth %d, leaf %v) has %d keys, below the minimum", n.depth, n.leaf, len(n.keys))
			}
		}
		root := rewrite(b.st, im.root, o.kk, o.vk, func(old, d *img) {
			if old == im.root {
				d.max = m
			}
		})
		if badNode != "" {
			mustReject(c, b, root, fmt.Sprintf("with maximum %d %s", m, badNode))
		} else if t, err := sortedmap.OldBPlusTree(root.N, root.O, root.L, o.kk.Cmp, b.st, nil); err == nil {
			if err := t.Validate(); err != nil {
				c.Fail("Validate of a tree that is well formed also for maximum %d returned error %v", m, err)
			}
			c.Count("trees accepted", 1)
		}
	}
	// one node alone out of bounds: an item moved from one leaf to the next, or dropped
	odd := 8
	if c.lim > 0 {
		odd = 2
	}
	for k := 0; k < odd; k++ {
		sizes, groups, what := oddShape(c, keyCap(o.max))
		root := buildOdd(b, sizes, groups)
		mustReject(c, b, root, what)
		c.Count("odd shapes", 1)
	}
	if i < 2 {
		c.Sample("rejects #%d: %v, %d items, %d nodes, height %d", i, o, len(b.mod.r), len(im.order), im.height)
	}
}

// oddShape chooses a shape in which exactly one node has a number of keys out of bounds.
// sizes: keys of each leaf; groups: leaves below each node of the middle level (nil: the root is their parent).
func oddShape(c *Ctx, max int) (sizes, groups []int, what string) {
	min := max / 2
	legal := func() int { return min + c.rng.IntN(max-min+1) }
	leaves := 2 + c.rng.IntN(max) // children of the root
	if max > 40 {
		leaves = 2 + c.rng.IntN(40)
	}
	if max <= 40 && c.rng.IntN(3) == 0 { // an inner node below the root is the odd one
		ng := 2 + c.rng.IntN(3)
		odd := c.rng.IntN(ng)
		for g := 0; g < ng; g++ {
			n := legal() + 1
			if g == odd {
				if c.rng.IntN(2) == 0 {
					n = min // min-1 keys
					what = fmt.Sprintf("an inner node has %d keys (minimum %d)", n-1, min)
				} else {
					n = max + 2
					what = fmt.Sprintf("an inner node has %d keys (maximum %d)", n-1, max)
				}
			}
			groups = append(groups, n)
			for k := 0; k < n; k++ {
				sizes = append(sizes, legal())
			}
		}
		return
	}
	if c.rng.IntN(4) == 0 { // the root
		if c.rng.IntN(2) == 0 {
			return []int{max + 1}, nil, fmt.Sprintf("a root leaf has %d keys (maximum %d)", max+1, max)
		}
		for k := 0; k < max+2; k++ {
			if max > 40 {
				sizes = append(sizes, min)
			} else {
				sizes = append(sizes, legal())
			}
		}
		return sizes, nil, fmt.Sprintf("an inner root has %d keys (maximum %d)", max+1, max)
	}
	for k := 0; k < leaves; k++ {
		sizes = append(sizes, legal())
	}
	j := c.rng.IntN(leaves)
	if c.rng.IntN(2) == 0 {
		sizes[j] = 1 + c.rng.IntN(min-1)
		what = fmt.Sprintf("leaf %d of %d has %d keys (minimum %d)", j, leaves, sizes[j], min)
	} else {
		sizes[j] = max + 1 + c.rng.IntN(2)
		what = fmt.Sprintf("leaf %d of %d has %d keys (maximum %d)", j, leaves, sizes[j], max)
	}
	return
}

func buildOdd(b *BT, sizes, groups []int) loc {
	mk := func(n *img) ref { return ref{b.st.putRaw(encodeNode(n, curBO(), b.kk, b.vk)), n.items} }
	r := 0
	var kids []ref
	var lows []int
	for _, s := range sizes {
		n := &img{items: uint64(s), leaf: true, root: len(sizes) == 1, max: b.max}
		lows = append(lows, r)
		for k := 0; k < s; k++ {
			n.keys = append(n.keys, b.kk.Key(r))
			n.vals = append(n.vals, b.vk.Val(r+1))
			r++
		}
		kids = append(kids, mk(n))
	}
	if len(sizes) == 1 {
		return kids[0].loc
	}
	join := func(kids []ref, lows []int, root bool) *img {
		n := &img{root: root, max: b.max}
		for k := range kids {
			n.items += kids[k].items
			n.kids = append(n.kids, kids[k])
			if k > 0 {
				n.keys = append(n.keys, b.kk.Key(lows[k]))
			}
		}
		return n
	}
	if groups == nil {
		return mk(join(kids, lows, true)).loc
	}
	var mid []ref
	var midLows []int
	p := 0
	for _, g := range groups {
		mid = append(mid, mk(join(kids[p:p+g], lows[p:p+g], false)))
		midLows = append(midLows, lows[p])
		p += g
	}
	return mk(join(mid, midLows, true)).loc
}

// ---- C21: dumps --------------------------------------------------------------------------------

// captured runs f and returns what it printed (serial phases only).
func captured(c *Ctx, f func()) string {
	save := os.Stdout
	file, err := os.CreateTemp("", "smdump-")
	if err != nil {
		panic(err)
	}
	defer os.Remove(file.Name())
	defer file.Close()
	os.Stdout = file
	defer func() { os.Stdout = save }()
	f()
	file.Seek(0, io.SeekStart)
	b, err := io.ReadAll(file)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var (
	reBTKey = regexp.MustCompile(`\.kvLLRB\[(\d+)\]\.Key\s*= (.*)$`)
	reBTVal = regexp.MustCompile(`\.kvLLRB\[(\d+)\]\.Value\s*= (.*)$`)
	reMark  = regexp.MustCompile(`<([KV])(\d+)>`)
	reFlat  = regexp.MustCompile(`Node Key == <K(\d+)>`)
)

// checkDumpBT: item entries are key lines followed by a value line that shows a rendered value.
func checkDumpBT(c *Ctx, b *BT, out string) {
	ks, vs := dumpedItems(c, out)
	if len(ks) != len(b.mod.r) {
		c.Fail("Dump of a B+Tree of %d items listed %d entries", len(b.mod.r), len(ks))
	}
	for i := range ks {
		wantV, _ := b.vk.ID(b.vk.Val(b.mod.v[i]))
		if ks[i] != b.mod.r[i] || vs[i] != wantV {
			c.Fail("entry %d of the Dump is key rank %d with value #%d, expected %d with #%d", i, ks[i], vs[i], b.mod.r[i], wantV)
		}
	}
	c.Count("B+Tree dumps compared", 1)
	c.Count("entries compared", int64(len(ks)))
}

// wellRendered: whatever DumpKey and DumpValue gave is there unchanged.
func wellRendered(c *Ctx, out string) {
	for _, m := range reMark.FindAllStringSubmatchIndex(out, -1) {
		n, _ := strconv.Atoi(out[m[4]:m[5]])
		if !strings.HasPrefix(out[m[1]:], ending(n)) {
			c.Fail("Dump printed %.80q, but what was rendered is %q", out[m[0]:], out[m[0]:m[1]]+ending(n))
		}
	}
}

func dumpedItems(c *Ctx, out string) (ks, vs []int) {
	wellRendered(c, out)
	lines := strings.Split(out, "\n")
	for i, l := range lines {
		m := reBTKey.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		k := reMark.FindStringSubmatch(m[2])
		if k == nil || k[1] != "K" || !strings.HasPrefix(strings.TrimSpace(m[2]), k[0]) {
			c.Fail("Dump printed the key %q, which is not as DumpKey rendered it", m[2])
		}
		if i+1 >= len(lines) {
			continue
		}
		v := reBTVal.FindStringSubmatch(lines[i+1])
		if v == nil || v[1] != m[1] {
			continue
		}
		w := reMark.FindStringSubmatch(v[2])
		if w == nil || w[1] != "V" {
			continue // a child node
		}
		kn, _ := strconv.Atoi(k[2])
		vn, _ := strconv.Atoi(w[2])
		ks, vs = append(ks, kn), append(vs, vn)
	}
	if n := strings.Count(out, "<V"); n != len(vs) {
		c.Fail("Dump printed %d values but %d item entries", n, len(vs))
	}
	return
}

// dumpedKeys counts the keys of an in-memory map in the two listings of its dump.
func dumpedKeys(c *Ctx, out string) (flat, tree map[int]int) {
	flat, tree = map[int]int{}, map[int]int{}
	wellRendered(c, out)
	for _, l := range strings.Split(out, "\n") {
		if m := reFlat.FindStringSubmatch(l); m != nil {
			r, _ := strconv.Atoi(m[1])
			flat[r]++
		} else if m := reMark.FindAllStringSubmatch(l, -1); len(m) == 1 {
			r, _ := strconv.Atoi(m[0][2])
			tree[r]++
		} else if len(m) > 1 {
			c.Fail("Dump printed several items on one line: %q", l)
		}
	}
	return
}

func dumpBT(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8, 16}[i%5]
	o.cache = randCache(c)
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else if i%3 == 0 {
		b = handMade(c, o, o.cache, 150)
	} else {
		b = newBT(c, o)
	}
	b.st.watch = ""
	b.lenient = true
	x := newMix(c, o.kk, 150)
	for g := 0; g < 6; g++ {
		for n := c.rng.IntN(2*x.U + 1); n > 0; n-- {
			b.RandomUpdate(x)
		}
		if c.rng.IntN(2) == 0 {
			b.randomResidency()
		}
		if i%7 == 0 && g == 0 {
			for len(b.mod.r) > 0 {
				b.DelIdx(0)
			}
		}
		flushed := c.rng.IntN(2) == 0
		var l loc
		if flushed {
			l = b.Flush(c.rng.IntN(2) == 0)
		}
		p0, d0 := b.st.puts.Load(), b.st.discs.Load()
		var err error
		c.Step("Dump", 0, 0)
		out := captured(c, func() { err = b.t.Dump() })
		if err != nil {
			c.Fail("Dump returned error %v", err)
		}
		checkDumpBT(c, b, out)
		c.Eval(c.h, len(b.mod.r) > 0)
		if c.rng.IntN(2) == 0 { // the same again from whatever is resident now
			checkDumpBT(c, b, captured(c, func() { err = b.t.Dump() }))
		}
		if b.st.puts.Load() != p0 || b.st.discs.Load() != d0 {
			c.Fail("Dump wrote or discarded nodes")
		}
		if flushed {
			if l2 := b.Flush(false); l2 != l || b.st.puts.Load() != p0 {
				c.Fail("a Flush after Dump of an unmodified tree wrote %d nodes", b.st.puts.Load()-p0)
			}
		}
		// an error from a callback, at any position
		calls := 0
		b.st.fault = func(string) error { calls++; return nil }
		cold := flushed && c.rng.IntN(2) == 0
		if cold {
			b.Flush(true)
			calls = 0
		}
		captured(c, func() { b.t.Dump() })
		for t := 0; t < 6 && calls > 0; t++ {
			if cold {
				b.st.fault = nil
				b.Flush(true)
			}
			k := 1 + c.rng.IntN(calls)
			if t == 0 {
				k = calls
			}
			n := 0
			failed := ""
			b.st.fault = func(kind string) error {
				n++
				if n == k {
					failed = kind
					return errInjected
				}
				return nil
			}
			var err error
			captured(c, func() { err = b.t.Dump() })
			b.st.fault = nil
			b.st.fired.Store(0)
			if failed == "" {
				continue
			}
			if err == nil {
				c.Fail("%s number %d of %d failed during Dump of a tree of %d items, but Dump returned no error", failed, k, calls, len(b.mod.r))
			}
			c.Count("failed dumps", 1)
			c.Count("failed "+failed, 1)
		}
		b.st.fault = nil
	}
	// contents: as a flushed image and as answered
	before := fmt.Sprint(b.mod.r)
	im := b.image(b.Flush(false))
	if fmt.Sprint(im.ranks) != before {
		panic(&abandon{"contents differ from the model, which is not judged here"})
	}
	for k := 0; k < 3; k++ {
		captured(c, func() { b.t.Dump() })
	}
	b.Touch()
	im = b.image(b.Flush(true))
	if fmt.Sprint(im.ranks) != before {
		c.Fail("Dump changed the contents")
	}
	if i < 2 {
		c.Sample("dump #%d: %v, %d items", i, o, len(b.mod.r))
	}
}

func dumpLL(c *Ctx, i int) {
	kk := keyKinds()[c.rng.IntN(len(keyKinds()))]
	st := newStore(kk, vkU64, 0, 1)
	d := newLL(c, kk, vkU64)
	d.m = sortedmap.NewLLRBTree(kk.Cmp, st)
	d.lenient = true
	x := newMix(c, kk, 200)
	for g := 0; g < 6; g++ {
		if g > 0 || i%5 > 0 {
			for n := c.rng.IntN(2*x.U + 1); n > 0; n-- {
				d.RandomUpdate(x)
			}
		}
		var err error
		c.Step("Dump", 0, 0)
		out := captured(c, func() { err = d.m.Dump() })
		if err != nil {
			c.Fail("Dump of an in-memory map returned error %v", err)
		}
		flat, tree := dumpedKeys(c, out)
		for name, s := range map[string]map[int]int{"node listing": flat, "tree drawing": tree} {
			if len(s) != len(d.mod.r) {
				c.Fail("the %s of the Dump of an in-memory map of %d items shows %d keys", name, len(d.mod.r), len(s))
			}
			for _, r := range d.mod.r {
				if s[r] != 1 {
					c.Fail("the %s of the Dump of an in-memory map shows the key of rank %d %d times", name, r, s[r])
				}
			}
		}
		c.Count("in-memory dumps compared", 1)
		c.Count("entries compared", int64(len(d.mod.r)))
		c.Eval(c.h, len(d.mod.r) > 0)
		calls := 0
		st.fault = func(string) error { calls++; return nil }
		captured(c, func() { d.m.Dump() })
		for t := 0; t < 6 && calls > 0; t++ {
			k := 1 + c.rng.IntN(calls)
			if t == 0 {
				k = calls
			}
			n := 0
			st.fault = func(kind string) error {
				n++
				if n == k {
					return errInjected
				}
				return nil
			}
			var err error
			captured(c, func() { err = d.m.Dump() })
			st.fault = nil
			if err == nil {
				c.Fail("DumpKey call %d of %d failed during Dump of an in-memory map of %d items, but Dump returned no error", k, calls, len(d.mod.r))
			}
			c.Count("failed dumps", 1)
		}
		st.fault = nil
		n, err := d.m.Len()
		if err != nil || n != len(d.mod.r) {
			c.Fail("after Dump an in-memory map of %d items reports %d (error %v)", len(d.mod.r), n, err)
		}
		for j, r := range d.mod.r {
			k, v, ok, err := d.m.GetByIndex(j)
			if err != nil || !ok || !d.vk.match(v, d.mod.v[j]) {
				c.Fail("after Dump item %d of an in-memory map is %v, %v, %v (error %v)", j, k, v, ok, err)
			}
			if kr, _ := kk.Rank(k); kr != r {
				c.Fail("after Dump item %d of an in-memory map has key rank %d, expected %d", j, kr, r)
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:          "C19",
		Technique:   "runtime monitoring: Validate run over random histories and residency states, and over images rewritten with one inconsistency each",
		Rule:        "one evaluation = one Validate of a tree in use that must be accepted, or of one rewritten image that must be rejected; distinct by history hash and inconsistency",
		Assumptions: []string{"opening an inconsistent image may refuse it already"},
		Min:         map[string]int64{"looks at the whole map beside other operations": 800, "trees accepted": 10000, "in-memory maps accepted": 20000, "inconsistent images rejected": 10000, "compensating counts": 2000, "odd shapes": 2000},
		Phases: []Phase{
			{Name: "accepts", Items: scale(2000, 40000), Run: validAccepts},
			{Name: "concurrent", Items: scale(1500, 25000), Run: func(c *Ctx, i int) { linRun(c, i, i%4 > 0, "validate") }},
			{Name: "accepts-in-memory", Items: scale(400, 9000), Run: validAcceptsLL},
			{Name: "rejects", Items: scale(5000, 90000), Run: validRejects},
		},
	})
	register(&Prop{
		ID:          "C21",
		Technique:   "runtime monitoring: captured dumps compared with the reference contents; failing render and load callbacks at chosen positions",
		Rule:        "one evaluation = one Dump whose captured output was compared with the reference contents; distinct by history hash",
		Assumptions: []string{"an entry of a B+Tree dump is a .Key line followed by a .Value line with the rendered value; an entry of an in-memory dump is a 'Node Key ==' line (node listing) or a line with a single rendered key (tree drawing)"},
		Min:         map[string]int64{"looks at the whole map beside other operations": 250, "B+Tree dumps compared": 1500, "in-memory dumps compared": 600, "failed dumps": 5000, "failed GetNode": 300, "failed DumpValue": 300},
		Phases: []Phase{
			{Name: "btree", Items: scale(400, 6000), Serial: true, Run: dumpBT},
			{Name: "in-memory", Items: scale(200, 3000), Serial: true, Run: dumpLL},
			{Name: "concurrent", Items: scale(500, 9000), Serial: true, Run: func(c *Ctx, i int) { linRun(c, i, i%3 > 0, "dump") }},
		},
	})
}
