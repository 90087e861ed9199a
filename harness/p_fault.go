package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/NVIDIA/sortedmap"
)

// ---- C14: failing callbacks ----------------------------------------------------------------

type fargs struct {
	present, absent, idx int
	purge                bool
}

type fop struct {
	name string
	run  func(b *BT, a fargs)
}

func plain(name string, f func(b *BT) error) fop {
	return fop{name, func(b *BT, a fargs) {
		b.c.Step(name, 0, 0)
		err := f(b)
		b.noErr(name, err)
	}}
}

var fops = []fop{
	{"DeleteByKey", func(b *BT, a fargs) { b.Del(a.present) }},
	{"DeleteByIndex", func(b *BT, a fargs) { b.DelIdx(a.idx) }},
	{"Put", func(b *BT, a fargs) { b.Put(a.absent) }},
	{"Flush", func(b *BT, a fargs) { b.Flush(a.purge) }},
	{"GetByKey", func(b *BT, a fargs) { b.Get(a.present) }},
	{"GetByKey of an absent key", func(b *BT, a fargs) { b.Get(a.absent) }},
	{"GetByIndex", func(b *BT, a fargs) { b.GetIdx(a.idx) }},
	{"PatchByKey", func(b *BT, a fargs) { b.Patch(a.present) }},
	{"PatchByKey of an absent key", func(b *BT, a fargs) { b.Patch(a.absent) }},
	{"PatchByIndex", func(b *BT, a fargs) { b.PatchIdx(a.idx) }},
	{"DeleteByKey of an absent key", func(b *BT, a fargs) { b.Del(a.absent) }},
	{"Put of a present key", func(b *BT, a fargs) { b.Put(a.present) }},
	{"BisectLeft", func(b *BT, a fargs) { b.BisL(a.absent) }},
	{"BisectRight", func(b *BT, a fargs) { b.BisR(a.absent) }},
	{"BisectLeft of a present key", func(b *BT, a fargs) { b.BisL(a.present) }},
	{"BisectRight of a present key", func(b *BT, a fargs) { b.BisR(a.present) }},
	{"Len", func(b *BT, a fargs) { b.Len() }},
	{"Touch", func(b *BT, a fargs) { b.Touch() }},
	{"TouchItem", func(b *BT, a fargs) { b.TouchItem(a.idx) }},
	{"Purge", func(b *BT, a fargs) { b.Purge(false) }},
	{"Prune", func(b *BT, a fargs) { b.Prune() }},
	{"Validate", func(b *BT, a fargs) { b.Validate() }},
	plain("FetchLayoutReport", func(b *BT) error { _, err := b.t.FetchLayoutReport(); return err }),
	plain("FetchDimensionsReport", func(b *BT) error { _, err := b.t.FetchDimensionsReport(); return err }),
	{"Dump", func(b *BT, a fargs) { b.c.Step("Dump", 0, 0); b.noErr("Dump", b.t.Dump()) }},
	{"OldBPlusTree", func(b *BT, a fargs) {
		if b.last == (loc{}) {
			return
		}
		n := b.reopen(b.st, b.last, nil)
		n.mod = b.lastM.clone()
		n.GetIdx(0)
	}},
	{"Discard", func(b *BT, a fargs) { b.Discard() }},
}

// faultState builds one tree state; the same seed gives the same state.
func faultState(c *Ctx, seed uint64) (*BT, fargs) {
	save := c.rng
	defer func() { c.rng = save }()
	c.rng = rand.New(rand.NewPCG(seed, 1))
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 4, 6}[c.rng.IntN(4)]
	o.cache = randCache(c)
	n := []int{0, 3, 12, 30, 60, 100}[c.rng.IntN(6)]
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, c.rng.IntN(7), &o)
		n = len(b.mod.r)
	} else if c.rng.IntN(2) == 0 {
		b = handMade(c, o, o.cache, n)
	} else {
		b = newBT(c, o)
		b.fillPerm(n)
	}
	b.st.watch = ""
	x := &Mix{U: min(o.kk.N, 2*n+6), target: n}
	if c.lim > 0 {
		x.cap = int(o.max)
		n = min(n, 60)
	}
	for k := c.rng.IntN(2 + n/2); k > 0; k-- {
		b.RandomUpdate(x)
	}
	switch c.rng.IntN(8) {
	case 0, 1, 2:
		b.Flush(true) // all cold, stale nodes still to be pruned
	case 3:
		b.Flush(false)
	case 4:
		b.Flush(true)
		b.Prune()
	case 5: // modified nodes over cold ones
		b.Flush(true)
		for k := 1 + c.rng.IntN(6); k > 0; k-- {
			b.RandomUpdate(x)
		}
	case 6:
		b.Flush(true)
		for k := 1 + c.rng.IntN(4); k > 0; k-- {
			b.RandomRead(x)
		}
	case 7:
	}
	a := fargs{purge: c.rng.IntN(2) == 0}
	if m := len(b.mod.r); m > 0 {
		a.idx = c.rng.IntN(m)
		a.present = b.mod.r[a.idx]
		a.idx = c.rng.IntN(m)
	}
	for k := 0; k < 1000; k++ {
		a.absent = c.rng.IntN(x.U)
		if _, found := b.mod.find(a.absent); !found {
			break
		}
	}
	return b, a
}

// settled checks that the tree is in order: contents, rules, image, storage.
func settled(b *BT, what string) {
	c := b.c
	b.All(c.rng.IntN(3) == 0)
	b.Validate()
	persisted(b, what)
	b.Prune()
	im := b.mustImage(b.last)
	if d := setDiff(b.st.liveSet(), im.set()); len(d) > 0 {
		c.Fail("%s: after %s, Flush and Prune %d nodes in storage are not part of the tree, e.g. %v", b.name, what, len(d), d[0])
	}
	b.All(false)
}

// persisted flushes and compares the image with the contents.
func persisted(b *BT, what string) {
	c := b.c
	l := b.Flush(c.rng.IntN(2) == 0)
	im := b.mustImage(l)
	if m := im.sameAs(b.mod, b.vk); m != "" {
		c.Fail("%s: after %s the flushed image does not hold the contents: %s", b.name, what, m)
	}
	if m := im.wellFormed(b.max); m != "" {
		c.Fail("%s: after %s the flushed image is not well formed: %s", b.name, what, m)
	}
}

func discardDone(b *BT) {
	if n := len(b.st.liveSet()); n > 0 {
		b.c.Fail("%s: %d nodes are left in storage after Discard", b.name, n)
	}
}

// nthFault fails callbacks number k..k+run-1; it returns a function that tells how many were made.
func nthFault(b *BT, k, run int, kinds map[string]int64) *int {
	n := new(int)
	b.st.fault = func(kind string) error {
		*n++
		if *n >= k && *n < k+run {
			kinds["failed "+kind]++
			return errInjected
		}
		return nil
	}
	return n
}

func faultEnum(c *Ctx, i int) {
	op := fops[i%len(fops)]
	seed := c.rng.Uint64()
	discard := op.name == "Discard"
	// without faults: the state and the operation must be fine, and the callbacks are counted
	callbacks := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(*failure); ok {
					panic(&abandon{"without any fault: " + f.msg})
				}
				panic(r)
			}
		}()
		b, a := faultState(c, seed)
		n := nthFault(b, 1<<30, 0, c.cnt)
		op.run(b, a)
		callbacks = *n
		b.st.fault = nil
		if discard {
			discardDone(b)
		} else {
			settled(b, op.name)
		}
	}()
	if callbacks == 0 {
		c.Count("operations without callbacks", 1)
		return
	}
	ks := c.rng.Perm(callbacks)
	if len(ks) > 40 {
		ks = ks[:40]
	}
	for _, k0 := range ks {
		k := k0 + 1
		b, a := faultState(c, seed)
		run := 1
		if c.rng.IntN(3) == 0 {
			run = 1 << 30 // storage stays down until further notice
		}
		what := fmt.Sprintf("%s whose callback %d of %d failed (run %d)", op.name, k, callbacks, run)
		nthFault(b, k, run, c.cnt)
		d0 := b.st.discs.Load()
		begun := func() bool { return discard && b.st.discs.Load() > d0 }
		failed, _ := try(func() { op.run(b, a) })
		if !failed {
			// with a cache the evictor decides how many fetches are needed
			b.st.fault = nil
			c.Count("faults not reached", 1)
			continue
		}
		c.Count("faults injected", 1)
		c.Eval(mix(mix(seed, uint64(k)), hashStr(op.name)), true)
		// more failures while repeating
		for r := c.rng.IntN(3); r > 0 && failed; r-- {
			nthFault(b, 1+c.rng.IntN(callbacks), 1+c.rng.IntN(2), c.cnt)
			failed, _ = try(func() { op.run(b, a) })
			c.Count("repeats under failure", 1)
		}
		b.st.fault = nil
		b.st.fired.Store(0)
		if begun() {
			for t := 0; failed; t++ {
				if t == 3 {
					c.Fail("%s: Discard keeps failing after %s", b.name, what)
				}
				failed, _ = try(func() { b.Discard() })
			}
			discardDone(b)
			c.Count("discards repeated to the end", 1)
			continue
		}
		if failed {
			switch c.rng.IntN(5) {
			case 0:
				b.All(true)
			case 1:
			case 2:
				persisted(b, what)
			case 3:
				b.Purge(false)
				b.All(false)
			case 4:
				b.Validate()
				if op.name != "OldBPlusTree" { // which opens the last image
					b.Prune()
				}
				b.All(false)
			}
			op.run(b, a)
		}
		if discard {
			discardDone(b)
			continue
		}
		settled(b, what)
	}
	if i < 2 {
		c.Sample("faults #%d: %s makes %d callbacks in its state; %d of them failed in turn", i, op.name, callbacks, len(ks))
	}
}

// faultHistory: long histories in which callbacks keep failing.
func faultHistory(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8}[i%4]
	o.cache = randCache(c)
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else if i%2 == 0 {
		b = handMade(c, o, o.cache, 150)
	} else {
		b = newBT(c, o)
	}
	b.st.watch = ""
	x := newMix(c, o.kk, 160)
	if i%3 == 0 && c.lim == 0 {
		x.target = x.U
	}
	p := 3 + c.rng.IntN(60) // one callback in p fails
	every := 20 + c.rng.IntN(60)
	fault := func(kind string) error {
		if c.rng.IntN(p) == 0 {
			c.cnt["failed "+kind]++
			return errInjected
		}
		return nil
	}
	for s := 0; s < 400; s++ {
		b.st.fault = fault
		failed, _ := try(func() {
			switch r := c.rng.IntN(20); {
			case r < 15:
				b.RandomOp(x)
			case r == 15:
				b.Dump()
			default:
				residencyOp(b)
			}
		})
		if failed {
			c.Count("faults injected", 1)
			b.st.fired.Store(0)
		}
		b.st.fault = nil
		if s%every == every-1 {
			settled(b, fmt.Sprintf("%d operations of which some failed", s))
			c.Eval(mix(c.h, uint64(s)), true)
		} else if failed && c.rng.IntN(4) == 0 {
			b.All(c.rng.IntN(2) == 0)
		}
	}
	settled(b, "a history with failures")
	c.Done()
}

func (b *BT) Dump() {
	b.c.Step("Dump", 0, 0)
	b.noErr("Dump", b.t.Dump())
}

// ---- C15: damaged images --------------------------------------------------------------------

type damage struct {
	kind string
	data []byte
}

// damages lists damaged versions of a node.
func damages(c *Ctx, n *img, kk *KeyKind, vk *ValKind, all bool) []damage {
	raw := n.raw
	var ds []damage
	for l := range raw {
		if all && len(raw) < 4000 || l < 40 || len(raw)-l < 4 || c.rng.IntN(4+len(raw)/50) == 0 {
			ds = append(ds, damage{fmt.Sprintf("truncated to %d of %d bytes", l, len(raw)), raw[:l:l]})
		}
	}
	ds = append(ds, damage{"empty (nil)", nil})
	for _, e := range []int{1, 2, 7, 8, 9, 32, 33, 1 + c.rng.IntN(200)} {
		x := append([]byte{}, raw...)
		z := c.rng.IntN(3)
		for k := 0; k < e; k++ {
			switch z {
			case 0:
				x = append(x, 0)
			case 1:
				x = append(x, byte(c.rng.Uint32()))
			case 2: // more of the same
				x = append(x, raw[len(raw)-1-(k%len(raw))])
			}
		}
		ds = append(ds, damage{fmt.Sprintf("extended by %d bytes", e), x})
	}
	at := 10 // the number of items or children
	if n.root {
		at = 18
	}
	num := curBO().Uint64(raw[at:])
	for _, w := range []uint64{num + 1, num - 1, num + 2 + uint64(c.rng.IntN(300)), num / 2, 0, num + 1<<32, num | 1<<63, 1<<64 - 1, num << 8, num >> 1} {
		if w != num {
			x := append([]byte{}, raw...)
			curBO().PutUint64(x[at:], w)
			ds = append(ds, damage{fmt.Sprintf("announcing %d instead of %d items or children", w, num), x})
		}
	}
	if len(n.keys) >= 2 {
		for t := 0; t < 3; t++ {
			p := c.rng.Perm(len(n.keys))
			if t == 0 {
				p[0] = c.rng.IntN(len(n.keys) - 1)
				p[1] = p[0] + 1
			}
			d := *n
			d.keys = append([]sortedmap.Key{}, n.keys...)
			d.keys[p[0]] = d.keys[p[1]]
			ds = append(ds, damage{fmt.Sprintf("key %d is a copy of key %d of %d", p[0], p[1], len(n.keys)), encodeNode(&d, curBO(), kk, vk)})
		}
	}
	return ds
}

func damageRun(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 10}[i%4]
	o.cache = randCache(c)
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else {
		b = handMade(c, o, o.cache, []int{8, 30, 80}[i/4%3])
	}
	b.st.watch = ""
	// the tree must be fine before anything is damaged
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(*failure); ok {
					panic(&abandon{"without any damage: " + f.msg})
				}
				panic(r)
			}
		}()
		b.All(true)
		b.Flush(true)
	}()
	im := b.image(b.last)
	if len(b.mod.r) == 0 {
		return
	}
	hits := 0
	n := im.order[c.rng.IntN(len(im.order))]
	if i%5 == 0 {
		n = im.root
	}
	for _, d := range damages(c, n, o.kk, o.vk, c.rng.IntN(8) == 0) {
		if n == im.root {
			b.st.override = map[loc][]byte{n.loc: d.data}
			_, err := sortedmap.OldBPlusTree(b.last.N, b.last.O, b.last.L, o.kk.Cmp, b.st, o.cache)
			if err == nil {
				c.Fail("opening a tree whose root (leaf %v) is %s returned no error", n.leaf, d.kind)
			}
			c.Count("damaged roots refused", 1)
			b.st.override = nil
		}
		b.Flush(true)
		b.st.override = map[loc][]byte{n.loc: d.data}
		b.st.ovHits.Store(0)
		// some operations with the damaged image in place
		for s := 0; s < 6; s++ {
			h0 := b.st.ovHits.Load()
			under := n.leaf && s == 0
			err := damagedOp(b, im, n, s)
			hit := b.st.ovHits.Load() > h0
			switch {
			case hit && err == nil:
				c.Fail("%s: an operation was given node %v (leaf %v, depth %d) %s but returned no error; %s", b.name, n.loc, n.leaf, n.depth, d.kind, c.trace()[len(c.trace())-1])
			case !hit && err != nil:
				c.Fail("%s: %s is not concerned by the damaged node %v (%s), but returned error %v", b.name, c.trace()[len(c.trace())-1], n.loc, d.kind, err)
			case under && !hit:
				c.Fail("%s: an item of node %v (%s) was answered without loading it", b.name, n.loc, d.kind)
			}
			if hit {
				hits++
				c.Count("damaged nodes met", 1)
			} else {
				c.Count("operations beside the damage", 1)
			}
		}
		if c.rng.IntN(60) == 0 {
			h0 := b.st.ovHits.Load()
			c.Step("Discard with damage", 0, 0)
			d0 := b.st.discs.Load()
			err := b.t.Discard()
			if err == nil || b.st.ovHits.Load() == h0 {
				c.Fail("%s: Discard of a tree with the damaged node %v (%s) returned %v, having met it %v", b.name, n.loc, d.kind, err, b.st.ovHits.Load() > h0)
			}
			if b.st.discs.Load() > d0 {
				c.Fail("%s: Discard gave nodes back although the damaged node %v (%s) could not be loaded", b.name, n.loc, d.kind)
			}
			c.Count("discards refused", 1)
		}
		// the right image is back
		b.st.override = nil
		if c.rng.IntN(6) == 0 {
			b.All(false)
			b.Validate()
		} else {
			b.Get(n.minRank0())
			b.GetIdx(c.rng.IntN(len(b.mod.r)))
			b.Len()
		}
		c.Eval(mix(c.h, hashStr(d.kind)), true)
		c.Count("damages tried", 1)
		if c.rng.IntN(200) == 0 {
			b.Purge(false)
			b.Touch()
			persisted(b, "a damaged node was met")
			return // every node has moved
		}
	}
	updatesBeside(c, b, im, n)
	if i < 2 {
		c.Sample("damage #%d: %v, %d items, node at depth %d (leaf %v) damaged in every way, met %d times", i, o, len(b.mod.r), n.depth, n.leaf, hits)
	}
}

// updatesBeside meets a damaged node (here also a damaged image of some other node), then updates the rest of
// the tree and flushes: the damaged image must have left no trace.
func updatesBeside(c *Ctx, b *BT, im *Image, n *img) {
	if n == im.root {
		return
	}
	other := im.order[c.rng.IntN(len(im.order))]
	data := append([]byte{}, other.raw...)
	kind := "an image cut short"
	if c.rng.IntN(2) == 0 {
		data = append(data, byte(c.rng.IntN(256)))
		kind = "an image with an extra byte"
	} else {
		data = data[:len(data)-1-c.rng.IntN(min(len(data)-1, 12))]
	}
	b.Flush(true)
	b.st.override = map[loc][]byte{n.loc: data}
	b.st.ovHits.Store(0)
	c.Step("GetByKey in a damaged node", n.minRank0(), 0)
	if _, _, err := b.t.GetByKey(b.kk.Key(n.minRank0())); err == nil {
		c.Fail("%s: a lookup was given for node %v (leaf %v) %s, but returned no error", b.name, n.loc, n.leaf, kind)
	}
	x := &Mix{U: min(b.kk.N, 2*len(b.mod.r)+10), target: len(b.mod.r)}
	for s := c.rng.IntN(25); s > 0; s-- {
		r := x.rank(c)
		i, found := b.mod.find(r)
		h0 := b.st.ovHits.Load()
		var err error
		ok := false
		id := b.id()
		c.Step("update beside a damaged node", r, 0)
		switch c.rng.IntN(4) {
		case 0:
			if ok, err = b.t.PatchByKey(b.kk.Key(r), b.vk.Val(id)); err == nil && ok && found {
				b.mod.v[i] = id
			}
		case 1:
			if ok, err = b.t.DeleteByKey(b.kk.Key(r)); err == nil && ok && found {
				b.mod.remove(i)
			}
		default:
			ok, err = b.t.Put(b.kk.Key(r), b.vk.Val(id))
			if err == nil && ok && !found {
				b.mod.insert(i, r, id)
			}
			ok = !ok
		}
		hit := b.st.ovHits.Load() > h0
		if hit != (err != nil) {
			c.Fail("%s: an update beside the damaged node %v (given out %v) returned error %v", b.name, n.loc, hit, err)
		}
		if err == nil && ok != found {
			b.wrong("an update of %d beside a damaged node took it for present=%v", r, ok)
		}
		if j := c.rng.IntN(len(b.mod.r) + 1); j < len(b.mod.r) { // a position beside it
			h0 := b.st.ovHits.Load()
			k, v, ok, err := b.t.GetByIndex(j)
			if err == nil {
				b.checkIdx(j, k, v, ok)
			} else if b.st.ovHits.Load() == h0 {
				c.Fail("%s: GetByIndex(%d) beside the damaged node %v returned error %v", b.name, j, n.loc, err)
			}
		}
		c.Count("updates beside a damaged node", 1)
	}
	b.st.override = nil
	switch c.rng.IntN(3) {
	case 0:
		b.All(true)
	case 1:
		b.Validate()
	}
	persisted(b, "a damaged node was met")
	b.All(false)
	b.Validate()
}

// minRank0 is the rank of some key below n.
func (n *img) minRank0() int {
	for !n.leaf {
		n = n.sub[0]
	}
	if len(n.keyRanks) == 0 {
		return 0
	}
	return n.keyRanks[0]
}

// damagedOp does one operation; contents stay as they are unless it succeeds.
func damagedOp(e *BT, im *Image, n *img, s int) error {
	c := e.c
	var lf []int
	m := n
	for !m.leaf {
		m = m.sub[c.rng.IntN(len(m.sub))]
	}
	lf = m.keyRanks
	r := lf[c.rng.IntN(len(lf))] // an item below the damaged node
	if s > 0 && s%2 == 0 {
		r = im.ranks[c.rng.IntN(len(im.ranks))]
	}
	k := e.kk.Key(r)
	i, _ := e.mod.find(r)
	op := c.rng.IntN(14)
	if s == 0 {
		op = c.rng.IntN(6)
	}
	e.c.Step(fmt.Sprintf("op %d with damage", op), r, i)
	switch op {
	case 0, 1:
		v, ok, err := e.t.GetByKey(k)
		if err != nil {
			return err
		}
		e.checkGet(r, v, ok)
	case 2:
		key, v, ok, err := e.t.GetByIndex(i)
		if err != nil {
			return err
		}
		e.checkIdx(i, key, v, ok)
	case 3:
		idx, found, err := e.t.BisectLeft(k)
		if err != nil {
			return err
		}
		if idx != i || !found {
			e.wrong("BisectLeft(%d) returned %d,%v, expected %d,true", r, idx, found, i)
		}
	case 4:
		idx, found, err := e.t.BisectRight(k)
		if err != nil {
			return err
		}
		if idx != i || !found {
			e.wrong("BisectRight(%d) returned %d,%v, expected %d,true", r, idx, found, i)
		}
	case 5:
		ok, err := e.t.Put(k, e.vk.Val(e.id()))
		if err != nil {
			return err
		}
		if ok {
			e.wrong("Put(%d) of a present key succeeded", r)
		}
	case 6: // may need a sibling
		ok, err := e.t.DeleteByKey(k)
		if err != nil {
			return err
		}
		if !ok {
			e.wrong("DeleteByKey(%d) of a present key reported absence", r)
		}
		// put it back, so that the image's positions stay true
		v := e.mod.v[i]
		h := e.st.ovHits.Load()
		ov := e.st.override
		e.st.override = nil
		if ok, err := e.t.Put(k, e.vk.Val(v)); err != nil || !ok {
			e.wrong("Put(%d) after its deletion returned %v, %v", r, ok, err)
		}
		e.Flush(true)
		e.st.override = ov
		e.st.ovHits.Store(h)
	case 7:
		return e.t.Validate()
	case 8:
		_, err := e.t.FetchLayoutReport()
		return err
	case 9:
		return e.t.Dump()
	case 10:
		_, err := e.t.FetchDimensionsReport()
		return err
	case 11:
		_, err := e.t.Len()
		return err
	case 12:
		_, err := e.t.TouchItem(uint64(i))
		return err
	case 13:
		return e.t.Touch()
	}
	return nil
}

func init() {
	register(&Prop{
		ID:          "C14",
		Level:       "fault_enumeration",
		Technique:   "runtime monitoring: fault injection at every callback of every operation, with contents, image, rule and storage oracles after it",
		Rule:        "one evaluation = one injected failure position of one operation in one tree state after which contents, retry, validation, flushed image and storage balance were checked (or one settled point of a long history with failures); distinct by state, operation and position",
		Assumptions: []string{"a callback that fails has had no effect", "at most 40 positions per operation and state, chosen at random, when it makes more callbacks"},
		Min:         map[string]int64{"faults injected": 20000, "failed GetNode": 1000, "failed PutNode": 500, "failed DiscardNode": 300, "failed PackKey": 500, "failed UnpackKey": 500, "failed PackValue": 500, "failed UnpackValue": 500, "failed DumpKey": 100, "discards repeated to the end": 50},
		Phases: []Phase{
			{Name: "every-position", Items: scale(27*120, 27*3000), Run: faultEnum},
			{Name: "histories", Items: scale(400, 8000), Run: faultHistory},
		},
	})
	register(&Prop{
		ID:          "C15",
		Level:       "fault_enumeration",
		Technique:   "runtime monitoring: damaged node images returned by the storage, error/contents oracles for every operation that is given one",
		Rule:        "one evaluation = one damaged version of one node met by operations that need it and operations that do not; distinct by history hash and damage",
		Assumptions: []string{"the client's unpack callbacks report an error when bytes are missing"},
		Min:         map[string]int64{"damages tried": 20000, "damaged nodes met": 20000, "damaged roots refused": 3000, "operations beside the damage": 5000, "updates beside a damaged node": 3000},
		Phases:      []Phase{{Name: "damage", Items: scale(5000, 100000), Run: damageRun}},
	})
}
