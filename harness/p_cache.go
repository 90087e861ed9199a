package main

import (
	"math"
	"sort"
	"time"

	"github.com/NVIDIA/sortedmap"
)

const huge = uint64(1) << 40

// ---- C12: statistics --------------------------------------------------------------------------

type cacheRig struct {
	c       *Ctx
	cache   sortedmap.BPlusTreeCache
	lo, hi  uint64
	last    sortedmap.BPlusTreeCacheStats
	given   []*sortedmap.BPlusTreeCacheStats // records given out lately,
	were    []sortedmap.BPlusTreeCacheStats  // and what they said then
	trees   []*BT
	x       []*Mix
	faultOn bool
}

func (g *cacheRig) stats() sortedmap.BPlusTreeCacheStats {
	g.c.settle()
	p := g.cache.Stats()
	s := *p
	g.given, g.were = append(g.given, p), append(g.were, s)
	for i, p := range g.given {
		if *p != g.were[i] {
			g.c.Fail("statistics given out earlier changed from %+v to %+v", g.were[i], *p)
		}
	}
	if len(g.given) > 6 {
		k := 1 + int(g.c.ops%5) // not always the oldest
		g.given, g.were = append(g.given[:k:k], g.given[k+1:]...), append(g.were[:k:k], g.were[k+1:]...)
	}
	if s.EvictLowLimit != g.lo || s.EvictHighLimit != g.hi {
		g.c.Fail("Stats reports the limits %d/%d, but %d/%d were set last", s.EvictLowLimit, s.EvictHighLimit, g.lo, g.hi)
	}
	if s.CacheHits < g.last.CacheHits || s.CacheMisses < g.last.CacheMisses {
		g.c.Fail("hits/misses went down from %d/%d to %d/%d", g.last.CacheHits, g.last.CacheMisses, s.CacheHits, s.CacheMisses)
	}
	g.last = s
	g.c.Count("statistics read", 1)
	return s
}

func (g *cacheRig) limits(lo, hi uint64) {
	g.c.Step("UpdateLimits", int(lo), int(hi))
	g.lo, g.hi = lo, hi
	g.cache.UpdateLimits(lo, hi)
}

// span is the range limits are chosen from.
func (g *cacheRig) span(n int) int {
	if l := g.c.lim; l > 0 {
		return n + g.c.rng.IntN(l/3)
	}
	return n
}

func (g *cacheRig) gets() (n int64) {
	for _, b := range g.trees {
		n += b.st.gets.Load()
	}
	return
}

func (g *cacheRig) puts() (n int64) {
	for _, b := range g.trees {
		n += b.st.puts.Load()
	}
	return
}

// touchAll makes every node of the tree resident by reading every item.
func touchAll(b *BT) {
	b.Len()
	for i := range b.mod.r {
		b.GetIdx(i)
	}
}

// checkpoint compares the statistics with what flushing and reading everything really costs.
func (g *cacheRig) checkpoint() {
	c := g.c
	lo, hi := g.lo, g.hi
	g.limits(huge, huge)
	s1 := g.stats()
	p0 := g.puts()
	for _, b := range g.trees {
		b.Flush(false)
	}
	if d := g.puts() - p0; uint64(d) != s1.DirtyLRUItems {
		c.Fail("the cache reports %d dirty nodes, but flushing its trees wrote %d (trees: %d)", s1.DirtyLRUItems, d, len(g.trees))
	}
	s2 := g.stats()
	if s2.DirtyLRUItems != 0 || s2.CleanLRUItems != s1.CleanLRUItems+s1.DirtyLRUItems {
		c.Fail("after flushing without purge the cache reports %d clean and %d dirty nodes; before it %d and %d", s2.CleanLRUItems, s2.DirtyLRUItems, s1.CleanLRUItems, s1.DirtyLRUItems)
	}
	total := 0
	for _, b := range g.trees {
		total += len(b.image(b.last).nodes)
	}
	g0 := g.gets()
	for _, b := range g.trees {
		touchAll(b)
	}
	fetched := g.gets() - g0
	if fetched != int64(total)-int64(s2.CleanLRUItems) {
		c.Fail("the cache reports %d clean nodes of %d in all, but reading everything fetched %d nodes", s2.CleanLRUItems, total, fetched)
	}
	s3 := g.stats()
	if s3.CleanLRUItems != uint64(total) || s3.DirtyLRUItems != 0 {
		c.Fail("all %d nodes are resident and unmodified, but the cache reports %d clean and %d dirty", total, s3.CleanLRUItems, s3.DirtyLRUItems)
	}
	if d := s3.CacheMisses - s2.CacheMisses; int64(d) != fetched {
		c.Fail("reading everything fetched %d nodes but counted %d misses", fetched, d)
	}
	g.c.Count("checkpoints", 1)
	g.c.Max("nodes in one cache", int64(total))
	if s1.CleanLRUItems > 0 && s1.DirtyLRUItems > 0 {
		g.c.Count("checkpoints with clean and dirty nodes", 1)
	}
	c.Eval(mix(c.h, uint64(total)<<20+s1.CleanLRUItems<<10+s1.DirtyLRUItems), total > 1)
	g.limits(lo, hi)
}

func (g *cacheRig) addTree() {
	c := g.c
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8}[c.rng.IntN(4)]
	o.cache = g.cache
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, c.rng.IntN(7), &o)
	} else if c.rng.IntN(4) == 0 {
		b = handMade(c, o, g.cache, 80)
	} else {
		b = newBT(c, o)
	}
	b.lenient = true
	b.st.watch = ""
	g.trees = append(g.trees, b)
	x := newMix(c, o.kk, 200)
	if c.lim == 0 && c.rng.IntN(3) == 0 {
		x.target = x.U // deep trees
	}
	g.x = append(g.x, x)
}

// withFault runs f, perhaps with one or more failing callbacks; reports whether an operation failed.
func (b *BT) withFault(p int, f func()) bool {
	c := b.c
	if p == 0 || c.rng.IntN(p) != 0 {
		f()
		return false
	}
	k := c.rng.IntN(6)
	run := 1 + c.rng.IntN(3)
	n := 0
	b.st.fault = func(string) error {
		n++
		if n > k && n <= k+run {
			return errInjected
		}
		return nil
	}
	failed, _ := try(f)
	b.st.fault = nil
	b.st.fired.Store(0)
	if failed {
		c.Count("operations failed by an injected fault", 1)
	}
	return failed
}

func statsRun(c *Ctx, i int) {
	g := &cacheRig{c: c}
	g.lo = uint64(c.rng.IntN(g.span(30)))
	g.hi = g.lo + uint64(c.rng.IntN(g.span(20)))
	if i%4 == 0 {
		g.lo, g.hi = huge, huge
	}
	g.cache = sortedmap.NewBPlusTreeCache(g.lo, g.hi)
	g.last = *g.cache.Stats()
	steps, most := 260, 4
	n := 1 + i%3
	if c.many > 0 {
		n = c.many/2 + c.rng.IntN(c.many)
		steps, most = 20*n, 2*n
	}
	for ; n > 0; n-- {
		g.addTree()
	}
	fp := 0
	if i%3 == 1 {
		fp = 12
	}
	every := 8 + c.rng.IntN(60)
	if c.many > 0 {
		every = steps / 4
		c.Max("trees in one cache", int64(len(g.trees)))
	}
	for s := 0; s < steps; s++ {
		k := c.rng.IntN(len(g.trees))
		b := g.trees[k]
		g0, m0 := g.gets(), g.last.CacheMisses
		switch r := c.rng.IntN(40); {
		case r < 32:
			failed := b.withFault(fp, func() { b.RandomOp(g.x[k]) })
			d := g.gets() - g0
			s := g.stats()
			if uint64(d) != s.CacheMisses-m0 && !failed {
				c.Fail("a map operation fetched %d nodes but counted %d misses", d, s.CacheMisses-m0)
			}
			if d > 0 {
				c.Count("map operations that fetched", 1)
			}
			if n := len(b.mod.r); n > 0 && c.rng.IntN(4) == 0 {
				// a lookup passes one node per level
				d, err := b.t.FetchDimensionsReport()
				b.noErr("FetchDimensionsReport", err)
				s1 := g.stats()
				what := "a lookup"
				switch i := c.rng.IntN(n); c.rng.IntN(8) {
				case 0, 1:
					b.GetIdx(i)
				case 2, 3:
					b.Get(b.mod.r[i])
				case 4:
					what = "a bisection"
					b.BisL(g.x[k].rank(c))
				case 5:
					what = "a bisection"
					b.BisR(g.x[k].rank(c))
				case 6:
					what = "a patch by key"
					b.Patch(b.mod.r[i])
				case 7:
					what = "a patch by index"
					b.PatchIdx(i)
				}
				s2 := g.stats()
				if h := s2.CacheHits + s2.CacheMisses - s1.CacheHits - s1.CacheMisses; h != d.Height {
					c.Fail("%s in a tree of height %d counted %d hits and %d misses", what, d.Height, s2.CacheHits-s1.CacheHits, s2.CacheMisses-s1.CacheMisses)
				}
				c.Count("lookups measured", 1)
			}
		case r < 38:
			c.last = ""
			failed := b.withFault(fp, func() { residencyOpNoLimits(b) })
			d := g.gets() - g0
			s := g.stats()
			switch {
			case failed:
			case c.last == "Touch" || c.last == "TouchItem" || c.last == "FetchDimensionsReport":
				if uint64(d) != s.CacheMisses-m0 {
					c.Fail("%s fetched %d nodes but counted %d misses", c.last, d, s.CacheMisses-m0)
				}
				c.Count("touches and dimension reports measured", 1)
			case d == 0 && s.CacheMisses != m0:
				c.Fail("%s fetched no node but counted %d misses", c.last, s.CacheMisses-m0)
			}
		case r == 38:
			l := uint64(c.rng.IntN(g.span(30)))
			h := l + uint64(c.rng.IntN(g.span(20)))
			if c.rng.IntN(4) == 0 {
				h = uint64(c.rng.IntN(g.span(30)))
			}
			if c.rng.IntN(6) == 0 {
				l, h = math.MaxUint64, math.MaxUint64-uint64(c.rng.IntN(2))
			}
			g.limits(l, h)
		default:
			switch c.rng.IntN(3) {
			case 0:
				if len(g.trees) > 1 {
					for n := 0; b.withFault(fp, func() { b.Discard() }) && n < 50; n++ {
					}
					g.trees = append(g.trees[:k], g.trees[k+1:]...)
					g.x = append(g.x[:k], g.x[k+1:]...)
					c.Count("trees discarded", 1)
				}
			case 1:
				if len(g.trees) < most {
					g.addTree()
				}
			case 2: // a second tree object opened on a flushed image of its own
				if len(g.trees) < most {
					l := b.Flush(c.rng.IntN(2) == 0)
					n := b.reopen(b.st.snapshot(), l, g.cache)
					n.lenient = true
					g.trees = append(g.trees, n)
					g.x = append(g.x, newMix(c, n.kk, 200))
				}
			}
		}
		g.stats()
		if s%every == every-1 {
			g.checkpoint()
		}
	}
	g.checkpoint()
	if i < 2 {
		c.Sample("statistics #%d: %d trees at the end, limits %d/%d, checkpoint every %d operations", i, len(g.trees), g.lo, g.hi, every)
	}
}

func residencyOpNoLimits(b *BT) {
	cache := b.cache
	b.cache = nil
	defer func() { b.cache = cache }()
	residencyOp(b)
}

// ---- C13: limits -------------------------------------------------------------------------------

func total(s sortedmap.BPlusTreeCacheStats) uint64 { return s.CleanLRUItems + s.DirtyLRUItems }

func limitsRun(c *Ctx, i int) {
	g := &cacheRig{c: c}
	g.lo = uint64(c.rng.IntN(g.span(20)))
	g.hi = g.lo + uint64(c.rng.IntN(g.span(12)))
	g.cache = sortedmap.NewBPlusTreeCache(g.lo, g.hi)
	g.last = *g.cache.Stats()
	g.addTree()
	steps := 400
	if c.many > 0 {
		for n := c.many/2 + c.rng.IntN(c.many); n > 0; n-- {
			g.addTree()
		}
		steps = 1000
		c.Max("trees in one cache", int64(len(g.trees)))
	}
	steps *= max(1, c.long)
	b, x := g.trees[0], g.x[0]
	drained := func(s0, s sortedmap.BPlusTreeCacheStats, op string, n uint64) {
		if total(s) > g.lo && s.CleanLRUItems > 0 {
			c.Fail("%s left %d clean and %d dirty nodes cached although it had brought the count to %d, above the high limit %d (low limit %d)", op, s.CleanLRUItems, s.DirtyLRUItems, n, g.hi, g.lo)
		}
		c.Count("drains observed", 1)
		c.Eval(mix(c.h, total(s)<<32+g.lo<<16+g.hi), true)
	}
	unchanged := func(s0, s sortedmap.BPlusTreeCacheStats, op string, n uint64) {
		if total(s) != n {
			c.Fail("%s: %d nodes should be cached (high limit %d not exceeded), but %d clean and %d dirty are", op, n, g.hi, s.CleanLRUItems, s.DirtyLRUItems)
		}
		c.Count("operations within the limits", 1)
	}
	for s := 0; s < steps; s++ {
		if c.many > 0 {
			k := c.rng.IntN(len(g.trees))
			b, x = g.trees[k], g.x[k]
		}
		s0 := g.stats()
		g0, p0 := g.gets(), g.puts()
		n0 := total(s0)
		fetched := func() uint64 { return uint64(g.gets() - g0) }
		switch r := c.rng.IntN(20); {
		case r < 10:
			b.RandomRead(x)
			s1 := g.stats()
			n := n0 + fetched()
			if s1.DirtyLRUItems != s0.DirtyLRUItems {
				c.Fail("a read changed the number of modified nodes cached from %d to %d", s0.DirtyLRUItems, s1.DirtyLRUItems)
			}
			if fetched() > 0 && n > g.hi {
				drained(s0, s1, "a read", n)
			} else {
				unchanged(s0, s1, "a read", n)
			}
		case r < 12:
			b.Patch(b.presentOr(x))
			s1 := g.stats()
			n := n0 + fetched()
			if s1.DirtyLRUItems < s0.DirtyLRUItems {
				c.Fail("a patch lowered the number of modified nodes cached from %d to %d", s0.DirtyLRUItems, s1.DirtyLRUItems)
			}
			if fetched() > 0 && n > g.hi {
				drained(s0, s1, "a patch", n)
			} else {
				unchanged(s0, s1, "a patch", n)
			}
		case r < 15:
			if len(b.mod.r) < x.target || len(b.mod.r) == 0 {
				b.Put(x.rank(c))
				s1 := g.stats()
				n := n0 + fetched()
				if s1.DirtyLRUItems < s0.DirtyLRUItems {
					c.Fail("a put lowered the number of modified nodes cached from %d to %d", s0.DirtyLRUItems, s1.DirtyLRUItems)
				}
				if fetched() > 0 && n > g.hi {
					drained(s0, s1, "a put", n)
				} else if total(s1) < n {
					c.Fail("a put within the limits evicted: %d nodes cached, expected at least %d (high limit %d)", total(s1), n, g.hi)
				}
			} else {
				b.DelIdx(c.rng.IntN(len(b.mod.r)))
				g.stats()
			}
		case r < 17:
			b.Flush(false)
			s1 := g.stats()
			if s1.DirtyLRUItems != 0 && c.many == 0 {
				c.Fail("%d modified nodes are cached after a Flush", s1.DirtyLRUItems)
			}
			if g.puts() > p0 && n0 > g.hi {
				drained(s0, s1, "a flush", n0)
			} else {
				unchanged(s0, s1, "a flush", n0)
			}
		case r == 17:
			b.Purge(false)
			g.stats()
		default:
			lo := uint64(c.rng.IntN(g.span(20)))
			hi := lo + uint64(c.rng.IntN(g.span(12)))
			if c.rng.IntN(8) == 0 && n0 > 0 { // right at the boundary
				hi = n0 - uint64(c.rng.IntN(2))
				lo = uint64(c.rng.IntN(int(hi) + 1))
			}
			g.limits(lo, hi)
			s1 := g.stats()
			if s1.DirtyLRUItems != s0.DirtyLRUItems {
				c.Fail("a limit change changed the number of modified nodes cached from %d to %d", s0.DirtyLRUItems, s1.DirtyLRUItems)
			}
			if n0 > hi {
				drained(s0, s1, "a limit change", n0)
			} else {
				unchanged(s0, s1, "a limit change", n0)
			}
		}
	}
	if i < 2 {
		c.Sample("limits #%d: tree with maximum %d, %d items at the end, limits %d/%d", i, b.max, len(b.mod.r), g.lo, g.hi)
	}
}

// ---- C13: least recently used first -----------------------------------------------------------

type useRec struct {
	use   int // number of the operation that used it last
	dirty bool
	in    bool // resident
}

type lruTree struct {
	b   *BT
	im  *Image
	rec map[*img]*useRec
	get map[loc]bool // fetched since last cleared
}

// path returns the nodes a lookup of item i passes.
func (t *lruTree) path(i int) []*img { return t.im.pathTo(t.im.ranks[i]) }

func newLRUTree(c *Ctx, o BTOpt, n int) *lruTree {
	b := newBT(c, o)
	b.lenient = true
	b.st.watch = ""
	b.fillPerm(n)
	l := b.Flush(true)
	t := &lruTree{b: b, im: b.image(l), rec: map[*img]*useRec{}, get: map[loc]bool{}}
	for _, x := range t.im.order {
		t.rec[x] = &useRec{}
	}
	b.st.onGet = func(l loc) { t.get[l] = true }
	return t
}

// lruRun: trees of a fixed shape; lookups and patches whose paths are known from the image; a limit
// change or a read past the high limit then evicts, and reading everything shows what was evicted.
func lruRun(c *Ctx, i int) {
	cache := sortedmap.NewBPlusTreeCache(huge, huge)
	var trees []*lruTree
	nt := 1 + i%3
	if c.many > 0 {
		nt = c.many/2 + c.rng.IntN(c.many)
		c.Max("trees in one cache", int64(nt))
	}
	byRead := nt == 1 && c.rng.IntN(2) == 0
	for k := 0; k < nt; k++ {
		o := randBTOpt(c)
		o.max = []uint64{4, 4, 6}[c.rng.IntN(3)]
		o.cache = cache
		n := 10 + c.rng.IntN(120)
		if c.lim > 0 {
			o.kk = kkWide
			o.max = []uint64{4, 6, 32, 80, 200}[c.rng.IntN(5)]
			n = 500 + c.rng.IntN(c.lim-500)
		}
		trees = append(trees, newLRUTree(c, o, n))
	}
	op := 0
	use := func(t *lruTree, item int, dirty bool) {
		for _, x := range t.path(item) {
			r := t.rec[x]
			r.use, r.in = op, true
			r.dirty = r.dirty || dirty
		}
	}
	resident := func() (n int) {
		for _, t := range trees {
			for _, r := range t.rec {
				if r.in {
					n++
				}
			}
		}
		return
	}
	for _, t := range trees {
		for _, r := range t.rec {
			r.in = false
		}
	}
	lookup := func(t *lruTree, item int) {
		r := t.im.ranks[item]
		switch c.rng.IntN(5) {
		case 0, 1:
			t.b.Get(r)
		case 2:
			t.b.GetIdx(item)
		case 3:
			t.b.BisL(r)
		case 4:
			t.b.BisR(r)
		}
	}
	lo, hi := huge, huge
	if byRead {
		hi = uint64(4 + c.rng.IntN(len(trees[0].im.order)+1))
		lo = uint64(c.rng.IntN(int(hi) + 1))
		cache.UpdateLimits(lo, hi)
	}
	patches := c.rng.IntN(3) == 0
	drain := false
	pos := 0
	steps := 3 + c.rng.IntN(150)
	if c.many > 0 {
		steps = nt * (1 + c.rng.IntN(30))
	}
	if c.lim > 0 {
		steps = 100 + c.rng.IntN(1500)
	}
	hot := 0
	if c.long > 0 { // long times in which only some of the items are used
		steps = 200 + c.rng.IntN(200) + c.long
		hot = 1 + c.rng.IntN(5)
	}
	for s := steps; s > 0 && !drain; s-- {
		op++
		t := trees[c.rng.IntN(nt)]
		item := c.rng.IntN(len(t.im.ranks))
		if hot > 0 && s > 40 && s < 40+c.long {
			item = item % hot
		} else if c.rng.IntN(3) == 0 {
			pos = (pos + 1) % len(t.im.ranks)
			item = pos
		}
		switch {
		case patches && c.rng.IntN(10) == 0:
			before := resident()
			t.b.Patch(t.im.ranks[item])
			use(t, item, true)
			if n := resident(); byRead && n > before && n > int(hi) {
				drain = true
			}
		case c.rng.IntN(60) == 0:
			// all modified nodes of the tree are used by a flush; it keeps the shape and moves them
			t.b.Flush(false)
			moved := t.b.image(t.b.last)
			nr := map[*img]*useRec{}
			wrote := false
			for k, x := range moved.order {
				r := t.rec[t.im.order[k]]
				if r.dirty {
					r.dirty, r.use, wrote = false, op, true
				}
				nr[x] = r
			}
			if byRead && resident() > int(hi) && wrote {
				drain = true
			}
			t.im, t.rec = moved, nr
		default:
			before := resident()
			lookup(t, item)
			use(t, item, false)
			if n := resident(); byRead && n > before && n > int(hi) {
				drain = true
			}
		}
	}
	n := resident()
	c.settle()
	if s := *cache.Stats(); !drain && int(total(s)) != n {
		c.Fail("%d nodes have been used and never evicted, but the cache reports %d clean and %d dirty", n, s.CleanLRUItems, s.DirtyLRUItems)
	}
	busy := false
	if !byRead && nt > 1 && c.rng.IntN(2) == 0 {
		// the evictor is held up by a lookup that is in the middle of a fetch, while others use their trees
		op++
		lo, hi, busy = busyEvictor(c, cache, trees, &op, lookup)
		n = resident()
		if busy {
			c.settle()
			drain = true
		}
	}
	if !byRead && !busy {
		if n == 0 {
			return
		}
		op++
		lo = uint64(c.rng.IntN(n))
		hi = lo + uint64(c.rng.IntN(n-int(lo)))
		cache.UpdateLimits(lo, hi)
		c.settle()
		drain = true
	}
	if !drain {
		return
	}
	st := *cache.Stats()
	cache.UpdateLimits(huge, huge)
	// clean resident nodes, oldest use first
	type ent struct {
		t *lruTree
		x *img
		r *useRec
	}
	var clean []ent
	for _, t := range trees {
		for _, x := range t.im.order {
			if r := t.rec[x]; r.in && !r.dirty {
				clean = append(clean, ent{t, x, r})
			}
		}
	}
	sort.SliceStable(clean, func(a, b int) bool { return clean[a].r.use < clean[b].r.use })
	left := n
	cut := -1 // operation number of the last group that eviction reaches
	for k := 0; k < len(clean) && left > int(lo); {
		cut = clean[k].r.use
		for ; k < len(clean) && clean[k].r.use == cut; k++ {
			left--
		}
	}
	boundary := left >= int(lo)
	// what was evicted shows when everything is read again
	for _, t := range trees {
		clear(t.get)
		touchAll(t.b)
	}
	evicted := 0
	for _, t := range trees {
		for _, x := range t.im.order {
			r := t.rec[x]
			gone := t.get[x.loc]
			switch {
			case !r.in && !gone:
				c.Fail("node %v was never read in, yet reading it needed no fetch", x.loc)
			case !r.in:
			case r.dirty && gone:
				c.Fail("the modified node %v was evicted (limits %d/%d)", x.loc, lo, hi)
			case r.dirty:
			case r.use > cut && gone:
				c.Fail("node %v, last used by operation %d of %d, was evicted, although evicting those used up to operation %d sufficed for the low limit %d (%d nodes were cached; leaf %v, depth %d)", x.loc, r.use, op, cut, lo, n, x.leaf, x.depth)
			case r.use < cut && !gone:
				c.Fail("node %v, last used by operation %d, was kept, although nodes used as late as operation %d had to be evicted for the low limit %d (%d nodes were cached; leaf %v, depth %d)", x.loc, r.use, cut, lo, n, x.leaf, x.depth)
			case boundary && r.use == cut && !gone:
				c.Fail("node %v, last used by operation %d, was kept, although it had to be evicted for the low limit %d (%d nodes were cached, high limit %d, %d clean, %d dirty after; operation %d)", x.loc, r.use, lo, n, hi, st.CleanLRUItems, st.DirtyLRUItems, op)
			}
			if r.in && gone {
				evicted++
			}
		}
	}
	if got := n - evicted; int(total(st)) != got {
		c.Fail("after the eviction the cache reported %d nodes, but %d are resident", total(st), got)
	}
	c.Count("evictions with known order", 1)
	c.Count("nodes evicted in known order", int64(evicted))
	c.Count("nodes kept in known order", int64(n-evicted))
	c.Eval(mix(c.h, uint64(cut)<<20+lo), evicted > 0)
	if i < 2 {
		c.Sample("order #%d: %d trees, %d nodes resident, %d clean, limits %d/%d, %d evicted", i, nt, n, len(clean), lo, hi, evicted)
	}
}

// busyEvictor starts eviction from within a fetch of the tree whose node is to go first, so that the evictor waits
// for it, and uses other trees before the fetch goes on: all of these uses come before the first eviction. It reports
// the limits it set and the number of nodes resident before the eviction, or false if the trees were not fit for it.
func busyEvictor(c *Ctx, cache sortedmap.BPlusTreeCache, trees []*lruTree, op *int, lookup func(t *lruTree, item int)) (lo, hi uint64, ok bool) {
	var first *useRec
	var V *lruTree
	for _, t := range trees {
		for _, x := range t.im.order {
			if r := t.rec[x]; r.in && !r.dirty && (first == nil || r.use < first.use) {
				first, V = r, t
			}
		}
	}
	if V == nil {
		return
	}
	// a lookup that needs a fetch and leaves some node of V the oldest one
	item := -1
	for k := 0; k < 20 && item < 0; k++ {
		item = c.rng.IntN(len(V.im.ranks))
		p := V.path(item)
		on := map[*img]bool{}
		for _, x := range p {
			on[x] = true
		}
		if V.rec[p[len(p)-1]].in {
			item = -1
			continue
		}
		oldest, where := *op, (*lruTree)(nil)
		for _, t := range trees {
			for _, x := range t.im.order {
				if r := t.rec[x]; r.in && !r.dirty && !on[x] && r.use < oldest {
					oldest, where = r.use, t
				}
			}
		}
		if where != V {
			item = -1
		}
	}
	if item < 0 {
		return
	}
	type look struct {
		t    *lruTree
		item int
	}
	var looks []look
	for k := 1 + c.rng.IntN(6); k > 0; k-- {
		if t := trees[c.rng.IntN(len(trees))]; t != V {
			looks = append(looks, look{t, c.rng.IntN(len(t.im.ranks))})
			if c.rng.IntN(2) == 0 { // rather one that needs no fetch
				for j := 0; j < 10; j++ {
					if q := c.rng.IntN(len(t.im.ranks)); t.rec[t.path(q)[len(t.path(q))-1]].in {
						looks[len(looks)-1].item = q
						break
					}
				}
			}
		}
	}
	if len(looks) == 0 {
		return
	}
	before, keep := 0, map[*useRec]bool{}
	for _, t := range trees {
		for _, r := range t.rec {
			if r.in {
				before++
				if r.dirty {
					keep[r] = true
				}
			}
		}
	}
	path := V.path(item)
	cold := 0
	for cold < len(path) && V.rec[path[cold]].in {
		cold++
	}
	fresh := 0
	for k, x := range path {
		if keep[V.rec[x]] = true; k >= cold {
			fresh++
		}
	}
	for _, l := range looks {
		for _, x := range l.t.path(l.item) {
			if r := l.t.rec[x]; !r.in && !keep[r] {
				fresh++
			}
			keep[l.t.rec[x]] = true
		}
	}
	// all of these are to stay: limits from their number up, but below what is cached when they are set
	if len(keep) >= before {
		return
	}
	ok = true
	lo = uint64(len(keep) + c.rng.IntN(before-len(keep)))
	hi = lo + uint64(c.rng.IntN(before-int(lo)))
	used := func(t *lruTree, xs []*img) {
		for _, x := range xs {
			t.rec[x].use, t.rec[x].in = *op, true
		}
	}
	used(V, path[:cold])
	for _, l := range looks {
		*op++
		used(l.t, l.t.path(l.item))
	}
	*op++
	used(V, path[cold:])
	og := V.b.st.onGet
	V.b.st.onGet = func(l loc) {
		V.b.st.onGet = og
		og(l)
		cache.UpdateLimits(lo, hi)
		time.Sleep(time.Duration(c.rng.IntN(3)) * 200 * time.Microsecond)
		for _, l := range looks {
			lookup(l.t, l.item)
		}
	}
	lookup(V, item)
	V.b.st.onGet = og
	c.Count("evictors held up while nodes were used", 1)
	c.Count("nodes read in while an evictor was held up", int64(fresh))
	return
}

// limitsStress: goroutines read and update trees of one cache; when all is quiet the limits hold.
func limitsStress(c *Ctx, i int) {
	lo := uint64(c.rng.IntN(12))
	hi := lo + uint64(c.rng.IntN(12))
	cache := sortedmap.NewBPlusTreeCache(lo, hi)
	var trees []*BT
	for k := 0; k < 3; k++ {
		o := randBTOpt(c)
		o.max = 4
		o.cache = cache
		b := newBT(c, o)
		b.lenient = true
		b.st.watch = ""
		b.fillPerm(60 + c.rng.IntN(100))
		b.Flush(c.rng.IntN(2) == 0)
		trees = append(trees, b)
	}
	for round := 0; round < 12; round++ {
		var fs []func(*Ctx)
		for _, b := range trees {
			fs = append(fs, func(c *Ctx) {
				bb := *b
				bb.c = c
				for s := 0; s < 60; s++ {
					if c.rng.IntN(12) == 0 {
						bb.Patch(bb.mod.r[c.rng.IntN(len(bb.mod.r))])
					} else {
						bb.GetIdx(c.rng.IntN(len(bb.mod.r)))
					}
				}
				b.nextID = bb.nextID
			})
		}
		c.parallel(fs...)
		c.settle()
		for _, b := range trees {
			b.Flush(false) // every modified node becomes clean; the last one judges the limits
		}
		c.settle()
		// a fetch after everything is clean
		b := trees[c.rng.IntN(3)]
		b.GetIdx(c.rng.IntN(len(b.mod.r)))
		c.settle()
		s := *cache.Stats()
		if total(s) > hi && s.CleanLRUItems > 0 {
			c.Fail("when all is quiet %d clean and %d dirty nodes are cached, above the high limit %d", s.CleanLRUItems, s.DirtyLRUItems, hi)
		}
		if s.DirtyLRUItems != 0 {
			c.Fail("%d modified nodes are cached after all trees were flushed", s.DirtyLRUItems)
		}
		c.Count("quiet points after stress", 1)
	}
	c.Done()
}

// cacheStress: goroutines build, use, flush, purge and discard trees of one cache at once; at the quiet points between,
// C12 compares the statistics with the real costs, and C13 has everything evicted.
func cacheStress(c *Ctx, i int) {
	g := &cacheRig{c: c}
	g.lo = uint64(c.rng.IntN(12))
	g.hi = g.lo + uint64(c.rng.IntN(12))
	if i%4 == 0 {
		g.lo, g.hi = huge, huge
	}
	g.cache = sortedmap.NewBPlusTreeCache(g.lo, g.hi)
	g.last = *g.cache.Stats()
	T := 2 + c.rng.IntN(4)
	U := 20 << c.rng.IntN(4)
	one := func(c *Ctx) (b *BT, x *Mix) {
		o := randBTOpt(c)
		o.kk, o.max, o.cache = kkIntSmall, []uint64{4, 4, 6, 8}[c.rng.IntN(4)], g.cache
		b = newBT(c, o)
		b.lenient = true
		b.st.watch = ""
		b.st.jit = quietJitter(4 + c.rng.IntN(30))
		return b, newMix(c, o.kk, U)
	}
	for k := 0; k < T; k++ {
		b, x := one(c)
		b.fill(c.rng.IntN(x.U), x)
		g.trees, g.x = append(g.trees, b), append(g.x, x)
	}
	for round := 0; round < 6; round++ {
		var fs []func(*Ctx)
		churn := 3 + c.rng.IntN(60)
		for k := range g.trees {
			fs = append(fs, func(c *Ctx) {
				b, x := g.trees[k], g.x[k]
				b.c = c
				for s := 30 + c.rng.IntN(90); s > 0; s-- {
					switch r := c.rng.IntN(20 + churn); {
					case r == 0: // the end of a tree, and a new one
						if c.rng.IntN(2) == 0 {
							b.Flush(c.rng.IntN(2) == 0)
							for n := c.rng.IntN(20); n > 0 && len(b.mod.r) > 0; n-- {
								b.GetIdx(c.rng.IntN(len(b.mod.r)))
							}
						}
						b.Discard()
						b, x = one(c)
						c.Count("trees discarded beside the use of others", 1)
					case r < 6:
						residencyOpNoLimits(b)
					default:
						b.RandomOp(x)
					}
				}
				g.trees[k], g.x[k] = b, x
			})
		}
		c.parallel(fs...)
		for _, b := range g.trees {
			b.c = c
		}
		if c.prop.ID == "C12" {
			g.checkpoint()
			continue
		}
		for _, b := range g.trees {
			b.Flush(false)
		}
		lo, hi := g.lo, g.hi
		g.limits(0, 0)
		if s := g.stats(); total(s) != 0 {
			c.Fail("%d clean and %d dirty nodes stay cached after all trees were flushed and the limits were set to zero", s.CleanLRUItems, s.DirtyLRUItems)
		}
		g.limits(lo, hi)
		for _, b := range g.trees {
			b.All(c.rng.IntN(2) == 0)
			s := g.stats()
			if total(s) > g.hi && s.CleanLRUItems > 0 {
				c.Fail("when all is quiet %d clean and %d dirty nodes are cached, above the high limit %d", s.CleanLRUItems, s.DirtyLRUItems, g.hi)
			}
		}
		c.Count("quiet points after stress", 1)
	}
	c.Done()
}

func init() {
	register(&Prop{
		ID:          "C12",
		Technique:   "runtime monitoring: statistics compared with the writes and fetches that flushing and reading everything really make",
		Rule:        "one evaluation = one quiescent point of the trees of one cache at which the counts were compared with real writes and fetches; distinct by history hash and counts",
		Assumptions: []string{"quiescent: no call in progress and no background eviction goroutine running", "low limit and high limit are whatever was set; the counts are judged with eviction switched off by huge limits"},
		Min:         map[string]int64{"checkpoints": 2000, "map operations that fetched": 2000, "checkpoints with clean and dirty nodes": 200, "operations failed by an injected fault": 300},
		Phases: []Phase{
			{Name: "statistics", Items: scale(4000, 60000), Serial: true, Run: statsRun},
			{Name: "stress", Items: scale(200, 4000), Serial: true, Run: cacheStress},
		},
	})
	register(&Prop{
		ID:          "C13",
		Technique:   "runtime monitoring: cache counts against the limits after every operation, and evicted nodes (seen as fetches) against the recorded order of use",
		Rule:        "one evaluation = one eviction observed: the counts it left, or the set of nodes it evicted against their order of use; distinct by history hash, counts and limits",
		Assumptions: []string{"low limit <= high limit", "a lookup uses the nodes from the root to the leaf of its item; which of the nodes last used by the same operation go first is left open"},
		Min:         map[string]int64{"drains observed": 3000, "operations within the limits": 5000, "evictions with known order": 1000, "nodes evicted in known order": 5000, "quiet points after stress": 200, "evictors held up while nodes were used": 100},
		Phases: []Phase{
			{Name: "limits", Items: scale(1500, 25000), Serial: true, Run: limitsRun},
			{Name: "order", Items: scale(3000, 50000), Serial: true, Run: lruRun},
			{Name: "stress", Items: scale(40, 600), Serial: true, Run: limitsStress},
			{Name: "stress with discards", Items: scale(200, 4000), Serial: true, Run: cacheStress},
		},
	})
}
