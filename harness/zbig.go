package main

import (
	"fmt"

	"github.com/NVIDIA/sortedmap"
)

// zbig.go: the checks of other files on trees that are tall (a small fan-out and many items) or wide
// (a large fan-out), and on large in-memory maps.

// scaledTree opens a tree of up to about c.lim items and sets the mix of updates for it.
func scaledTree(c *Ctx, i int, o *BTOpt) *BT {
	lim := c.lim
	if c.brink {
		return brinkTree(c, o, lim, i%4 != 3)
	}
	if !o.fixed {
		o.kk = kkWide
	}
	n, style := 1+c.rng.IntN(lim), 2
	switch i % 7 {
	case 0: // as tall as can be
		o.max, style, n = 4, 0, lim/2+c.rng.IntN(lim/2)
	case 1:
		o.max, style = 4, 1
	case 2:
		o.max, style = 6, 2
	case 3:
		o.max, style = 2*uint64(10+c.rng.IntN(54)), 0
	case 4:
		o.max, style = 2*uint64(33+c.rng.IntN(100)), 2
	case 5:
		o.max, style = 2*uint64(100+c.rng.IntN(200)), c.rng.IntN(3)
	case 6:
		o.max, style = 2*uint64(6+c.rng.IntN(11)), 1+c.rng.IntN(2)
	}
	b := handMadeN(c, *o, o.cache, n, style)
	n = len(b.mod.r)
	c.mix = &Mix{U: min(b.kk.N, 2*n+20), target: n, pattern: c.rng.IntN(5), reads: 20 + c.rng.IntN(40), cap: keyCap(o.max)}
	switch c.rng.IntN(4) {
	case 0:
		c.mix.target = 0
	case 1:
		c.mix.target = 2 * n
	}
	c.Count("tall and wide trees", 1)
	c.Max("items", int64(n))
	c.Max("fan-out", int64(o.max))
	return b
}

// scaled runs a check on such trees.
func scaled(lim int, f func(c *Ctx, i int)) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		c.lim = lim
		if c.tier == "thorough" {
			c.lim = 4 * lim
		}
		f(c, i)
	}
}

// big runs a check on trees of few items of up to 70 KB, so that nodes take up to a few MB.
func big(f func(c *Ctx, i int)) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		c.big = true
		f(c, i)
	}
}

// many runs a check with about n trees in one cache.
func many(n int, f func(c *Ctx, i int)) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		c.many = n
		f(c, i)
	}
}

// long runs a check with n times the usual generations.
func long(n int, f func(c *Ctx, i int)) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		c.long = n
		f(c, i)
	}
}

// manyLookups: the counters of a cache, over more lookups than fit in 16 bits.
func manyLookups(c *Ctx, i int) {
	g := &cacheRig{c: c, lo: huge, hi: huge}
	if i%2 == 1 {
		g.lo, g.hi = 5, 9
	}
	g.cache = sortedmap.NewBPlusTreeCache(g.lo, g.hi)
	g.last = *g.cache.Stats()
	for k := 0; k < 2; k++ {
		o := randBTOpt(c)
		o.kk, o.vk, o.max, o.cache = kkWide, vkU64, []uint64{4, 8}[c.rng.IntN(2)], g.cache
		b := newBT(c, o)
		b.st.watch = ""
		b.fillPerm(150 + c.rng.IntN(200))
		b.Flush(i%2 == 0)
		g.trees = append(g.trees, b)
	}
	var h [2]uint64
	for k, b := range g.trees {
		d, err := b.t.FetchDimensionsReport()
		b.noErr("FetchDimensionsReport", err)
		h[k] = d.Height
	}
	for round := 0; round < 6; round++ {
		s0 := g.stats()
		g0 := g.gets()
		want := uint64(0)
		for n := 0; n < 12_000; n++ {
			k := c.rng.IntN(2)
			b := g.trees[k]
			j := c.rng.IntN(len(b.mod.r))
			if n%2 == 0 {
				b.GetIdx(j)
			} else {
				b.Get(b.mod.r[j])
			}
			want += h[k]
		}
		s1 := g.stats()
		if d := s1.CacheHits + s1.CacheMisses - s0.CacheHits - s0.CacheMisses; d != want || s1.CacheMisses-s0.CacheMisses != uint64(g.gets()-g0) {
			c.Fail("12000 lookups passed %d nodes and fetched %d, but counted %d hits and %d misses", want, g.gets()-g0, s1.CacheHits-s0.CacheHits, s1.CacheMisses-s0.CacheMisses)
		}
		c.Count("lookups measured", 12_000)
		c.Eval(mix(c.h, uint64(round)), true)
	}
}

// tallTree is as tall as memory reasonably allows.
func tallTree(c *Ctx, i int, cache sortedmap.BPlusTreeCache) *BT {
	o := BTOpt{kk: kkWide, vk: []*ValKind{vkU64, vkUnit, vkMaybe}[i%3], policy: c.rng.IntN(nPolicies)}
	o.max = []uint64{4, 4, 6, 8}[i%4]
	n := 5_000 + c.rng.IntN(30_000)
	if c.tier == "thorough" && i%8 == 0 {
		n *= 10
	}
	return handMadeN(c, o, cache, n, []int{0, 2, 1}[i/4%3])
}

func init() {
	addPhase("C02", Phase{Name: "tall", Items: scale(24, 600), Run: func(c *Ctx, i int) { wideRunOn(c, i, false, tallTree) }})
	addPhase("C03", Phase{Name: "tall", Items: scale(24, 600), Run: func(c *Ctx, i int) { wideRunOn(c, i, true, tallTree) }})
	addPhase("C06", Phase{Name: "tall", Items: scale(32, 600), Run: func(c *Ctx, i int) { wideGenerations(c, tallTree(c, i, randCache(c))) }})
	addPhase("C07", Phase{Name: "scaled", Items: scale(80, 1200), Run: scaled(500, crashPoints)})
	addPhase("C08", Phase{Name: "scaled", Items: scale(120, 2400), Run: scaled(4000, conservation)})
	addPhase("C09", Phase{Name: "tall", Items: scale(32, 600), Run: func(c *Ctx, i int) {
		b := tallTree(c, i, randCache(c))
		b.lenient = true
		checkImage(b)
		for g := 0; g < 5; g++ {
			for k := 0; k < 12; k++ {
				burst(b)
			}
			checkImage(b)
		}
	}})
	addPhase("C10", Phase{Name: "scaled fetches", Items: scale(70, 1400), Run: scaled(6000, fetchCost)})
	addPhase("C10", Phase{Name: "large shapes", Items: scale(24, 400), Run: func(c *Ctx, i int) {
		p := newProbe(c)
		n := 2_000 + c.rng.IntN(18_000)
		growAny(c, &p.MD, n, i)
		p.shape()
		for g := 0; g < 3; g++ {
			for k := n / 4; k > 0 && len(p.mod.r) > 0; k-- {
				p.DelIdx(placeOf(c, len(p.mod.r), i+g))
			}
			p.shape()
		}
		c.Max("items", int64(n))
	}})
	addPhase("C11", Phase{Name: "scaled", Items: scale(100, 2000), Run: scaled(2500, func(c *Ctx, i int) {
		o := randBTOpt(c)
		o.cache = randCache(c)
		if c.rng.IntN(2) == 0 {
			l := c.rng.IntN(300)
			o.cache = sortedmap.NewBPlusTreeCache(uint64(l), uint64(l+c.rng.IntN(300)))
		}
		b := scaledTree(c, i, &o)
		residencyTree(c, b, newMix(c, o.kk, 0), 700)
		c.Done()
	})})
	addPhase("C12", Phase{Name: "scaled", Items: scale(60, 1000), Serial: true, Run: scaled(1500, statsRun)})
	addPhase("C13", Phase{Name: "scaled limits", Items: scale(100, 2000), Serial: true, Run: scaled(4000, limitsRun)})
	addPhase("C13", Phase{Name: "scaled order", Items: scale(60, 1000), Serial: true, Run: scaled(3000, lruRun)})
	addPhase("C14", Phase{Name: "scaled positions", Items: scale(27*6, 27*100), Run: scaled(400, faultEnum)})
	addPhase("C14", Phase{Name: "scaled histories", Items: scale(60, 1000), Run: scaled(1500, faultHistory)})
	addPhase("C15", Phase{Name: "scaled", Items: scale(160, 3000), Run: scaled(500, damageRun)})
	addPhase("C16", Phase{Name: "scaled", Items: scale(140, 2500), Run: scaled(2500, touchRun)})
	addPhase("C18", Phase{Name: "scaled", Items: scale(140, 2500), Run: scaled(5000, reportsRun)})
	addPhase("C19", Phase{Name: "scaled accepts", Items: scale(60, 1000), Run: scaled(1500, validAccepts)})
	addPhase("C19", Phase{Name: "scaled rejects", Items: scale(140, 2500), Run: scaled(1200, validRejects)})
	addPhase("C21", Phase{Name: "scaled B+Tree", Items: scale(28, 500), Serial: true, Run: scaled(1200, dumpBT)})
	addPhase("C22", Phase{Name: "tall", Items: scale(32, 600), Run: func(c *Ctx, i int) {
		b := tallTree(c, i, randCache(c))
		b.lenient = true
		for g := 0; g < 3; g++ {
			for k := 0; k < 8; k++ {
				burst(b)
			}
			formatCheck(b, b.Flush(c.rng.IntN(2) == 0))
		}
	}})
	addPhase("C23", Phase{Name: "scaled", Items: scale(140, 2500), Run: scaled(3000, writeSets)})
	addPhase("C06", Phase{Name: "big items", Items: scale(100, 2000), Run: big(generations)})
	addPhase("C07", Phase{Name: "big items", Items: scale(32, 600), Run: big(crashPoints)})
	addPhase("C08", Phase{Name: "big items", Items: scale(100, 2000), Run: big(conservation)})
	addPhase("C14", Phase{Name: "big items", Items: scale(27*4, 27*60), Run: big(faultEnum)})
	addPhase("C15", Phase{Name: "big items", Items: scale(60, 1200), Run: big(damageRun)})
	addPhase("C18", Phase{Name: "big items", Items: scale(100, 2000), Run: big(reportsRun)})
	addPhase("C22", Phase{Name: "big items written", Items: scale(100, 2000), Run: big(written)})
	addPhase("C22", Phase{Name: "big items opened", Items: scale(100, 2000), Run: big(opened)})
	addPhase("C23", Phase{Name: "big items", Items: scale(60, 1200), Run: big(writeSets)})
	addPhase("C06", Phase{Name: "long lives", Items: scale(24, 400), Run: long(30, generations)})
	addPhase("C07", Phase{Name: "long lives", Items: scale(8, 150), Run: long(15, crashPoints)})
	addPhase("C08", Phase{Name: "long lives", Items: scale(32, 600), Run: long(100, conservation)})
	addPhase("C16", Phase{Name: "long lives", Items: scale(32, 600), Run: long(60, touchRun)})
	addPhase("C23", Phase{Name: "long lives", Items: scale(16, 300), Run: long(25, writeSets)})
	addPhase("C12", Phase{Name: "many trees", Items: scale(12, 200), Serial: true, Run: many(60, statsRun)})
	addPhase("C12", Phase{Name: "many lookups", Items: scale(8, 100), Serial: true, Run: manyLookups})
	addPhase("C13", Phase{Name: "many trees: limits", Items: scale(24, 400), Serial: true, Run: many(40, limitsRun)})
	addPhase("C13", Phase{Name: "many trees: order", Items: scale(40, 700), Serial: true, Run: many(30, lruRun)})
	addPhase("C11", Phase{Name: "many trees", Items: scale(16, 300), Run: func(c *Ctx, i int) {
		l := c.rng.IntN(200)
		cache := sortedmap.NewBPlusTreeCache(uint64(l), uint64(l+c.rng.IntN(100)))
		var bs []*BT
		var xs []*Mix
		for t := 0; t < 100; t++ {
			o := randBTOpt(c)
			o.cache = cache
			o.name = fmt.Sprintf("B+Tree %d of 100", t)
			bs = append(bs, newBT(c, o))
			xs = append(xs, newMix(c, o.kk, 60))
		}
		for s := 0; s < 8000; s++ {
			t := c.rng.IntN(100)
			if c.rng.IntN(5) == 0 {
				residencyOp(bs[t])
			} else {
				bs[t].RandomOp(xs[t])
			}
		}
		for _, b := range bs {
			b.All(true)
		}
		c.Count("trees sharing a cache", 100)
		c.Done()
	}})
	addPhase("C20", Phase{Name: "scaled B+Tree", Items: scale(70, 1200), Run: scaled(1500, func(c *Ctx, i int) {
		o := randBTOpt(c)
		o.fixed = true
		o.cache = randCache(c)
		if i%2 == 0 {
			o.kk = rejecting(kkWide)
			b := scaledTree(c, i/2, &o)
			rejectRun(c, &b.MD, b, i)
			return
		}
		kk, a := rejectingLate(kkWide)
		o.kk = kk
		b := scaledTree(c, i/2, &o)
		lateRun(c, &b.MD, b, a)
	})})
	addPhase("C01", Phase{Name: "large", Items: scale(16, 300), Run: func(c *Ctx, i int) { largeLL(c, i, false) }})
	addPhase("C03", Phase{Name: "large in-memory", Items: scale(16, 300), Run: func(c *Ctx, i int) { largeLL(c, i, true) }})
}

// placeOf is an index near the beginning, near the end, in the middle, or anywhere.
func placeOf(c *Ctx, n, k int) int {
	switch k % 4 {
	case 0:
		return min(n-1, c.rng.IntN(3))
	case 1:
		return max(0, n-1-c.rng.IntN(3))
	case 2:
		return n / 2
	}
	return c.rng.IntN(n)
}

// growAny fills a map with n items in ascending, descending, alternating or random order.
func growAny(c *Ctx, d *MD, n, k int) {
	perm := c.rng.Perm(n)
	for j := 0; j < n; j++ {
		r := j
		switch k % 4 {
		case 1:
			r = n - 1 - j
		case 2:
			if r = j / 2; j%2 == 1 {
				r = n - 1 - j/2
			}
		case 3:
			r = perm[j]
		}
		d.Put(2*r + 1)
	}
}

// largeLL: an in-memory map of many items.
func largeLL(c *Ctx, i int, pos bool) {
	n := 10_000 + c.rng.IntN(60_000)
	if i%8 == 0 {
		n = 66_000 + c.rng.IntN(40_000) // more than 16 bits count
	}
	if c.tier == "thorough" && i%6 == 0 {
		n *= 5
	}
	l := newLL(c, kkWide, memVals()[c.rng.IntN(6)])
	growAny(c, &l.MD, n, i)
	sweep := func() {
		l.Len()
		step := 1 + len(l.mod.r)/4000
		for k := c.rng.IntN(step); k < len(l.mod.r); k += step {
			r := l.mod.r[k]
			l.Get(r)
			if pos || k%3 == 0 {
				l.GetIdx(k)
				l.BisL(r)
				l.BisR(r)
				l.BisL(r + 1)
				l.BisR(r - 1)
			}
			c.Count("positions checked", 1)
		}
	}
	sweep()
	for g := 0; g < 4; g++ {
		for k := n / 5; k > 0 && len(l.mod.r) > 0; k-- {
			j := placeOf(c, len(l.mod.r), i+g)
			switch {
			case k%5 == 0:
				l.PatchIdx(j)
			case k%7 == 0:
				l.Put(min(l.kk.N-1, l.mod.r[j]+1))
			case k%2 == 0:
				l.Del(l.mod.r[j])
			default:
				l.DelIdx(j)
			}
		}
		sweep()
	}
	l.All(!pos)
	c.Max("items", int64(n))
	c.Done()
}
