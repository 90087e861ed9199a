package main

import "github.com/NVIDIA/sortedmap"

// zbrink.go: trees of three and four levels at larger fan-outs whose nodes are all about to merge or to split: a change
// of one item shows in the inner nodes at once. Random histories of trees of this size seldom change an inner node.

// brinkTree opens a tree of three or four levels in which all nodes have as few keys as they may, or one more (low), or as
// many as they may, or one less.
func brinkTree(c *Ctx, o *BTOpt, lim int, low bool) *BT {
	style := 1 + 4*c.rng.IntN(2)
	if low {
		style = 4 * c.rng.IntN(2)
	}
	tall := c.rng.IntN(3) == 0               // four levels
	least := func(m int) (leaves, per int) { // what that takes
		leaves, per = m+2, m
		if tall && low {
			leaves = (m + 2) * (m/2 + 2)
		} else if tall {
			leaves = (m + 2) * (m + 1)
		}
		if low {
			per = m / 2
		}
		return
	}
	top := 4 // the largest fan-out with which these levels fit
	for m := 4; ; m += 2 {
		leaves, per := least(m)
		if leaves*per > lim {
			break
		}
		top = m
	}
	if !tall {
		o.max = 2 * uint64(4+c.rng.IntN(max(top/2-3, 1)))
	} else {
		o.max = 2 * uint64(2+c.rng.IntN(top/2-1))
	}
	m := keyCap(o.max)
	if !o.fixed {
		o.kk = kkWide
	}
	leaves, per := least(m)
	n := leaves*per + c.rng.IntN(per)
	if k := c.rng.IntN(m/2+2) * per; !tall && n+k <= lim {
		n += k
	}
	b := handMadeN(c, *o, o.cache, n, style)
	c.mix = &Mix{U: min(b.kk.N, 2*n+20), target: 0, pattern: c.rng.IntN(5), reads: 10 + c.rng.IntN(20), cap: m}
	if !low {
		c.mix.target = 2 * n
	}
	c.Count("trees on the brink", 1)
	c.Max("items", int64(n))
	c.Max("fan-out", int64(o.max))
	return b
}

// brink runs a check that can be scaled on such trees.
func brink(lim int, f func(c *Ctx, i int)) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		c.brink = true
		scaled(lim, f)(c, i)
	}
}

// nudgeAt picks the next change of one region: deletions when low, insertions otherwise, now and then the opposite.
func nudgeAt(b *BT, low bool, at *int) (rank int, del bool) {
	c := b.c
	n := len(b.mod.r)
	m := keyCap(b.max)
	if c.rng.IntN(2) == 0 { // to nodes that have not changed yet
		*at = (*at + m/2 + c.rng.IntN(m)) % (n + 1)
	}
	switch c.rng.IntN(40) {
	case 0:
		*at = c.rng.IntN(n + 1)
	case 1:
		*at = 0
	case 2:
		*at = n
	case 3:
		low = !low
	}
	if n == 0 || !low {
		r := b.kk.N / 2
		if n > 0 {
			r = b.mod.r[min(*at, n-1)] + c.rng.IntN(2*m+1) - m
		}
		return min(max(r, 0), b.kk.N-1), false
	}
	return b.mod.r[min(max(*at+c.rng.IntN(m/4+1), 0), n-1)], true
}

func nudge(b *BT, low bool, at *int) {
	r, del := nudgeAt(b, low, at)
	if !del {
		b.Put(r)
	} else if b.c.rng.IntN(2) == 0 {
		j, _ := b.mod.find(r)
		b.DelIdx(j)
	} else {
		b.Del(r)
	}
}

func brinkOf(c *Ctx, i int, cache sortedmap.BPlusTreeCache) (*BT, bool) {
	o := BTOpt{vk: []*ValKind{vkU64, vkUnit, vkMaybe}[i%3], policy: c.rng.IntN(nPolicies), cache: cache}
	lim := []int{600, 2500, 6000, 12000}[i%4]
	low := i/4%4 != 3
	return brinkTree(c, &o, lim, low), low
}

func init() {
	mk := func(c *Ctx, i int, cache sortedmap.BPlusTreeCache) *BT {
		b, _ := brinkOf(c, i, cache)
		return b
	}
	addPhase("C09", Phase{Name: "brink", Items: scale(1400, 20000), Run: func(c *Ctx, i int) {
		b, low := brinkOf(c, i, randCache(c))
		b.lenient = true
		checkImage(b)
		at := c.rng.IntN(len(b.mod.r))
		every := 1 + c.rng.IntN(2)
		for n := 1; n < 26; n++ {
			nudge(b, low, &at)
			if n%every == 0 {
				checkImage(b)
			}
		}
	}})
	addPhase("C02", Phase{Name: "brink", Items: scale(1000, 15000), Run: func(c *Ctx, i int) {
		b, low := brinkOf(c, i, randCache(c))
		at := c.rng.IntN(len(b.mod.r))
		for n := 0; n < 120; n++ {
			nudge(b, low, &at)
			if k := len(b.mod.r); k > 0 {
				j := c.rng.IntN(k)
				b.GetIdx(j)
				b.Get(b.mod.r[j])
				b.Len()
			}
		}
		b.All(false)
		c.Done()
	}})
	addPhase("C02", Phase{Name: "brink walks", Items: scale(24, 500), Run: func(c *Ctx, i int) { wideRunOn(c, i, false, mk) }})
	addPhase("C03", Phase{Name: "brink", Items: scale(24, 500), Run: func(c *Ctx, i int) { wideRunOn(c, i, true, mk) }})
	addPhase("C06", Phase{Name: "brink", Items: scale(100, 2000), Run: func(c *Ctx, i int) { wideGenerations(c, mk(c, i, randCache(c))) }})
	addPhase("C07", Phase{Name: "brink", Items: scale(50, 800), Run: brink(500, crashPoints)})
	addPhase("C08", Phase{Name: "brink", Items: scale(70, 1400), Run: brink(4000, conservation)})
	addPhase("C10", Phase{Name: "brink fetches", Items: scale(40, 700), Run: brink(6000, fetchCost)})
	addPhase("C11", Phase{Name: "brink", Items: scale(60, 1200), Run: brink(2500, func(c *Ctx, i int) {
		o := randBTOpt(c)
		o.cache = randCache(c)
		b := scaledTree(c, i, &o)
		residencyTree(c, b, newMix(c, o.kk, 0), 700)
		c.Done()
	})})
	addPhase("C12", Phase{Name: "brink", Items: scale(40, 700), Serial: true, Run: brink(1500, statsRun)})
	addPhase("C14", Phase{Name: "brink positions", Items: scale(27*4, 27*60), Run: brink(400, faultEnum)})
	addPhase("C14", Phase{Name: "brink histories", Items: scale(40, 700), Run: brink(1500, faultHistory)})
	addPhase("C16", Phase{Name: "brink", Items: scale(70, 1200), Run: brink(2500, touchRun)})
	addPhase("C18", Phase{Name: "brink", Items: scale(70, 1200), Run: brink(5000, reportsRun)})
	addPhase("C19", Phase{Name: "brink accepts", Items: scale(40, 700), Run: brink(1500, validAccepts)})
	addPhase("C22", Phase{Name: "brink", Items: scale(120, 2400), Run: func(c *Ctx, i int) {
		b, low := brinkOf(c, i, randCache(c))
		b.lenient = true
		at := c.rng.IntN(len(b.mod.r))
		for g := 0; g < 6; g++ {
			for n := c.rng.IntN(12); n >= 0; n-- {
				nudge(b, low, &at)
			}
			formatCheck(b, b.Flush(c.rng.IntN(2) == 0))
		}
	}})
	addPhase("C23", Phase{Name: "brink", Items: scale(400, 6000), Run: brink(3000, writeSets)})
}
