package main

import (
	"github.com/NVIDIA/sortedmap"
)

// p_wide.go: the image properties on trees with a large fan-out, whose nodes are split, filled up,
// drained and merged by runs of updates at one place.

func addPhase(id string, ph Phase) {
	p := props[id]
	p.Phases = append(p.Phases, ph)
}

func midTree(c *Ctx, i int, cache sortedmap.BPlusTreeCache) *BT {
	o := BTOpt{kk: kkWide, vk: []*ValKind{vkU64, vkUnit, vkMaybe, vkU64}[i%4], policy: c.rng.IntN(nPolicies), cache: cache}
	o.max = 2 * uint64(5+c.rng.IntN([]int{12, 60, 140}[i%3]))
	m := keyCap(o.max)
	switch i / 3 % 4 {
	case 0:
		return newBT(c, o)
	case 1: // about to overflow: full leaves under a full root
		n := m * (m + 1)
		if n > 20_000 {
			n = m * (2 + c.rng.IntN(20))
		}
		return handMadeN(c, o, cache, n, 1)
	case 2: // about to lose a level or to merge: minimal nodes
		n := m / 2 * (m/2 + 2)
		if c.rng.IntN(2) == 0 || n > 20_000 {
			n = m/2*2 + c.rng.IntN(3)
		}
		return handMadeN(c, o, cache, n, 0)
	}
	return handMadeN(c, o, cache, c.rng.IntN(6*m), 2)
}

// burst makes a run of updates at one place.
func burst(b *BT) {
	b.burst(keyCap(b.max))
	if b.c.rng.IntN(4) == 0 {
		b.randomResidency()
	}
}

// burst makes a run of updates at one place, of a length around the capacity of a node.
func (b *MD) burst(max int) {
	c := b.c
	n := 1 + c.rng.IntN(max*3/2)
	if c.rng.IntN(6) == 0 {
		n *= 4
	}
	put := func(r int) {
		if r >= 0 && r < b.kk.N {
			b.Put(r)
		}
	}
	at := 0
	if len(b.mod.r) > 0 {
		at = c.rng.IntN(len(b.mod.r))
	}
	base := b.kk.N / 2
	if at < len(b.mod.r) {
		base = b.mod.r[at]
	}
	switch k := c.rng.IntN(8); k {
	case 0: // append
		if len(b.mod.r) > 0 {
			base = b.mod.r[len(b.mod.r)-1]
		}
		for ; n > 0; n-- {
			base += 1 + c.rng.IntN(2)
			put(base)
		}
	case 1: // prepend
		if len(b.mod.r) > 0 {
			base = b.mod.r[0]
		}
		if base < n {
			base = b.kk.N / 3
		}
		for ; n > 0; n-- {
			base--
			put(base)
		}
	case 2: // around a place
		for ; n > 0; n-- {
			put(base + c.rng.IntN(4*n+1) - 2*n)
		}
	case 3, 4: // delete a run, forwards or backwards
		for ; n > 0 && len(b.mod.r) > 0; n-- {
			if k == 4 && at > 0 {
				at--
			}
			b.DelIdx(min(at, len(b.mod.r)-1))
		}
	case 5: // thin out
		for ; n > 0 && len(b.mod.r) > 0; n-- {
			b.DelIdx(c.rng.IntN(len(b.mod.r)))
		}
	case 6:
		for ; n > 0 && len(b.mod.r) > 0; n-- {
			b.PatchIdx(c.rng.IntN(len(b.mod.r)))
		}
	case 7: // delete by key from the ends
		for ; n > 0 && len(b.mod.r) > 0; n-- {
			j := 0
			if c.rng.IntN(2) == 0 {
				j = len(b.mod.r) - 1
			}
			b.Del(b.mod.r[j])
		}
	}
	c.Count("bursts of updates at one place", 1)
}

func init() {
	addPhase("C06", Phase{Name: "concurrent", Items: scale(2500, 40000), Run: func(c *Ctx, i int) { linRun(c, i, true, "image") }})
	addPhase("C18", Phase{Name: "concurrent", Items: scale(1500, 25000), Run: func(c *Ctx, i int) { linRun(c, i, true, "items") }})

	addPhase("C06", Phase{Name: "wide", Items: scale(220, 6000), Run: func(c *Ctx, i int) {
		b := midTree(c, i, randCache(c))
		wideGenerations(c, b)
	}})
	addPhase("C09", Phase{Name: "wide", Items: scale(400, 10000), Run: func(c *Ctx, i int) {
		b := midTree(c, i, randCache(c))
		b.lenient = true
		checkImage(b)
		for g := 0; g < 8; g++ {
			burst(b)
			checkImage(b)
			c.Max("fan-out", int64(b.max))
		}
	}})
	addPhase("C22", Phase{Name: "wide", Items: scale(450, 9000), Run: func(c *Ctx, i int) {
		b := midTree(c, i, randCache(c))
		b.lenient = true
		for g := 0; g < 3; g++ {
			burst(b)
			burst(b)
			formatCheck(b, b.Flush(c.rng.IntN(2) == 0))
		}
	}})
	addPhase("C08", Phase{Name: "wide", Items: scale(450, 9000), Run: func(c *Ctx, i int) {
		b := midTree(c, i, randCache(c))
		b.lenient = true
		b.st.watch = "gd"
		b.st.strictCalls = true
		for g := 0; g < 4; g++ {
			for k := c.rng.IntN(3); k >= 0; k-- {
				burst(b)
			}
			l := b.Flush(c.rng.IntN(2) == 0)
			b.st.prot = b.image(l).set()
			b.Prune()
			balance(b, l, "Flush and Prune of a wide tree")
			b.st.prot = nil
		}
	}})
}

func wideGenerations(c *Ctx, b *BT) {
	for g := 0; g < 3; g++ {
		for k := c.rng.IntN(4); k >= 0; k-- {
			burst(b)
		}
		l := b.Flush(c.rng.IntN(2) == 0)
		r := b.reopen(b.st.snapshot(), l, randCache(c))
		r.All(g == 0 && len(r.mod.r) < 2000)
		if d, err := r.t.FetchDimensionsReport(); err != nil || d.MaxKeysPerNode != b.max {
			c.Fail("reopened tree reports maximum %d (error %v), expected %d", d.MaxKeysPerNode, err, b.max)
		}
		burst(r)
		burst(r)
		l2 := r.Flush(c.rng.IntN(2) == 0)
		r2 := r.reopen(r.st.snapshot(), l2, randCache(c))
		r2.All(false)
		if d, err := r2.t.FetchDimensionsReport(); err != nil || d.MaxKeysPerNode != b.max {
			c.Fail("reopened tree reports maximum %d (error %v), expected %d", d.MaxKeysPerNode, err, b.max)
		}
		c.Count("images reopened", 2)
		c.Max("fan-out", int64(b.max))
		c.Eval(mix(c.h, uint64(g)), len(b.mod.r) > 0)
		if c.rng.IntN(2) == 0 {
			b = r2
		}
	}
}
