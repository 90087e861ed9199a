package main

import "github.com/NVIDIA/sortedmap"

// zcrowd.go: caches with more than 65536 nodes, and as many nodes to give back at once.

// crowdTree has about 110,000 nodes.
func crowdTree(c *Ctx, cache sortedmap.BPlusTreeCache) *BT {
	o := BTOpt{kk: kkWide, vk: vkU64, max: 4, policy: c.rng.IntN(nPolicies), cache: cache}
	b := handMadeN(c, o, cache, 150_000+c.rng.IntN(10_000), 0)
	b.lenient = true
	b.st.watch = ""
	return b
}

func crowdStats(c *Ctx, i int) {
	g := &cacheRig{c: c, lo: huge, hi: huge}
	g.cache = sortedmap.NewBPlusTreeCache(huge, huge)
	g.last = *g.cache.Stats()
	for k := 0; k < 2; k++ {
		b := crowdTree(c, g.cache)
		g.trees = append(g.trees, b)
		g.x = append(g.x, newMix(c, b.kk, 300))
	}
	a, b := g.trees[0], g.trees[1]
	touchAll(a)
	for n := 0; n < len(b.mod.r)/2; n++ {
		b.GetIdx(n)
	}
	g.checkpoint()
	a.Touch()
	b.Purge(true)
	for n := 0; n < 100; n++ {
		b.RandomUpdate(g.x[1])
	}
	g.checkpoint()
	a.Purge(false)
	for n := 0; n < 30_000; n++ {
		a.PatchIdx(c.rng.IntN(len(a.mod.r)))
	}
	g.checkpoint()
	c.Done()
}

func crowdLimits(c *Ctx, i int) {
	g := &cacheRig{c: c, lo: 70_000, hi: 90_000}
	g.cache = sortedmap.NewBPlusTreeCache(g.lo, g.hi)
	g.last = *g.cache.Stats()
	b := crowdTree(c, g.cache)
	g.trees = []*BT{b}
	n := len(b.mod.r)
	drained := false
	for k := 0; k < n; k++ {
		b.GetIdx(k)
		if k%3000 == 0 || !drained && k%50 == 0 && g.gets() > int64(g.hi)-100 {
			s, f := g.stats(), uint64(g.gets())
			switch t := total(s); {
			case f <= g.hi && t != f:
				c.Fail("%d nodes were fetched, which does not exceed the high limit %d, but %d are cached", f, g.hi, t)
			case f > g.hi && t > g.hi:
				c.Fail("%d nodes are cached at rest: more than the high limit %d", t, g.hi)
			case f > g.hi:
				drained = true
			}
			c.Eval(mix(c.h, f), true)
		}
	}
	fresh := func(hi int, what string) {
		g0 := g.gets()
		for k := n - hi; k < n; k++ {
			b.GetIdx(k)
		}
		if d := g.gets() - g0; d != 0 {
			c.Fail("%s: the %d items read last needed %d fetches: nodes used before were kept instead", what, hi, d)
		}
	}
	fresh(30_000, "after reading all of a large tree")
	g.limits(66_000, 67_000)
	s := g.stats()
	if t := total(s); t > 66_000 {
		c.Fail("%d nodes are cached at rest: more than the low limit 66000 after both limits were lowered", t)
	}
	fresh(30_000, "after lowering the limits to 66000")
	g.limits(9_000, 9_500)
	if t := total(g.stats()); t > 9_000 {
		c.Fail("%d nodes are cached at rest: more than the low limit 9000 after both limits were lowered", t)
	}
	fresh(3_000, "after lowering the limits to 9000")
	b.Touch() // nothing modified may be evicted
	s = g.stats()
	nodes := len(b.image(b.last).nodes)
	if s.DirtyLRUItems != uint64(nodes) || s.CleanLRUItems > 0 {
		c.Fail("all %d nodes of a tree are modified, but %d modified and %d unmodified ones are cached", nodes, s.DirtyLRUItems, s.CleanLRUItems)
	}
	b.Flush(false)
	if t := total(g.stats()); t > 9_000 {
		c.Fail("%d nodes are cached at rest after a flush: more than the low limit 9000", t)
	}
	c.Count("drains of large caches", 4)
	c.Eval(mix(c.h, 1), true)
	c.Done()
}

func crowdStale(c *Ctx, i int) {
	b := crowdTree(c, nil)
	b.st.watch = "gd"
	b.Touch()
	l := b.Flush(i%2 == 0)
	im := b.image(l)
	b.st.prot = im.set()
	left := 70_000 + c.rng.IntN(30_000)
	b.st.fault = func(kind string) error {
		if left--; kind == "DiscardNode" && left == 0 {
			return errInjected
		}
		return nil
	}
	try(b.Prune)
	b.st.fault = nil
	b.st.fired.Store(0)
	b.Prune()
	balance(b, l, "Flush and Prune")
	b.st.prot = nil
	b.Discard()
	if n := len(b.st.liveSet()); n > 0 {
		c.Fail("Discard of a tree of %d nodes left %d", len(im.nodes), n)
	}
	c.Count("large reclamations", 1)
	c.Done()
}

func init() {
	addPhase("C12", Phase{Name: "crowded cache", Items: scale(1, 6), Serial: true, Run: crowdStats})
	addPhase("C13", Phase{Name: "crowded cache", Items: scale(1, 6), Serial: true, Run: crowdLimits})
	props["C13"].Min["drains of large caches"] = 4
	addPhase("C08", Phase{Name: "crowds", Items: scale(4, 16), Run: crowdStale})
	addPhase("C25", Phase{Name: "scaled", Items: scale(60, 1000), Run: scaled(3000, dropRun(false))})
}
