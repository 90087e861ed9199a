package main

import (
	"math"

	"github.com/NVIDIA/sortedmap"
)

// residentWork counts the comparisons of lookups in B+Trees whose nodes are all resident: per level, a search among at most
// max keys, so 2*log2 of that, twice over at most and a constant, whatever the number of keys a node holds and wherever in the
// node the path leads.
func residentWork(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 16, 64, 128, 256, 256, 32, 1024}[i%8]
	kk := *o.kk
	calls := 0
	inner := kk.Cmp
	kk.Cmp = func(a, b sortedmap.Key) (int, error) {
		calls++
		return inner(a, b)
	}
	o.kk = &kk
	b := newBT(c, o)
	b.lenient = true
	n := min(kk.N, int(o.max)*int(o.max)/2+c.rng.IntN(int(o.max)*int(o.max)/4+1), 40000)
	switch i / 8 % 3 {
	case 0: // ascending, half-full nodes
		for r := 0; r < n; r++ {
			b.Put(r)
		}
	case 1: // descending
		for r := n - 1; r >= 0; r-- {
			b.Put(r)
		}
	default: // shuffled
		for _, r := range c.rng.Perm(n) {
			b.Put(r)
		}
	}
	if n == 0 {
		return
	}
	if c.rng.IntN(2) == 0 {
		b.Flush(c.rng.IntN(2) == 0)
		if err := b.t.Touch(); err != nil {
			c.Fail("Touch: %v", err)
		}
	}
	if k := c.rng.IntN(3); k > 0 { // thinned out
		for d := n / (2 * k); d > 0; d-- {
			b.DelIdx(c.rng.IntN(len(b.mod.r)))
		}
	}
	height := b.image(b.Flush(false)).height
	limit := float64(height) * (4*math.Log2(float64(o.max)+2) + 8)
	check := func(what string, r int) {
		if float64(calls) > limit {
			c.Fail("%s of item %d of %d (resident, %d levels of at most %d keys) made %d comparisons, more than %.0f", what, r, len(b.mod.r), height, o.max, calls, limit)
		}
		c.Max("comparisons in a resident lookup", int64(calls))
		c.Count("resident lookups measured", 1)
	}
	last := len(b.mod.r) - 1
	if last < 0 {
		return
	}
	for k := 0; k < 60; k++ {
		ix := c.rng.IntN(last + 1)
		switch k {
		case 0:
			ix = 0
		case 1:
			ix = last
		case 2:
			ix = last / 2
		}
		r := b.mod.r[ix]
		b.Get(r)                // makes the path resident, whatever came before
		far := b.mod.r[last-ix] // and then somewhere else, for the next path to owe nothing to the one before
		b.Get(far)
		b.BisL(far)
		b.BisR(far)
		b.Patch(far)
		b.Get(r)
		if k%4 != 3 {
			b.Get(far)
		}
		g1 := b.st.gets.Load()
		calls = 0
		b.Get(r)
		check("a lookup", ix)
		calls = 0
		b.BisL(r)
		check("BisectLeft", ix)
		calls = 0
		b.BisR(r)
		check("BisectRight", ix)
		calls = 0
		b.Patch(r)
		check("PatchByKey", ix)
		calls = 0
		b.GetIdx(ix)
		check("GetByIndex", ix)
		calls = 0
		b.PatchIdx(ix)
		check("PatchByIndex", ix)
		if g := b.st.gets.Load() - g1; g != 0 {
			c.Fail("operations on a resident path fetched %d nodes", g)
		}
	}
	c.Max("keys per node", int64(o.max))
	c.Eval(c.h, n > 4)
}
