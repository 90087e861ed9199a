package main

import (
	"slices"
	"strings"

	"github.com/NVIDIA/sortedmap"
)

// ---- C25: purging drops what it says, and nothing else drops nodes -----------------------------

// dropRig follows which nodes of one tree must be resident, by the location they were fetched from or written to.
type dropRig struct {
	b    *BT
	in   map[loc]bool // resident for certain
	mod  bool         // modified since the last flush
	seen int
}

// after takes in the storage calls since the last time; those of a report may have been released again.
func (g *dropRig) after(what string, report bool) (fetched, written map[loc]bool) {
	c, st := g.b.c, g.b.st
	fetched, written = map[loc]bool{}, map[loc]bool{}
	st.mu.Lock()
	log := st.log
	st.log = nil
	st.mu.Unlock()
	for _, e := range log {
		switch e.kind {
		case 'G':
			if g.in[e.loc] {
				c.Fail("%s fetched node %v, which was resident: it was fetched or written before, and nothing that drops nodes was called since", what, e.loc)
			}
			if !report {
				g.in[e.loc] = true
			}
			fetched[e.loc] = true
			if strings.HasPrefix(what, "Flush") || what == "Prune" || what == "FetchLocation" {
				c.Fail("%s fetched node %v", what, e.loc)
			}
		case 'P':
			g.in[e.loc] = true
			written[e.loc] = true
		case 'D':
			delete(g.in, e.loc)
		}
	}
	return
}

func (g *dropRig) readAll(what string) map[loc]bool {
	b := g.b
	b.Len()
	switch b.c.rng.IntN(3) {
	case 0:
		for i := len(b.mod.r) - 1; i >= 0; i-- {
			b.GetIdx(i)
		}
	case 1:
		for _, r := range b.mod.r {
			b.Get(r)
		}
	default:
		for i := range b.mod.r {
			b.GetIdx(i)
		}
	}
	if len(b.mod.r) == 0 {
		b.Get(0)
	}
	f, _ := g.after("reading everything after "+what, false)
	return f
}

func (g *dropRig) must(fetched map[loc]bool, want func(l loc) bool, im *Image, what string) {
	c := g.b.c
	n := 0
	for l := range im.nodes {
		if want(l) {
			n++
			if !fetched[l] {
				c.Fail("after %s node %v (unmodified) is still resident: reading everything did not fetch it", what, l)
			}
		}
	}
	for l := range fetched {
		if im.nodes[l] == nil || !want(l) {
			c.Fail("after %s reading everything fetched %v, which was not an unmodified node of the tree", what, l)
		}
	}
	c.Count("nodes dropped and fetched once", int64(n))
	c.Eval(mix(c.h, uint64(n)), true)
}

func dropRun(dumps bool) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		var cache sortedmap.BPlusTreeCache
		if i%2 == 0 {
			cache = sortedmap.NewBPlusTreeCache(huge, huge)
		}
		var gs []*dropRig
		var xs []*Mix
		for k := 1 + i%3/2; k >= 0; k-- {
			o := randBTOpt(c)
			o.cache = cache
			var b *BT
			if c.lim > 0 {
				b = scaledTree(c, i, &o)
			} else if c.rng.IntN(3) == 0 {
				b = handMade(c, o, cache, 200)
			} else {
				b = newBT(c, o)
			}
			b.lenient = true
			x := newMix(c, b.kk, 300)
			g := &dropRig{b: b, in: map[loc]bool{}}
			if c.rng.IntN(2) == 0 {
				b.fill(x.target, x)
			}
			b.Flush(false)
			b.st.logOn = true
			b.Purge(true)
			gs, xs = append(gs, g), append(xs, x)
		}
		for s := 20 + c.rng.IntN(60); s > 0; s-- {
			k := c.rng.IntN(len(gs))
			g, x := gs[k], xs[k]
			b := g.b
			change := func(what string, f func()) {
				m := b.mod.clone()
				f()
				if !g.mod && (len(m.r) != len(b.mod.r) || !sameInts(m.r, b.mod.r) || !sameInts(m.v, b.mod.v)) {
					g.mod = true
				}
				g.after(what, false)
			}
			flush := func(purge bool, what string) *Image {
				l := b.Flush(purge)
				g.mod = false
				g.after(what, false)
				return b.image(l)
			}
			all := func(loc) bool { return true }
			switch c.rng.IntN(16) {
			case 0, 1, 2:
				for n := 1 + c.rng.IntN(20); n > 0; n-- {
					change("an operation", func() { b.RandomOp(x) })
				}
			case 3:
				change("an update", func() { b.RandomUpdate(x) })
			case 4:
				for n := 1 + c.rng.IntN(10); n > 0; n-- {
					b.RandomRead(x)
					g.after("a lookup", false)
				}
			case 5:
				g.readAll("other operations")
			case 6, 7, 8: // partial purge; the next flush tells what was modified
				if c.rng.IntN(4) == 0 {
					g.readAll("other operations")
				}
				g.after("", false)
				b.Purge(false)
				if f, w := g.after("Purge", false); len(f)+len(w) > 0 {
					c.Fail("Purge(false) fetched %d nodes and wrote %d", len(f), len(w))
				}
				clear(g.in)
				f := g.readAll("Purge(false)")
				l := b.Flush(false)
				wasMod := g.mod
				g.mod = false
				_, w := g.after("Flush", false)
				im := b.image(l)
				g.must(f, func(l loc) bool { return !w[l] }, im, "Purge(false)")
				c.Count("partial purges judged", 1)
				if wasMod && len(im.nodes) > len(w) {
					c.Count("partial purges of partly modified trees", 1)
				}
			case 9: // full purge of an unmodified tree
				im := flush(false, "Flush")
				if c.rng.IntN(2) == 0 {
					b.RandomRead(x)
					g.after("a lookup", false)
				}
				b.Purge(true)
				if f, w := g.after("Purge", false); len(f)+len(w) > 0 {
					c.Fail("Purge(true) fetched %d nodes and wrote %d", len(f), len(w))
				}
				clear(g.in)
				g.must(g.readAll("Purge(true)"), all, im, "Purge(true)")
				c.Count("full purges judged", 1)
			case 10: // full purge of a modified tree
				if !g.mod {
					change("an update", func() { b.RandomUpdate(x) })
				}
				if !g.mod {
					break
				}
				c.Step("Purge", 1, 0)
				if err := b.t.Purge(true); err == nil {
					c.Fail("Purge(true) of a tree with unflushed modifications reports success")
				}
				g.after("Purge", false)
				clear(g.in) // it may have dropped unmodified ones
				f := g.readAll("a Purge(true) that failed")
				l := b.Flush(false)
				g.mod = false
				_, w := g.after("Flush", false)
				im := b.image(l)
				for l := range f {
					if im.nodes[l] == nil || w[l] {
						c.Fail("after a Purge(true) that failed reading everything fetched %v, which was not an unmodified node of the tree", l)
					}
				}
				c.Count("full purges of modified trees", 1)
				c.Eval(mix(c.h, 1), true)
			case 11:
				im := flush(true, "Flush(true)")
				clear(g.in)
				g.must(g.readAll("Flush(true)"), all, im, "Flush(true)")
				c.Count("purging flushes judged", 1)
			case 12:
				flush(false, "Flush(false)")
				if c.rng.IntN(2) == 0 {
					b.Prune()
					g.after("Prune", false)
				}
			case 13:
				if c.rng.IntN(3) == 0 {
					b.Touch()
				} else {
					b.TouchItem(c.rng.IntN(len(b.mod.r) + 2))
				}
				if len(b.mod.r) > 0 {
					// whether it was modified is only certain of Touch
				}
				g.after("a touch", false)
				l := b.Flush(false)
				_ = l
				g.mod = false
				g.after("Flush", false)
			default:
				what := ""
				switch q := c.rng.IntN(5); {
				case q == 0:
					what = "FetchLayoutReport"
					if g.mod {
						b.Flush(false)
						g.mod = false
						g.after("Flush", false)
					}
					_, err := b.t.FetchLayoutReport()
					b.noErr(what, err)
				case q == 1:
					what = "FetchDimensionsReport"
					_, err := b.t.FetchDimensionsReport()
					b.noErr(what, err)
				case q == 2:
					what = "Validate"
					b.Validate()
				case q == 3 && dumps:
					what = "Dump"
					captured(c, func() { b.noErr(what, b.t.Dump()) })
				default:
					what = "FetchLocation"
					b.location()
				}
				g.after(what, true)
				c.Count("reports and the like made", 1)
			}
		}
		for _, g := range gs {
			g.readAll("all operations")
		}
		c.Done()
	}
}

func sameInts(a, b []int) bool {
	return slices.Equal(a, b)
}

func init() {
	register(&Prop{
		ID:          "C25",
		Technique:   "runtime monitoring: every fetch from storage against the nodes that must be resident, and what is fetched after a purge against the nodes the next flush shows to have been unmodified",
		Rule:        "one evaluation = one Purge or purging Flush after which everything was read and the fetched nodes were compared with the unmodified nodes of the tree; distinct by history hash and number of nodes",
		Assumptions: []string{"the cache never evicts here (no cache, or huge limits); eviction is C13's", "nodes that only a report, Validate or Dump fetched may or may not stay resident"},
		Min:         map[string]int64{"partial purges judged": 2000, "partial purges of partly modified trees": 200, "full purges judged": 500, "full purges of modified trees": 300, "purging flushes judged": 500, "nodes dropped and fetched once": 20000, "reports and the like made": 1000},
		Phases: []Phase{
			{Name: "purges", Items: scale(3000, 50000), Run: dropRun(false)},
			{Name: "purges and dumps", Items: scale(150, 2500), Serial: true, Run: dropRun(true)},
		},
	})
}
