package main

import (
	"fmt"

	"github.com/NVIDIA/sortedmap"
)

// zages.go: small maps that grow old. Counters of updates, flushes, loads or evictions that the code might keep
// in 8 or 16 bits come round in them: hundreds of generations (i >= 2) or tens of thousands of them (i < 2).

func ageGens(i int) int {
	if i < 2 {
		return max(66_200/divide, 700)
	}
	return 600
}

func ages(what string) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		gens := ageGens(i)
		o := BTOpt{kk: kkInt, vk: vkU64, max: []uint64{4, 4, 6}[c.rng.IntN(3)], policy: c.rng.IntN(nPolicies)}
		if o.policy == polReuse && (what == "C23" || what == "C16" || what == "C07") {
			o.policy = polSegment
		}
		style := c.rng.IntN(4)
		n := []int{1, 3, 12, 40}[c.rng.IntN(4)]
		if i < 2 {
			n, style = []int{6, 14}[i], 2*i // the second of some height
		}
		switch {
		case what == "C12":
			o.cache = sortedmap.NewBPlusTreeCache(huge, huge)
		case c.rng.IntN(2) == 0:
			o.cache = randCache(c)
		}
		b := newBT(c, o)
		b.lenient = what != "C06" && what != "C11" && what != "C14"
		x := &Mix{U: 2 * n, target: n}
		b.fillPerm(n)
		var old *Image
		var last loc
		var lastM *Model
		// rests: exactly so many generations in which one item alone changes, between two in which all of them do
		rest, restOf, woke := 0, []int{256, 256, 128, 512, 255, 257}, false
		for g := 0; g < gens; g++ {
			changed := false
			woke = false
			switch {
			case g == 300 && i < 2 && gens > 60_000:
				rest, woke = []int{65536, 32768}[i], true
			case rest > 1:
				rest--
			case rest == 1:
				rest, woke = 0, true
				c.Count("long rests", 1)
			case g > 3 && g < 700 && g%40 == 0 && c.rng.IntN(3) == 0:
				rest, woke = restOf[c.rng.IntN(len(restOf))], true
			}
			update := func() {
				if woke {
					for _, r := range b.mod.r {
						changed = b.Patch(r) || changed
					}
					return
				}
				if rest > 0 {
					if len(b.mod.r) > 0 {
						changed = b.PatchIdx(0) || changed
					}
					return
				}
				for k := 1 + c.rng.IntN(2); k > 0; k-- {
					switch {
					case style == 0 && len(b.mod.r) > 0:
						changed = b.PatchIdx(c.rng.IntN(len(b.mod.r))) || changed
					case style == 1:
						r := x.rank(c)
						if _, p := b.mod.find(r); p {
							changed = b.Del(r) || changed
						} else {
							changed = b.Put(r) || changed
						}
					default:
						b.RandomUpdate(x)
						changed = true // perhaps
					}
				}
			}
			if what == "C14" {
				for k := 0; k < 2; k++ {
					b.withFault(2, update)
				}
				if rest == 0 && c.rng.IntN(8) == 0 {
					b.Purge(false)
				}
			} else {
				update()
			}
			if style == 3 && rest == 0 && c.rng.IntN(6) == 0 {
				b.Purge(c.rng.IntN(2) == 0 && !changed)
			}
			switch what {
			case "C07":
				if lastM != nil {
					if c.rng.IntN(4) == 0 {
						b.withFault(1, func() { b.Flush(false) })
					}
					im, err := b.st.walk(last, curBO())
					why := ""
					if err != nil {
						why = err.Error()
					} else {
						why = im.sameAs(lastM, b.vk)
					}
					if why != "" {
						c.Fail("generation %d: a crash before the next Flush would lose the last flushed image %v: %s", g, last, why)
					}
				}
			case "C12":
				if g%3 == 0 {
					b.RandomRead(x)
				}
			case "C14":
				b.withFault(1, func() { b.Flush(rest == 0 && c.rng.IntN(2) == 0) })
			case "C16":
				if rest > 0 && !woke {
					break
				}
				if style%2 == 0 || len(b.mod.r) == 0 { // a cycle over no items touches nothing
					b.Touch()
				} else {
					for j, k := 0, 0; ; k++ {
						if j = b.TouchItem(j); j == 0 {
							break
						}
						if k > n+8 {
							c.Fail("generation %d: a cycle of TouchItem over %d items does not end after %d calls", g, len(b.mod.r), k)
						}
					}
				}
			case "C18":
				if changed && style < 2 {
					if l := b.location(); l != (loc{}) {
						c.Fail("generation %d: FetchLocation returned %v although the tree was modified since its last Flush", g, l)
					}
				}
			}
			p0 := b.st.puts.Load()
			var s0 sortedmap.BPlusTreeCacheStats
			if what == "C12" {
				s0 = *o.cache.Stats()
			}
			purge := rest == 0 && c.rng.IntN(3) == 0
			l := b.Flush(purge)
			wrote := b.st.puts.Load() - p0
			im := b.mustImageIf(what, l)
			switch what {
			case "C06":
				if g%256 < 3 || g%256 > 253 || c.rng.IntN(20) == 0 {
					r := b.reopen(b.st.snapshotOf(im), l, nil)
					r.All(c.rng.IntN(2) == 0)
					c.Count("images reopened", 1)
				} else if m := im.sameAs(b.mod, b.vk); m != "" {
					c.Fail("generation %d: the image flushed has %s", g, m)
				}
			case "C07":
				last, lastM = l, b.mod.clone()
			case "C09":
				if m := im.wellFormed(b.max); m != "" {
					c.Fail("generation %d: the image is not well formed: %s", g, m)
				}
				c.Count("images checked", 1)
			case "C11":
				if rest == 0 || woke {
					b.Purge(true)
				}
				b.All(g%2 == 0)
			case "C12":
				s1 := *o.cache.Stats()
				if uint64(wrote) != s0.DirtyLRUItems {
					c.Fail("generation %d: the cache reported %d dirty nodes, but flushing its tree wrote %d", g, s0.DirtyLRUItems, wrote)
				}
				want := s0.CleanLRUItems + s0.DirtyLRUItems
				if purge {
					want = 0
				}
				if s1.DirtyLRUItems != 0 || s1.CleanLRUItems != want {
					c.Fail("generation %d: after a flush (purge %v) the cache reports %d clean and %d dirty nodes; before it %d and %d", g, purge, s1.CleanLRUItems, s1.DirtyLRUItems, s0.CleanLRUItems, s0.DirtyLRUItems)
				}
				g0 := b.st.gets.Load()
				touchAll(b)
				s2 := *o.cache.Stats()
				if f := uint64(b.st.gets.Load() - g0); s2.CacheMisses-s1.CacheMisses != f || s2.CleanLRUItems != s1.CleanLRUItems+f || s2.CleanLRUItems != uint64(len(im.nodes)) || s2.CacheHits < s1.CacheHits {
					c.Fail("generation %d: reading all %d nodes fetched %d; the statistics went from %+v to %+v", g, len(im.nodes), f, s1, s2)
				}
			case "C14":
				if g%16 == 0 || i >= 2 {
					b.All(false)
				}
				if m := im.sameAs(b.mod, b.vk); m != "" {
					c.Fail("generation %d: after failures, the image flushed has %s", g, m)
				}
			case "C16":
				if old != nil && (rest == 0 || woke) {
					for l := range im.nodes {
						if old.nodes[l] != nil {
							c.Fail("generation %d: after every node was touched and flushed, the image still has node %v of the earlier one", g, l)
						}
					}
				}
				c.Count("touches", 1)
			case "C18":
				if got := b.location(); got != l {
					c.Fail("generation %d: FetchLocation returned %v, Flush had returned %v", g, got, l)
				}
				want := map[uint64]uint64{}
				for nl := range im.nodes {
					want[nl.N] += nl.L
				}
				rep, err := b.t.FetchLayoutReport()
				b.noErr("FetchLayoutReport", err)
				for n, v := range want {
					if rep[n] != v {
						c.Fail("generation %d: layout report gives %d bytes for object %d, the tree has %d there", g, rep[n], n, v)
					}
				}
				for n, v := range rep {
					if v != want[n] {
						c.Fail("generation %d: layout report gives %d bytes for object %d, where the tree has %d", g, v, n, want[n])
					}
				}
				d, err := b.t.FetchDimensionsReport()
				b.noErr("FetchDimensionsReport", err)
				if d.Items != uint64(len(im.ranks)) || d.Height != uint64(im.height) || d.MaxKeysPerNode != b.max {
					c.Fail("generation %d: dimensions report %+v, the image has %d items and height %d", g, d, len(im.ranks), im.height)
				}
				c.Count("reports compared", 1)
			case "C22":
				formatCheck(b, l)
			case "C23":
				if old != nil {
					if d := len(setDiff(im.set(), old.set())); int64(d) != wrote {
						c.Fail("generation %d: Flush wrote %d nodes, the new image has %d nodes that the earlier one had not", g, wrote, d)
					}
					if style < 2 && changed && wrote == 0 {
						panic(&abandon{"a change was not written (C06)"})
					}
				}
				p0 := b.st.puts.Load()
				if l2 := b.Flush(c.rng.IntN(2) == 0); l2 != l || b.st.puts.Load() != p0 {
					c.Fail("generation %d: a second Flush wrote %d nodes and moved the tree from %v to %v", g, b.st.puts.Load()-p0, l, l2)
				}
				c.Count("flushes compared", 1)
			}
			if what == "C07" {
				b.st.prot = im.set()
			}
			if what != "C07" || c.rng.IntN(3) > 0 {
				b.Prune()
			}
			if what == "C07" {
				b.st.prot = nil
				if m := b.st.Bad(); m != "" {
					c.Fail("generation %d: %s", g, m)
				}
				if m := b.image(l).sameAs(lastM, b.vk); m != "" {
					c.Fail("generation %d: after Flush and Prune the image has %s", g, m)
				}
			}
			if what == "C08" {
				balance(b, l, fmt.Sprintf("Flush and Prune of generation %d", g))
			}
			old = im
		}
		c.Count("generations of old maps", int64(gens))
		c.Max("generations of one map", int64(gens))
		c.Done()
	}
}

func (b *BT) mustImageIf(what string, l loc) *Image {
	switch what {
	case "C06", "C09", "C14", "C22":
		return b.mustImage(l)
	}
	return b.image(l)
}

// snapshotOf is snapshot for one image alone.
func (s *Store) snapshotOf(im *Image) *Store {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := newStore(s.kk, s.vk, s.policy, 7)
	n.x, n.next, n.off = s.x, s.next, s.off
	for l := range im.nodes {
		r := s.live[[2]uint64{l.N, l.O}]
		n.live[[2]uint64{l.N, l.O}] = &rec{loc: r.loc, handed: r.copied, copied: r.copied, ret: fenced(r.copied), seq: r.seq}
	}
	return n
}

// spans: every read, then exactly so many updates, then every read again.
func spans(c *Ctx, d *MD, i int, reset func(), churn func()) {
	n := []int{1, 5, 20, 60}[c.rng.IntN(4)]
	U := 2*n + 2
	// after the updates the reads come in reverse order, so that the last of each kind is the first of it again
	type read struct{ kind, arg int }
	var asked []read
	ask := func(q read) {
		switch q.kind {
		case 0:
			d.Get(q.arg)
		case 1:
			d.BisL(q.arg)
		case 2:
			d.BisR(q.arg)
		case 3:
			d.GetIdx(q.arg)
		case 4:
			d.Len()
		}
	}
	reads := func() {
		asked = append(asked[:0], read{4, 0})
		for r := 0; r < U; r++ {
			asked = append(asked, read{0, r}, read{1, r}, read{2, r})
		}
		for k := -1; k <= len(d.mod.r); k++ {
			asked = append(asked, read{3, k})
		}
		c.rng.Shuffle(len(asked), func(a, b int) { asked[a], asked[b] = asked[b], asked[a] })
		for _, q := range asked {
			ask(q)
		}
	}
	reread := func() {
		for k := len(asked) - 1; k >= 0; k-- {
			ask(asked[k])
		}
	}
	absent := func() int {
		for {
			r := c.rng.IntN(U)
			if _, p := d.mod.find(r); !p {
				return r
			}
		}
	}
	for len(d.mod.r) < n {
		d.Put(absent())
	}
	for _, L := range []int{255, 256, 257, 512, 65535, 65536, 65537, 131072} {
		if L > 1000 {
			L = max(L/divide, 512)
		}
		reads()
		style := []int{0, 1, 0, 2, 5, 3, 0, 4}[(i+c.rng.IntN(2))%8]
		if L < 1000 {
			style = c.rng.IntN(6)
		}
		switch style {
		case 0: // inserts and deletes, the same number of each
			for k := 0; k < L; k++ {
				if k%2 == 0 {
					d.Put(absent())
				} else if c.rng.IntN(2) == 0 {
					d.DelIdx(c.rng.IntN(len(d.mod.r)))
				} else {
					d.Del(d.mod.r[c.rng.IntN(len(d.mod.r))])
				}
			}
			for len(d.mod.r) > n {
				d.DelIdx(0)
			}
		case 1: // new values only
			for k := 0; k < L; k++ {
				if k%3 == 0 {
					d.PatchIdx(c.rng.IntN(len(d.mod.r)))
				} else {
					d.Patch(d.mod.r[c.rng.IntN(len(d.mod.r))])
				}
			}
		case 2: // one key comes and goes, then another one changes
			r := absent()
			for k := 0; k+1 < L; k++ {
				if k%2 == 0 {
					d.Put(r)
				} else {
					d.Del(r)
				}
			}
			d.Patch(d.mod.r[c.rng.IntN(len(d.mod.r))])
			if len(d.mod.r) > n {
				d.Del(r)
			}
		case 3: // anything, and the whole map again and again
			for k := 0; k < L; k++ {
				if k%8 == 7 && reset != nil {
					reset()
					d.Put(absent())
				} else if len(d.mod.r) < n {
					d.Put(absent())
				} else {
					d.DelIdx(c.rng.IntN(len(d.mod.r)))
				}
			}
			for len(d.mod.r) < n {
				d.Put(absent())
			}
		case 5: // down to nothing and up again
			down := true
			for k := 0; k < L; k++ {
				if len(d.mod.r) == 0 {
					down = false
				} else if len(d.mod.r) >= U-1 {
					down = true
				}
				if down {
					d.DelIdx(c.rng.IntN(len(d.mod.r)))
				} else {
					d.Put(absent())
				}
			}
		case 4: // residency changes beside the updates
			for k := 0; k < L; k++ {
				if churn != nil && k%2 == 1 {
					churn()
				}
				d.PatchIdx(c.rng.IntN(len(d.mod.r)))
			}
		}
		reread()
		for len(d.mod.r) < n {
			d.Put(absent())
		}
		for len(d.mod.r) > n {
			d.DelIdx(0)
		}
		c.Count("spans of exactly counted updates", 1)
		c.Eval(mix(c.h, uint64(L)), true)
	}
}

func init() {
	for _, p := range []string{"C06", "C07", "C08", "C09", "C11", "C12", "C14", "C16", "C18", "C22", "C23"} {
		addPhase(p, Phase{Name: "ages", Items: scale(32, 500), Run: ages(p)})
		props[p].Min["generations of old maps"] = 20_000
		props[p].Min["long rests"] = 20
	}
	addPhase("C13", Phase{Name: "old caches", Items: scale(4, 60), Serial: true, Run: long(170, limitsRun)})
	addPhase("C13", Phase{Name: "rare uses", Items: scale(120, 2000), Serial: true, Run: func(c *Ctx, i int) {
		long([]int{130, 300, 250, 200, 260, 66_000}[i%6], lruRun)(c, i)
	}})
	ll := func(c *Ctx, i int) {
		l := newLL(c, kkInt, vkU64)
		spans(c, &l.MD, i, l.Reset, nil)
	}
	bt := func(c *Ctx, i int) {
		o := BTOpt{kk: kkInt, vk: vkU64, max: []uint64{4, 4, 6}[c.rng.IntN(3)], policy: c.rng.IntN(nPolicies), cache: randCache(c)}
		b := newBT(c, o)
		spans(c, &b.MD, i, nil, func() {
			switch c.rng.IntN(3) {
			case 0:
				b.Flush(true)
				b.Prune()
			case 1:
				b.Purge(false)
			case 2:
				b.Flush(false)
				b.Purge(true)
			}
		})
	}
	for _, p := range []string{"C01", "C03"} {
		addPhase(p, Phase{Name: "spans", Items: scale(24, 400), Run: ll})
	}
	for _, p := range []string{"C02", "C03", "C11"} {
		addPhase(p, Phase{Name: "spans of a tree", Items: scale(64, 800), Run: bt})
	}
}
