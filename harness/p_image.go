package main

import (
	"bytes"
	"fmt"
	"maps"

	"github.com/NVIDIA/sortedmap"
)

// randCache: none, tiny, moderate or ample.
func randCache(c *Ctx) sortedmap.BPlusTreeCache {
	switch c.rng.IntN(4) {
	case 0:
		return nil
	case 1:
		return sortedmap.NewBPlusTreeCache(uint64(c.rng.IntN(4)), uint64(c.rng.IntN(6)))
	case 2:
		l := c.rng.IntN(20)
		return sortedmap.NewBPlusTreeCache(uint64(l), uint64(l+c.rng.IntN(20)))
	}
	return sortedmap.NewBPlusTreeCache(1000, 1<<20)
}

func (b *BT) randomResidency() {
	c := b.c
	switch b.resKind(7) {
	case 0:
		b.Flush(true)
	case 1:
		b.Flush(false)
	case 2:
		b.Purge(false)
	case 3:
		b.Flush(false)
		b.Purge(true)
	case 4:
		if b.cache != nil {
			c.Step("UpdateLimits", 0, 0)
			l := c.rng.IntN(30)
			b.cache.UpdateLimits(uint64(l), uint64(c.rng.IntN(60)))
		}
	case 5:
		b.Touch()
	case 6:
		b.TouchItem(c.rng.IntN(len(b.mod.r) + 2))
	}
}

// generations: flush, reopen, modify both, flush again.
func generations(c *Ctx, i int) {
	o := randBTOpt(c)
	if !c.big {
		o.vk = valKinds()[i%5]
	}
	o.cache = randCache(c)
	var b *BT
	if i%4 == 3 {
		b = handMade(c, o, o.cache, 300)
	} else {
		b = newBT(c, o)
	}
	x := newMix(c, o.kk, 900)
	if i%11 == 0 {
		x.target = 0
	}
	for g := 0; g < c.gens(4); g++ {
		if i%11 != 0 || g > 0 {
			for n := c.rng.IntN(2*x.U + 2); n > 0; n-- {
				b.RandomUpdate(x)
				if c.rng.IntN(60) == 0 {
					b.randomResidency()
				}
			}
		}
		l := b.Flush(c.rng.IntN(2) == 0)
		snap := b.st.snapshot()
		r := b.reopen(snap, l, randCache(c))
		r.All(true)
		d, err := r.t.FetchDimensionsReport()
		if err != nil || d.MaxKeysPerNode != b.max {
			c.Fail("reopened tree reports maximum %d (error %v), expected %d", d.MaxKeysPerNode, err, b.max)
		}
		c.Max("height", int64(d.Height))
		c.Max("items", int64(len(r.mod.r)))
		// the reopened tree is modified, flushed and reopened in turn
		for n := c.rng.IntN(120); n > 0; n-- {
			r.RandomOp(x)
		}
		r.All(false)
		l2 := r.Flush(c.rng.IntN(2) == 0)
		r2 := r.reopen(snap.snapshot(), l2, randCache(c))
		r2.All(true)
		c.Count("images reopened", 2)
		c.Eval(mix(c.h, uint64(g)), len(b.mod.r) > 0)
		// the original is not disturbed, and either may live on
		b.All(false)
		if c.rng.IntN(2) == 0 {
			nb := r2
			nb.cache = r2.cache
			b = nb
		}
	}
	if i < 2 {
		c.Sample("generations #%d: %v, 4 generations, %d items at the end", i, o, len(b.mod.r))
	}
}

// written: what Flush writes is read by an independent decoder.
func written(c *Ctx, i int) {
	o := randBTOpt(c)
	b := newBT(c, o)
	b.lenient = true
	if o.max > 1<<15 {
		c.Count("images with a giant maximum", 1)
	}
	x := newMix(c, o.kk, 600)
	for g := 0; g < 3; g++ {
		for n := c.rng.IntN(2*x.U + 1); n > 0; n-- {
			b.RandomUpdate(x)
		}
		formatCheck(b, b.Flush(c.rng.IntN(2) == 0))
	}
}

// opened: hand-made images are opened by the library.
func opened(c *Ctx, i int) {
	o := randBTOpt(c)
	b := handMade(c, o, randCache(c), 400)
	b.All(true)
	c.Count("hand-made images opened", 1)
	d, err := b.t.FetchDimensionsReport()
	if err != nil || d.MaxKeysPerNode != b.max {
		c.Fail("hand-made image: maximum %d (error %v), expected %d", d.MaxKeysPerNode, err, b.max)
	}
	x := &Mix{U: min(o.kk.N, 2*len(b.mod.r)+10), target: len(b.mod.r)}
	for n := 0; n < 30; n++ {
		b.RandomUpdate(x)
	}
	b.All(false)
	formatCheck(b, b.Flush(true))
	if i < 2 {
		c.Sample("hand-made image #%d: %v, %d items", i, o, len(b.mod.r))
	}
}

func init() {
	register(&Prop{
		ID:          "C06",
		Technique:   "runtime monitoring: round-trip oracle (reference dictionary against reopened trees, through several generations)",
		Rule:        "one evaluation = one flushed image reopened from a copy of the storage and compared in full with the reference; distinct by history hash",
		Assumptions: []string{"storage returns the bytes it was given", "the client's pack/unpack callbacks are inverse of each other"},
		Min:         map[string]int64{"looks at the whole map beside other operations": 1500, "images reopened": 3000, "max:height": 4},
		Phases: []Phase{
			{Name: "generations", Items: scale(3600, 60000), Run: generations},
		},
	})

	register(&Prop{
		ID:        "C07",
		Technique: "runtime monitoring: crash-point oracle (the last flushed image decoded at every storage callback), protected-node and byte-immutability monitors, injected flush failures",
		Level:     "fault_enumeration",
		Rule:      "one evaluation = one crash point (a storage or codec callback of any operation) at which the last flushed image was decoded in full from what is in storage and compared with the contents at that Flush; distinct by history hash and position",
		Assumptions: []string{
			"storage never reuses a location that has not been discarded",
			"a Prune that does not directly follow a successful Flush (nothing modified in between) may reclaim the image",
		},
		Min: map[string]int64{"crash points": 50000, "prunes directly after a flush": 500, "failed flushes": 200},
		Phases: []Phase{
			{Name: "crash-points", Items: scale(700, 15000), Run: crashPoints},
		},
	})

	register(&Prop{
		ID:          "C08",
		Technique:   "runtime monitoring: storage conservation monitor (written = reachable + discarded, each discarded once) with injected discard failures",
		Rule:        "one evaluation = one Flush+Prune (or Discard) after which the nodes held in storage are compared with those reachable from the root; distinct by history hash",
		Assumptions: []string{"trees are reopened only after Flush and Prune (references pending at a crash are lost by design)", "a failing discard callback has not discarded the node"},
		Min:         map[string]int64{"balances struck": 3000, "failed discards": 500, "trees discarded": 300},
		Phases:      []Phase{{Name: "conservation", Items: scale(6000, 100000), Run: conservation}},
	})

	register(&Prop{
		ID:          "C09",
		Technique:   "runtime monitoring: independent decoder and B+Tree rule checker over every flushed image",
		Rule:        "one evaluation = one flushed image decoded from storage and checked against all structural rules; distinct by image shape and keys",
		Assumptions: []string{"storage returns the bytes it was given"},
		Min:         map[string]int64{"images checked": 20000, "max:height": 4},
		Phases: []Phase{
			{Name: "every-flush", Items: scale(900, 20000), Run: func(c *Ctx, i int) {
				o := randBTOpt(c)
				o.max = []uint64{4, 4, 4, 6, 8, 10, 16, 32}[i%8]
				o.cache = randCache(c)
				b := newBT(c, o)
				b.lenient = true
				x := newMix(c, o.kk, 700)
				every := 1 + c.rng.IntN(40)
				for k := 0; k < 1200; k++ {
					b.RandomUpdate(x)
					if k%every == 0 {
						checkImage(b)
					}
				}
				checkImage(b)
			}},
			{Name: "grow-drain", Items: scale(60, 1500), Run: func(c *Ctx, i int) {
				o := randBTOpt(c)
				o.max = []uint64{4, 6, 4, 8}[i%4]
				b := newBT(c, o)
				b.lenient = true
				n := 50 + c.rng.IntN(500)
				ord := c.rng.Perm(n)
				if i%3 == 0 {
					for k := range ord {
						ord[k] = k
					}
				}
				for k, r := range ord {
					b.Put(r)
					if k%5 == 0 {
						checkImage(b)
					}
				}
				for len(b.mod.r) > 0 {
					switch i % 4 {
					case 0:
						b.DelIdx(0)
					case 1:
						b.DelIdx(len(b.mod.r) - 1)
					case 2:
						b.DelIdx(c.rng.IntN(len(b.mod.r)))
					case 3:
						b.Del(b.mod.r[len(b.mod.r)/2])
					}
					checkImage(b)
				}
			}},
			{Name: "single-updates", Items: scale(200, 5000), Run: func(c *Ctx, i int) {
				o := BTOpt{kk: kkIntSmall, vk: vkU64, max: []uint64{4, 4, 6, 8}[i%4], policy: polUnique1}
				b := handMade(c, o, nil, 60)
				root, st, base := b.last, b.st, b.mod.clone()
				n := len(base.r)
				for k := 0; k < n; k++ {
					for op := 0; op < 2; op++ {
						t, err := sortedmap.OldBPlusTree(root.N, root.O, root.L, o.kk.Cmp, st, nil)
						e := &BT{max: o.max, t: t, last: root}
						e.MD = b.MD
						e.lenient = true
						e.m, e.mod = t, base.clone()
						e.noErr("OldBPlusTree", err)
						if op == 0 {
							e.DelIdx(k)
						} else {
							e.Put(2 * k)
						}
						checkImage(e)
					}
				}
			}},
		},
	})

	register(&Prop{
		ID:          "C16",
		Technique:   "runtime monitoring: node identity comparison of the images before and after touching, and an oracle for TouchItem's return values from the decoded leaf boundaries",
		Rule:        "one evaluation = one Touch or one TouchItem cycle followed by a Flush whose image is compared with the previous one; distinct by history hash",
		Assumptions: []string{"nodes are not pruned meanwhile, so a location is never reused"},
		Min:         map[string]int64{"touches": 1000, "touch cycles": 1000, "touch cycles with updates": 300},
		Phases:      []Phase{{Name: "touch", Items: scale(8000, 120000), Run: touchRun}},
	})

	register(&Prop{
		ID:          "C18",
		Technique:   "runtime monitoring: reports compared with the independently decoded image and with the storage log; concurrent observer of the location",
		Rule:        "one evaluation = one tree state whose location, layout and dimensions reports were compared with the decoded image; distinct by history hash",
		Assumptions: []string{"storage returns the bytes it was given"},
		Min:         map[string]int64{"looks at the whole map beside other operations": 800, "reports compared": 5000, "locations observed concurrently": 10000},
		Phases: []Phase{
			{Name: "reports", Items: scale(6000, 100000), Run: reportsRun},
			{Name: "concurrent-location", Items: scale(24, 400), Serial: true, Run: concurrentLocation},
		},
	})

	register(&Prop{
		ID:          "C22",
		Technique:   "runtime monitoring: independent reader and writer of the node format in both directions, and golden images of the pinned commit",
		Rule:        "one evaluation = one image written by the library and read independently (and re-encoded byte for byte), or one written independently or by the pinned commit and opened by the library; distinct by history hash",
		Assumptions: []string{"the golden images in harness/golden were written by the pinned commit"},
		Min:         map[string]int64{"images decoded independently": 1500, "hand-made images opened": 400, "golden images opened": 10},
		Phases: []Phase{
			{Name: "golden", Items: func(string) int { return len(goldenFiles()) }, Run: goldenRun},
			{Name: "written", Items: scale(4000, 80000), Run: written},
			{Name: "opened", Items: scale(3000, 60000), Run: opened},
		},
	})

	register(&Prop{
		ID:          "C23",
		Technique:   "runtime monitoring: write-set monitor (PutNode calls of each Flush against the images before and after)",
		Rule:        "one evaluation = one Flush whose writes were compared with the images before and after it; distinct by history hash",
		Assumptions: []string{"storage returns the bytes it was given"},
		Min:         map[string]int64{"flushes compared": 10000, "flushes of unmodified trees": 3000, "single-change flushes": 2000},
		Phases:      []Phase{{Name: "write-sets", Items: scale(1200, 25000), Run: writeSets}},
	})
}

func checkImage(b *BT) {
	c := b.c
	l := b.Flush(c.rng.IntN(3) == 0)
	im := b.mustImage(l)
	if m := im.wellFormed(b.max); m != "" {
		c.Fail("the image of a tree with maximum %d, %d items and height %d is not well formed: %s", b.max, len(im.ranks), im.height, m)
	}
	c.Count("images checked", 1)
	c.Max("height", int64(im.height))
	c.Max("items", int64(len(im.ranks)))
	h := uint64(b.max)
	for _, n := range im.order {
		h = mix(h, uint64(len(n.keys))*4+uint64(n.depth))
	}
	for _, r := range im.ranks {
		h = mix(h, uint64(r))
	}
	c.Eval(h, im.height > 1)
}

// ---- C07 -----------------------------------------------------------------------------------

func crashPoints(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8}[i%4]
	o.cache = randCache(c)
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else if i%3 == 0 {
		b = handMade(c, o, o.cache, 60)
	} else {
		b = newBT(c, o)
	}
	b.lenient = true
	b.st.watch = "gdb"
	b.st.strictCalls = true
	x := newMix(c, o.kk, 64)
	last, lastM := loc{}, (*Model)(nil) // protected image
	modified := true
	opName := "start"
	points, skip := 0, 0
	inReopen := false
	b.st.jit = func() {
		if lastM == nil || inReopen {
			return
		}
		if skip++; (c.lim > 0 || c.big) && skip%11 != 0 {
			return
		}
		points++
		im, err := b.st.walk(last, curBO())
		why := ""
		if err != nil {
			why = err.Error()
		} else {
			why = im.sameAs(lastM, b.vk)
		}
		if why != "" {
			b.st.fail("g", "a crash during %s (callback %d of the case) would lose the last flushed image %v: %s", opName, points, last, why)
			return
		}
		if points%53 == 0 {
			inReopen = true
			snap := b.st.snapshot()
			t, err := sortedmap.OldBPlusTree(last.N, last.O, last.L, o.kk.Cmp, snap, nil)
			if err != nil {
				b.st.fail("g", "a crash during %s: reopening %v fails: %v", opName, last, err)
			} else {
				n, _ := t.Len()
				if n != len(lastM.r) {
					b.st.fail("g", "a crash during %s: reopening %v gives %d items, not %d", opName, last, n, len(lastM.r))
				}
				for j, r := range lastM.r {
					v, ok, err := t.GetByKey(b.kk.Key(r))
					if err != nil || !ok || !b.vk.match(v, lastM.v[j]) {
						b.st.fail("g", "a crash during %s: reopening %v gives a wrong value for rank %d", opName, last, r)
						break
					}
				}
			}
			inReopen = false
			c.Count("images reopened by the library", 1)
		}
	}
	if i%3 == 0 {
		last, lastM, modified = b.last, b.mod.clone(), false
		b.st.prot = b.mustImage(last).set()
	}
	flush := func(fail bool) {
		opName = "Flush"
		if fail {
			n := c.rng.IntN(12)
			only := []string{"", "", "PutNode", "PackKey", "PackValue", "DiscardNode"}[c.rng.IntN(6)]
			once := c.rng.IntN(2) == 0
			b.st.fault = func(kind string) error {
				if only != "" && kind != only {
					return nil
				}
				if n--; n == -1 || n < 0 && !once {
					return errInjected
				}
				return nil
			}
		}
		var l loc
		failed, _ := try(func() { l = b.Flush(c.rng.IntN(2) == 0) })
		b.st.fault = nil
		if failed {
			c.Count("failed flushes", 1)
			modified = true
			return
		}
		last, lastM, modified = l, b.mod.clone(), false
		im := b.mustImage(l)
		if m := im.sameAs(lastM, b.vk); m != "" && lastM != nil {
			panic(&abandon{"the image differs from the reference: " + m}) // C06's business
		}
		b.st.prot = im.set()
	}
	for k := 0; k < c.gens(60); k++ {
		opName = "map operations"
		for n := c.rng.IntN(12); n > 0; n-- {
			if c.rng.IntN(3) == 0 {
				b.RandomRead(x)
			} else {
				modified = true
				b.RandomUpdate(x)
			}
		}
		switch c.rng.IntN(9) {
		case 0:
			opName = "Purge"
			b.Purge(!modified)
		case 1:
			opName = "UpdateLimits"
			if b.cache != nil {
				b.cache.UpdateLimits(uint64(c.rng.IntN(3)), uint64(c.rng.IntN(8)))
			}
		case 2:
			opName = "Touch"
			modified = true
			if c.rng.IntN(2) == 0 {
				b.Touch()
			} else {
				b.TouchItem(c.rng.IntN(len(b.mod.r) + 1))
			}
		case 3:
			opName = "Validate"
			b.Validate()
			b.t.FetchLayoutReport()
		case 4:
			flush(true)
		case 5, 6:
			flush(false)
		case 7:
			flush(false)
			opName = "Prune after Flush"
			if c.rng.IntN(2) == 0 {
				for n := c.rng.IntN(5); n > 0; n-- {
					b.RandomRead(x)
				}
			}
			b.Prune()
			c.Count("prunes directly after a flush", 1)
		case 8:
			if modified {
				if c.rng.IntN(4) != 0 {
					continue
				}
				// reclaims the last image: nothing is protected until the next Flush
				lastM, b.st.prot = nil, nil
			}
			opName = "Prune"
			b.Prune()
		}
		if m := b.st.verifyBytes(); m != "" {
			c.Fail("%s", m)
		}
	}
	flush(false)
	if m := b.st.Bad(); m != "" {
		c.Fail("%s", m)
	}
	c.Count("crash points", int64(points))
	c.cnt["evaluations"] += int64(points)
	for p := 0; p < points; p++ {
		c.w.addDistinct(mix(c.h, uint64(p)))
	}
	if i < 2 {
		c.Sample("crash-points #%d: %v, %d crash points, %d items at the end", i, o, points, len(b.mod.r))
	}
}

// ---- C08 -----------------------------------------------------------------------------------

func setDiff(a, b map[loc]bool) (l []loc) {
	for x := range a {
		if !b[x] {
			l = append(l, x)
		}
	}
	return
}

func balance(b *BT, l loc, what string) {
	c := b.c
	im, err := b.st.walk(l, curBO())
	if err != nil {
		c.Fail("after %s: %v", what, err)
	}
	live := b.st.liveSet()
	if d := setDiff(live, im.set()); len(d) > 0 {
		c.Fail("after %s %d nodes are in storage but not part of the tree (leaked), e.g. %v; the tree has %d nodes", what, len(d), d[0], len(im.nodes))
	}
	c.Count("balances struck", 1)
	c.Eval(mix(c.h, uint64(len(live))), len(live) > 1)
	if m := b.st.verifyBytes(); m != "" {
		panic(&abandon{m})
	}
}

func conservation(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8, 16}[i%5]
	o.cache = randCache(c)
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else if i%3 == 0 {
		b = handMade(c, o, o.cache, 150)
	} else {
		b = newBT(c, o)
	}
	b.lenient = true
	b.st.watch = "gd"
	b.st.strictCalls = true
	x := newMix(c, o.kk, 300)
	failDisc := func() func() {
		p := 1 + c.rng.IntN(4)
		b.st.fault = func(kind string) error {
			if kind == "DiscardNode" && c.rng.IntN(p) == 0 {
				c.Count("failed discards", 1)
				return errInjected
			}
			return nil
		}
		return func() { b.st.fault = nil }
	}
	for g := 0; g < c.gens(5); g++ {
		for n := c.rng.IntN(x.U + 10); n > 0; n-- {
			b.RandomUpdate(x)
			if c.rng.IntN(40) == 0 {
				b.randomResidency()
			}
		}
		var l loc
		for f := 1 + c.rng.IntN(3); f > 0; f-- {
			l = b.Flush(c.rng.IntN(2) == 0)
			if f > 1 {
				for n := c.rng.IntN(20); n > 0; n-- {
					b.RandomUpdate(x)
				}
			}
		}
		// the last Flush is followed by Prune, which may fail on the way
		im := b.image(l)
		b.st.prot = im.set()
		if c.rng.IntN(2) == 0 {
			off := failDisc()
			for k := c.rng.IntN(3); k >= 0; k-- {
				try(b.Prune)
			}
			off()
			b.st.fired.Store(0)
		}
		b.Prune()
		balance(b, l, "Flush and Prune")
		d0 := b.st.discs.Load()
		b.Prune()
		if b.st.discs.Load() != d0 {
			c.Fail("a Prune with nothing to reclaim discarded %d nodes", b.st.discs.Load()-d0)
		}
		b.st.prot = nil
		switch c.rng.IntN(4) {
		case 0:
			b = b.reopen(b.st, l, o.cache)
			b.lenient = true
			c.Count("trees reopened", 1)
		case 1: // prune without flush: legal, the tree lives on in memory and storage
			for n := c.rng.IntN(20); n > 0; n-- {
				b.RandomUpdate(x)
			}
			b.Prune()
		}
	}
	if c.rng.IntN(2) == 0 {
		for n := c.rng.IntN(30); n > 0; n-- {
			b.RandomUpdate(x)
		}
		if c.rng.IntN(2) == 0 {
			b.Flush(c.rng.IntN(2) == 0)
		}
		if c.rng.IntN(2) == 0 {
			off := failDisc()
			for k := 0; k < 3; k++ {
				if failed, _ := try(b.Discard); !failed {
					off()
					goto done
				}
			}
			off()
			b.st.fired.Store(0)
		}
		b.Discard()
	done:
		if live := b.st.liveSet(); len(live) != 0 {
			c.Fail("after Discard %d nodes of the tree are still in storage", len(live))
		}
		c.Count("trees discarded", 1)
		c.Eval(mix(c.h, 4), true)
	}
}

// ---- C16 -----------------------------------------------------------------------------------

func touchRun(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8, 16}[i%5]
	o.cache = randCache(c)
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else if i%3 == 0 {
		b = handMade(c, o, o.cache, 150)
	} else {
		b = newBT(c, o)
		x := newMix(c, o.kk, 300)
		for n := c.rng.IntN(2 * x.U); n > 0; n-- {
			b.RandomUpdate(x)
		}
	}
	if i%29 == 0 {
		for len(b.mod.r) > 0 {
			b.DelIdx(0)
		}
	}
	x := newMix(c, o.kk, 300)
	for g := 0; g < c.gens(4); g++ {
		a := b.Flush(c.rng.IntN(2) == 0)
		if b.cache != nil && c.rng.IntN(2) == 0 {
			b.cache.UpdateLimits(uint64(c.rng.IntN(5)), uint64(c.rng.IntN(9)))
		}
		ia := b.mustImage(a)
		pre := c.rng.IntN(2) == 0 // modifications that are not flushed yet
		if pre {
			for k := 1 + c.rng.IntN(8); k > 0; k-- {
				b.RandomUpdate(x)
			}
			c.Count("touches with unflushed modifications", 1)
		}
		n := len(b.mod.r)
		what := ""
		p0 := b.st.puts.Load()
		var visited []int
		puts := int64(0)
		if c.rng.IntN(2) == 0 || n == 0 {
			b.Touch()
			what = "Touch"
			c.Count("touches", 1)
		} else {
			what = "a TouchItem cycle"
			var ends []int
			e := 0
			for _, lf := range ia.leaves {
				e += len(lf.keys)
				ends = append(ends, e)
			}
			end := func(i int) int {
				for _, e := range ends {
					if i < e {
						return e
					}
				}
				return 0
			}
			// arbitrary starting points first, on half of the cases
			at, calls := 0, 0
			for {
				nx := b.TouchItem(at)
				calls++
				if at >= n {
					if nx != 0 {
						c.Fail("TouchItem(%d) beyond the last of %d items returned %d, not 0", at, n, nx)
					}
					break
				}
				visited = append(visited, nx)
				if want := end(at); !pre && nx != want && !(want == n && nx == 0) {
					c.Fail("TouchItem(%d) returned %d; the first item after its leaf is %d (of %d)", at, nx, want, n)
				}
				if nx == 0 {
					break
				}
				if calls > len(ends)+1 && (!pre || calls > n+1) {
					c.Fail("a TouchItem cycle over %d items made more than %d calls", n, calls-1)
				}
				at = nx
				if c.rng.IntN(6) == 0 {
					b.RandomRead(x)
				}
				if c.rng.IntN(25) == 0 {
					puts = -1 << 40
					b.Flush(c.rng.IntN(2) == 0)
				}
			}
			c.Count("touch cycles", 1)
		}
		if c.rng.IntN(3) == 0 {
			b.Purge(false)
		}
		fl := b.Flush(c.rng.IntN(2) == 0)
		ib := b.mustImage(fl)
		for l := range ib.nodes {
			if ia.nodes[l] != nil {
				c.Fail("after %s and Flush node %v of the earlier image is still referenced (%d nodes)", what, l, len(ib.nodes))
			}
		}
		if pre && visited != nil {
			e := 0
			for k, lf := range ib.leaves {
				e += len(lf.keys)
				if last := k == len(ib.leaves)-1; k >= len(visited) || visited[k] != e && !(last && visited[k] == 0) {
					c.Fail("a TouchItem cycle returned %v; the leaves it visited end at %d (leaf %d of %d)", visited, e, k, len(ib.leaves))
				}
			}
		}
		puts += b.st.puts.Load() - p0
		if puts >= 0 && puts != int64(len(ib.nodes)) {
			c.Fail("%s and Flush wrote %d nodes; the tree has %d", what, puts, len(ib.nodes))
		}
		if m := ib.sameAs(b.mod, b.vk); m != "" {
			c.Fail("after %s and Flush the image holds %s", what, m)
		}
		b.All(false)
		c.Eval(mix(c.h, uint64(len(ib.nodes))), n > 0)

		// arbitrary starting points
		if n > 0 {
			e := 0
			for _, lf := range ib.leaves {
				s := e
				e += len(lf.keys)
				at := s + c.rng.IntN(e-s)
				if nx := b.TouchItem(at); nx != e && !(e == n && nx == 0) {
					c.Fail("TouchItem(%d) returned %d; the first item after its leaf is %d (of %d)", at, nx, e, n)
				}
			}
			for _, at := range []int{n, n + 1, 1 << 40, -1} {
				if nx := b.TouchItem(at); nx != 0 {
					c.Fail("TouchItem(%d) with %d items returned %d", at, n, nx)
				}
			}
		} else if nx := b.TouchItem(c.rng.IntN(3)); nx != 0 {
			c.Fail("TouchItem on an empty tree returned %d", nx)
		}
		b.All(false)

		// a cycle with updates in between ends, whatever comes and goes
		at, calls, ins := 0, 0, 0
		for {
			at = b.TouchItem(at)
			calls++
			if at == 0 {
				break
			}
			if at > len(b.mod.r) {
				c.Fail("TouchItem returned index %d with %d items", at, len(b.mod.r))
			}
			for k := c.rng.IntN(6); k > 0; k-- {
				before := len(b.mod.r)
				if c.rng.IntN(2) == 0 {
					b.RandomUpdate(x)
				} else {
					b.DelIdx(someIndex(c, len(b.mod.r)))
				}
				if len(b.mod.r) > before {
					ins++
				}
			}
			if calls > n+ins+2 {
				c.Fail("a TouchItem cycle did not end after %d calls (%d items at its start, %d inserted since)", calls, n, ins)
			}
		}
		c.Count("touch cycles with updates", 1)
		b.All(false)
	}
}

// ---- C18 -----------------------------------------------------------------------------------

func (b *BT) location() loc {
	n, o, l := b.t.FetchLocation()
	return loc{n, o, l}
}

func reportsRun(c *Ctx, i int) {
	o := randBTOpt(c)
	o.policy = i % nPolicies
	o.cache = randCache(c)
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else if i%3 == 0 {
		b = handMade(c, o, o.cache, 200)
	} else {
		b = newBT(c, o)
		if l := b.location(); l != (loc{}) {
			c.Fail("a new tree reports location %v before any Flush", l)
		}
	}
	b.lenient = true
	x := newMix(c, o.kk, 400)
	var given, were []sortedmap.LayoutReport // reports made, and what they said then
	for g := 0; g < 6; g++ {
		changed := false
		for n := c.rng.IntN(x.U + 2); n > 0; n-- {
			switch c.rng.IntN(3) {
			case 0:
				changed = b.Put(x.rank(c)) || changed
			case 1:
				changed = b.Del(b.presentOr(x)) || changed
			case 2:
				changed = b.Patch(b.presentOr(x)) || changed
			}
		}
		d, err := b.t.FetchDimensionsReport()
		b.noErr("FetchDimensionsReport", err)
		if changed {
			if l := b.location(); l != (loc{}) {
				c.Fail("FetchLocation returned %v although the tree was modified since its last Flush", l)
			}
		}
		if c.rng.IntN(3) == 0 {
			_, err := b.t.FetchLayoutReport()
			b.noErr("FetchLayoutReport", err)
		}
		l := b.Flush(c.rng.IntN(2) == 0)
		im := b.image(l)
		if d.MaxKeysPerNode != b.max || d.MinKeysPerNode != b.max/2 {
			c.Fail("dimensions report keys %d..%d per node, configured %d..%d", d.MinKeysPerNode, d.MaxKeysPerNode, b.max/2, b.max)
		}
		if d.Items != uint64(len(im.ranks)) {
			c.Fail("dimensions report %d items, the tree holds %d", d.Items, len(im.ranks))
		}
		if d.Height != uint64(im.height) {
			c.Fail("dimensions report height %d, the tree has height %d", d.Height, im.height)
		}
		for k := 0; k < 3; k++ {
			p0 := b.st.puts.Load()
			if g := b.location(); g != l {
				c.Fail("FetchLocation returned %v, Flush had returned %v", g, l)
			}
			want := map[uint64]uint64{}
			for nl := range im.nodes {
				want[nl.N] += nl.L
			}
			rep, err := b.t.FetchLayoutReport()
			b.noErr("FetchLayoutReport", err)
			given, were = append(given, rep), append(were, maps.Clone(rep))
			for n, v := range want {
				if rep[n] != v {
					c.Fail("layout report gives %d bytes for object %d, the tree has %d there", rep[n], n, v)
				}
			}
			for n, v := range rep {
				if v != 0 && want[n] == 0 {
					c.Fail("layout report gives %d bytes for object %d, where the tree has none", v, n)
				}
			}
			d2, err := b.t.FetchDimensionsReport()
			b.noErr("FetchDimensionsReport", err)
			if d2 != d {
				c.Fail("dimensions changed from %+v to %+v without an update", d, d2)
			}
			if l2 := b.Flush(c.rng.IntN(2) == 0); l2 != l {
				c.Fail("after reports Flush moved the unmodified tree from %v to %v", l, l2)
			}
			if b.st.puts.Load() != p0 {
				c.Fail("producing reports caused %d nodes to be written", b.st.puts.Load()-p0)
			}
			for n := c.rng.IntN(6); n > 0; n-- {
				b.RandomRead(x)
			}
			if c.rng.IntN(2) == 0 {
				b.Purge(true)
			}
			c.Count("reports compared", 1)
			c.Eval(mix(c.h, uint64(k)), len(im.nodes) > 1)
		}
		for k := range given {
			if !maps.Equal(given[k], were[k]) {
				c.FailX(fmt.Sprintf("was %v\nis  %v", were[k], given[k]), "a layout report given out earlier has changed")
			}
		}
		switch c.rng.IntN(5) {
		case 0:
			b.Touch()
			if g := b.location(); g != (loc{}) {
				c.Fail("FetchLocation returned %v after Touch", g)
			}
		case 1:
			b = b.reopen(b.st, l, randCache(c))
			b.lenient = true
			if g := b.location(); g != l {
				c.Fail("FetchLocation returned %v on a tree opened at %v", g, l)
			}
		}
	}
}

// concurrentLocation: every location seen by an observer is one a Flush returned, or zero.
func concurrentLocation(c *Ctx, i int) {
	o := BTOpt{kk: kkU64, vk: vkU64, max: 4, policy: polRandom}
	b := newBT(c, o)
	b.lenient = true
	flushed := map[loc]bool{{}: true}
	stop := make(chan struct{})
	var seen [2]map[loc]bool
	t := b.t
	obs := func(k int) func(*Ctx) {
		return func(c *Ctx) {
			m := map[loc]bool{}
			n := int64(0)
			for {
				select {
				case <-stop:
					seen[k] = m
					c.Count("locations observed concurrently", n)
					return
				default:
				}
				for j := 0; j < 50; j++ {
					a, b, l := t.FetchLocation()
					m[loc{a, b, l}] = true
					n++
				}
			}
		}
	}
	c.parallel(func(c *Ctx) {
		defer close(stop)
		b.c = c
		for k := 0; k < 1500; k++ {
			b.Put(k % 8)
			b.Del(k % 8)
			flushed[b.Flush(k%7 == 0)] = true
		}
	}, obs(0), obs(1))
	b.c = c
	for _, m := range seen {
		for l := range m {
			if !flushed[l] {
				c.Fail("FetchLocation returned %v while the tree was being flushed: no Flush returned that, it mixes two images", l)
			}
		}
	}
	c.Count("distinct locations observed", int64(len(seen[0])+len(seen[1])))
	c.Done()
}

// ---- C22 -----------------------------------------------------------------------------------

func formatCheck(b *BT, l loc) {
	c := b.c
	im := b.mustImage(l)
	if im.root.max != b.max {
		c.Fail("the root image records maximum %d, configured %d", im.root.max, b.max)
	}
	for _, n := range im.order {
		if e := encodeNode(n, curBO(), b.kk, b.vk); !bytes.Equal(e, n.raw) {
			c.FailX(fmt.Sprintf("library %x\nlayout  %x", n.raw, e), "the bytes of node %v differ from the documented layout", n.loc)
		}
		if n.root != (n.parent == nil) {
			c.Fail("node %v: root flag %v at depth %d", n.loc, n.root, n.depth)
		}
		if n.items != uint64(n.count) {
			c.Fail("node %v records %d items, %d are below it", n.loc, n.items, n.count)
		}
		for i, k := range n.sub {
			if n.kids[i].items != uint64(k.count) {
				c.Fail("node %v records %d items for child %d, which has %d", n.loc, n.kids[i].items, i, k.count)
			}
		}
	}
	if m := im.sameAs(b.mod, b.vk); m != "" {
		panic(&abandon{"contents differ (C06): " + m})
	}
	c.Count("images decoded independently", 1)
	c.Max("height", int64(im.height))
	c.Eval(mix(c.h, uint64(len(im.nodes))), len(im.nodes) > 1)
}

// ---- C23 -----------------------------------------------------------------------------------

func writeSets(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8, 16}[i%5]
	o.cache = randCache(c)
	if o.policy == polReuse {
		o.policy = polSegment
	}
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
	} else if i%3 == 0 {
		b = handMade(c, o, o.cache, 250)
	} else {
		b = newBT(c, o)
		x := newMix(c, o.kk, 300)
		for n := c.rng.IntN(2 * x.U); n > 0; n-- {
			b.RandomUpdate(x)
		}
	}
	b.lenient = true
	b.st.strictCalls = true
	b.st.watch = "p"
	x := newMix(c, o.kk, 300)
	a := b.Flush(c.rng.IntN(2) == 0)
	ia := b.image(a)
	// operations that write nothing
	idle := func(g int, modified bool) {
		p0 := b.st.puts.Load()
		for n := c.rng.IntN(8); n > 0; n-- {
			switch c.rng.IntN(10) {
			case 0:
				if len(b.mod.r) > 0 {
					b.Put(b.mod.r[c.rng.IntN(len(b.mod.r))])
				}
			case 1:
				r := x.rank(c)
				if _, p := b.mod.find(r); !p {
					b.Patch(r)
					b.Del(r)
				}
			case 2:
				n := len(b.mod.r)
				b.PatchIdx(n)
				b.PatchIdx(-1)
				b.DelIdx(n + 1)
				b.DelIdx(-1)
			case 3:
				b.Purge(!modified && c.rng.IntN(2) == 0)
			case 4:
				b.Validate()
			case 5:
				b.t.FetchLayoutReport()
				b.t.FetchDimensionsReport()
				b.t.FetchLocation()
			case 6:
				b.TouchItem(len(b.mod.r) + 1)
				if b.cache != nil {
					b.cache.UpdateLimits(uint64(c.rng.IntN(5)), uint64(c.rng.IntN(10)))
				}
			case 7:
				b.t.Dump()
				k := badKeyFor(b.kk, g)
				b.t.Put(k, b.vk.Val(1))
				b.t.PatchByKey(k, b.vk.Val(1))
				b.t.DeleteByKey(k)
			case 8:
				b.Prune()
				b.t.Len()
			default:
				b.RandomRead(x)
			}
		}
		if n := b.st.puts.Load() - p0; n != 0 {
			c.Fail("%d nodes were written outside Flush", n)
		}
		if m := b.st.Bad(); m != "" {
			c.Fail("%s", m)
		}
	}
	at := c.rng.IntN(len(b.mod.r) + 1)
	for g := 0; g < c.gens(25); g++ {
		p0 := b.st.puts.Load()
		if !c.brink || g%8 == 0 {
			idle(g, false)
		}
		l := b.Flush(c.rng.IntN(2) == 0)
		if w := b.st.puts.Load() - p0; w != 0 {
			c.Fail("Flush wrote %d nodes although nothing was modified since the last Flush", w)
		}
		if l != a {
			c.Fail("Flush of an unmodified tree moved it from %v to %v", a, l)
		}
		c.Count("flushes of unmodified trees", 1)
		c.Eval(mix(c.h, 1), true)

		// one effective change, or a batch
		batch := c.rng.IntN(3) == 0 && (!c.brink || g%8 == 0)
		touched := map[int]bool{}
		op := ""
		patches := false
		if batch && c.rng.IntN(2) == 0 {
			op = "patches"
			patches = true
			for n := 1 + c.rng.IntN(12); n > 0; n-- {
				if r := b.presentOr(x); b.Patch(r) {
					touched[r] = true
				}
				if c.rng.IntN(10) == 0 {
					b.Purge(false)
				}
			}
		} else if batch {
			op = "batch"
			for n := 1 + c.rng.IntN(20); n > 0; n-- {
				r := x.rank(c)
				if c.rng.IntN(2) == 0 {
					r = b.presentOr(x)
				}
				switch c.rng.IntN(3) {
				case 0:
					if b.Put(r) {
						touched[r] = true
					}
				case 1:
					if b.Del(r) {
						touched[r] = true
					}
				case 2:
					if b.Patch(r) {
						touched[r] = true
					}
				}
				if c.rng.IntN(10) == 0 {
					b.Purge(false)
				}
			}
		} else {
			r := b.presentOr(x)
			kinds := 4
			if c.brink {
				kinds = 2
				var del bool
				if r, del = nudgeAt(b, i%4 != 3, &at); del {
					kinds = 6
				}
			}
			if i, ok := b.mod.find(r); ok {
				k := c.rng.IntN(kinds)
				if k > 3 {
					k -= 2
				}
				switch k {
				case 0:
					op = "Patch"
					b.Patch(r)
				case 1:
					op = "Patch"
					b.PatchIdx(i)
				case 2:
					op = "Delete"
					b.Del(r)
				case 3:
					op = "Delete"
					b.DelIdx(i)
				}
			} else {
				op = "Put"
				b.Put(r)
			}
			touched[r] = true
		}
		if c.rng.IntN(3) == 0 {
			idle(g, true)
			c.Count("idle periods of modified trees", 1)
		}
		var writes []loc
		b.st.onPut = func(l loc) { writes = append(writes, l) }
		fl := b.Flush(c.rng.IntN(2) == 0)
		b.st.onPut = nil
		ib := b.image(fl)
		pos := map[loc]int{}
		for k, w := range writes {
			if _, dup := pos[w]; dup {
				c.Fail("node %v was written twice in one Flush", w)
			}
			pos[w] = k
			if ib.nodes[w] == nil {
				c.Fail("Flush (after %s) wrote node %v, which is not part of the new image", op, w)
			}
		}
		for nl, n := range ib.nodes {
			p, isNew := pos[nl]
			if !isNew {
				if ia.nodes[nl] == nil {
					c.Fail("node %v of the new image was neither written by this Flush nor part of the previous image", nl)
				}
				continue
			}
			for _, k := range n.kids {
				if q, ok := pos[k.loc]; ok && q > p {
					c.Fail("node %v was written before its child %v", nl, k.loc)
				}
			}
		}
		if len(touched) == 0 && len(writes) > 0 {
			c.Fail("Flush wrote %d nodes although no update took effect", len(writes))
		}
		if patches {
			// exactly the paths to the patched items
			want := map[*img]bool{}
			for r := range touched {
				for _, n := range ib.pathTo(r) {
					want[n] = true
				}
			}
			if len(want) != len(writes) {
				c.Fail("Flush after patches of %d keys wrote %d nodes; %d nodes lie on the paths to them", len(touched), len(writes), len(want))
			}
			c.Count("patch batches", 1)
		}
		// A batch may change a node and change it back; after a single operation:
		// leaves are written only if their contents are new or they hold (held) an updated key
		old := map[string]bool{}
		for _, lf := range ia.leaves {
			old[string(leafBody(lf))] = true
		}
		for k, lf := range ib.leaves {
			if _, w := pos[lf.loc]; batch || !w || !old[string(leafBody(lf))] || ib.height == 1 || ia.height == 1 {
				continue
			}
			lo, hi := -1, 1<<60
			if k > 0 {
				p := ib.leaves[k-1].keyRanks
				lo = p[len(p)-1]
			}
			if k+1 < len(ib.leaves) {
				hi = ib.leaves[k+1].keyRanks[0]
			}
			hit := false
			for r := range touched {
				hit = hit || r > lo && r < hi
			}
			if !hit {
				c.Fail("Flush (after %s of %d keys) wrote leaf %v, which had not changed", op, len(touched), lf.loc)
			}
		}
		// inner nodes: written only with a written child, or a change of their own keys or children
		oldInner := map[string]bool{}
		for _, n := range ia.order {
			if !n.leaf {
				oldInner[string(n.raw)] = true
			}
		}
		for nl, n := range ib.nodes {
			if _, w := pos[nl]; !batch && w && !n.leaf && oldInner[string(n.raw)] {
				c.Fail("Flush (after %s) wrote inner node %v although it had not changed", op, nl)
			}
		}
		if !batch {
			h := ib.height
			switch op {
			case "Patch":
				if len(writes) != h {
					c.Fail("a Flush after one Patch wrote %d nodes of a tree of height %d", len(writes), h)
				}
			case "Put":
				if len(writes) > 2*h {
					c.Fail("a Flush after one Put wrote %d nodes of a tree of height %d", len(writes), h)
				}
			case "Delete":
				if len(writes) > 2*max(h, ia.height) {
					c.Fail("a Flush after one Delete wrote %d nodes of a tree of height %d", len(writes), h)
				}
			}
			c.Count("single-change flushes", 1)
		}
		c.Count("flushes compared", 1)
		c.Count("nodes written", int64(len(writes)))
		c.Eval(mix(c.h, uint64(len(writes))), len(ib.nodes) > 1)
		a, ia = fl, ib
		if c.rng.IntN(5) == 0 {
			b.Prune()
		}
	}
}

func leafBody(n *img) []byte {
	var b []byte
	for i := range n.rawKeys {
		b = append(b, n.rawKeys[i]...)
		b = append(b, n.rawVals[i]...)
		b = append(b, '|')
	}
	return b
}
