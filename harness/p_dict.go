package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/NVIDIA/sortedmap"
)

type LL struct {
	MD
	t sortedmap.LLRBTree
}

func newLL(c *Ctx, kk *KeyKind, vk *ValKind) *LL {
	l := &LL{}
	l.c, l.kk, l.vk, l.mod, l.name = c, kk, vk, &Model{}, "in-memory map"
	var cb sortedmap.LLRBTreeCallbacks // needed for Dump only
	if c.rng.IntN(2) == 0 {
		cb = newStore(kk, vk, 0, 1)
	}
	l.t = sortedmap.NewLLRBTree(kk.Cmp, cb)
	l.m = l.t
	return l
}

func (l *LL) Reset() {
	l.c.Step("Reset", 0, 0)
	l.t.Reset()
	l.mod = &Model{}
	if l.after != nil {
		l.after()
	}
}

func memVals() []*ValKind { return []*ValKind{vkU64, vkBlob, vkStr, vkUnit, vkAny, vkMaybe} }

// perm returns the i-th permutation of n elements.
func perm(n, i int) []int {
	l := make([]int, n)
	for k := range l {
		l[k] = k
	}
	var out []int
	f := 1
	for k := 2; k < n; k++ {
		f *= k
	}
	for k := n - 1; k >= 0; k-- {
		j := i / f
		i %= f
		out = append(out, l[j])
		l = append(l[:j], l[j+1:]...)
		if k > 0 {
			f /= k
		}
	}
	return out
}

func fact(n int) int {
	f := 1
	for k := 2; k <= n; k++ {
		f *= k
	}
	return f
}

func init() {
	register(&Prop{
		ID:          "C01",
		Technique:   "runtime monitoring: differential oracle (reference dictionary) over exhaustive small permutations and random operation histories",
		Rule:        "one evaluation = one complete operation history checked step by step against the reference; distinct by history hash, non-trivial from 5 operations",
		Assumptions: []string{"the comparator supplied is a total order", "one goroutine per map (concurrency is C04/C05)"},
		Min:         map[string]int64{"operations": 100000},
		Phases: []Phase{
			{Name: "permutations", Items: scale(fact(7), fact(8)), Run: func(c *Ctx, i int) {
				n := 7
				if c.tier == "thorough" {
					n = 8
				}
				p := perm(n, i)
				for k := 0; k < n; k++ {
					l := newLL(c, kkIntSmall, vkU64)
					for _, x := range p {
						l.Put(49990 + 2*x)
					}
					l.Put(49990 + 2*p[k]) // refused
					if k%2 == 0 {
						l.Del(49990 + 2*k)
						l.Del(49990 + 2*k)
					} else {
						l.DelIdx(k)
					}
					l.All(true)
					// then drain in the order of the permutation itself
					for j, x := range p {
						if j%2 == 0 {
							l.Del(49990 + 2*x)
						} else if len(l.mod.r) > 0 {
							l.DelIdx(x % len(l.mod.r))
						}
						l.All(false)
					}
				}
				c.Done()
			}},
			{Name: "random", Items: scale(16000, 300000), Run: func(c *Ctx, i int) {
				kk := keyKinds()[i%len(keyKinds())]
				l := newLL(c, kk, memVals()[c.rng.IntN(6)])
				x := newMix(c, kk, 2000)
				n := 50 + c.rng.IntN(1500)
				for k := 0; k < n; k++ {
					l.RandomOp(x)
					if c.rng.IntN(400) == 0 {
						l.All(true)
					}
					if c.rng.IntN(700) == 0 {
						l.Reset()
						l.All(false)
					}
				}
				l.All(true)
				c.Max("items", int64(len(l.mod.r)))
				if i < 2 {
					c.Sample("random #%d: %s keys, %s values, %d operations, %d items left, pattern %d over %d ranks", i, kk.Name, l.vk.Name, n, len(l.mod.r), x.pattern, x.U)
				}
				c.Done()
			}},
			{Name: "grow-drain", Items: scale(1200, 25000), Run: func(c *Ctx, i int) {
				kk := keyKinds()[c.rng.IntN(len(keyKinds()))]
				l := newLL(c, kk, memVals()[c.rng.IntN(6)])
				n := 1 + c.rng.IntN(1500)
				if 2*n > kk.N {
					n = kk.N / 2
				}
				growDrain(c, &l.MD, n, i)
				c.Max("items", int64(n))
				c.Done()
			}},
		},
	})

	register(&Prop{
		ID:          "C02",
		Technique:   "runtime monitoring: differential oracle (reference dictionary) over exhaustive single updates of many tree shapes, and random histories",
		Rule:        "one evaluation = one complete operation history (or one shape with every single insert and delete applied to it), checked step by step; distinct by history hash, non-trivial from 5 operations",
		Assumptions: []string{"storage callbacks succeed (failures are C14)", "the comparator supplied is a total order"},
		Min:         map[string]int64{"operations": 100000, "max:height": 4},
		Phases: []Phase{
			{Name: "legal-maximum", Items: scale(1, 4), Run: func(c *Ctx, i int) {
				try := func(m uint64) (refused bool) {
					defer func() {
						if recover() != nil {
							refused = true
						}
					}()
					st := newStore(kkU64, vkU64, 0, 1)
					sortedmap.NewBPlusTree(m, kkU64.Cmp, st, nil)
					return
				}
				l := []uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 + 1, 1<<32 + 1, 1 << 32}
				for m := uint64(0); m < 300; m++ {
					l = append(l, m)
				}
				for k := 0; k < 200; k++ {
					l = append(l, c.rng.Uint64())
				}
				for _, m := range l {
					c.Step("NewBPlusTree", int(m), 0)
					if r, want := try(m), m < 4 || m%2 == 1; r != want {
						c.Fail("NewBPlusTree(maximum %d): refused=%v, expected %v", m, r, want)
					}
					c.Eval(m, true)
				}
			}},
			{Name: "shapes", Items: scale(400, 8000), Run: shapesRun},
			{Name: "random", Items: scale(2500, 50000), Run: func(c *Ctx, i int) {
				o := randBTOpt(c)
				if o.max < 1<<15 {
					o.max = legalMax[i%len(legalMax)]
				}
				if c.rng.IntN(3) == 0 {
					o.max = 4
				}
				if i%2 == 0 {
					o.cache = sortedmap.NewBPlusTreeCache(uint64(c.rng.IntN(20)), uint64(20+c.rng.IntN(200)))
				}
				b := newBT(c, o)
				x := newMix(c, o.kk, 2000)
				n := 50 + c.rng.IntN(1500)
				cold := i%3 == 0
				for k := 0; k < n; k++ {
					b.RandomOp(x)
					if c.rng.IntN(400) == 0 {
						b.All(true)
					}
					if cold && c.rng.IntN(60) == 0 {
						b.Flush(true)
					}
				}
				b.All(true)
				d, err := b.t.FetchDimensionsReport()
				if err == nil {
					c.Max("height", int64(d.Height))
				}
				c.Max("items", int64(len(b.mod.r)))
				if i < 2 {
					c.Sample("random #%d: %v, %d operations, %d items left, height %d", i, o, n, len(b.mod.r), d.Height)
				}
				c.Done()
			}},
			{Name: "grow-drain", Items: scale(120, 3000), Run: func(c *Ctx, i int) {
				o := randBTOpt(c)
				b := newBT(c, o)
				n := 1 + c.rng.IntN(1500)
				if 2*n > o.kk.N {
					n = o.kk.N / 2
				}
				growDrain(c, &b.MD, n, i)
				c.Done()
			}},
			{Name: "no-callbacks", Items: scale(900, 20000), Run: func(c *Ctx, i int) {
				// a tree that resides only in memory needs no callbacks
				o := randBTOpt(c)
				if i%2 == 0 {
					o.cache = sortedmap.NewBPlusTreeCache(uint64(c.rng.IntN(4)), uint64(c.rng.IntN(9)))
				}
				b := &BT{max: o.max, cache: o.cache}
				b.c, b.kk, b.vk, b.name, b.mod = c, o.kk, memVals()[c.rng.IntN(6)], "B+Tree without callbacks", &Model{}
				b.t = sortedmap.NewBPlusTree(o.max, o.kk.Cmp, nil, o.cache)
				b.m = b.t
				x := newMix(c, o.kk, 1500)
				for k := 50 + c.rng.IntN(1200); k > 0; k-- {
					b.RandomOp(x)
					switch c.rng.IntN(300) {
					case 0:
						b.All(true)
					case 1:
						b.Validate()
					case 2:
						b.Touch()
					case 3:
						b.TouchItem(c.rng.IntN(len(b.mod.r) + 2))
					case 4:
						b.Purge(false)
					}
				}
				b.All(true)
				c.Count("trees without callbacks", 1)
				c.Done()
			}},
			{Name: "wide", Items: scale(36, 600), Run: func(c *Ctx, i int) { wideRun(c, i, false) }},
			{Name: "wide-grown", Items: scale(4, 40), Run: func(c *Ctx, i int) {
				// a wide tree grown by insertion alone
				o := BTOpt{kk: kkWide, vk: vkU64, max: []uint64{128, 200, 256, 64}[i%4], policy: c.rng.IntN(nPolicies)}
				b := newBT(c, o)
				n := keyCap(o.max) * keyCap(o.max) * 5 / 8
				for k := 0; k < n; k++ {
					switch i / 4 % 2 {
					case 0:
						b.Put(2 * k)
					case 1:
						b.Put(2 * (n - 1 - k))
					}
					if k%1000 == 0 {
						b.GetIdx(c.rng.IntN(k + 1))
					}
				}
				b.All(true)
				for k := 0; k < 400; k++ {
					b.Put(2*c.rng.IntN(n) + 1)
					b.DelIdx(c.rng.IntN(n))
				}
				b.All(true)
				c.Done()
			}},
		},
	})

	register(&Prop{
		ID:          "C03",
		Technique:   "runtime monitoring: positional oracle over every rank and every index of many histories and residency states",
		Rule:        "one evaluation = one map state in which every key of the universe is bisected and every index in [-2, Len+1] is read (some patched or deleted); distinct by history hash",
		Assumptions: []string{"storage callbacks succeed"},
		Min:         map[string]int64{"positions checked": 100000},
		Phases: []Phase{
			{Name: "in-memory", Items: scale(900, 30000), Run: func(c *Ctx, i int) {
				kk := keyKinds()[i%len(keyKinds())]
				l := newLL(c, kk, memVals()[c.rng.IntN(6)])
				x := newMix(c, kk, 256)
				for k := 0; k < 4; k++ {
					for n := c.rng.IntN(2 * x.U); n > 0; n-- {
						l.RandomUpdate(x)
					}
					positions(c, &l.MD, x.U)
				}
			}},
			{Name: "B+Tree", Items: scale(900, 30000), Run: func(c *Ctx, i int) {
				o := randBTOpt(c)
				if c.rng.IntN(2) == 0 {
					o.cache = sortedmap.NewBPlusTreeCache(uint64(c.rng.IntN(8)), uint64(8+c.rng.IntN(30)))
				}
				b := newBT(c, o)
				x := newMix(c, o.kk, 256)
				for k := 0; k < 4; k++ {
					for n := c.rng.IntN(2 * x.U); n > 0; n-- {
						b.RandomUpdate(x)
					}
					switch c.rng.IntN(4) {
					case 0:
						b.Flush(true)
					case 1:
						b.Flush(false)
						b.Purge(true)
					case 2:
						b.Flush(false)
					}
					positions(c, &b.MD, x.U)
				}
			}},
			{Name: "hand-made images", Items: scale(200, 6000), Run: func(c *Ctx, i int) {
				b := handMade(c, randBTOpt(c), nil, 200)
				positions(c, &b.MD, min(b.kk.N, 420))
			}},
			{Name: "wide", Items: scale(36, 600), Run: func(c *Ctx, i int) { wideRun(c, i, true) }},
		},
	})

	register(&Prop{
		ID:          "C10",
		Technique:   "runtime monitoring: comparator probe that reconstructs the tree shape from the comparisons made, and storage-call counters per operation",
		Rule:        "one evaluation = one tree state whose shape was reconstructed, or one operation on a (partly) cold B+Tree whose fetches were counted; distinct by history hash",
		Assumptions: []string{"comparisons are observable through the comparator, fetches through GetNode"},
		Min:         map[string]int64{"shapes reconstructed": 2000, "cold operations measured": 10000},
		Phases: []Phase{
			{Name: "permutations", Items: scale(fact(7), fact(8)), Run: func(c *Ctx, i int) {
				n := 7
				if c.tier == "thorough" {
					n = 8
				}
				p := perm(n, i)
				pr := newProbe(c)
				for _, x := range p {
					pr.Put(49990 + x)
				}
				pr.shape()
				k := i % n
				if i%3 == 0 {
					pr.DelIdx(k)
				} else {
					pr.Del(49990 + k)
				}
				pr.shape()
				pr.DelIdx(c.rng.IntN(n - 1))
				pr.shape()
				c.Done()
			}},
			{Name: "in-memory", Items: scale(1500, 30000), Run: func(c *Ctx, i int) {
				pr := newProbe(c)
				x := newMix(c, kkIntSmall, 600)
				for k := 0; k < 12; k++ {
					for n := c.rng.IntN(2 * x.U); n > 0; n-- {
						pr.calls = 0
						pr.RandomUpdate(x)
						if lim := int64(8*log2(len(pr.mod.r)+2) + 16); pr.calls > lim {
							c.Fail("an update of a map of %d items made %d comparisons (more than %d)", len(pr.mod.r), pr.calls, lim)
						}
					}
					pr.shape()
				}
				c.Done()
			}},
			{Name: "fetches", Items: scale(1500, 30000), Run: fetchCost},
			{Name: "resident work", Items: scale(96, 2000), Run: residentWork},
		},
	})

	register(&Prop{
		ID:          "C17",
		Technique:   "runtime monitoring: comparator results against an independent order over edge-case and random pairs and triples",
		Rule:        "one evaluation = one pair (both orders) or triple of keys given to one supplied comparator; distinct by comparator and key values",
		Assumptions: nil,
		Min:         map[string]int64{"pairs": 50000},
		Phases:      []Phase{{Name: "comparators", Items: scale(7*80, 7*2000), Run: comparators}},
	})

	register(&Prop{
		ID:          "C20",
		Technique:   "runtime monitoring: rejected keys injected into operation histories, contents compared with the reference before and after",
		Rule:        "one evaluation = one history in which every key operation is also called with rejected keys at many sizes; distinct by history hash",
		Assumptions: []string{"on an empty map a lookup or delete needs no comparison and may simply report absence; a Put may not be accepted"},
		Min:         map[string]int64{"rejected keys offered": 20000, "rejected keys offered to an empty map": 500},
		Phases: []Phase{
			{Name: "in-memory", Items: scale(3000, 50000), Run: func(c *Ctx, i int) {
				kk := rejecting(keyKinds()[i%len(keyKinds())])
				l := newLL(c, kk, memVals()[c.rng.IntN(6)])
				rejectRun(c, &l.MD, nil, i)
			}},
			{Name: "B+Tree", Items: scale(3000, 50000), Run: func(c *Ctx, i int) {
				o := randBTOpt(c)
				o.kk = rejecting(keyKinds()[i%len(keyKinds())])
				if c.rng.IntN(2) == 0 {
					o.cache = sortedmap.NewBPlusTreeCache(uint64(c.rng.IntN(8)), uint64(8+c.rng.IntN(30)))
				}
				b := newBT(c, o)
				rejectRun(c, &b.MD, b, i)
			}},
			{Name: "late in-memory", Items: scale(5000, 80000), Run: func(c *Ctx, i int) {
				kk, a := rejectingLate(keyKinds()[i%len(keyKinds())])
				l := newLL(c, kk, memVals()[c.rng.IntN(6)])
				lateRun(c, &l.MD, nil, a)
			}},
			{Name: "late B+Tree", Items: scale(5000, 80000), Run: func(c *Ctx, i int) {
				o := randBTOpt(c)
				if i%2 == 0 {
					o.max = 4
				}
				kk, a := rejectingLate(keyKinds()[i%len(keyKinds())])
				o.kk = kk
				if c.rng.IntN(2) == 0 {
					o.cache = sortedmap.NewBPlusTreeCache(uint64(c.rng.IntN(8)), uint64(8+c.rng.IntN(30)))
				}
				b := newBT(c, o)
				lateRun(c, &b.MD, b, a)
			}},
		},
	})
}

func log2(n int) float64 { return math.Log2(float64(n)) }

// growDrain fills a map in some order and empties it in another, comparing all along.
func growDrain(c *Ctx, d *MD, n, pat int) {
	order := func(k int) []int {
		l := c.rng.Perm(n)
		switch k % 5 {
		case 0:
			for i := range l {
				l[i] = i
			}
		case 1:
			for i := range l {
				l[i] = n - 1 - i
			}
		case 2: // outside in
			for i := range l {
				if i%2 == 0 {
					l[i] = i / 2
				} else {
					l[i] = n - 1 - i/2
				}
			}
		case 3: // every other first
			j := 0
			for s := 0; s < 3; s++ {
				for i := s; i < n; i += 3 {
					l[j] = i
					j++
				}
			}
		}
		return l
	}
	every := 1 + n/6
	for k, r := range order(pat) {
		d.Put(2*r + 1)
		if k%every == every-1 {
			d.All(k%2 == 0)
		}
	}
	d.All(true)
	for k, r := range order(pat / 5) {
		if c.rng.IntN(3) == 0 {
			i, _ := d.mod.find(2*r + 1)
			d.DelIdx(i)
		} else {
			d.Del(2*r + 1)
		}
		if k%every == every-1 || len(d.mod.r) < 6 {
			d.All(k%2 == 0)
		}
		if k%97 == 0 {
			d.Del(2 * r)
			d.Put(2*r + 1)
			d.Del(2*r + 1)
		}
	}
	d.All(true)
	for _, r := range order(pat + 1)[:min(n, 30)] {
		d.Put(2*r + 1)
	}
	d.All(true)
}

// handMade opens a tree built by the harness's own writer, with chosen node fill.
func handMade(c *Ctx, o BTOpt, cache sortedmap.BPlusTreeCache, maxN int) *BT {
	return handMadeN(c, o, cache, c.rng.IntN(maxN+1), c.rng.IntN(4))
}

func handMadeN(c *Ctx, o BTOpt, cache sortedmap.BPlusTreeCache, n, style int) *BT {
	st := newStore(o.kk, o.vk, o.policy, c.rng.Uint64())
	if 2*n > o.kk.N {
		n = o.kk.N / 2
	}
	m := &Model{}
	ranks := []int{}
	for i := 0; i < n; i++ {
		ranks = append(ranks, 2*i+1)
		m.r = append(m.r, 2*i+1)
		m.v = append(m.v, i+1)
	}
	pick := func(lo, hi int) int {
		switch style {
		case 0:
			return lo
		case 1:
			return hi
		case 4:
			return min(lo+c.rng.IntN(2), hi)
		case 5:
			return max(hi-c.rng.IntN(2), lo)
		}
		return lo + c.rng.IntN(hi-lo+1)
	}
	root := buildImage(st, curBO(), o.max, ranks, func(i int) sortedmap.Value { return o.vk.Val(i + 1) }, pick)
	b := &BT{max: o.max, cache: cache, policy: o.policy, last: root, lastM: m}
	b.c, b.kk, b.vk, b.name, b.st, b.mod, b.nextID = c, o.kk, o.vk, "B+Tree", st, m.clone(), n+1
	c.Step("OldBPlusTree of a hand-made image", n, keyCap(o.max)*10+style)
	t, err := sortedmap.OldBPlusTree(root.N, root.O, root.L, o.kk.Cmp, st, cache)
	b.t, b.m = t, t
	b.noErr("OldBPlusTree", err)
	return b
}

// wideTree gives a tree whose root has many children (and, now and then, one with a huge leaf).
func wideTree(c *Ctx, i int, cache sortedmap.BPlusTreeCache) *BT {
	o := BTOpt{kk: kkWide, vk: []*ValKind{vkU64, vkUnit, vkMaybe}[i%3], policy: c.rng.IntN(nPolicies)}
	o.max = []uint64{128, 256, 512, 1024, 128, 256}[i%6]
	if c.tier == "thorough" && i%12 == 11 {
		o.max = 2048
	}
	if i%6 == 5 {
		o.max = 140_000 // one leaf, with more than 65536 items half of the time
		return handMadeN(c, o, cache, 30_000+c.rng.IntN(105_000), 2)
	}
	style := i / 6 % 3 // 0 minimal leaves, 1 full leaves, 2 random
	per := []int{keyCap(o.max) / 2, keyCap(o.max), keyCap(o.max) * 3 / 4}[style]
	kids := keyCap(o.max)/2 + 1 + c.rng.IntN(keyCap(o.max)/4)
	if c.rng.IntN(3) == 0 {
		kids = keyCap(o.max) - c.rng.IntN(4)
	}
	for kids*per > 420_000 {
		kids /= 2
	}
	return handMadeN(c, o, cache, kids*per, style)
}

// wideRun updates around random places of a wide tree; with pos, positions are read and bisected throughout.
func wideRun(c *Ctx, i int, pos bool) { wideRunOn(c, i, pos, wideTree) }

func wideRunOn(c *Ctx, i int, pos bool, mk func(c *Ctx, i int, cache sortedmap.BPlusTreeCache) *BT) {
	var cache sortedmap.BPlusTreeCache
	if i%2 == 0 {
		cache = sortedmap.NewBPlusTreeCache(uint64(c.rng.IntN(500)), uint64(500+c.rng.IntN(1000)))
	}
	b := mk(c, i, cache)
	n := len(b.mod.r)
	look := func(k int) {
		if n := len(b.mod.r); n > 0 {
			k = min(max(k, 0), n-1)
			r := b.mod.r[k]
			b.GetIdx(k)
			b.Get(r)
			b.BisL(r)
			b.BisR(r)
			b.BisL(r - 1)
			b.BisR(r + 1)
			b.Get(r + 1)
		}
	}
	step := max(1, n/1500)
	if !pos {
		step = max(1, n/300)
	}
	sweep := func() {
		b.Len()
		for k := c.rng.IntN(step); k < len(b.mod.r); k += step {
			look(k)
		}
		look(0)
		look(len(b.mod.r) - 1)
		for _, k := range []int{-1, len(b.mod.r), math.MinInt, math.MaxInt} {
			b.GetIdx(k)
		}
		c.Count("positions checked", int64(len(b.mod.r)/step))
	}
	sweep()
	for round := 0; round < 3; round++ {
		// runs of deletions and insertions at a few places, to split, borrow and merge there
		for p := 0; p < 5; p++ {
			at := c.rng.IntN(len(b.mod.r) + 1)
			if p == 0 {
				at = 0
			}
			if p == 1 {
				at = len(b.mod.r)
			}
			ins := c.rng.IntN(2) == 0
			for k := 0; k < min(max(keyCap(b.max)*5/4, 60), 400) && len(b.mod.r) > 1; k++ {
				j := min(at, len(b.mod.r)-1)
				switch {
				case ins:
					r := b.mod.r[j]
					if c.rng.IntN(2) == 0 {
						r -= 2 * k
					} else {
						r += 2 * k
					}
					r = max(0, min(b.kk.N-1, r)) &^ 1
					b.Put(r)
				case k%2 == 0:
					b.DelIdx(j)
				default:
					b.Del(b.mod.r[j])
				}
				if k%16 == 0 {
					look(j - 1)
					look(j + keyCap(b.max)/2)
					look(c.rng.IntN(len(b.mod.r)))
				}
				if k%50 == 7 {
					b.PatchIdx(c.rng.IntN(len(b.mod.r)))
				}
			}
		}
		sweep()
		if round == 0 && c.rng.IntN(2) == 0 {
			b.Flush(true)
		}
	}
	c.Max("items", int64(n))
	c.Max("keys per node", int64(b.max))
	if i < 2 {
		c.Sample("wide #%d: maximum %d keys per node, %d items, %s values", i, b.max, n, b.vk.Name)
	}
	c.Done()
}

// shapesRun takes one tree shape and applies every single delete (by key and by index) and every single insert to it.
func shapesRun(c *Ctx, i int) {
	o := BTOpt{kk: anyKeys(c), vk: anyVals(c), max: []uint64{4, 4, 6, 4, 8}[i%5], policy: c.rng.IntN(nPolicies)}
	var cache sortedmap.BPlusTreeCache
	if i%2 == 0 {
		cache = sortedmap.NewBPlusTreeCache(1000, 2000)
	}
	b := handMade(c, o, cache, 60)
	root, st := b.last, b.st
	n := len(b.mod.r)
	base := b.mod.clone()
	for k := 0; k <= n; k++ {
		for op := 0; op < 3; op++ {
			if k == n && op < 2 {
				continue
			}
			t, err := sortedmap.OldBPlusTree(root.N, root.O, root.L, o.kk.Cmp, st, cache)
			e := &BT{max: o.max, t: t, last: root}
			e.MD = b.MD
			e.m, e.mod = t, base.clone()
			e.noErr("OldBPlusTree", err)
			warm := c.rng.IntN(2) == 0
			if warm {
				e.All(false)
			}
			switch op {
			case 0:
				e.Del(base.r[k])
			case 1:
				e.DelIdx(k)
			case 2:
				e.Put(2 * k)
			}
			e.All(c.rng.IntN(4) == 0)
			// a second update at or beside the first
			switch c.rng.IntN(3) {
			case 0:
				e.DelIdx(min(k, len(e.mod.r)-1))
			case 1:
				e.Put(2 * k)
			case 2:
				e.DelIdx(max(0, k-1))
			}
			e.All(false)
			c.Eval(mix(c.h, uint64(k*3+op)), true)
		}
	}
	d, err := b.t.FetchDimensionsReport()
	if err == nil {
		c.Max("height", int64(d.Height))
	}
	c.Max("items", int64(n))
}

// positions checks every index and every rank, then some indexed updates.
func positions(c *Ctx, d *MD, U int) {
	n := len(d.mod.r)
	for i := -2; i <= n+1; i++ {
		d.GetIdx(i)
	}
	for r := 0; r < U; r++ {
		d.BisL(r)
		d.BisR(r)
	}
	for _, i := range []int{math.MinInt, math.MaxInt, -1, n, n + 1, 1 << 32, -(1 << 32)} {
		d.PatchIdx(i)
		d.DelIdx(i)
		d.GetIdx(i)
	}
	c.Count("positions checked", int64(n+2*U))
	for k := 0; k < 6; k++ {
		d.PatchIdx(someIndex(c, n))
	}
	for i := 0; i < n; i++ {
		d.GetIdx(i)
	}
	for k := 0; k < 5 && len(d.mod.r) > 0; k++ {
		i := c.rng.IntN(len(d.mod.r))
		d.DelIdx(i)
		d.GetIdx(i)
		d.GetIdx(i - 1)
	}
	for i := -1; i <= len(d.mod.r); i++ {
		d.GetIdx(i)
	}
	c.Done()
}

// ---- C10 ---------------------------------------------------------------------------------

// probe is an in-memory map whose comparator records the comparisons.
type probe struct {
	*LL
	calls int64
	rec   bool
	pairs [][2]int
}

func newProbe(c *Ctx) *probe {
	p := &probe{}
	kk := *kkIntSmall
	kk.Cmp = func(a, b sortedmap.Key) (int, error) {
		p.calls++
		x, y := a.(int), b.(int)
		if p.rec {
			p.pairs = append(p.pairs, [2]int{x + 50000, y + 50000})
		}
		return ord(x, y), nil
	}
	p.LL = newLL(c, &kk, vkU64)
	p.LL.lenient = true
	return p
}

type shapeNode struct {
	l, r *shapeNode
	key  int
}

// shape reconstructs the tree from the comparisons each lookup makes and checks that some
// red/black colouring makes it a left-leaning red-black tree.
func (p *probe) shape() {
	c := p.c
	n := len(p.mod.r)
	limit := 2 * log2(n+1)
	nodes := map[int]*shapeNode{}
	var root *shapeNode
	maxPath := 0
	for _, r := range p.mod.r {
		p.rec, p.pairs = true, p.pairs[:0]
		_, ok, err := p.t.GetByKey(p.kk.Key(r))
		p.rec = false
		if err != nil || !ok {
			panic(&abandon{"lookup of a present key failed"})
		}
		c.Step("probe", r, len(p.pairs))
		if float64(len(p.pairs)) > limit+1e-9 {
			c.Fail("a lookup among %d items made %d comparisons, more than 2*log2(n+1) = %.2f", n, len(p.pairs), limit)
		}
		maxPath = max(maxPath, len(p.pairs))
		var prev *shapeNode
		for _, pr := range p.pairs {
			o := pr[1]
			if pr[0] != r {
				o = pr[0]
			}
			nd := nodes[o]
			if nd == nil {
				nd = &shapeNode{key: o}
				nodes[o] = nd
			}
			if prev == nd {
				continue
			}
			if prev == nil {
				if root == nil {
					root = nd
				} else if root != nd {
					panic(&abandon{"lookups do not start at one root"})
				}
			} else if r < prev.key {
				if prev.l != nil && prev.l != nd {
					panic(&abandon{"the comparisons do not trace one tree"})
				}
				prev.l = nd
			} else {
				if prev.r != nil && prev.r != nd {
					panic(&abandon{"the comparisons do not trace one tree"})
				}
				prev.r = nd
			}
			prev = nd
		}
	}
	// absent keys: the same bound
	for k := 0; k < min(n, 20); k++ {
		r := c.rng.IntN(100000)
		p.calls = 0
		p.t.GetByKey(p.kk.Key(r))
		if float64(p.calls) > limit+1e-9 {
			c.Fail("a lookup of an absent key among %d items made %d comparisons, more than %.2f", n, p.calls, limit)
		}
		p.calls = 0
		p.t.BisectLeft(p.kk.Key(r))
		p.t.BisectRight(p.kk.Key(r))
		if float64(p.calls) > 2*limit+1e-9 {
			c.Fail("two bisections among %d items made %d comparisons, more than %.2f", n, p.calls, 2*limit)
		}
	}
	if root != nil {
		b, _ := heights(root)
		if len(b) == 0 {
			c.Fail("the map of %d items does not have the shape of a left-leaning red-black tree (longest path %d): %s", n, maxPath, describe(root, 0))
		}
	}
	c.Count("shapes reconstructed", 1)
	c.Max("path length", int64(maxPath))
	c.Eval(mix(shapeHash(root), uint64(n)), n >= 5)
}

func shapeHash(n *shapeNode) uint64 {
	if n == nil {
		return 3
	}
	return mix(mix(shapeHash(n.l), 11), shapeHash(n.r))
}

func describe(n *shapeNode, d int) string {
	if n == nil {
		return "."
	}
	if d > 6 {
		return "…"
	}
	return fmt.Sprintf("(%s %d %s)", describe(n.l, d+1), n.key, describe(n.r, d+1))
}

// heights returns the black heights possible for the subtree with a black, and with a red, top node.
func heights(n *shapeNode) (black, red map[int]bool) {
	if n == nil {
		return map[int]bool{0: true}, nil
	}
	lb, lr := heights(n.l)
	rb, _ := heights(n.r)
	black, red = map[int]bool{}, map[int]bool{}
	for h := range rb {
		if lb[h] {
			black[h+1] = true
			red[h] = true
		}
		if lr[h] {
			black[h+1] = true
		}
	}
	return
}

// fetchCost counts fetches per operation on B+Trees in cold, warm and mixed residency.
func fetchCost(c *Ctx, i int) {
	o := randBTOpt(c)
	o.max = []uint64{4, 4, 6, 8, 16, 64}[i%6]
	var b *BT
	if c.lim > 0 {
		b = scaledTree(c, i, &o)
		b.lenient = true
	} else if i%2 == 0 {
		b = newBT(c, o)
		b.lenient = true
		x := newMix(c, o.kk, 1500)
		x.target = x.U
		for n := c.rng.IntN(1500); n > 0; n-- {
			b.RandomUpdate(x)
		}
		b.Flush(true)
	} else {
		b = handMade(c, o, nil, 700)
		b.lenient = true
	}
	x := &Mix{U: min(b.kk.N, 2*len(b.mod.r)+20)}
	b.Flush(true)
	for k := 0; k < 80; k++ {
		cold := c.rng.IntN(3) != 0
		l := b.Flush(cold)
		im := b.image(l)
		h := int64(im.height)
		g0 := b.st.gets.Load()
		b.RandomRead(x)
		read := b.st.gets.Load() - g0
		if read > h {
			c.Fail("a lookup fetched %d nodes from a tree of height %d (cold=%v)", read, h, cold)
		}
		c.Count("cold operations measured", 1)
		// the same path again: all resident
		var r int
		if n := len(b.mod.r); n > 0 {
			r = b.mod.r[c.rng.IntN(n)]
		}
		b.Get(r)
		g0 = b.st.gets.Load()
		b.Get(r)
		b.BisL(r)
		b.BisR(r)
		if ix, ok := b.mod.find(r); ok {
			b.GetIdx(ix)
		}
		b.Patch(r)
		if g := b.st.gets.Load() - g0; g != 0 {
			c.Fail("operations on a resident path fetched %d nodes", g)
		}
		b.Flush(cold)
		g0 = b.st.gets.Load()
		d0 := b.st.puts.Load()
		b.RandomUpdate(x)
		upd := b.st.gets.Load() - g0
		if upd > h+2*(h-1) {
			c.Fail("an update fetched %d nodes from a tree of height %d: more than one node and two siblings per level", upd, h)
		}
		if b.st.puts.Load() != d0 {
			c.Fail("an update wrote nodes")
		}
		c.Count("cold operations measured", 1)
		c.Max("height", h)
		c.Eval(mix(c.h, uint64(k)), true)
	}
}

// ---- C17 ---------------------------------------------------------------------------------

func comparators(c *Ctx, i int) {
	type kind struct {
		name string
		cmp  sortedmap.Compare
		gen  func() sortedmap.Key
		ref  func(a, b sortedmap.Key) int
		edge []sortedmap.Key
	}
	r := c.rng
	bits := func() uint64 { return r.Uint64() >> uint(r.IntN(64)) }
	bstr := func() []byte {
		n := r.IntN(5)
		if r.IntN(10) == 0 {
			n = r.IntN(300)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = []byte{0, 1, 'a', 'b', 0x7f, 0x80, 0xff}[r.IntN(7)]
		}
		return b
	}
	bcmp := func(a, b []byte) int {
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i] != b[i] {
				return ord(int(a[i]), int(b[i]))
			}
		}
		return ord(len(a), len(b))
	}
	zones := []*time.Location{time.UTC, time.FixedZone("a", 14*3600), time.FixedZone("b", -12*3600), time.FixedZone("c", 1)}
	kinds := []kind{
		{"CompareInt", sortedmap.CompareInt, func() sortedmap.Key {
			v := int(bits())
			if r.IntN(2) == 0 {
				v = -v
			}
			return v
		}, func(a, b sortedmap.Key) int { return ord(a.(int), b.(int)) }, []sortedmap.Key{math.MinInt, math.MaxInt, math.MinInt + 1, math.MaxInt - 1, 0, 1, -1, math.MinInt / 2, math.MaxInt / 2, math.MinInt32, math.MaxInt32, 1 << 32, -(1 << 32)}},
		{"CompareUint16", sortedmap.CompareUint16, func() sortedmap.Key { return uint16(bits()) }, func(a, b sortedmap.Key) int { return ord(a.(uint16), b.(uint16)) }, []sortedmap.Key{uint16(0), uint16(1), uint16(0x7fff), uint16(0x8000), uint16(0xfffe), uint16(0xffff)}},
		{"CompareUint32", sortedmap.CompareUint32, func() sortedmap.Key { return uint32(bits()) }, func(a, b sortedmap.Key) int { return ord(a.(uint32), b.(uint32)) }, []sortedmap.Key{uint32(0), uint32(1), uint32(1 << 31), uint32(1<<31 - 1), uint32(math.MaxUint32), uint32(1 << 16)}},
		{"CompareUint64", sortedmap.CompareUint64, func() sortedmap.Key { return bits() }, func(a, b sortedmap.Key) int { return ord(a.(uint64), b.(uint64)) }, []sortedmap.Key{uint64(0), uint64(1), uint64(1 << 63), uint64(1<<63 - 1), uint64(math.MaxUint64), uint64(1 << 32), uint64(1<<53 + 1), uint64(1 << 53)}},
		{"CompareString", sortedmap.CompareString, func() sortedmap.Key { return string(bstr()) }, func(a, b sortedmap.Key) int { return bcmp([]byte(a.(string)), []byte(b.(string))) }, []sortedmap.Key{"", "\x00", "a", "aa", "ab", "b", "\xff", "é", "日本", strings.Repeat("a", 1000), strings.Repeat("a", 1000) + "b", "A", "Z", "z"}},
		{"CompareByteSlice", sortedmap.CompareByteSlice, func() sortedmap.Key { return bstr() }, func(a, b sortedmap.Key) int { return bcmp(a.([]byte), b.([]byte)) }, []sortedmap.Key{[]byte(nil), []byte{}, []byte{0}, []byte{0, 0}, []byte{255}, []byte{254, 255}, []byte{128}, []byte{127}, bytes.Repeat([]byte{1}, 500), bytes.Repeat([]byte{1}, 501)}},
		{"CompareTime", sortedmap.CompareTime, func() sortedmap.Key {
			s := int64(bits() >> 2)
			if r.IntN(2) == 0 {
				s = int64(r.IntN(3))
			}
			return time.Unix(s%(1<<36), int64(r.IntN(3))).In(zones[r.IntN(len(zones))])
		}, func(a, b sortedmap.Key) int {
			x, y := a.(time.Time), b.(time.Time)
			if x.Unix() != y.Unix() {
				return ord(int(x.Unix()), int(y.Unix()))
			}
			return ord(x.Nanosecond(), y.Nanosecond())
		}, []sortedmap.Key{time.Time{}, time.Unix(0, 0), time.Unix(0, 0).In(zones[1]), time.Unix(-1, 999999999), time.Unix(1<<35, 0), time.Unix(0, 1), time.Unix(-62135596801, 0), time.Unix(0, 0).In(zones[2])}},
	}
	k := kinds[i%len(kinds)]
	sgn := func(v int) int { return ord(v, 0) }
	cmp := func(a, b sortedmap.Key) int {
		v, err := k.cmp(a, b)
		if err != nil {
			c.Fail("%s(%.60v, %.60v) returned error %v", k.name, a, b, err)
		}
		return sgn(v)
	}
	pair := func(a, b sortedmap.Key) {
		c.Step(k.name, 0, 0)
		want := k.ref(a, b)
		if got := cmp(a, b); got != want {
			c.Fail("%s(%.80v, %.80v) has sign %d, expected %d", k.name, a, b, got, want)
		}
		if got := cmp(b, a); got != -want {
			c.Fail("%s(%.80v, %.80v) has sign %d, expected %d", k.name, b, a, got, -want)
		}
		c.Count("pairs", 1)
		c.Eval(hashStr(fmt.Sprintf("%s %v %v", k.name, a, b)), true)
	}
	for _, a := range k.edge {
		for _, b := range k.edge {
			pair(a, b)
		}
		for n := 0; n < 20; n++ {
			pair(a, k.gen())
		}
	}
	for n := 0; n < 1500; n++ {
		a, b := k.gen(), k.gen()
		pair(a, b)
		pair(a, a)
		d := k.gen()
		if cmp(a, b) <= 0 && cmp(b, d) <= 0 && cmp(a, d) > 0 {
			c.Fail("%s is not transitive on %.60v, %.60v, %.60v", k.name, a, b, d)
		}
	}
	// other types are refused, on either side
	good := k.edge[0]
	bad := []any{nil, 1, int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), uintptr(1), 1.0, float32(1), true, "s", []byte("s"), [1]byte{}, []int{1}, time.Unix(0, 0), time.Second, (*int)(nil), struct{}{}, ckey{}, fmt.Errorf("e"), (*time.Time)(nil), []string{"x"}, 'r', complex(1, 2)}
	for _, b := range bad {
		if fmt.Sprintf("%T", b) == fmt.Sprintf("%T", good) {
			continue
		}
		for n, pr := range [][2]any{{good, b}, {b, good}, {b, b}} {
			c.Step(k.name+" bad", n, 0)
			if _, err := k.cmp(pr[0], pr[1]); err == nil {
				c.Fail("%s(%T, %T) returned no error", k.name, pr[0], pr[1])
			}
			c.Count("type mismatches", 1)
			c.Eval(hashStr(fmt.Sprintf("%s %T %d", k.name, b, n)), true)
		}
	}
}

// ---- C20 ---------------------------------------------------------------------------------

// poison is a key of the right type that the comparator of rejecting() refuses.
type poison struct{}

// refusal is what a comparator returns beside an error: anything.
func refusal(a, b sortedmap.Key) int {
	return (len(fmt.Sprint(a))+2*len(fmt.Sprint(b)))%3 - 1
}

// rejecting gives the kind a comparator that also refuses some keys of the right type.
func rejecting(kk *KeyKind) *KeyKind {
	k := *kk
	last := kk.N - 1
	lastKey := fmt.Sprint(kk.Key(last))
	base := kk.Cmp
	k.Cmp = func(a, b sortedmap.Key) (int, error) {
		if fmt.Sprint(a) == lastKey || fmt.Sprint(b) == lastKey {
			return refusal(a, b), fmt.Errorf("the last key of the universe is refused")
		}
		return base(a, b)
	}
	return &k
}

func rejectRun(c *Ctx, d *MD, b *BT, i int) {
	x := newMix(c, d.kk, 300)
	if x.U >= d.kk.N {
		x.U = d.kk.N - 1
	}
	offer := func() {
		k := badKeyFor(d.kk, c.rng.IntN(14))
		if c.rng.IntN(3) == 0 {
			k = d.kk.Key(d.kk.N - 1)
		}
		n := len(d.mod.r)
		g := func(op string, err error) {
			c.Step(op+" rejected", n, 0)
			if err == nil && (n > 0 || op == "Put") {
				c.Fail("%s: %s of a key the comparator rejects (%T) on a map of %d items returned no error", d.name, op, k, n)
			}
			c.Count("rejected keys offered", 1)
			if n == 0 {
				c.Count("rejected keys offered to an empty map", 1)
			}
		}
		ops := c.rng.Perm(6)
		for _, op := range ops {
			switch op {
			case 0:
				ok, err := d.m.Put(k, d.vk.Val(1))
				g("Put", err)
				_ = ok
			case 1:
				_, ok, err := d.m.GetByKey(k)
				g("GetByKey", err)
				if err == nil && ok {
					c.Fail("%s: GetByKey found a rejected key", d.name)
				}
			case 2:
				_, err := d.m.PatchByKey(k, d.vk.Val(1))
				g("PatchByKey", err)
			case 3:
				_, err := d.m.DeleteByKey(k)
				g("DeleteByKey", err)
			case 4:
				_, _, err := d.m.BisectLeft(k)
				g("BisectLeft", err)
			case 5:
				_, _, err := d.m.BisectRight(k)
				g("BisectRight", err)
			}
			if c.rng.IntN(3) == 0 {
				d.Len()
			}
		}
		d.All(n < 40)
	}
	offer()
	for k := 0; k < 12; k++ {
		for n := c.rng.IntN(30) + k*k/3; n > 0; n-- {
			d.RandomUpdate(x)
		}
		if b != nil && c.rng.IntN(2) == 0 {
			b.Flush(c.rng.IntN(2) == 0)
		}
		offer()
	}
	for len(d.mod.r) > 0 {
		d.DelIdx(c.rng.IntN(len(d.mod.r)))
		if len(d.mod.r) < 3 {
			offer()
		}
	}
	offer()
	d.Put(x.rank(c))
	d.All(true)
	if b != nil {
		l := b.Flush(true)
		r := b.reopen(b.st, l, nil)
		r.All(true)
	}
	c.Done()
}

// aversion is a key (by rank) that the comparator refuses to compare with the keys of ranks lo to hi:
// the other comparisons of an operation succeed, so it is rejected as late as possible.
type aversion struct {
	on        bool
	r, lo, hi int
	n         int
}

func rejectingLate(kk *KeyKind) (*KeyKind, *aversion) {
	k, a := *kk, &aversion{}
	base, rank := kk.Cmp, kk.Rank
	k.Cmp = func(x, y sortedmap.Key) (int, error) {
		if a.on {
			rx, ok1 := rank(x)
			ry, ok2 := rank(y)
			in := func(p, q int) bool { return p == a.r && q >= a.lo && q <= a.hi }
			if ok1 && ok2 && (in(rx, ry) || in(ry, rx)) {
				a.n++
				return a.n%3 - 1, fmt.Errorf("these keys cannot be compared")
			}
		}
		return base(x, y)
	}
	return &k, a
}

// lateRun offers keys that can be compared with all but the items next to them (or themselves).
func lateRun(c *Ctx, d *MD, b *BT, a *aversion) {
	x := newMix(c, d.kk, 300)
	offer := func() {
		n := len(d.mod.r)
		if n == 0 {
			return
		}
		r := c.rng.IntN(x.U)
		if c.rng.IntN(3) == 0 {
			r = d.mod.r[c.rng.IntN(n)]
		}
		i, present := d.mod.find(r)
		a.r, a.lo, a.hi = r, r, r
		if !present {
			// everything from the predecessor to the successor
			a.lo, a.hi = -1, d.kk.N
			if i > 0 {
				a.lo = d.mod.r[i-1]
			}
			if i < n {
				a.hi = d.mod.r[i]
			}
			if b == nil && i > 0 && i < n {
				switch c.rng.IntN(3) {
				case 0:
					a.lo = r
				case 1:
					a.hi = r
				}
			}
		}
		k := d.kk.Key(r)
		for _, op := range c.rng.Perm(6)[:1+c.rng.IntN(3)] {
			name := []string{"Put", "GetByKey", "PatchByKey", "DeleteByKey", "BisectLeft", "BisectRight"}[op]
			c.Step(name+" rejected late", r, n)
			a.on, a.n = true, 0
			var err error
			switch op {
			case 0:
				_, err = d.m.Put(k, d.vk.Val(1))
			case 1:
				_, _, err = d.m.GetByKey(k)
			case 2:
				_, err = d.m.PatchByKey(k, d.vk.Val(1))
			case 3:
				_, err = d.m.DeleteByKey(k)
			case 4:
				_, _, err = d.m.BisectLeft(k)
			case 5:
				_, _, err = d.m.BisectRight(k)
			}
			a.on = false
			if err == nil {
				c.Fail("%s: %s of a key that cannot be compared with the items next to it returned no error (%d items, %d failed comparisons)", d.name, name, n, a.n)
			}
			c.Count("keys rejected late", 1)
			d.Len()
			d.GetIdx(someIndex(c, n))
			d.Get(d.presentOr(x))
		}
		if err := d.m.Validate(); err != nil {
			c.Fail("%s: Validate after rejected operations: %v", d.name, err)
		}
		d.All(n < 30)
	}
	for k := 0; k < 25; k++ {
		for n := c.rng.IntN(12) + k; n > 0; n-- {
			d.RandomUpdate(x)
		}
		if b != nil && c.rng.IntN(3) == 0 {
			b.Flush(c.rng.IntN(2) == 0)
		}
		offer()
	}
	if b != nil {
		l := b.Flush(true)
		r := b.reopen(b.st, l, nil)
		r.All(true)
	}
	for len(d.mod.r) > 0 {
		d.DelIdx(c.rng.IntN(len(d.mod.r)))
		if n := len(d.mod.r); n < 5 || n%16 == 0 {
			offer()
		}
	}
	c.Done()
}
