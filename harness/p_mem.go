package main

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"time"
	"weak"

	"github.com/NVIDIA/sortedmap"
)

// p_mem.go: C24. Keys and values are boxes on the heap that are only watched through weak pointers,
// so that after a collection a box is alive exactly if the map still references it.

type kbox struct {
	rank int
	self *kbox // keeps it out of the allocator of small pointer-free objects
}

type vbox struct {
	id   int
	self *vbox
}

// heap watches the boxes of one case.
type heap struct {
	c    *Ctx
	keys []weak.Pointer[kbox]
	vals []weak.Pointer[vbox]
	kk   *KeyKind
	vk   *ValKind
}

func newHeap(c *Ctx) *heap {
	h := &heap{c: c}
	key := func(r int) *kbox {
		k := &kbox{rank: r}
		k.self = k
		h.keys = append(h.keys, weak.Make(k))
		return k
	}
	val := func(id int) *vbox {
		v := &vbox{id: id}
		v.self = v
		h.vals = append(h.vals, weak.Make(v))
		return v
	}
	h.kk = &KeyKind{
		Name: "box", N: 1 << 20,
		Key: func(r int) sortedmap.Key { return key(r) },
		Rank: func(k sortedmap.Key) (int, bool) {
			b, ok := k.(*kbox)
			if !ok {
				return 0, false
			}
			return b.rank, true
		},
		Cmp: func(a, b sortedmap.Key) (int, error) {
			x, ok := a.(*kbox)
			if !ok {
				return 0, fmt.Errorf("cannot compare %T", a)
			}
			y, ok := b.(*kbox)
			if !ok {
				return 0, fmt.Errorf("cannot compare %T", b)
			}
			return ord(x.rank, y.rank), nil
		},
		Pack: func(k sortedmap.Key) ([]byte, error) {
			b, ok := k.(*kbox)
			if !ok {
				return nil, badKey(k)
			}
			return put(4, uint64(b.rank), keyBO), nil
		},
		Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
			if len(b) < 4 {
				return nil, 0, errShort("key", len(b))
			}
			return key(int(keyBO.Uint32(b))), 4, nil
		},
	}
	h.vk = &ValKind{
		Name: "box",
		Val:  func(id int) sortedmap.Value { return val(id) },
		ID: func(v sortedmap.Value) (int, bool) {
			b, ok := v.(*vbox)
			if !ok {
				return 0, false
			}
			return b.id, true
		},
		Pack: func(v sortedmap.Value) ([]byte, error) {
			b, ok := v.(*vbox)
			if !ok {
				return nil, fmt.Errorf("cannot pack value %T", v)
			}
			return put(4, uint64(b.id), keyBO), nil
		},
		Unpack: func(b []byte) (sortedmap.Value, uint64, error) {
			if len(b) < 4 {
				return nil, 0, errShort("value", len(b))
			}
			return val(int(keyBO.Uint32(b))), 4, nil
		},
	}
	return h
}

// alive tells how many boxes of each rank and id are still referenced, and forgets the others.
func (h *heap) alive() (keys, vals map[int]int) {
	keys, vals = map[int]int{}, map[int]int{}
	n := 0
	for _, p := range h.keys {
		if b := p.Value(); b != nil {
			keys[b.rank]++
			h.keys[n] = p
			n++
		}
	}
	h.keys = h.keys[:n]
	n = 0
	for _, p := range h.vals {
		if b := p.Value(); b != nil {
			vals[b.id]++
			h.vals[n] = p
			n++
		}
	}
	h.vals = h.vals[:n]
	return
}

// judge collects garbage until wrong finds nothing more to say; what it still says then is the verdict.
func (h *heap) judge(wrong func(keys, vals map[int]int) string) string {
	s := ""
	for i := 0; i < 6; i++ {
		if i > 1 {
			time.Sleep(time.Duration(i) * time.Millisecond) // let stopped goroutines move on
		}
		runtime.GC()
		keys, vals := h.alive()
		if s = wrong(keys, vals); s == "" {
			return ""
		}
	}
	return s
}

// consistent ends the case when the map does not hold what the model does (another property's affair).
func (d *MD) consistent() {
	n, err := d.m.Len()
	if err != nil || n != len(d.mod.r) {
		panic(&abandon{"the map differs from the model"})
	}
	for i := range d.mod.r {
		k, v, ok, err := d.m.GetByIndex(i)
		if err != nil || !ok {
			panic(&abandon{"the map differs from the model"})
		}
		r, good := d.kk.Rank(k)
		if !good || r != d.mod.r[i] || !d.vk.match(v, d.mod.v[i]) {
			panic(&abandon{"the map differs from the model"})
		}
	}
}

// stale names a referenced box that belongs to no item of the map.
func (d *MD) stale(vals map[int]int) string {
	now := make(map[int]bool, len(d.mod.v))
	for _, id := range d.mod.v {
		now[id] = true
	}
	for id, n := range vals {
		if !now[id] {
			return fmt.Sprintf("value #%d, which belongs to no item any more, is still referenced (%d items in the map)", id, len(d.mod.v))
		}
		if n > 1 {
			return fmt.Sprintf("%d copies of value #%d are referenced", n, id)
		}
	}
	return ""
}

func (d *MD) checkHeap(h *heap, what string, more func(keys, vals map[int]int) string) {
	live := 0
	s := h.judge(func(keys, vals map[int]int) string {
		live = len(vals)
		if s := d.stale(vals); s != "" {
			return s
		}
		if len(d.mod.r) == 0 {
			for r := range keys {
				return fmt.Sprintf("key %d is still referenced although the map is empty", r)
			}
		}
		if more != nil {
			return more(keys, vals)
		}
		return ""
	})
	if s != "" {
		d.consistent()
		d.c.Fail("%s: %s: %s", d.name, what, s)
	}
	d.c.Count("collections judged", 1)
	d.c.Count("referenced boxes seen at collections", int64(live))
	d.c.Eval(mix(d.c.h, uint64(live)), live > 0 || len(d.mod.r) == 0)
}

// op is one operation for C24: mostly updates, and some that are refused.
func (d *MD) memOp(x *Mix) {
	c := d.c
	switch c.rng.IntN(12) {
	case 0:
		if n := len(d.mod.r); n > 0 {
			d.Put(d.mod.r[c.rng.IntN(n)]) // refused
			return
		}
		fallthrough
	case 1:
		d.RandomRead(x)
	case 2:
		d.Patch(d.presentOr(x))
	default:
		d.RandomUpdate(x)
	}
}

// goneKeys names a key box that belongs to no item (maps that keep a key only for an item).
func (d *MD) goneKeys(keys map[int]int) string {
	for r, n := range keys {
		if _, ok := d.mod.find(r); !ok {
			return fmt.Sprintf("key %d, which is absent, is still referenced", r)
		}
		if n > 1 {
			return fmt.Sprintf("%d copies of key %d are referenced", n, r)
		}
	}
	return ""
}

func memLL(c *Ctx, i int) {
	h := newHeap(c)
	l := newLL(c, h.kk, h.vk)
	l.lenient = true
	x := newMix(c, h.kk, 512)
	x.reads = 20
	gone := func(keys, vals map[int]int) string { return l.goneKeys(keys) }
	for s := 0; s < 8; s++ {
		for k := 1 + c.rng.IntN(60); k > 0; k-- {
			l.memOp(x)
		}
		switch c.rng.IntN(8) {
		case 0:
			l.Reset()
		case 1:
			for len(l.mod.r) > 0 {
				l.DelIdx(c.rng.IntN(len(l.mod.r)))
			}
		case 2:
			x.target = c.rng.IntN(x.U + 1)
		}
		l.checkHeap(h, "after "+c.last, gone)
	}
	runtime.KeepAlive(l)
}

// nodeBound: values are only referenced from nodes that are in memory.
func (b *BT) nodeBound() func(keys, vals map[int]int) string {
	if b.cache == nil {
		return nil
	}
	return func(keys, vals map[int]int) string {
		s := b.cache.Stats()
		if n := s.CleanLRUItems + s.DirtyLRUItems; uint64(len(vals)) > n*b.max {
			return fmt.Sprintf("%d values are referenced although only %d nodes of at most %d keys are in memory", len(vals), n, b.max)
		}
		return ""
	}
}

func nothing(what string) func(keys, vals map[int]int) string {
	return func(keys, vals map[int]int) string {
		if n := len(vals); n > 0 {
			return fmt.Sprintf("%d values are still referenced although %s", n, what)
		}
		return ""
	}
}

func noneLeft(what string) func(keys, vals map[int]int) string {
	return func(keys, vals map[int]int) string {
		if len(vals) > 0 || len(keys) > 0 {
			return fmt.Sprintf("%d values and %d keys are still referenced although %s", len(vals), len(keys), what)
		}
		return ""
	}
}

func memBT(c *Ctx, i int) {
	h := newHeap(c)
	var cache sortedmap.BPlusTreeCache
	if i%3 != 0 {
		cache = sortedmap.NewBPlusTreeCache(1<<40, 1<<41)
	}
	o := BTOpt{kk: h.kk, vk: h.vk, max: pickMax(c), policy: c.rng.IntN(nPolicies), cache: cache}
	b, gone := newMemBT(c, o)
	x := newMix(c, h.kk, 1024)
	x.reads = 20
	for s := 0; s < 8; s++ {
		for k := 1 + c.rng.IntN(80); k > 0; k-- {
			b.memOp(x)
		}
		what, more := "", b.nodeBound()
		switch c.rng.IntN(10) {
		case 0, 1:
			b.Flush(true)
			more = nothing("the tree was flushed and purged")
			c.Count("after a purging flush", 1)
		case 2:
			b.Flush(false)
			b.Purge(true)
			more = nothing("the tree was purged in full")
			c.Count("after a full purge", 1)
		case 3:
			// only the modified leaves stay
			b.Flush(false)
			n := c.rng.IntN(4)
			w := 0
			for k := 0; k < n && len(b.mod.r) > 0; k++ {
				if b.PatchIdx(c.rng.IntN(len(b.mod.r))) {
					w++
				}
			}
			b.Purge(false)
			lim := w * keyCap(b.max)
			more = func(keys, vals map[int]int) string {
				if len(vals) > lim {
					return fmt.Sprintf("%d values are still referenced after a purge although at most %d leaves of at most %d keys were modified", len(vals), w, b.max)
				}
				return ""
			}
			c.Count("after a partial purge", 1)
		case 4:
			b.Flush(false)
			if c.rng.IntN(2) == 0 {
				b.Prune()
			}
			x.target = c.rng.IntN(x.U + 1)
		case 5:
			for len(b.mod.r) > 0 {
				b.DelIdx(c.rng.IntN(len(b.mod.r)))
			}
			c.Count("emptied by deletion", 1)
		case 6:
			l := b.Flush(true)
			was := gone
			gone = b.again(l)
			more = func(keys, vals map[int]int) string {
				if !was() {
					return "the tree that was given up after a purging flush is still referenced"
				}
				return ""
			}
			c.Count("given up after a purging flush", 1)
		case 7:
			x.target = c.rng.IntN(x.U + 1)
		}
		b.checkHeap(h, "after "+c.last+what, more)
	}
	switch c.rng.IntN(3) {
	case 0:
		b.Flush(true)
	case 1:
		b.Flush(false)
	}
	b.Discard()
	if s := h.judge(noneLeft("the tree was discarded")); s != "" {
		c.Fail("%s: after Discard: %s", b.name, s)
	}
	b.givenUp(h, gone)
	c.Count("after Discard", 1)
	runtime.KeepAlive(cache)
}

// own is a set of callbacks made for one tree: alive exactly as long as its tree is (or a cache that leads to it).
type own struct {
	*Store
	self *own
}

func newOwn(st *Store) (*own, func() bool) {
	o := &own{Store: st}
	o.self = o
	p := weak.Make(o)
	return o, func() bool { return p.Value() == nil }
}

func newMemBT(c *Ctx, o BTOpt) (*BT, func() bool) {
	st := newStore(o.kk, o.vk, o.policy, c.rng.Uint64())
	cb, gone := newOwn(st)
	b := &BT{max: o.max, cache: o.cache, policy: o.policy}
	b.c, b.kk, b.vk, b.name, b.st, b.mod = c, o.kk, o.vk, "B+Tree", st, &Model{}
	b.t = sortedmap.NewBPlusTree(o.max, o.kk.Cmp, cb, o.cache)
	b.m = b.t
	b.lenient = true
	return b, gone
}

// again opens the tree once more at l and gives up the handle so far.
func (b *BT) again(l loc) func() bool {
	cb, gone := newOwn(b.st)
	b.c.Step("OldBPlusTree", int(l.N), int(l.O))
	t, err := sortedmap.OldBPlusTree(l.N, l.O, l.L, b.kk.Cmp, cb, b.cache)
	b.t, b.m = t, t
	b.noErr("OldBPlusTree", err)
	return gone
}

// givenUp: the caller gives up a discarded tree; nothing else refers to it.
func (b *BT) givenUp(h *heap, gone func() bool) {
	runtime.KeepAlive(b.t)
	b.t, b.m = nil, nil
	if s := h.judge(func(keys, vals map[int]int) string {
		if !gone() {
			return "the tree that was given up after Discard is still referenced"
		}
		return ""
	}); s != "" {
		b.c.Fail("%s: %s", b.name, s)
	}
}

// memDrain: trees under a small cache; what is referenced follows what the cache says is in memory.
func memDrain(c *Ctx, i int) {
	h := newHeap(c)
	lo := uint64(c.rng.IntN(12))
	hi := lo + uint64(c.rng.IntN(6))
	cache := sortedmap.NewBPlusTreeCache(lo, hi)
	o := BTOpt{kk: h.kk, vk: h.vk, max: []uint64{4, 6, 8, 16}[c.rng.IntN(4)], policy: c.rng.IntN(nPolicies), cache: cache}
	b, gone := newMemBT(c, o)
	x := newMix(c, h.kk, 512)
	b.fill(x.U/2, x)
	for s := 0; s < 6; s++ {
		for k := 1 + c.rng.IntN(60); k > 0; k-- {
			b.memOp(x)
		}
		if c.rng.IntN(3) != 0 {
			b.Flush(false)
		}
		for k := c.rng.IntN(60); k > 0; k-- {
			b.RandomRead(x)
		}
		c.settle()
		st := cache.Stats()
		if st.CleanLRUItems+st.DirtyLRUItems > 0 && len(b.mod.r) > int(st.CleanLRUItems+st.DirtyLRUItems)*keyCap(b.max) {
			c.Count("more items than memory", 1)
		}
		b.checkHeap(h, "after "+c.last+" and the eviction that followed", b.nodeBound())
	}
	b.Flush(true)
	b.checkHeap(h, "after "+c.last, nothing("the tree was flushed and purged"))
	b.Discard()
	c.settle()
	if s := h.judge(noneLeft("the tree was discarded")); s != "" {
		c.Fail("%s: after Discard: %s", b.name, s)
	}
	b.givenUp(h, gone)
	runtime.KeepAlive(cache)
}

// memShared: trees that share a cache come and go; the trees and the cache that stay keep nothing of those gone.
func memShared(c *Ctx, i int, small bool) {
	type one struct {
		h    *heap
		b    *BT
		x    *Mix
		gone func() bool
	}
	lo, hi := uint64(1<<40), uint64(1<<41)
	if small {
		lo = uint64(c.rng.IntN(20))
		hi = lo + uint64(c.rng.IntN(10))
	}
	cache := sortedmap.NewBPlusTreeCache(lo, hi)
	var l []*one
	settle := func() {
		if small {
			c.settle()
		}
	}
	check := func(o *one, what string, wrong func(keys, vals map[int]int) string) {
		settle()
		if s := o.h.judge(func(keys, vals map[int]int) string {
			if s := wrong(keys, vals); s != "" {
				return s
			}
			if !o.gone() {
				return "the tree itself is still referenced"
			}
			return ""
		}); s != "" {
			c.Fail("a tree sharing a cache with %d others: %s: %s", len(l), what, s)
		}
		c.Count("collections judged", 1)
		c.Count("given up beside others", 1)
		c.Eval(mix(c.h, uint64(len(l))), true)
	}
	for s := 0; s < 30; s++ {
		if len(l) < 2 || len(l) < 5 && c.rng.IntN(3) == 0 {
			h := newHeap(c)
			b, gone := newMemBT(c, BTOpt{kk: h.kk, vk: h.vk, max: []uint64{4, 6, 8, 16}[c.rng.IntN(4)], policy: c.rng.IntN(nPolicies), cache: cache})
			o := &one{h, b, newMix(c, h.kk, 128), gone}
			o.x.reads = 30
			b.fill(c.rng.IntN(o.x.U), o.x)
			l = append(l, o)
		}
		for k := 1 + c.rng.IntN(30); k > 0; k-- {
			o := l[c.rng.IntN(len(l))]
			o.b.memOp(o.x)
			switch c.rng.IntN(12) {
			case 0:
				o.b.Flush(false)
			case 1:
				if !small {
					o.b.Purge(false)
				}
			}
		}
		if c.rng.IntN(3) != 0 {
			continue
		}
		k := c.rng.IntN(len(l))
		o := l[k]
		l = append(l[:k], l[k+1:]...)
		what := ""
		switch c.rng.IntN(3) {
		case 0:
			what = "given up after Flush(true)"
			o.b.Flush(true)
		case 1:
			what = "given up after Flush(false) and Purge(true)"
			o.b.Flush(false)
			o.b.Purge(true)
		case 2:
			what = "given up after Discard"
			o.b.Discard()
		}
		o.b.t, o.b.m = nil, nil
		check(o, what, noneLeft("the tree was "+what))
	}
	for _, o := range l {
		runtime.KeepAlive(o.b.t)
	}
	runtime.KeepAlive(cache)
}

func init() {
	register(&Prop{
		ID:          "C24",
		Technique:   "runtime monitoring: keys and values watched through weak pointers across garbage collections, compared with the items the map holds and the nodes it has in memory",
		Rule:        "one evaluation = one garbage collection after a run of operations, after which every referenced key and value was accounted for; distinct by history hash and number of referenced values",
		Assumptions: []string{"the client's callbacks and the caller keep no reference themselves", "keys that separate the nodes of a B+Tree may stay referenced after the item is deleted, until the map is empty or the node leaves memory"},
		Min:         map[string]int64{"collections judged": 3000, "referenced boxes seen at collections": 50000, "after Discard": 300, "given up beside others": 1500, "after a purging flush": 300, "after a full purge": 150, "after a partial purge": 150, "given up after a purging flush": 150, "more items than memory": 50},
		Phases: []Phase{
			{Name: "shared cache", Items: scale(300, 5000), Run: func(c *Ctx, i int) { memShared(c, i, false) }},
			{Name: "shared small cache", Items: scale(100, 1500), Serial: true, Run: func(c *Ctx, i int) { memShared(c, i, true) }},
			{Name: "in memory", Items: scale(400, 6000), Run: memLL},
			{Name: "B+Tree", Items: scale(500, 8000), Run: memBT},
			{Name: "eviction", Items: scale(100, 1500), Serial: true, Run: memDrain},
		},
	})
}
