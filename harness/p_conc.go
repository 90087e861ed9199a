package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/sortedmap"
	"github.com/anishathalye/porcupine"
)

// jitter yields now and then, each goroutine from its own random source.
func jitterFn(seed uint64, p int) func() {
	var n atomic.Uint64
	return func() {
		x := mix(seed, n.Add(1))
		switch {
		case x%uint64(p) == 0:
			runtime.Gosched()
		case x%uint64(40*p) == 1:
			time.Sleep(time.Microsecond)
		}
	}
}

// quietJitter yields at random without synchronising goroutines (the global generator is per thread).
func quietJitter(p int) func() {
	return func() {
		if rand.IntN(p) == 0 {
			runtime.Gosched()
		}
	}
}

// fairJitter sometimes takes more than a millisecond: who then waits for a mutex gets it as soon as it is let go.
func fairJitter() {
	switch rand.IntN(60) {
	case 0:
		time.Sleep(1100 * time.Microsecond)
	case 1, 2, 3, 4, 5, 6, 7, 8, 9:
		runtime.Gosched()
	}
}

func jitterCmp(cmp sortedmap.Compare, j func()) sortedmap.Compare {
	return func(a, b sortedmap.Key) (int, error) {
		j()
		return cmp(a, b)
	}
}

// ---- C04: linearizability ---------------------------------------------------------

type lop struct {
	op   int
	a, v int
}

type lres struct {
	ok    bool
	n, v  int
	key   int
	snap  string
	fatal string
}

const (
	oPut = iota
	oGet
	oDel
	oPatch
	oGetIdx
	oDelIdx
	oPatchIdx
	oBisL
	oBisR
	oLen
	oReset
	nOps
	// what the background worker reports about the whole map
	oSnap  // its items
	oKeys  // its keys
	oItems // its number of items
)

var opNames = []string{"Put", "GetByKey", "DeleteByKey", "PatchByKey", "GetByIndex", "DeleteByIndex", "PatchByIndex", "BisectLeft", "BisectRight", "Len", "Reset", "", "contents shown", "keys shown", "items reported"}

// The state is the contents as a string of (key, value) byte pairs in key order.
func linModel(init string) porcupine.Model {
	find := func(s string, k int) (int, bool) {
		n := len(s) / 3
		i := sort.Search(n, func(i int) bool { return int(s[3*i]) >= k })
		return i, i < n && int(s[3*i]) == k
	}
	val := func(s string, i int) int { return int(s[3*i+1])<<8 | int(s[3*i+2]) }
	return porcupine.Model{
		Init: func() any { return init },
		Step: func(st, in, out any) (bool, any) {
			s, o, r := st.(string), in.(lop), out.(lres)
			n := len(s) / 3
			i, found := 0, false
			switch o.op {
			case oPut, oGet, oDel, oPatch, oBisL, oBisR:
				i, found = find(s, o.a)
			case oGetIdx, oDelIdx, oPatchIdx:
				i, found = o.a, o.a >= 0 && o.a < n
			}
			switch o.op {
			case oPut:
				if r.ok == found {
					return false, s
				}
				if !found {
					s = s[:3*i] + string([]byte{byte(o.a), byte(o.v >> 8), byte(o.v)}) + s[3*i:]
				}
				return true, s
			case oGet:
				return r.ok == found && (!found || val(s, i) == r.v), s
			case oGetIdx:
				return r.ok == found && (!found || val(s, i) == r.v && int(s[3*i]) == r.key), s
			case oDel, oDelIdx:
				if r.ok != found {
					return false, s
				}
				if found {
					s = s[:3*i] + s[3*i+3:]
				}
				return true, s
			case oPatch, oPatchIdx:
				if r.ok != found {
					return false, s
				}
				if found {
					s = s[:3*i+1] + string([]byte{byte(o.v >> 8), byte(o.v)}) + s[3*i+3:]
				}
				return true, s
			case oBisL:
				w := i
				if !found {
					w--
				}
				return r.ok == found && r.n == w, s
			case oBisR:
				return r.ok == found && r.n == i, s
			case oLen:
				return r.n == n, s
			case oReset:
				return true, ""
			case oSnap:
				return r.snap == s, s
			case oKeys:
				if 3*len(r.snap) != len(s) {
					return false, s
				}
				for k := range len(r.snap) {
					if r.snap[k] != s[3*k] {
						return false, s
					}
				}
				return true, s
			case oItems:
				return r.n == n, s
			}
			return false, s
		},
		DescribeOperation: func(in, out any) string {
			o, r := in.(lop), out.(lres)
			switch o.op {
			case oSnap:
				return fmt.Sprintf("%s: %s", opNames[o.op], showItems(r.snap))
			case oKeys:
				return fmt.Sprintf("%s: %v", opNames[o.op], []byte(r.snap))
			}
			return fmt.Sprintf("%s(%d,#%d) -> ok=%v n=%d key=%d value=#%d", opNames[o.op], o.a, o.v, r.ok, r.n, r.key, r.v)
		},
	}
}

func showItems(s string) string {
	var sb strings.Builder
	for k := 0; k+2 < len(s); k += 3 {
		fmt.Fprintf(&sb, "%d:#%d ", s[k], int(s[k+1])<<8|int(s[k+2]))
	}
	return sb.String()
}

func packItems(r, v []int) string {
	b := make([]byte, 0, 3*len(r))
	for i := range r {
		b = append(b, byte(r[i]), byte(v[i]>>8), byte(v[i]))
	}
	return string(b)
}

type lmap struct {
	m  sortedmap.SortedMap
	kk *KeyKind
	ll sortedmap.LLRBTree
}

func (l *lmap) do(o lop) (r lres) {
	var err error
	switch o.op {
	case oPut:
		r.ok, err = l.m.Put(l.kk.Key(o.a), uint64(o.v))
	case oGet:
		var v sortedmap.Value
		v, r.ok, err = l.m.GetByKey(l.kk.Key(o.a))
		if r.ok {
			u, _ := v.(uint64)
			r.v = int(u)
		}
	case oDel:
		r.ok, err = l.m.DeleteByKey(l.kk.Key(o.a))
	case oPatch:
		r.ok, err = l.m.PatchByKey(l.kk.Key(o.a), uint64(o.v))
	case oGetIdx:
		var k sortedmap.Key
		var v sortedmap.Value
		k, v, r.ok, err = l.m.GetByIndex(o.a)
		if r.ok {
			u, _ := v.(uint64)
			r.v = int(u)
			r.key, _ = l.kk.Rank(k)
		}
	case oDelIdx:
		r.ok, err = l.m.DeleteByIndex(o.a)
	case oPatchIdx:
		r.ok, err = l.m.PatchByIndex(o.a, uint64(o.v))
	case oBisL:
		r.n, r.ok, err = l.m.BisectLeft(l.kk.Key(o.a))
	case oBisR:
		r.n, r.ok, err = l.m.BisectRight(l.kk.Key(o.a))
	case oLen:
		r.n, err = l.m.Len()
	case oReset:
		l.ll.Reset()
	}
	if err != nil {
		r.fatal = err.Error()
	}
	return
}

// linRun makes a concurrent history and has it decided. With watch set, a further goroutine looks at the whole map
// meanwhile (image: what Flush writes; items: the dimensions report; dump; validate), and only what it saw is judged.
func linRun(c *Ctx, i int, btree bool, watch string) {
	U := 5 + c.rng.IntN(30)
	kk := keyKinds()[c.rng.IntN(4)]
	p := 1 + c.rng.IntN(6)
	jit := quietJitter(p)
	if c.rng.IntN(15) == 0 {
		jit = fairJitter
		c.Count("histories with long waits", 1)
	}
	start := func() {}
	if len(c.naps) > 0 {
		// one callback or two take seconds
		var n atomic.Int64
		n.Store(math.MinInt32)
		start = func() { n.Store(0) }
		calm, d, k1, k2 := jit, c.naps[0].d, int64(2+c.rng.IntN(50)), int64(2+c.rng.IntN(100))
		c.naps = nil
		jit = func() {
			if k := n.Add(1); k == k1 || k == k2 {
				time.Sleep(d)
			}
			calm()
		}
		c.Count("idle times", 1)
	}
	cmp := jitterCmp(kk.Cmp, jit)
	l := &lmap{kk: kk}
	var st *Store
	var bt sortedmap.BPlusTree
	var cache sortedmap.BPlusTreeCache
	max := uint64(0)
	if btree {
		st = newStore(kk, vkU64, c.rng.IntN(nPolicies), c.rng.Uint64())
		st.jit = jit
		max = []uint64{4, 4, 6, 8}[c.rng.IntN(4)]
		if c.rng.IntN(4) > 0 {
			lo := c.rng.IntN(4)
			cache = sortedmap.NewBPlusTreeCache(uint64(lo), uint64(lo+c.rng.IntN(3)))
		}
		bt = sortedmap.NewBPlusTree(max, cmp, st, cache)
		l.m = bt
	} else {
		l.ll = sortedmap.NewLLRBTree(cmp, newStore(kk, vkU64, 0, 1))
		l.m = l.ll
	}
	slow := &atomic.Int32{}
	if watch == "dump" {
		ds := st
		if !btree {
			ds = newStore(kk, vkU64, 0, 1)
			l.ll = sortedmap.NewLLRBTree(cmp, ds)
			l.m = l.ll
		}
		ds.fault = func(kind string) error {
			if slow.CompareAndSwap(1, 0) {
				time.Sleep(1200 * time.Microsecond)
			}
			return nil
		}
	}
	// initial contents
	init := []byte{}
	nid := 0
	for k := 0; k < U; k++ {
		if c.rng.IntN(2) == 0 {
			nid++
			if ok, err := l.m.Put(kk.Key(k), uint64(nid)); !ok || err != nil {
				c.Fail("Put(%d) on a new map: %v, %v", k, ok, err)
			}
			init = append(init, byte(k), byte(nid>>8), byte(nid))
		}
	}
	if btree && c.rng.IntN(3) > 0 {
		n, o, ln, err := bt.Flush(true)
		if err != nil {
			c.Fail("Flush: %v", err)
		}
		if c.rng.IntN(2) == 0 {
			if bt, err = sortedmap.OldBPlusTree(n, o, ln, cmp, st, cache); err != nil {
				c.Fail("OldBPlusTree: %v", err)
			}
			l.m = bt
		}
	}
	G := 2 + c.rng.IntN(4)
	per := 3 + c.rng.IntN(36/G)
	var clock atomic.Int64
	hist := make([][]porcupine.Operation, G)
	hot := c.rng.IntN(U)
	kind := c.rng.IntN(4)
	start()
	var workers []func(*Ctx)
	var running atomic.Int32
	running.Store(int32(G))
	for g := 0; g < G; g++ {
		base := nid + 1 + g*100
		workers = append(workers, func(c *Ctx) {
			defer running.Add(-1)
			for k := 0; k < per; k++ {
				o := lop{op: c.rng.IntN(nOps), a: c.rng.IntN(U), v: base + k}
				switch kind {
				case 1: // a hot key
					o.a = hot
				case 2: // writers
					o.op = []int{oPut, oDel, oDelIdx, oPatch, oGet, oLen}[c.rng.IntN(6)]
				case 3: // narrow window
					o.a = (hot + c.rng.IntN(4)) % U
				}
				if o.op >= oGetIdx && o.op <= oPatchIdx {
					o.a = c.rng.IntN(U/2+3) - 1
				}
				if o.op == oReset && (btree || c.rng.IntN(4) > 0) {
					o.op = oPut
				}
				call := clock.Add(1)
				r := l.do(o)
				ret := clock.Add(1)
				if r.fatal != "" {
					c.Fail("%s(%d) returned error %v in a concurrent history", opNames[o.op], o.a, r.fatal)
				}
				hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: o, Call: call, Output: r, Return: ret})
				c.Step(opNames[o.op], o.a, o.v)
			}
		})
	}
	var seen []porcupine.Operation
	if watch != "" {
		workers = append(workers, func(c *Ctx) {
			for k := 0; k < 8 && (k == 0 || running.Load() > 0); k++ {
				for n := c.rng.IntN(1 << c.rng.IntN(6)); n > 0; n-- {
					runtime.Gosched()
				}
				if btree {
					switch c.rng.IntN(6) {
					case 0:
						bt.Purge(false)
					case 1:
						bt.TouchItem(uint64(c.rng.IntN(U)))
					case 2:
						bt.Prune()
					case 3:
						if watch != "image" {
							bt.Flush(c.rng.IntN(2) == 0)
						}
					}
				}
				if watch == "dump" {
					seen = append(seen, l.dumps(c, btree, &clock, slow)...)
					continue
				}
				call := clock.Add(1)
				o, r := l.look(c, watch, bt, st)
				ret := clock.Add(1)
				if r.fatal != "" {
					c.Fail("while other goroutines use the map: %s", r.fatal)
				}
				seen = append(seen, porcupine.Operation{ClientId: G + 1, Input: o, Call: call, Output: r, Return: ret})
				c.Step(watch, len(r.snap), r.n)
			}
		})
	} else if btree {
		workers = append(workers, func(c *Ctx) {
			for running.Load() > 0 {
				switch c.rng.IntN(5) {
				case 0:
					bt.Flush(c.rng.IntN(2) == 0)
				case 1:
					bt.Purge(false)
				case 2:
					if cache != nil {
						cache.UpdateLimits(0, uint64(c.rng.IntN(5)))
					}
				case 3:
					bt.TouchItem(uint64(c.rng.IntN(U)))
				case 4:
					bt.Prune()
				}
				c.Count("background residency changes", 1)
				runtime.Gosched()
			}
		})
	}
	c.parallel(workers...)
	var all []porcupine.Operation
	overlap := int64(0)
	for _, h := range hist {
		all = append(all, h...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
	maxRet := int64(0)
	sig := uint64(7)
	for _, o := range all {
		if o.Call < maxRet {
			overlap++
		}
		if o.Return > maxRet {
			maxRet = o.Return
		}
		sig = mix(sig, uint64(o.ClientId)*1000+uint64(o.Input.(lop).op))
		sig = mix(sig, uint64(o.Return-o.Call))
	}
	// read the final contents as one more client
	for k := 0; k < U; k++ {
		o := lop{op: oGet, a: k}
		call := clock.Add(1)
		r := l.do(o)
		if r.fatal != "" {
			c.Fail("GetByKey(%d) returned error %v after a concurrent history", k, r.fatal)
		}
		all = append(all, porcupine.Operation{ClientId: G, Input: o, Call: call, Output: r, Return: clock.Add(1)})
	}
	o := lop{op: oLen}
	call := clock.Add(1)
	all = append(all, porcupine.Operation{ClientId: G, Input: o, Call: call, Output: l.do(o), Return: clock.Add(1)})
	m := linModel(string(init))
	if watch != "" {
		judgeSeen(c, m, init, all, seen, fmt.Sprintf("%d goroutines, btree=%v", G, btree))
		c.Count("operations overlapping another", overlap)
		c.Eval(sig, overlap > 0)
		return
	}
	switch porcupine.CheckOperationsTimeout(m, all, 10*time.Second) {
	case porcupine.Illegal:
		var sb strings.Builder
		fmt.Fprintf(&sb, "initial contents (key, value id): ")
		for k := 0; k < len(init); k += 3 {
			fmt.Fprintf(&sb, "%d:#%d ", init[k], int(init[k+1])<<8|int(init[k+2]))
		}
		for _, o := range all {
			fmt.Fprintf(&sb, "\n[%d,%d] client %d: %s", o.Call, o.Return, o.ClientId, m.DescribeOperation(o.Input, o.Output))
		}
		c.FailX(sb.String(), "a history of %d operations by %d goroutines is not linearizable (btree=%v)", len(all), G, btree)
	case porcupine.Unknown:
		c.Count("histories undecided", 1)
	default:
		c.Count("histories linearizable", 1)
	}
	c.Count("operations overlapping another", overlap)
	c.Eval(sig, overlap > 0)
	if i < 1 {
		c.Sample("history #%d: %d goroutines x %d operations over %d keys, %d overlapping, btree=%v", i, G, per, U, overlap, btree)
	}
}

// look takes one look at the whole map.
func (l *lmap) look(c *Ctx, watch string, bt sortedmap.BPlusTree, st *Store) (o lop, r lres) {
	switch watch {
	case "image":
		o.op = oSnap
		n, off, ln, err := bt.Flush(c.rng.IntN(2) == 0)
		if err != nil {
			r.fatal = fmt.Sprintf("Flush returned error %v", err)
			return
		}
		im, err := st.walk(loc{n, off, ln}, curBO())
		if err != nil {
			r.fatal = fmt.Sprintf("the flushed image is not a readable tree: %v", err)
			return
		}
		var ids []int
		for k := range im.vals {
			id, _ := vkU64.ID(im.vals[k])
			ids = append(ids, id)
		}
		r.snap = packItems(im.ranks, ids)
	case "items":
		o.op = oItems
		d, err := bt.FetchDimensionsReport()
		if err != nil {
			r.fatal = fmt.Sprintf("FetchDimensionsReport returned error %v", err)
		}
		r.n = int(d.Items)
	case "validate":
		o.op = oItems
		if err := l.m.Validate(); err != nil {
			r.fatal = fmt.Sprintf("Validate returned error %v", err)
		}
		r.n = -1
	}
	return
}

// dumps makes a few dumps at once. Each takes more than a millisecond, so that a goroutine waiting for the map is
// in line for it (the mutex becomes fair) whenever a dump lets go of it.
func (l *lmap) dumps(c *Ctx, btree bool, clock *atomic.Int64, slow *atomic.Int32) (ops []porcupine.Operation) {
	const mark = "----- next dump -----\n"
	out := captured(c, func() {
		for k := 0; k < 3; k++ {
			slow.Store(1)
			call := clock.Add(1)
			if err := l.m.Dump(); err != nil {
				c.Fail("while other goroutines use the map: Dump returned error %v", err)
			}
			ops = append(ops, porcupine.Operation{ClientId: 99, Call: call, Return: clock.Add(1)})
			fmt.Print(mark)
		}
	})
	for k, one := range strings.SplitN(out, mark, 3) {
		o, r := lop{op: oSnap}, lres{}
		if btree {
			r.snap = packItems(dumpedItems(c, strings.TrimSuffix(one, mark)))
		} else {
			o.op = oKeys
			flat, tree := dumpedKeys(c, strings.TrimSuffix(one, mark))
			for name, s := range map[string]map[int]int{"node listing": flat, "tree drawing": tree} {
				for k, n := range s {
					if n != 1 {
						c.Fail("while other goroutines use the map: the %s of a Dump shows the key of rank %d %d times", name, k, n)
					}
				}
			}
			var ks []int
			for k := range flat {
				ks = append(ks, k)
				if tree[k] == 0 {
					c.Fail("while other goroutines use the map: a Dump lists the key of rank %d but does not draw it", k)
				}
			}
			if len(flat) != len(tree) {
				c.Fail("while other goroutines use the map: a Dump lists %d nodes but draws %d", len(flat), len(tree))
			}
			sort.Ints(ks)
			for _, k := range ks {
				r.snap += string([]byte{byte(k)})
			}
		}
		ops[k].Input, ops[k].Output = o, r
		c.Step("dump", len(r.snap), k)
	}
	return
}

func judgeSeen(c *Ctx, m porcupine.Model, init []byte, all, seen []porcupine.Operation, what string) {
	var looks []porcupine.Operation
	for _, o := range seen {
		if o.Output.(lres).n != -1 {
			looks = append(looks, o)
		}
	}
	both := append(append([]porcupine.Operation{}, all...), looks...)
	busy := int64(0)
	for _, s := range seen {
		for _, o := range all {
			if o.Call < s.Return && s.Call < o.Return {
				busy++
				break
			}
		}
	}
	switch porcupine.CheckOperationsTimeout(m, both, 10*time.Second) {
	case porcupine.Unknown:
		c.Count("histories undecided", 1)
		return
	case porcupine.Illegal:
		if porcupine.CheckOperationsTimeout(m, all, 20*time.Second) != porcupine.Ok {
			panic(&abandon{"the operations themselves are not linearizable"})
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "initial contents (key, value id): %s", showItems(string(init)))
		sort.Slice(both, func(i, j int) bool { return both[i].Call < both[j].Call })
		for _, o := range both {
			fmt.Fprintf(&sb, "\n[%d,%d] client %d: %s", o.Call, o.Return, o.ClientId, m.DescribeOperation(o.Input, o.Output))
		}
		c.FailX(sb.String(), "what one goroutine saw of the whole map (%s) is not its state at one instant between call and return (%s)", opNames[looks[0].Input.(lop).op], what)
	}
	c.Count("looks at the whole map beside other operations", busy)
	c.Count("concurrent histories with looks at the whole map", 1)
}

// ---- C05: stress ---------------------------------------------------------------------

func stressRun(c *Ctx, i int) {
	lo := c.rng.IntN(12)
	cache := sortedmap.NewBPlusTreeCache(uint64(lo), uint64(lo+c.rng.IntN(10)))
	T := 1 + c.rng.IntN(3)
	G := 2 + c.rng.IntN(2)
	U := 10 + c.rng.IntN(120)
	steps := 120
	if c.tier == "thorough" {
		steps = 300
	}
	profile := c.rng.IntN(4) // 0 everything, 1 residency churn, 2 two methods only, 3 reports
	pair := [2]int{c.rng.IntN(25), c.rng.IntN(25)}
	kk := kkIntSmall
	jit := quietJitter(2 + c.rng.IntN(12))
	var fs []func(*Ctx)
	var live atomic.Int32
	live.Store(int32(T))
	var ones []*oneAtATime
	for t := 0; t < T; t++ {
		cmp := kk.Cmp
		if c.rng.IntN(2) == 0 {
			cmp = jitterCmp(kk.Cmp, jit)
		}
		st := newStore(kk, vkU64, c.rng.IntN(nPolicies), c.rng.Uint64())
		st.watch = ""
		st.jit = jit
		if c.rng.IntN(2) == 0 {
			st.one = &oneAtATime{}
			ones = append(ones, st.one)
		}
		own := cache
		if c.rng.IntN(4) == 0 {
			own = nil
			c.Count("trees without a cache", 1)
		}
		max := []uint64{4, 4, 4, 6, 8, 20}[c.rng.IntN(6)]
		fs = append(fs, func(c *Ctx) {
			defer live.Add(-1)
			for round := 0; round < 2; round++ {
				tr := sortedmap.NewBPlusTree(max, cmp, st, own)
				for k := c.rng.IntN(U); k > 0; k-- {
					tr.Put(kk.Key(c.rng.IntN(U)), uint64(k))
				}
				if round == 1 {
					n, o, l, err := tr.Flush(c.rng.IntN(2) == 0)
					if err == nil {
						if t2, err := sortedmap.OldBPlusTree(n, o, l, cmp, st, own); err == nil {
							tr = t2
						}
					}
				}
				var group []func(*Ctx)
				for g := 0; g < G; g++ {
					group = append(group, func(c *Ctx) {
						for s := 0; s < steps; s++ {
							k := c.rng.IntN(25)
							switch profile {
							case 1:
								k = []int{0, 1, 2, 3, 12, 13, 14, 15, 16, 20}[c.rng.IntN(10)]
							case 2:
								k = pair[c.rng.IntN(2)]
							case 3:
								k = []int{0, 2, 9, 10, 11, 12, 17, 18}[c.rng.IntN(8)]
							}
							stressOp(c, tr, cache, kk, U, k)
						}
					})
				}
				c.parallel(group...)
				// the owner gives the tree back while the other trees live on in the same cache
				if c.rng.IntN(3) > 0 {
					tr.Flush(false)
				}
				if err := tr.Discard(); err == nil {
					c.Count("trees discarded", 1)
				}
			}
		})
	}
	// an in-memory map and a watcher of the cache
	llst := newStore(kk, vkU64, 0, 1)
	ll := sortedmap.NewLLRBTree(jitterCmp(kk.Cmp, jit), llst)
	for g := 0; g < 2; g++ {
		fs = append(fs, func(c *Ctx) {
			for s := 0; s < steps; s++ {
				llOp(c, ll, kk, 16, c.rng.IntN(13))
			}
		})
	}
	fs = append(fs, func(c *Ctx) {
		for live.Load() > 0 {
			c.readStats(cache)
			if c.rng.IntN(3) == 0 {
				l := c.rng.IntN(12)
				cache.UpdateLimits(uint64(l), uint64(l+c.rng.IntN(6)))
			}
			c.Step("Stats/UpdateLimits", 0, 0)
			runtime.Gosched()
		}
	})
	c.parallel(fs...)
	for _, o := range ones {
		o.end(c)
	}
	cache.UpdateLimits(0, 0) // whatever the evictor still does
	c.settle()
	for _, o := range ones {
		o.verdict(c)
	}
	s := cache.Stats()
	c.Count("evictions forced (misses observed)", int64(s.CacheMisses))
	c.Count("stress rounds", 1)
	c.Done()
	if i < 2 {
		c.Sample("stress #%d: %d trees x %d goroutines sharing a cache, profile %d, %d keys, %d cache misses", i, T, G, profile, U, s.CacheMisses)
	}
}

// readStats reads all that Stats returns, as callers do.
func (c *Ctx) readStats(cache sortedmap.BPlusTreeCache) {
	s := *cache.Stats()
	c.read(s.EvictLowLimit + s.EvictHighLimit + s.CleanLRUItems + s.DirtyLRUItems + s.CacheHits + s.CacheMisses)
}

func (c *Ctx) read(n uint64) {
	if n == 1<<63+12345 {
		c.Count("odd sums", 1)
	}
}

var stressNames = []string{"GetByKey", "GetByIndex", "Put", "DeleteByKey", "DeleteByIndex", "PatchByKey", "PatchByIndex", "BisectLeft", "BisectRight", "Len", "FetchLocation", "FetchLayoutReport", "Flush", "Purge", "Touch", "TouchItem", "Prune", "Validate", "Dump", "FetchDimensionsReport", "UpdateLimits", "Stats", "Put", "Put", "DeleteByKey"}

func stressOp(c *Ctx, t sortedmap.BPlusTree, cache sortedmap.BPlusTreeCache, kk *KeyKind, U, k int) {
	r := c.rng.IntN(U)
	c.Count("calls "+stressNames[k], 1)
	switch k {
	case 0:
		t.GetByKey(kk.Key(r))
	case 1:
		t.GetByIndex(r)
	case 2, 22, 23:
		t.Put(kk.Key(r), uint64(r))
	case 3, 24:
		t.DeleteByKey(kk.Key(r))
	case 4:
		t.DeleteByIndex(r)
	case 5:
		t.PatchByKey(kk.Key(r), uint64(r))
	case 6:
		t.PatchByIndex(r, uint64(r))
	case 7:
		t.BisectLeft(kk.Key(r))
	case 8:
		t.BisectRight(kk.Key(r))
	case 9:
		t.Len()
	case 10:
		t.FetchLocation()
	case 11:
		rep, _ := t.FetchLayoutReport()
		n := uint64(0)
		for _, v := range rep {
			n += v
		}
		c.read(n)
	case 12:
		t.Flush(c.rng.IntN(2) == 0)
	case 13:
		t.Purge(c.rng.IntN(2) == 0)
	case 14:
		t.Touch()
	case 15:
		t.TouchItem(uint64(r))
	case 16:
		t.Prune()
	case 17:
		t.Validate()
	case 18:
		if c.rng.IntN(4) == 0 {
			t.Dump()
		}
	case 19:
		t.FetchDimensionsReport()
	case 20:
		cache.UpdateLimits(uint64(c.rng.IntN(6)), uint64(6+c.rng.IntN(6)))
	case 21:
		c.readStats(cache)
	}
	c.Step(stressNames[k], r, 0)
}

func llOp(c *Ctx, t sortedmap.LLRBTree, kk *KeyKind, U, k int) {
	r := c.rng.IntN(U)
	switch k {
	case 0:
		t.GetByKey(kk.Key(r))
	case 1:
		t.GetByIndex(r)
	case 2:
		t.Put(kk.Key(r), uint64(r))
	case 3:
		t.DeleteByKey(kk.Key(r))
	case 4:
		t.DeleteByIndex(r)
	case 5:
		t.PatchByKey(kk.Key(r), uint64(r))
	case 6:
		t.PatchByIndex(r, uint64(r))
	case 7:
		t.BisectLeft(kk.Key(r))
	case 8:
		t.BisectRight(kk.Key(r))
	case 9:
		t.Len()
	case 10:
		t.Validate()
	case 11:
		t.Dump()
	case 12:
		t.Reset()
	}
	c.Count("calls of in-memory map methods", 1)
	c.Step("ll", k, r)
}

// pairRun: every pair of public methods runs at once, again and again, on one warm or cold tree.
func pairRun(c *Ctx, i int) {
	a, b := i/22%22, i%22
	kk := kkIntSmall
	cache := sortedmap.NewBPlusTreeCache(2, 6)
	mode := i / (22 * 22) % 4
	if mode == 1 {
		cache = sortedmap.NewBPlusTreeCache(1000, 2000)
	}
	own := cache // of the trees
	if mode == 2 {
		own = nil
	}
	st := newStore(kk, vkU64, polUnique1, 1)
	st.watch = ""
	t := sortedmap.NewBPlusTree(4, kk.Cmp, st, own)
	other := sortedmap.NewBPlusTree(4, kk.Cmp, newStore(kk, vkU64, polUnique1, 1), own)
	n := 24
	if mode == 3 { // one leaf, or none
		n = c.rng.IntN(4)
	}
	for k := 0; k < n; k++ {
		t.Put(kk.Key(k), uint64(k))
		other.Put(kk.Key(k), uint64(k))
	}
	t.Flush(i%2 == 0)
	run := func(k int, tr sortedmap.BPlusTree) func(*Ctx) {
		return func(c *Ctx) {
			for s := 0; s < 25; s++ {
				stressOp(c, tr, cache, kk, 26, k)
				if s%8 == 7 {
					runtime.Gosched()
				}
			}
		}
	}
	c.parallel(run(a, t), run(b, t), run(b, other))
	c.Count("method pairs run at once", 1)
	c.Done()
}

// llPairRun: the same for the in-memory map.
func llPairRun(c *Ctx, i int) {
	a, b := i/13%13, i%13
	kk := kkIntSmall
	t := sortedmap.NewLLRBTree(jitterCmp(kk.Cmp, quietJitter(8)), newStore(kk, vkU64, 0, 1))
	for k := 0; k < 12; k++ {
		t.Put(kk.Key(k), uint64(k))
	}
	run := func(k int) func(*Ctx) {
		return func(c *Ctx) {
			for s := 0; s < 25; s++ {
				llOp(c, t, kk, 16, k)
			}
		}
	}
	c.parallel(run(a), run(b))
	c.Count("method pairs run at once", 1)
	c.Done()
}

// discardRun: trees of a shared cache are discarded while the evictor is at work on them and the others.
func discardRun(c *Ctx, i int) {
	kk := kkIntSmall
	cache := sortedmap.NewBPlusTreeCache(uint64(c.rng.IntN(4)), uint64(4+c.rng.IntN(4)))
	var fs []func(*Ctx)
	for g := 0; g < 4; g++ {
		fs = append(fs, func(c *Ctx) {
			for k := 0; k < 6; k++ {
				st := newStore(kk, vkU64, polUnique1, 1)
				st.watch = ""
				t := sortedmap.NewBPlusTree(4, kk.Cmp, st, cache)
				n := 5 + c.rng.IntN(60)
				for j := 0; j < n; j++ {
					t.Put(kk.Key(j), uint64(j))
				}
				t.Flush(c.rng.IntN(2) == 0)
				for j := c.rng.IntN(20); j > 0; j-- {
					t.GetByKey(kk.Key(c.rng.IntN(n)))
				}
				if err := t.Discard(); err != nil {
					c.Count("discards refused", 1)
				}
				c.Count("trees discarded", 1)
				c.Step("life of a tree", n, k)
			}
		})
	}
	c.parallel(fs...)
	c.Count("stress rounds", 1)
	c.Done()
}

// failingRun: callbacks fail now and then; whatever an operation returns, it leaves no lock held and later calls go through.
func failingRun(c *Ctx, i int) {
	kk := kkIntSmall
	lo := c.rng.IntN(6)
	hi := lo + c.rng.IntN(6)
	if i%3 == 0 {
		lo, hi = 1000, 2000
	}
	cache := sortedmap.NewBPlusTreeCache(uint64(lo), uint64(hi))
	own := cache
	if c.rng.IntN(5) == 0 {
		own = nil
	}
	G := 1 + i%3
	T := 2
	var trees []sortedmap.BPlusTree
	var sts []*Store
	p := []int{2, 5, 20, 60}[c.rng.IntN(4)]
	U := 8 + c.rng.IntN(60)
	kinds := []string{"", "GetNode", "PutNode", "DiscardNode", "PackKey", "PackValue", "UnpackKey", "UnpackValue", "DumpKey", "DumpValue"}
	kind := kinds[i/3%len(kinds)]
	var on atomic.Bool
	for t := 0; t < T; t++ {
		st := newStore(kk, vkU64, polUnique1, 1)
		st.watch = ""
		st.fault = func(k string) error {
			if on.Load() && (kind == "" || kind == k) && rand.IntN(p) == 0 {
				return errInjected
			}
			return nil
		}
		tr := sortedmap.NewBPlusTree(4, kk.Cmp, st, own)
		for k := 0; k < U; k++ {
			tr.Put(kk.Key(k), uint64(k))
		}
		tr.Flush(i%2 == 0)
		trees, sts = append(trees, tr), append(sts, st)
	}
	ll := sortedmap.NewLLRBTree(kk.Cmp, sts[0])
	for k := 0; k < 10; k++ {
		ll.Put(kk.Key(k), uint64(k))
	}
	on.Store(true)
	only := -1 // half of the time only a failing method, and Stats, so that nothing else hides a lock left held
	if i%2 == 0 {
		only = []int{18, 12, 11, 17, 14, 15, 16, 3, 6, 19}[i/2%10]
	}
	var fs []func(*Ctx)
	for g := 0; g < G; g++ {
		fs = append(fs, func(c *Ctx) {
			for s := 0; s < 60; s++ {
				tr := trees[c.rng.IntN(T)]
				k := c.rng.IntN(25)
				if only >= 0 && s%4 != 0 {
					k = only
				}
				stressOp(c, tr, cache, kk, U, k)
				if k == 18 {
					tr.Dump() // stressOp seldom does
				}
				if s%8 == 0 {
					ll.Dump()
					llOp(c, ll, kk, 12, c.rng.IntN(13))
				}
				c.readStats(cache)
				if rand.IntN(10) == 0 {
					cache.UpdateLimits(uint64(lo), uint64(hi))
				}
			}
		})
	}
	c.parallel(fs...)
	on.Store(false)
	// everything answers again, on a cache other trees can use
	for _, tr := range trees {
		for k := 0; k < 22; k++ {
			stressOp(c, tr, cache, kk, U, k)
		}
	}
	ll.Validate()
	for t, tr := range trees {
		if t == 0 {
			on.Store(true)
			for k := 0; k < 3; k++ {
				tr.Prune()
			}
			for k := 0; k < 3; k++ {
				if tr.Discard() == nil {
					break
				}
			}
			on.Store(false)
		}
	}
	trees[1].Len()
	cache.Stats()
	n := int64(0)
	for _, st := range sts {
		n += st.fired.Load()
	}
	c.Count("callback failures under concurrency", n)
	c.Done()
}

// nestedRun: the callbacks of a tree (its storage, its comparator) use other trees of the same cache and the cache itself,
// as a tree whose nodes are kept in a store that is itself made of trees does. Trees are used in one order only.
func nestedRun(c *Ctx, i int) {
	kk := kkIntSmall
	lo := c.rng.IntN(8)
	cache := sortedmap.NewBPlusTreeCache(uint64(lo), uint64(lo+c.rng.IntN(8)))
	T := 2 + c.rng.IntN(2)
	U := 8 + c.rng.IntN(50)
	p := 2 + rand.IntN(6)
	var trees []sortedmap.BPlusTree
	var on atomic.Bool
	var inner, deep atomic.Int64
	ll := sortedmap.NewLLRBTree(kk.Cmp, newStore(kk, vkU64, 0, 1))
	for t := 0; t < T; t++ {
		st := newStore(kk, vkU64, polUnique1, 1)
		st.watch = ""
		jit := quietJitter(8)
		use := func(p int) {
			jit()
			if !on.Load() || rand.IntN(p) > 0 {
				return
			}
			if t+1 == T || rand.IntN(3) == 0 {
				switch rand.IntN(3) {
				case 0:
					cache.Stats()
				case 1:
					l := rand.IntN(6)
					cache.UpdateLimits(uint64(l), uint64(l+rand.IntN(6)))
				default:
					ll.PatchByKey(kk.Key(rand.IntN(U)), uint64(3))
				}
				deep.Add(1)
				return
			}
			tr := trees[t+1]
			k := rand.IntN(U)
			switch rand.IntN(10) {
			case 0, 1, 2:
				tr.GetByKey(kk.Key(k))
			case 3, 4:
				tr.Put(kk.Key(k), uint64(k))
			case 5:
				tr.DeleteByKey(kk.Key(k))
			case 6:
				tr.Flush(rand.IntN(2) == 0)
			case 7:
				tr.Purge(rand.IntN(2) == 0)
			case 8:
				tr.Touch()
			case 9:
				if rand.IntN(4) == 0 {
					tr.Validate()
				} else {
					tr.Prune()
				}
			}
			inner.Add(1)
		}
		st.jit = func() { use(p) }
		cmp := kk.Cmp
		if i%2 == 0 {
			cmp = func(a, b sortedmap.Key) (int, error) {
				use(12 * p)
				return kk.Cmp(a, b)
			}
		}
		tr := sortedmap.NewBPlusTree([]uint64{4, 4, 6, 10}[c.rng.IntN(4)], cmp, st, cache)
		trees = append(trees, tr)
	}
	for _, tr := range trees {
		for k := 0; k < U; k++ {
			tr.Put(kk.Key(k), uint64(k))
		}
		tr.Flush(i%3 == 0)
	}
	on.Store(true)
	var fs []func(*Ctx)
	for g := 0; g < 1+i%3; g++ {
		fs = append(fs, func(c *Ctx) {
			for s := 0; s < 60; s++ {
				stressOp(c, trees[c.rng.IntN(T)], cache, kk, U, c.rng.IntN(25))
			}
		})
	}
	c.parallel(fs...)
	for _, tr := range trees {
		tr.Flush(false)
		tr.Discard()
	}
	c.Count("calls of other trees inside callbacks", inner.Load())
	c.Count("calls of the cache or of an in-memory map inside callbacks", deep.Load())
	c.Done()
}

// ---- C11: residency is invisible -----------------------------------------------------------

func residencyOp(b *BT) {
	c := b.c
	switch b.resKind(14) {
	case 0:
		b.Flush(true)
	case 1, 2:
		b.Flush(false)
	case 3, 4:
		b.Purge(false)
	case 5:
		b.Flush(false)
		b.Purge(true)
	case 6, 7:
		if b.cache != nil {
			c.Step("UpdateLimits", 0, 0)
			l := c.rng.IntN(14)
			h := l + c.rng.IntN(8)
			if c.rng.IntN(6) == 0 {
				h = c.rng.IntN(l + 1) // low above high is not forbidden
			}
			b.cache.UpdateLimits(uint64(l), uint64(h))
		}
	case 8:
		b.Touch()
	case 9:
		b.TouchItem(c.rng.IntN(len(b.mod.r) + 2))
	case 10:
		b.Validate()
	case 11:
		b.c.Step("FetchLayoutReport", 0, 0)
		_, err := b.t.FetchLayoutReport()
		b.noErr("FetchLayoutReport", err)
	case 12:
		b.Prune()
	case 13:
		b.c.Step("FetchDimensionsReport", 0, 0)
		_, err := b.t.FetchDimensionsReport()
		b.noErr("FetchDimensionsReport", err)
	}
	c.Count("residency changes", 1)
}

func residencyTree(c *Ctx, b *BT, x *Mix, steps int) {
	heavy := 1 + c.rng.IntN(12)
	for s := 0; s < steps; s++ {
		if c.rng.IntN(heavy) == 0 {
			residencyOp(b)
		} else {
			b.RandomOp(x)
		}
		if s%64 == 63 {
			b.All(c.rng.IntN(2) == 0)
		}
	}
	b.All(true)
	l := b.Flush(c.rng.IntN(2) == 0)
	im := b.mustImage(l)
	if m := im.sameAs(b.mod, b.vk); m != "" {
		c.Fail("%s: an update was lost: the final image holds %s", b.name, m)
	}
	b.All(false)
}

func init() {
	register(&Prop{
		ID:          "C04",
		Race:        true,
		Technique:   "runtime monitoring: recorded concurrent histories checked for linearizability (porcupine), under the race detector with scheduling jitter in the callbacks",
		Rule:        "one evaluation = one concurrent history (with the final contents read back) decided by the linearizability checker; distinct by order and overlap of the operations",
		Assumptions: []string{"the clock of a history is an atomic counter read just before each call and just after each return", "the race detector sees the races of the schedules that ran"},
		Min:         map[string]int64{"histories linearizable": 1500, "operations overlapping another": 5000},
		Phases: []Phase{
			{Name: "in-memory", Items: scale(6000, 90000), Run: func(c *Ctx, i int) { linRun(c, i, false, "") }},
			{Name: "btree", Items: scale(8000, 120000), Run: func(c *Ctx, i int) { linRun(c, i, true, "") }},
		},
	})
	register(&Prop{
		ID:          "C05",
		Race:        true,
		Technique:   "sanitizer: Go race detector over stress of every public method (all pairs at once, and mixed), with panic capture and a progress watchdog",
		Rule:        "one evaluation = one stress round (or one pair of methods run at once); distinct by the operation sequences of its goroutines",
		Assumptions: []string{"Discard ends a tree's life: nobody else uses the tree then", "a deadlock shows as lack of progress with a goroutine inside the library"},
		Min:         map[string]int64{"stress rounds": 100, "method pairs run at once": 484 + 169, "trees discarded": 500},
		Phases: []Phase{
			{Name: "pairs", Items: scale(22*22*4, 22*22*32), Run: pairRun},
			{Name: "in-memory-pairs", Items: scale(169*3, 169*30), Run: llPairRun},
			{Name: "stress", Items: scale(160, 3000), Run: stressRun},
			{Name: "discard", Items: scale(120, 2000), Run: discardRun},
			{Name: "failing-callbacks", Items: scale(300, 5000), Run: failingRun},
			{Name: "nested", Items: scale(160, 4000), Run: nestedRun},
		},
	})
	register(&Prop{
		ID:          "C11",
		Technique:   "runtime monitoring: every result compared with a reference dictionary while purges, flushes, touches, limit changes and the background evictor run",
		Rule:        "one evaluation = one tree driven through a random history of map and residency operations, every result compared; distinct by history hash",
		Assumptions: []string{"storage returns the bytes it was given"},
		Min:         map[string]int64{"residency changes": 30000, "trees sharing a cache": 500},
		Phases: []Phase{
			{Name: "solo", Items: scale(2500, 50000), Run: func(c *Ctx, i int) {
				o := randBTOpt(c)
				o.max = []uint64{4, 4, 6, 8, 16}[i%5]
				o.cache = randCache(c)
				var b *BT
				if i%3 == 0 {
					b = handMade(c, o, o.cache, 150)
				} else {
					b = newBT(c, o)
				}
				residencyTree(c, b, newMix(c, o.kk, 256), 500)
				c.Count("max-height-unused", 0)
				c.Done()
				if i < 1 {
					c.Sample("solo #%d: %v, 500 operations, %d items at the end", i, o, len(b.mod.r))
				}
			}},
			{Name: "shared", Items: scale(500, 10000), Run: func(c *Ctx, i int) {
				l := c.rng.IntN(16)
				cache := sortedmap.NewBPlusTreeCache(uint64(l), uint64(l+c.rng.IntN(12)))
				var fs []func(*Ctx)
				T := 2 + c.rng.IntN(4)
				for t := 0; t < T; t++ {
					o := randBTOpt(c)
					o.max = 4
					o.cache = cache
					o.name = fmt.Sprintf("B+Tree %d of %d sharing a cache", t, T)
					jit := jitterFn(c.rng.Uint64(), 1+c.rng.IntN(30))
					hm := c.rng.IntN(2) == 0
					fs = append(fs, func(c *Ctx) {
						var b *BT
						if hm {
							b = handMade(c, o, cache, 100)
						} else {
							b = newBT(c, o)
						}
						b.name = o.name
						b.st.jit = jit
						residencyTree(c, b, newMix(c, o.kk, 200), 350)
					})
				}
				c.parallel(fs...)
				c.Count("trees sharing a cache", int64(T))
				c.Done()
			}},
			{Name: "interleaved", Items: scale(500, 10000), Run: func(c *Ctx, i int) {
				// several trees driven in turn by one goroutine, cache limits around the working set
				l := c.rng.IntN(10)
				cache := sortedmap.NewBPlusTreeCache(uint64(l), uint64(l+c.rng.IntN(4)))
				var bs []*BT
				var xs []*Mix
				for t := 0; t < 3; t++ {
					o := randBTOpt(c)
					o.max = 4
					o.cache = cache
					o.name = fmt.Sprintf("B+Tree %d", t)
					bs = append(bs, newBT(c, o))
					xs = append(xs, newMix(c, o.kk, 100))
				}
				for s := 0; s < 900; s++ {
					t := c.rng.IntN(3)
					if c.rng.IntN(5) == 0 {
						residencyOp(bs[t])
					} else {
						bs[t].RandomOp(xs[t])
					}
				}
				for _, b := range bs {
					b.All(true)
				}
				c.Count("trees sharing a cache", 3)
				c.Done()
			}},
		},
	})
}

var _ sync.Mutex
