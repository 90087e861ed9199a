package main

import (
	"encoding/binary"
	"errors"
	"os"
	"runtime"

	"github.com/NVIDIA/sortedmap"
)

// C24, steady memory: the same work again and again on contents that stay the same may not make the heap grow.
// What is kept without a reference to a client's key or value (logs, sets of old locations, unlinked nodes) is seen here only.

// steadyStore is storage that itself holds no more than its live nodes.
type steadyStore struct {
	live map[uint64][]byte
	free []uint64
	once bool // no location is used again
	next uint64
	fail func() bool
}

var errSteady = errors.New("injected fault")

func (s *steadyStore) bad() error {
	if s.fail != nil && s.fail() {
		return errSteady
	}
	return nil
}
func pack8(v any) ([]byte, error) {
	n, ok := v.(int)
	if !ok {
		return nil, errSteady
	}
	return binary.LittleEndian.AppendUint64(nil, uint64(n)), nil
}
func unpack8(b []byte) (int, uint64, error) {
	if len(b) < 8 {
		return 0, 0, errSteady
	}
	return int(binary.LittleEndian.Uint64(b)), 8, nil
}
func (s *steadyStore) DumpKey(k sortedmap.Key) (string, error)     { return "k", s.bad() }
func (s *steadyStore) DumpValue(v sortedmap.Value) (string, error) { return "v", s.bad() }
func (s *steadyStore) PackKey(k sortedmap.Key) ([]byte, error) {
	if err := s.bad(); err != nil {
		return nil, err
	}
	return pack8(k)
}
func (s *steadyStore) PackValue(v sortedmap.Value) ([]byte, error) {
	if err := s.bad(); err != nil {
		return nil, err
	}
	return pack8(v)
}
func (s *steadyStore) UnpackKey(b []byte) (sortedmap.Key, uint64, error) {
	if err := s.bad(); err != nil {
		return nil, 0, err
	}
	k, n, err := unpack8(b)
	return k, n, err
}
func (s *steadyStore) UnpackValue(b []byte) (sortedmap.Value, uint64, error) {
	if err := s.bad(); err != nil {
		return nil, 0, err
	}
	k, n, err := unpack8(b)
	return k, n, err
}
func (s *steadyStore) GetNode(n, o, l uint64) ([]byte, error) {
	if err := s.bad(); err != nil {
		return nil, err
	}
	b, ok := s.live[n]
	if !ok || uint64(len(b)) != l {
		return nil, errSteady
	}
	return b, nil
}
func (s *steadyStore) PutNode(b []byte) (uint64, uint64, error) {
	if err := s.bad(); err != nil {
		return 0, 0, err
	}
	s.next++
	n := s.next
	if k := len(s.free); k > 0 && !s.once {
		n = s.free[k-1]
		s.free = s.free[:k-1]
	}
	s.live[n] = append([]byte{}, b...)
	return n, 0, nil
}
func (s *steadyStore) DiscardNode(n, o, l uint64) error {
	if err := s.bad(); err != nil {
		return err
	}
	if _, ok := s.live[n]; !ok {
		return errSteady
	}
	delete(s.live, n)
	if !s.once {
		s.free = append(s.free, n)
	}
	return nil
}

func heapNow() uint64 {
	best := ^uint64(0)
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
		best = min(best, m.HeapAlloc+4096*uint64(runtime.NumGoroutine())) // a goroutine left behind is memory as well
	}
	return best
}

var steadyNames = []string{"in-memory map", "B+Tree in memory", "B+Tree without a cache", "B+Tree with a cache", "B+Tree that evicts", "B+Trees opened and given up", "B+Trees made and discarded", "B+Tree with failing callbacks", "caches and their B+Trees made and given up"}

func steadyRun(c *Ctx, i int) {
	if failed, _ := try(func() { steadyWork(c, i) }); failed {
		c.Count("cases abandoned: an operation failed", 1)
	}
}

func steadyWork(c *Ctx, i int) {
	kind := i % len(steadyNames)
	name := steadyNames[kind]
	U := []int{12, 60, 250}[i/len(steadyNames)%3]
	max := []uint64{4, 6, 16, 64}[c.rng.IntN(4)]
	half := func() bool { return c.rng.IntN(2) == 0 }
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	defer null.Close()

	s := &steadyStore{live: map[uint64][]byte{}, once: half()}
	var cache sortedmap.BPlusTreeCache
	var idle sortedmap.BPlusTree
	switch kind {
	case 3, 5, 6:
		cache = sortedmap.NewBPlusTreeCache(1<<40, 1<<41)
	case 4, 7, 8:
		lo := uint64(c.rng.IntN(4))
		cache = sortedmap.NewBPlusTreeCache(lo, lo+uint64(c.rng.IntN(3)))
		max = 4
	}
	if cache != nil {
		idle = sortedmap.NewBPlusTree(4, sortedmap.CompareInt, &steadyStore{live: map[uint64][]byte{}}, cache)
		for k := 0; k < 20; k++ {
			idle.Put(k, k)
		}
		idle.Flush(false)
	}
	var m sortedmap.SortedMap
	var t sortedmap.BPlusTree
	ops := int64(0)
	soft := kind == 7
	must := func(err error) {
		ops++
		if err != nil && !soft {
			panic(&opFailed{err: err}) // another property's
		}
	}
	one := func() {
		k, v := c.rng.IntN(U), c.rng.IntN(1<<40)
		n := 0
		switch c.rng.IntN(14) {
		case 0, 1, 2:
			_, err := m.Put(k, v)
			must(err)
		case 3, 4:
			_, err := m.PatchByKey(k, v)
			must(err)
		case 5, 6:
			_, err := m.DeleteByKey(k)
			must(err)
		case 7:
			_, err := m.DeleteByIndex(k)
			must(err)
		case 8:
			_, err := m.PatchByIndex(k, v)
			must(err)
		case 9:
			_, _, err := m.GetByKey(k)
			must(err)
			_, _, err = m.BisectLeft(k)
			must(err)
		case 10:
			_, _, _, err := m.GetByIndex(k)
			must(err)
			_, _, err = m.BisectRight(k)
			must(err)
		case 11:
			var err error
			n, err = m.Len()
			must(err)
		case 12:
			m.GetByKey("refused")
			m.Put("refused", n)
			m.DeleteByKey(nil)
			m.PatchByKey(1.5, v)
		case 13:
			if c.rng.IntN(8) == 0 {
				must(m.Validate())
			}
			if t != nil && c.rng.IntN(60) == 0 {
				save := os.Stdout
				os.Stdout = null
				err := t.Dump()
				os.Stdout = save
				must(err)
			}
		}
	}
	whole := func() { // the same contents at the end of each cycle
		for k := 0; k < U; k++ {
			if k%3 == 0 {
				_, err := m.DeleteByKey(k)
				must(err)
			} else if ok, err := m.Put(k, k); !ok {
				must(err)
				_, err = m.PatchByKey(k, k)
				must(err)
			}
		}
	}
	stored := func() {
		switch c.rng.IntN(9) {
		case 0, 1:
			_, _, _, err := t.Flush(half())
			must(err)
		case 2:
			must(t.Prune())
		case 3:
			must(t.Purge(false))
		case 4:
			if c.rng.IntN(4) == 0 {
				must(t.Touch())
			} else {
				_, err := t.TouchItem(uint64(c.rng.IntN(U)))
				must(err)
			}
		case 5:
			_, err := t.FetchLayoutReport()
			must(err)
			_, err = t.FetchDimensionsReport()
			must(err)
			t.FetchLocation()
		case 6:
			if cache != nil {
				st := cache.Stats()
				cache.UpdateLimits(st.EvictLowLimit, st.EvictHighLimit)
			}
		}
	}
	flushed := func() (n, o, l uint64) {
		n, o, l, err := t.Flush(true)
		must(err)
		must(t.Prune())
		return
	}
	open := func() {
		t = sortedmap.NewBPlusTree(max, sortedmap.CompareInt, s, cache)
		m = t
	}
	var n, o, l uint64
	switch kind {
	case 0:
		m = sortedmap.NewLLRBTree(sortedmap.CompareInt, nil)
	case 1:
		m = sortedmap.NewBPlusTree(max, sortedmap.CompareInt, nil, nil)
	case 5:
		open()
		whole()
		n, o, l = flushed()
	default:
		open()
	}
	cycle := func() {
		c.Step("cycle", kind, U)
		soft = kind == 7
		switch kind {
		case 0:
			if c.rng.IntN(10) == 0 {
				m.(sortedmap.LLRBTree).Reset()
			}
			for k := 0; k < 60; k++ {
				one()
			}
			whole()
		case 1:
			for k := 0; k < 60; k++ {
				one()
			}
			whole()
		case 2, 3, 4:
			for k := 0; k < 60; k++ {
				one()
				if k%6 == 0 {
					stored()
				}
			}
			whole()
			flushed()
			if kind == 4 {
				for k := 0; k < 100; k++ {
					_, _, _, err := m.GetByIndex(c.rng.IntN(U / 3))
					must(err)
					if k%8 == 0 {
						c.settle()
					}
				}
			}
		case 5:
			t2, err := sortedmap.OldBPlusTree(n, o, l, sortedmap.CompareInt, s, cache)
			must(err)
			t, m = t2, t2
			for k := 0; k < 20; k++ {
				_, _, _, err := m.GetByIndex(c.rng.IntN(U))
				must(err)
			}
			if half() {
				whole()
				n, o, l = flushed()
			} else {
				must(t.Purge(true))
			}
			t, m = nil, nil
		case 6:
			open()
			for k := 0; k < 60; k++ {
				one()
				if k%6 == 0 {
					stored()
				}
			}
			if half() {
				flushed()
			}
			must(t.Discard())
			if len(s.live) != 0 {
				c.Count("cases abandoned: Discard left nodes", 1)
			}
			t, m = nil, nil
		case 8:
			lo := uint64(c.rng.IntN(4))
			cache = sortedmap.NewBPlusTreeCache(lo, lo+uint64(c.rng.IntN(3)))
			open()
			for k := 0; k < 60; k++ {
				one()
				if k%6 == 0 {
					stored()
				}
			}
			flushed()
			for k := 0; k < 10; k++ {
				_, _, _, err := m.GetByIndex(c.rng.IntN(U))
				must(err)
			}
			c.settle()
			if half() {
				must(t.Discard())
			}
			t, m, cache = nil, nil, nil
			s.live, s.free = map[uint64][]byte{}, nil
		case 7:
			p := 2 + c.rng.IntN(60)
			s.fail = func() bool { return c.rng.IntN(p) == 0 }
			for k := 0; k < 60; k++ {
				one()
				if k%4 == 0 {
					stored()
				}
			}
			s.fail = nil
			soft = false
			whole()
			flushed()
		}
		if cache != nil {
			c.settle()
		}
	}
	N, tolerated := 600, uint64(24<<10)
	switch kind {
	case 0, 1:
		N = 2500
	case 4, 7, 8: // the evictor's goroutines come and go
		N, tolerated = 600, 128<<10
	}
	if c.tier == "thorough" {
		N *= 6
	}
	for k := 0; k < N/4; k++ {
		cycle()
	}
	h := heapNow()
	done := N / 4
	for w := 0; ; w++ {
		for k := 0; k < N; k++ {
			cycle()
		}
		done += N
		g := heapNow()
		c.Count("cycles of steady work", int64(N))
		if g > h {
			c.Max("bytes the heap grew in a window", int64(g-h))
		}
		if g < h+tolerated {
			break
		}
		c.Count("windows looked at again", 1)
		if w == 2 {
			c.Fail("%s: the same work on the same %d keys makes memory grow: by %d KB in the last %d of %d cycles, and in the two windows before as well", name, U, (g-h)>>10, N, done)
		}
		N = N * 3 / 2
		h = g
	}
	c.Count("operations of steady work", ops)
	c.Count("heaps compared", 1)
	runtime.KeepAlive(m)
	runtime.KeepAlive(idle)
	c.Done()
}

func init() {
	addPhase("C24", Phase{Name: "steady memory", Items: scale(27, 108), Serial: true, Run: steadyRun})
	props["C24"].Min["heaps compared"] = 20
	props["C24"].Min["operations of steady work"] = 500000
}
