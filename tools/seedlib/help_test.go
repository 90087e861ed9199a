package sortedmap_test

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/NVIDIA/sortedmap"
)

// sdStore keeps nodes in memory, for keys and values of type int.
type sdStore struct {
	mu       sync.Mutex
	next     uint64
	live     map[uint64][]byte
	puts     int
	gets     int
	discards []uint64
	fail     func(kind string) error // kinds: put, get, discard, packkey, packvalue, unpackkey, unpackvalue, dumpkey, dumpvalue
	onGet    func(n uint64)
}

var errSD = errors.New("injected")

func sdNew() *sdStore { return &sdStore{next: 1, live: map[uint64][]byte{}} }

func (s *sdStore) chk(k string) error {
	if s.fail != nil {
		return s.fail(k)
	}
	return nil
}
func (s *sdStore) DumpKey(k sortedmap.Key) (string, error) {
	return fmt.Sprint("key", k), s.chk("dumpkey")
}
func (s *sdStore) DumpValue(v sortedmap.Value) (string, error) {
	return fmt.Sprint("val", v), s.chk("dumpvalue")
}
func (s *sdStore) PackKey(k sortedmap.Key) ([]byte, error) {
	if e := s.chk("packkey"); e != nil {
		return nil, e
	}
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, uint64(k.(int)))
	return b, nil
}
func (s *sdStore) PackValue(v sortedmap.Value) ([]byte, error) {
	if e := s.chk("packvalue"); e != nil {
		return nil, e
	}
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, uint64(v.(int)))
	return b, nil
}
func (s *sdStore) UnpackKey(b []byte) (sortedmap.Key, uint64, error) {
	if e := s.chk("unpackkey"); e != nil {
		return nil, 0, e
	}
	if len(b) < 8 {
		return nil, 0, errors.New("short key")
	}
	return int(binary.LittleEndian.Uint64(b)), 8, nil
}
func (s *sdStore) UnpackValue(b []byte) (sortedmap.Value, uint64, error) {
	if e := s.chk("unpackvalue"); e != nil {
		return nil, 0, e
	}
	if len(b) < 8 {
		return nil, 0, errors.New("short value")
	}
	return int(binary.LittleEndian.Uint64(b)), 8, nil
}
func (s *sdStore) GetNode(n, o, l uint64) ([]byte, error) {
	if e := s.chk("get"); e != nil {
		return nil, e
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gets++
	b, ok := s.live[n]
	if !ok || o != 0 || uint64(len(b)) != l {
		return nil, fmt.Errorf("no node %d/%d/%d", n, o, l)
	}
	if s.onGet != nil {
		s.onGet(n)
	}
	return append([]byte{}, b...), nil
}
func (s *sdStore) PutNode(b []byte) (uint64, uint64, error) {
	if e := s.chk("put"); e != nil {
		return 0, 0, e
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.puts++
	n := s.next
	s.next++
	s.live[n] = append([]byte{}, b...)
	return n, 0, nil
}
func (s *sdStore) DiscardNode(n, o, l uint64) error {
	if e := s.chk("discard"); e != nil {
		return e
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.live[n]
	if !ok || o != 0 || uint64(len(b)) != l {
		return fmt.Errorf("discard of no node %d/%d/%d", n, o, l)
	}
	delete(s.live, n)
	s.discards = append(s.discards, n)
	return nil
}

func sdTree(s *sdStore, max uint64, c sortedmap.BPlusTreeCache) sortedmap.BPlusTree {
	return sortedmap.NewBPlusTree(max, sortedmap.CompareInt, s, c)
}

func sdOpen(t *testing.T, s *sdStore, n, o, l uint64, c sortedmap.BPlusTreeCache) sortedmap.BPlusTree {
	t.Helper()
	tr, err := sortedmap.OldBPlusTree(n, o, l, sortedmap.CompareInt, s, c)
	if err != nil {
		t.Fatalf("open: %v", err)
	}
	return tr
}

func sdMust(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatalf("unexpected error: %v", err)
	}
}

func sdPut(t *testing.T, m sortedmap.SortedMap, k, v int) {
	t.Helper()
	ok, err := m.Put(k, v)
	if err != nil || !ok {
		t.Fatalf("Put(%d): %v %v", k, ok, err)
	}
}

func sdDel(t *testing.T, m sortedmap.SortedMap, k int) {
	t.Helper()
	ok, err := m.DeleteByKey(k)
	if err != nil || !ok {
		t.Fatalf("DeleteByKey(%d): %v %v", k, ok, err)
	}
}

// sdFill puts keys 0, step, ..., (n-1)*step with value = key + 1.
func sdFill(t *testing.T, m sortedmap.SortedMap, n, step int) map[int]int {
	t.Helper()
	ref := map[int]int{}
	for i := 0; i < n; i++ {
		sdPut(t, m, i*step, i*step+1)
		ref[i*step] = i*step + 1
	}
	return ref
}

// sdSame checks contents through both keys and indices.
func sdSame(t *testing.T, m sortedmap.SortedMap, ref map[int]int) {
	t.Helper()
	n, err := m.Len()
	if err != nil || n != len(ref) {
		t.Fatalf("Len %d %v, want %d", n, err, len(ref))
	}
	last := 0
	for i := 0; i < n; i++ {
		k, v, ok, err := m.GetByIndex(i)
		if err != nil || !ok {
			t.Fatalf("GetByIndex(%d): %v %v", i, ok, err)
		}
		if i > 0 && k.(int) <= last {
			t.Fatalf("order at %d", i)
		}
		last = k.(int)
		if rv, ok := ref[last]; !ok || rv != v.(int) {
			t.Fatalf("GetByIndex(%d) = %v:%v, want value %v %v", i, k, v, rv, ok)
		}
	}
	for k, v := range ref {
		gv, ok, err := m.GetByKey(k)
		if err != nil || !ok || gv.(int) != v {
			t.Fatalf("GetByKey(%d) = %v %v %v, want %d", k, gv, ok, err, v)
		}
	}
}

// sdFlush flushes and returns the location.
func sdFlush(t *testing.T, tr sortedmap.BPlusTree, purge bool) (n, o, l uint64) {
	t.Helper()
	n, o, l, err := tr.Flush(purge)
	if err != nil {
		t.Fatalf("Flush: %v", err)
	}
	return
}

// sdReach returns how many nodes a fresh tree at that location reads.
func sdReach(t *testing.T, s *sdStore, n, o, l uint64) map[uint64]bool {
	t.Helper()
	seen := map[uint64]bool{}
	old := s.onGet
	s.onGet = func(n uint64) { seen[n] = true }
	tr := sdOpen(t, s, n, o, l, nil)
	m, err := tr.Len()
	sdMust(t, err)
	for i := 0; i < m; i++ { // reads every node
		_, _, _, err = tr.GetByIndex(i)
		sdMust(t, err)
	}
	s.onGet = old
	return seen
}

// sdWithin fails when f takes longer than d.
func sdWithin(t *testing.T, d time.Duration, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("no answer within %v", d)
	}
}
