package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"maps"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/NVIDIA/sortedmap"
)

// The library's byte order variable has the type of binary.LittleEndian, so it cannot be set to another order.
func curBO() binary.ByteOrder { return binary.LittleEndian }

// ---- storage -----------------------------------------------------------------

type loc struct{ N, O, L uint64 }

func (l loc) String() string { return fmt.Sprintf("%d/%d/%d", l.N, l.O, l.L) }

type rec struct {
	loc
	handed []byte // the slice the library gave us (kept, as a client may)
	copied []byte // private copy: the truth
	ret    []byte // the slice we give back on GetNode (kept, as a client may)
	seq    int
}

type event struct {
	kind byte // P, G, D
	loc  loc
}

const (
	polUnique1 = iota // one object per node, numbers from 1, offset 0
	polUnique0        // one object per node, numbers from 0 (0 is legal: object 0)
	polSingle         // one object, growing offsets
	polSegment        // log segments of several nodes
	polReuse          // freed slots are reused at once (last freed first)
	polRandom         // arbitrary 64-bit numbers and offsets
	polGrid           // numbers and offsets from a grid in which sums, shifts and concatenations of the two coincide
	nPolicies
)

var polNames = []string{"unique-from-1", "unique-from-0", "single-object", "segments", "reuse-freed", "random-64bit", "grid"}

type faultFn func(kind string) error

var errInjected = errors.New("injected fault")

type (
	faultStruct struct{ N int }
	faultPtr    struct{}
)

func (faultStruct) Error() string { return "injected fault" }
func (*faultPtr) Error() string   { return "injected fault" }

// faults are what errInjected is replaced by: an error is an error, whatever its type and its text.
var faults = []error{
	errInjected, io.EOF, io.ErrUnexpectedEOF, os.ErrNotExist, os.ErrExist, os.ErrPermission, io.ErrShortBuffer, io.ErrNoProgress,
	fmt.Errorf("node: %w", os.ErrNotExist), fmt.Errorf("node: %w", io.EOF), context.Canceled, context.DeadlineExceeded, errors.ErrUnsupported,
	syscall.ENOENT, syscall.EAGAIN, syscall.EINTR, syscall.Errno(0), faultStruct{}, faultStruct{1}, (*faultPtr)(nil), errors.New(""), errors.Join(io.EOF, errInjected),
}

// what a failing callback returns beside the error
const (
	withZeros = iota // nothing
	withRight        // what it would have returned without the error
	withWrong        // something else
)

type Store struct {
	mu     sync.Mutex
	kk     *KeyKind
	vk     *ValKind
	policy int
	taken  map[[2]uint64]bool // grid: locations once given out
	x      uint64             // private generator
	next   uint64
	off    uint64
	free   [][2]uint64
	live   map[[2]uint64]*rec
	dead   map[loc]bool
	seq    int
	logOn  bool
	log    []event

	bad    atomic.Pointer[string] // first contract violation seen by the monitor
	fault  faultFn
	jit    func()
	onPut  func(l loc)
	onGet  func(l loc)
	onDisc func(l loc)
	// prot: nodes that may not be discarded now
	prot map[loc]bool
	// override: what GetNode gives back instead (damaged images)
	override map[loc][]byte

	// watch: which contract violations count here (p put, g get, d discard, b bytes); others only return an error
	watch string
	// calls outside Flush / Prune / Discard are violations when strict
	strictCalls bool
	// one, if set, watches that the callbacks of the tree are never called at the same time
	one    *oneAtATime
	putOK  bool
	discOK bool

	gets, puts, discs, packs, unpacks, dumps atomic.Int64
	fired                                    atomic.Int64 // injected faults
	forms                                    atomic.Uint64
	form0                                    uint64
	ovHits                                   atomic.Int64 // damaged images given out
}

const fence = "not yours"

// fenced gives a copy of b as a part of a bigger buffer: what follows it is the client's.
func fenced(b []byte) []byte {
	c := append(append(make([]byte, 0, len(b)+len(fence)), b...), fence...)
	return c[: len(b) : len(b)+len(fence)]
}

func fenceWhole(b []byte) bool { return string(b[len(b):cap(b)]) == fence }

func newStore(kk *KeyKind, vk *ValKind, policy int, seed uint64) *Store {
	s := &Store{kk: kk, vk: vk, policy: policy, x: seed | 1, live: map[[2]uint64]*rec{}, dead: map[loc]bool{}, watch: "pgdb"}
	s.form0 = s.x >> 3 % 1000
	switch policy {
	case polUnique1:
		s.next = 1
	case polSingle:
		s.next = 5
	case polSegment:
		s.next = 1000
	}
	return s
}

func (s *Store) rnd() uint64 {
	s.x ^= s.x << 13
	s.x ^= s.x >> 7
	s.x ^= s.x << 17
	return s.x
}

func (s *Store) fail(cat string, format string, a ...any) error {
	m := fmt.Sprintf(format, a...)
	if strings.Contains(s.watch, cat) {
		s.bad.CompareAndSwap(nil, &m)
	}
	return errors.New("storage monitor: " + m)
}

// Bad returns the first contract violation, if any.
func (s *Store) Bad() string {
	if p := s.bad.Load(); p != nil {
		return *p
	}
	return ""
}

// oneAtATime is state as the storage and codec callbacks of a map may keep it that rely on the map's lock.
// (Comparators are not held to it: readers of an in-memory map could share a lock.)
type oneAtATime struct {
	n    int // no lock: the race detector watches it
	in   atomic.Int32
	over atomic.Bool // the map is not used any more
	bad  atomic.Pointer[string]
}

func (o *oneAtATime) enter(kind string) {
	o.n++
	s := ""
	if o.in.Add(1) > 1 {
		s = "callback " + kind + " was called while another callback of the same map was running"
	} else if o.over.Load() {
		s = "callback " + kind + " was called while no operation of the map was running"
	}
	if s != "" {
		o.bad.CompareAndSwap(nil, &s)
	}
}

func (o *oneAtATime) leave() { o.in.Add(-1) }

// end is called when the last operation has returned.
func (o *oneAtATime) end(c *Ctx) {
	o.over.Store(true)
	c.Count("callbacks watched for running alone", int64(o.n))
	o.verdict(c)
}

func (o *oneAtATime) verdict(c *Ctx) {
	if p := o.bad.Load(); p != nil {
		c.Fail("%s", *p)
	}
}

func (s *Store) at(kind string) (form int, err error) {
	if s.jit != nil {
		s.jit()
	}
	if s.fault != nil {
		if err := s.fault(kind); err != nil {
			s.fired.Add(1)
			n := s.forms.Add(1) + s.form0
			if err == errInjected {
				err = faults[n%uint64(len(faults))]
			}
			return int(n / 5 % 3), err
		}
	}
	return withZeros, nil
}

func (s *Store) alloc(n uint64) (num, off uint64) {
	switch s.policy {
	case polSingle:
		num, off = s.next, s.off
		s.off += n
	case polSegment:
		if s.off > 600 {
			s.next++
			s.off = 0
		}
		num, off = s.next, s.off
		s.off += n
	case polReuse:
		if k := len(s.free); k > 0 {
			f := s.free[k-1]
			s.free = s.free[:k-1]
			return f[0], f[1]
		}
		num, off = 7+s.next/4, (s.next%4)*100000
		s.next++
	case polRandom:
		for {
			num, off = s.rnd(), s.rnd()
			if s.next%5 == 0 {
				num = ^uint64(0) - s.next%3
			}
			s.next++
			if _, used := s.live[[2]uint64{num, off}]; !used {
				return
			}
		}
	case polGrid:
		if s.taken == nil {
			s.taken = map[[2]uint64]bool{}
		}
		for try := 0; ; try++ {
			num, off = s.grid(n)
			if try > 30 {
				num, off = 1<<52+s.next, s.rnd()
				s.next++
			}
			if l := [2]uint64{num, off}; !s.taken[l] {
				s.taken[l] = true
				return
			}
		}
	default:
		for used := true; used; _, used = s.live[[2]uint64{num, 0}] {
			num = s.next
			s.next++
		}
	}
	return
}

// grid picks a location at which a node of n bytes overlaps no other of the grid. For other locations of the grid n<<32|o, n^o,
// n+o, 31*n+o, the digits of n and o after each other, or one of the two alone, are the same.
func (s *Store) grid(n uint64) (num, off uint64) {
	x := s.rnd() >> 9
	if n < 10000 && x%4 == 0 {
		nums := []uint64{1, 11, 111, 1111}
		offs := []uint64{0, 10000, 110000, 1110000}
		return nums[x>>2%4], offs[x>>4%4]
	}
	num = x >> 2 % 9 << []uint{0, 0, 16, 32, 48}[x>>8%5]
	k := x >> 12 % 9
	if x>>16%8 == 0 {
		k = 31 * (1 + k%3)
	}
	off = k << []uint{32, 32, 48, 56}[x>>20%4]
	return
}

func (s *Store) okPut() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.putOK
}

func (s *Store) okDisc() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.discOK
}

func (s *Store) isProt(l loc) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.prot[l]
}

func (s *Store) PutNode(b []byte) (uint64, uint64, error) {
	if s.one != nil {
		s.one.enter("PutNode")
		defer s.one.leave()
	}
	s.puts.Add(1)
	if s.strictCalls && !s.okPut() {
		return 0, 0, s.fail("p", "PutNode called outside Flush")
	}
	if form, err := s.at("PutNode"); err != nil {
		if form != withZeros {
			return 1 << 40, uint64(s.puts.Load()), err
		}
		return 0, 0, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(b) == 0 {
		return 0, 0, s.fail("p", "PutNode of an empty node")
	}
	num, off := s.alloc(uint64(len(b)))
	r := &rec{loc: loc{num, off, uint64(len(b))}, handed: b, copied: append([]byte{}, b...), seq: s.seq}
	r.ret = fenced(b)
	s.seq++
	s.live[[2]uint64{num, off}] = r
	delete(s.dead, r.loc)
	if s.logOn {
		s.log = append(s.log, event{'P', r.loc})
	}
	if s.onPut != nil {
		s.onPut(r.loc)
	}
	return num, off, nil
}

func (s *Store) GetNode(n, o, l uint64) ([]byte, error) {
	if s.one != nil {
		s.one.enter("GetNode")
		defer s.one.leave()
	}
	s.gets.Add(1)
	lc := loc{n, o, l}
	if form, err := s.at("GetNode"); err != nil {
		switch b := s.bytesAt(lc); {
		case b == nil || form == withZeros:
			return nil, err
		case form == withRight:
			return append([]byte{}, b...), err
		default:
			return append([]byte{}, b[:len(b)/2]...), err
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.logOn {
		s.log = append(s.log, event{'G', lc})
	}
	if ov, ok := s.override[lc]; ok {
		s.ovHits.Add(1)
		return ov, nil
	}
	r := s.live[[2]uint64{n, o}]
	if r == nil || r.L != l {
		if s.dead[lc] {
			return nil, s.fail("g", "GetNode of the discarded node %v", lc)
		}
		return nil, s.fail("g", "GetNode of %v, which was never written", lc)
	}
	if s.onGet != nil {
		s.onGet(lc)
	}
	return r.ret, nil
}

func (s *Store) DiscardNode(n, o, l uint64) error {
	if s.one != nil {
		s.one.enter("DiscardNode")
		defer s.one.leave()
	}
	s.discs.Add(1)
	lc := loc{n, o, l}
	if s.strictCalls && !s.okDisc() {
		return s.fail("d", "DiscardNode called outside Prune and Discard")
	}
	if s.isProt(lc) {
		return s.fail("d", "DiscardNode of %v, which belongs to the last flushed image", lc)
	}
	if _, err := s.at("DiscardNode"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.logOn {
		s.log = append(s.log, event{'D', lc})
	}
	r := s.live[[2]uint64{n, o}]
	if r == nil || r.L != l {
		if s.dead[lc] {
			return s.fail("d", "DiscardNode of %v, already discarded", lc)
		}
		return s.fail("d", "DiscardNode of %v, which was never written with that number, offset and length", lc)
	}
	if s.onDisc != nil {
		s.onDisc(lc)
	}
	delete(s.live, [2]uint64{n, o})
	if !bytes.Equal(r.handed, r.copied) {
		return s.fail("b", "the bytes handed to PutNode for %v were modified afterwards", lc)
	}
	if !bytes.Equal(r.ret, r.copied) || !fenceWhole(r.ret) {
		return s.fail("b", "the bytes returned by GetNode for %v were modified", lc)
	}
	s.dead[lc] = true
	if s.policy == polReuse {
		s.free = append(s.free, [2]uint64{n, o})
	}
	return nil
}

func (s *Store) PackKey(k sortedmap.Key) ([]byte, error) {
	if s.one != nil {
		s.one.enter("PackKey")
		defer s.one.leave()
	}
	s.packs.Add(1)
	if form, err := s.at("PackKey"); err != nil {
		switch form {
		case withRight:
			b, _ := s.kk.Pack(k)
			return b, err
		case withWrong:
			return []byte{1, 2, 3}, err
		}
		return nil, err
	}
	return s.kk.Pack(k)
}

func (s *Store) UnpackKey(b []byte) (sortedmap.Key, uint64, error) {
	if s.one != nil {
		s.one.enter("UnpackKey")
		defer s.one.leave()
	}
	s.unpacks.Add(1)
	if form, err := s.at("UnpackKey"); err != nil {
		switch x, n, _ := s.kk.Unpack(b, nil); form {
		case withRight:
			return x, n, err
		case withWrong:
			return x, 0, err
		}
		return nil, 0, err
	}
	return s.kk.Unpack(b, nil)
}

func (s *Store) PackValue(v sortedmap.Value) ([]byte, error) {
	if s.one != nil {
		s.one.enter("PackValue")
		defer s.one.leave()
	}
	s.packs.Add(1)
	if form, err := s.at("PackValue"); err != nil {
		switch form {
		case withRight:
			b, _ := s.vk.Pack(v)
			return b, err
		case withWrong:
			return []byte{1, 2, 3}, err
		}
		return nil, err
	}
	return s.vk.Pack(v)
}

func (s *Store) UnpackValue(b []byte) (sortedmap.Value, uint64, error) {
	if s.one != nil {
		s.one.enter("UnpackValue")
		defer s.one.leave()
	}
	s.unpacks.Add(1)
	if form, err := s.at("UnpackValue"); err != nil {
		switch x, n, _ := s.vk.Unpack(b); form {
		case withRight:
			return x, n, err
		case withWrong:
			return x, 0, err
		}
		return nil, 0, err
	}
	return s.vk.Unpack(b)
}

var endings = []string{"", "", "", "", "%d", "%", "%!v(NIL)", "100%%", "%s%n%[9]d%*d", "\u65e5\u672c\u8a9e", "\xff\xfe", "\\n\\t\"'`", "nil", " a  b", "\x00.", "[1].Key = 5", strings.Repeat("x", 300)}

// ending is what a rendered key or value ends with: any text but a line break.
func ending(n int) string {
	if n < 0 {
		n = -n
	}
	return endings[n*7%97%len(endings)]
}

func (s *Store) DumpKey(k sortedmap.Key) (string, error) {
	if s.one != nil {
		s.one.enter("DumpKey")
		defer s.one.leave()
	}
	s.dumps.Add(1)
	if form, err := s.at("DumpKey"); err != nil {
		if form != withZeros {
			return "<X>", err
		}
		return "", err
	}
	r, _ := s.kk.Rank(k)
	return fmt.Sprintf("<K%d>", r) + ending(r), nil
}

func (s *Store) DumpValue(v sortedmap.Value) (string, error) {
	if s.one != nil {
		s.one.enter("DumpValue")
		defer s.one.leave()
	}
	s.dumps.Add(1)
	if form, err := s.at("DumpValue"); err != nil {
		if form != withZeros {
			return "<X>", err
		}
		return "", err
	}
	id, _ := s.vk.ID(v)
	return fmt.Sprintf("<V%d>", id) + ending(id), nil
}

// verifyBytes: no live node's bytes were modified by the library.
func (s *Store) verifyBytes() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, r := range s.live {
		if !bytes.Equal(r.handed, r.copied) {
			return fmt.Sprintf("the bytes handed to PutNode for %v were modified afterwards", r.loc)
		}
		if !bytes.Equal(r.ret, r.copied) || !fenceWhole(r.ret) {
			return fmt.Sprintf("the bytes returned by GetNode for %v were modified", r.loc)
		}
	}
	return ""
}

func (s *Store) liveSet() map[loc]bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[loc]bool{}
	for _, r := range s.live {
		m[r.loc] = true
	}
	return m
}

func (s *Store) bytesAt(l loc) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.live[[2]uint64{l.N, l.O}]
	if r == nil || r.L != l.L {
		return nil
	}
	return r.copied
}

// snapshot returns an independent store with the same contents (what a crash would leave behind).
func (s *Store) snapshot() *Store {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := &Store{kk: s.kk, vk: s.vk, policy: s.policy, x: s.x, next: s.next, off: s.off, free: append([][2]uint64{}, s.free...), live: map[[2]uint64]*rec{}, dead: map[loc]bool{}, watch: s.watch, taken: maps.Clone(s.taken)}
	for k, r := range s.live {
		n.live[k] = &rec{loc: r.loc, handed: r.copied, copied: r.copied, ret: fenced(r.copied), seq: r.seq}
	}
	for l := range s.dead {
		n.dead[l] = true
	}
	return n
}

// putRaw stores a node image made by the harness itself.
func (s *Store) putRaw(b []byte) loc {
	n, o, _ := s.PutNode(b)
	return loc{n, o, uint64(len(b))}
}

// ---- independent reader and writer of the node format ---------------------------

type ref struct {
	loc
	items uint64
}

type img struct {
	loc   loc
	items uint64
	root  bool
	leaf  bool
	max   uint64
	keys  []sortedmap.Key // leaf: all; inner: one fewer than kids
	vals  []sortedmap.Value
	kids  []ref
	// filled by walk
	depth    int
	sub      []*img
	min      int // rank of smallest key below
	maxRank  int
	count    int
	parent   *img
	raw      []byte
	rawKeys  [][]byte
	rawVals  [][]byte
	keyRanks []int
}

type rd struct {
	b  []byte
	bo binary.ByteOrder
}

func (r *rd) u64() (uint64, error) {
	if len(r.b) < 8 {
		return 0, errShort("uint64", len(r.b))
	}
	v := r.bo.Uint64(r.b)
	r.b = r.b[8:]
	return v, nil
}

func (r *rd) boolean() (bool, error) {
	if len(r.b) < 1 {
		return false, errShort("bool", 0)
	}
	v := r.b[0]
	r.b = r.b[1:]
	if v > 1 {
		return false, fmt.Errorf("flag byte %d", v)
	}
	return v == 1, nil
}

func decodeNode(b []byte, bo binary.ByteOrder, kk *KeyKind, vk *ValKind) (*img, error) {
	n := &img{raw: b}
	r := &rd{b, bo}
	var err error
	if n.items, err = r.u64(); err != nil {
		return nil, err
	}
	if n.root, err = r.boolean(); err != nil {
		return nil, err
	}
	if n.leaf, err = r.boolean(); err != nil {
		return nil, err
	}
	if n.root {
		if n.max, err = r.u64(); err != nil {
			return nil, err
		}
	}
	cnt, err := r.u64()
	if err != nil {
		return nil, err
	}
	key := func() error {
		k, c, err := kk.Unpack(r.b, bo)
		if err != nil {
			return err
		}
		n.rawKeys = append(n.rawKeys, r.b[:c])
		r.b = r.b[c:]
		rk, ok := kk.Rank(k)
		if !ok {
			return fmt.Errorf("stored key %v is not one the client ever used", k)
		}
		n.keys = append(n.keys, k)
		n.keyRanks = append(n.keyRanks, rk)
		return nil
	}
	for i := uint64(0); i < cnt; i++ {
		if n.leaf {
			if err := key(); err != nil {
				return nil, err
			}
			v, c, err := vk.Unpack(r.b)
			if err != nil {
				return nil, err
			}
			n.rawVals = append(n.rawVals, r.b[:c])
			r.b = r.b[c:]
			n.vals = append(n.vals, v)
			continue
		}
		if i > 0 {
			if err := key(); err != nil {
				return nil, err
			}
		}
		var w [4]uint64
		for j := range w {
			if w[j], err = r.u64(); err != nil {
				return nil, err
			}
		}
		n.kids = append(n.kids, ref{loc{w[0], w[1], w[2]}, w[3]})
	}
	if len(r.b) != 0 {
		return nil, fmt.Errorf("%d bytes left over", len(r.b))
	}
	return n, nil
}

func encodeNode(n *img, bo binary.ByteOrder, kk *KeyKind, vk *ValKind) []byte {
	var b []byte
	u := func(v uint64) { b = append(b, put(8, v, bo)...) }
	flag := func(f bool) {
		if f {
			b = append(b, 1)
		} else {
			b = append(b, 0)
		}
	}
	key := func(k sortedmap.Key) {
		p, err := kk.Pack(k)
		if err != nil {
			panic(err)
		}
		b = append(b, p...)
	}
	u(n.items)
	flag(n.root)
	flag(n.leaf)
	if n.root {
		u(n.max)
	}
	if n.leaf {
		u(uint64(len(n.keys)))
		for i, k := range n.keys {
			key(k)
			p, err := vk.Pack(n.vals[i])
			if err != nil {
				panic(err)
			}
			b = append(b, p...)
		}
		return b
	}
	u(uint64(len(n.kids)))
	for i, r := range n.kids {
		if i > 0 {
			key(n.keys[i-1])
		}
		u(r.N)
		u(r.O)
		u(r.L)
		u(r.items)
	}
	return b
}

// Image is one decoded tree.
type Image struct {
	root   *img
	nodes  map[loc]*img
	order  []*img // preorder
	leaves []*img
	height int
	ranks  []int
	vals   []sortedmap.Value
}

// walk decodes the whole tree at l from the bytes in storage.
func (s *Store) walk(l loc, bo binary.ByteOrder) (*Image, error) {
	im := &Image{nodes: map[loc]*img{}}
	var rec func(l loc, depth int, parent *img) (*img, error)
	rec = func(l loc, depth int, parent *img) (*img, error) {
		b := s.bytesAt(l)
		if b == nil {
			return nil, fmt.Errorf("node %v is referenced but not in storage", l)
		}
		if im.nodes[l] != nil {
			return nil, fmt.Errorf("node %v is referenced twice", l)
		}
		n, err := decodeNode(b, bo, s.kk, s.vk)
		if err != nil {
			return nil, fmt.Errorf("node %v: %w", l, err)
		}
		n.loc, n.depth, n.parent = l, depth, parent
		im.nodes[l] = n
		im.order = append(im.order, n)
		if depth+1 > im.height {
			im.height = depth + 1
		}
		if n.leaf {
			n.count = len(n.keys)
			im.leaves = append(im.leaves, n)
			im.ranks = append(im.ranks, n.keyRanks...)
			im.vals = append(im.vals, n.vals...)
			return n, nil
		}
		for _, k := range n.kids {
			c, err := rec(k.loc, depth+1, n)
			if err != nil {
				return nil, err
			}
			n.sub = append(n.sub, c)
			n.count += c.count
		}
		return n, nil
	}
	var err error
	im.root, err = rec(l, 0, nil)
	return im, err
}

// wellFormed checks the B+Tree rules; "" if they hold.
func (im *Image) wellFormed(max uint64) string {
	min := keyCap(max) / 2
	if !im.root.root {
		return "the root node does not carry the root flag"
	}
	if im.root.max != max {
		return fmt.Sprintf("the root records %d maximum keys, not %d", im.root.max, max)
	}
	for i := 1; i < len(im.ranks); i++ {
		if im.ranks[i-1] >= im.ranks[i] {
			return fmt.Sprintf("keys are not strictly ascending: rank %d before %d", im.ranks[i-1], im.ranks[i])
		}
	}
	var rec func(n *img, lo, hi int) string
	rec = func(n *img, lo, hi int) string {
		nm := fmt.Sprintf("node %v (depth %d, leaf %v, %d keys)", n.loc, n.depth, n.leaf, len(n.keys))
		if n.root != (n.parent == nil) {
			return nm + ": wrong root flag"
		}
		if len(n.keys) > keyCap(max) {
			return fmt.Sprintf("%s has more than %d keys", nm, max)
		}
		if n.parent != nil && len(n.keys) < min {
			return fmt.Sprintf("%s has fewer than %d keys", nm, min)
		}
		if n.items != uint64(n.count) {
			return fmt.Sprintf("%s records %d items but %d are below it", nm, n.items, n.count)
		}
		for i, r := range n.keyRanks {
			if r < lo || r >= hi {
				return fmt.Sprintf("%s: key rank %d outside the separators [%d,%d)", nm, r, lo, hi)
			}
			if i > 0 && n.keyRanks[i-1] >= r {
				return nm + ": keys not strictly ascending"
			}
		}
		if n.leaf {
			if n.depth != im.height-1 {
				return nm + ": leaves at different depths"
			}
			return ""
		}
		if len(n.kids) < 2 {
			return nm + ": inner node with fewer than one key"
		}
		for i, c := range n.sub {
			if n.kids[i].items != uint64(c.count) {
				return fmt.Sprintf("%s records %d items for child %d, which has %d", nm, n.kids[i].items, i, c.count)
			}
			clo, chi := lo, hi
			if i > 0 {
				clo = n.keyRanks[i-1]
			}
			if i < len(n.keyRanks) {
				chi = n.keyRanks[i]
			}
			if m := rec(c, clo, chi); m != "" {
				return m
			}
		}
		return ""
	}
	return rec(im.root, -1<<60, 1<<60)
}

// pathTo returns the nodes from the root to the leaf responsible for rank r.
func (im *Image) pathTo(r int) []*img {
	var p []*img
	n := im.root
	for {
		p = append(p, n)
		if n.leaf {
			return p
		}
		i := sort.Search(len(n.keyRanks), func(i int) bool { return n.keyRanks[i] > r })
		n = n.sub[i]
	}
}

func (im *Image) set() map[loc]bool {
	m := map[loc]bool{}
	for l := range im.nodes {
		m[l] = true
	}
	return m
}

// ---- building images by hand -----------------------------------------------------

// buildImage writes a B+Tree of the given ascending ranks with its own layout choices and returns its root.
// pick chooses the size of the next node between lo and hi.
func buildImage(s *Store, bo binary.ByteOrder, max uint64, ranks []int, val func(i int) sortedmap.Value, pick func(lo, hi int) int) loc {
	min := keyCap(max) / 2
	type sub struct {
		ref
		minRank int
	}
	mk := func(n *img) ref {
		b := encodeNode(n, bo, s.kk, s.vk)
		return ref{s.putRaw(b), n.items}
	}
	// chop n elements into groups of lo..hi
	chop := func(n, lo, hi int) []int {
		var g []int
		for n > 0 {
			if n <= hi {
				if n < lo { // borrow
					d := lo - n
					g[len(g)-1] -= d
					n += d
				}
				g = append(g, n)
				break
			}
			mx := hi
			if n-mx < lo && n-lo < mx {
				mx = n - lo
			}
			k := pick(lo, mx)
			g = append(g, k)
			n -= k
		}
		return g
	}
	if len(ranks) <= keyCap(max) && (len(ranks) < 2*min || pick(0, 1) == 0) {
		n := &img{items: uint64(len(ranks)), root: true, leaf: true, max: max}
		for i, r := range ranks {
			n.keys = append(n.keys, s.kk.Key(r))
			n.vals = append(n.vals, val(i))
		}
		return mk(n).loc
	}
	var level []sub
	i := 0
	var groups []int
	if len(ranks) <= keyCap(max) {
		groups = []int{len(ranks) / 2, len(ranks) - len(ranks)/2}
	} else {
		groups = chop(len(ranks), min, keyCap(max))
	}
	for _, g := range groups {
		n := &img{items: uint64(g), leaf: true}
		for j := 0; j < g; j++ {
			n.keys = append(n.keys, s.kk.Key(ranks[i+j]))
			n.vals = append(n.vals, val(i+j))
		}
		level = append(level, sub{mk(n), ranks[i]})
		i += g
	}
	for {
		root := len(level) <= keyCap(max)+1
		var groups []int
		if root {
			groups = []int{len(level)}
		} else {
			groups = chop(len(level), min+1, keyCap(max)+1)
		}
		var up []sub
		i := 0
		for _, g := range groups {
			n := &img{root: root, max: max}
			for j := 0; j < g; j++ {
				n.items += level[i+j].items
				n.kids = append(n.kids, level[i+j].ref)
				if j > 0 {
					n.keys = append(n.keys, s.kk.Key(level[i+j].minRank))
				}
			}
			up = append(up, sub{mk(n), level[i].minRank})
			i += g
		}
		if root {
			return up[0].loc
		}
		level = up
	}
}
