package main

import (
	"fmt"
	"sort"

	"github.com/NVIDIA/sortedmap"
)

// ---- reference dictionary --------------------------------------------------------

type Model struct {
	r []int // ranks, ascending
	v []int // value ids
}

func (m *Model) find(r int) (int, bool) {
	i := sort.SearchInts(m.r, r)
	return i, i < len(m.r) && m.r[i] == r
}

func (m *Model) insert(i, r, v int) {
	m.r = append(m.r, 0)
	copy(m.r[i+1:], m.r[i:])
	m.r[i] = r
	m.v = append(m.v, 0)
	copy(m.v[i+1:], m.v[i:])
	m.v[i] = v
}

func (m *Model) remove(i int) {
	m.r = append(m.r[:i], m.r[i+1:]...)
	m.v = append(m.v[:i], m.v[i+1:]...)
}

func (m *Model) clone() *Model {
	return &Model{append([]int{}, m.r...), append([]int{}, m.v...)}
}

// ---- driver of one map -------------------------------------------------------------

// abandon ends a case without a verdict: the property under study can no longer be observed.
type abandon struct{ why string }

// MD drives one map and compares everything it answers with the model.
// With Lenient set it only steers by the model and compares nothing.
type MD struct {
	c       *Ctx
	m       sortedmap.SortedMap
	kk      *KeyKind
	vk      *ValKind
	mod     *Model
	name    string
	lenient bool
	nextID  int
	st      *Store // nil for in-memory maps
	after   func() // called after every operation
}

func (d *MD) bad(format string, a ...any) {
	if d.lenient {
		panic(&abandon{fmt.Sprintf(format, a...)})
	}
	d.c.Fail("%s: %s", d.name, fmt.Sprintf(format, a...))
}

// wrong reports a result that differs from the model; a lenient driver goes on.
func (d *MD) wrong(format string, a ...any) {
	if d.lenient {
		d.c.Count("results differing from the model (not judged here)", 1)
		return
	}
	d.c.Fail("%s: %s", d.name, fmt.Sprintf(format, a...))
}

// opFailed unwinds an operation that failed because a fault was injected into it.
type opFailed struct{ err error }

func (d *MD) noErr(op string, err error) {
	if d.st != nil {
		if b := d.st.Bad(); b != "" {
			d.c.Fail("%s: during %s: %s", d.name, op, b)
		}
		if f := d.st.fired.Swap(0); f > 0 {
			if err == nil {
				d.bad("a callback failed during %s but it returned no error", op)
			}
			panic(&opFailed{err})
		}
	}
	if err != nil {
		d.bad("%s returned error %v", op, err)
	}
	if d.after != nil {
		d.after()
	}
}

func (d *MD) id() int { d.nextID++; return d.nextID }

func (d *MD) Put(r int) bool {
	d.c.Step("Put", r, 0)
	id := d.id()
	ok, err := d.m.Put(d.kk.Key(r), d.vk.Val(id))
	d.noErr("Put", err)
	i, found := d.mod.find(r)
	if ok == found {
		d.wrong("Put(%d) returned ok=%v but the key was present=%v", r, ok, found)
	}
	if !found {
		d.mod.insert(i, r, id)
	}
	return !found
}

func (d *MD) Get(r int) {
	d.c.Step("GetByKey", r, 0)
	v, ok, err := d.m.GetByKey(d.kk.Key(r))
	d.noErr("GetByKey", err)
	d.checkGet(r, v, ok)
}

func (d *MD) checkGet(r int, v sortedmap.Value, ok bool) {
	i, found := d.mod.find(r)
	if ok != found {
		d.wrong("GetByKey(%d) returned ok=%v, present=%v", r, ok, found)
	} else if found && !d.vk.match(v, d.mod.v[i]) {
		d.wrong("GetByKey(%d) returned value %.80v, expected value #%d", r, v, d.mod.v[i])
	}
}

func (d *MD) GetIdx(i int) {
	d.c.Step("GetByIndex", i, 0)
	k, v, ok, err := d.m.GetByIndex(i)
	d.noErr("GetByIndex", err)
	d.checkIdx(i, k, v, ok)
}

func (d *MD) checkIdx(i int, k sortedmap.Key, v sortedmap.Value, ok bool) {
	want := i >= 0 && i < len(d.mod.r)
	if ok != want {
		d.wrong("GetByIndex(%d) returned ok=%v with %d items", i, ok, len(d.mod.r))
		return
	}
	if !want {
		return
	}
	r, kok := d.kk.Rank(k)
	if !kok || r != d.mod.r[i] {
		d.wrong("GetByIndex(%d) returned key %.80v, expected the key of rank %d", i, k, d.mod.r[i])
	} else if !d.vk.match(v, d.mod.v[i]) {
		d.wrong("GetByIndex(%d) returned value %.80v, expected value #%d", i, v, d.mod.v[i])
	}
}

func (d *MD) Del(r int) bool {
	d.c.Step("DeleteByKey", r, 0)
	ok, err := d.m.DeleteByKey(d.kk.Key(r))
	d.noErr("DeleteByKey", err)
	i, found := d.mod.find(r)
	if ok != found {
		d.wrong("DeleteByKey(%d) returned ok=%v, present=%v", r, ok, found)
	}
	if found {
		d.mod.remove(i)
	}
	return found
}

func (d *MD) DelIdx(i int) bool {
	d.c.Step("DeleteByIndex", i, 0)
	ok, err := d.m.DeleteByIndex(i)
	d.noErr("DeleteByIndex", err)
	want := i >= 0 && i < len(d.mod.r)
	if ok != want {
		d.wrong("DeleteByIndex(%d) returned ok=%v with %d items", i, ok, len(d.mod.r))
	}
	if want {
		d.mod.remove(i)
	}
	return want
}

func (d *MD) Patch(r int) bool {
	d.c.Step("PatchByKey", r, 0)
	id := d.id()
	ok, err := d.m.PatchByKey(d.kk.Key(r), d.vk.Val(id))
	d.noErr("PatchByKey", err)
	i, found := d.mod.find(r)
	if ok != found {
		d.wrong("PatchByKey(%d) returned ok=%v, present=%v", r, ok, found)
	}
	if found {
		d.mod.v[i] = id
	}
	return found
}

func (d *MD) PatchIdx(i int) bool {
	d.c.Step("PatchByIndex", i, 0)
	id := d.id()
	ok, err := d.m.PatchByIndex(i, d.vk.Val(id))
	d.noErr("PatchByIndex", err)
	want := i >= 0 && i < len(d.mod.r)
	if ok != want {
		d.wrong("PatchByIndex(%d) returned ok=%v with %d items", i, ok, len(d.mod.r))
	}
	if want {
		d.mod.v[i] = id
	}
	return want
}

func (d *MD) BisL(r int) {
	d.c.Step("BisectLeft", r, 0)
	idx, found, err := d.m.BisectLeft(d.kk.Key(r))
	d.noErr("BisectLeft", err)
	i, want := d.mod.find(r)
	wi := i
	if !want {
		wi = i - 1
	}
	if idx != wi || found != want {
		d.wrong("BisectLeft(%d) returned %d,%v, expected %d,%v", r, idx, found, wi, want)
	}
}

func (d *MD) BisR(r int) {
	d.c.Step("BisectRight", r, 0)
	idx, found, err := d.m.BisectRight(d.kk.Key(r))
	d.noErr("BisectRight", err)
	i, want := d.mod.find(r)
	if idx != i || found != want {
		d.wrong("BisectRight(%d) returned %d,%v, expected %d,%v", r, idx, found, i, want)
	}
}

func (d *MD) Len() {
	d.c.Step("Len", 0, 0)
	n, err := d.m.Len()
	d.noErr("Len", err)
	if n != len(d.mod.r) {
		d.wrong("Len returned %d, expected %d", n, len(d.mod.r))
	}
}

// All compares the whole contents, by index, by key and by bisection.
func (d *MD) All(byKey bool) {
	d.Len()
	for i := -1; i <= len(d.mod.r); i++ {
		d.GetIdx(i)
	}
	if !byKey {
		return
	}
	for i, r := range d.mod.r {
		d.Get(r)
		switch i % 4 {
		case 0:
			d.BisL(r)
		case 1:
			d.BisR(r)
		case 2:
			if r > 0 {
				d.BisL(r - 1)
				d.Get(r - 1)
			}
		case 3:
			if r+1 < d.kk.N {
				d.BisR(r + 1)
				d.Get(r + 1)
			}
		}
	}
}

// ---- key distributions ----------------------------------------------------------------

// A Mix describes a random workload.
type Mix struct {
	U       int // ranks 0..U-1 are used
	target  int // preferred size
	pattern int // 0 uniform, 1 ascending, 2 descending, 3 clustered, 4 two ends
	pos     int
	reads   int // percentage of read operations
	cap     int // >0: now and then a run of updates at one place, enough to fill or drain a few nodes of this capacity

	// A stretch of operations may leave out some kinds of operation, and stay with a few keys: what is remembered from one
	// operation to the next, and forgotten upon some others, shows only when those others stay away.
	left int   // operations left of the stretch
	off  uint  // kinds of operation left out
	hot  []int // ranks to stay with
}

const (
	opPatch = iota
	opPatchIdx
	opPut
	opDel
	opDelIdx
	opGet
	opGetAny
	opGetIdx
	opBisL
	opBisR
	opLen
	opLast
)

func (x *Mix) stretch(c *Ctx) {
	if x.left > 0 {
		x.left--
		return
	}
	x.left = 10 + c.rng.IntN(150)
	x.off, x.hot = 0, nil
	hot := func() {
		r := x.rank(c)
		x.hot = []int{}
		for k := c.rng.IntN(4); k >= 0; k-- {
			x.hot = append(x.hot, r)
			if c.rng.IntN(2) == 0 {
				r = (r + 1) % x.U
			} else {
				r = x.rank(c)
			}
		}
	}
	switch c.rng.IntN(9) {
	case 0:
		x.off = uint(c.rng.Uint32())
	case 1:
		x.off = 1<<opPut | 1<<opDel | 1<<opDelIdx
	case 2:
		hot()
	case 3:
		hot()
		x.off = 1<<opPut | 1<<opDel | 1<<opDelIdx
	case 4:
		hot()
		x.off = uint(c.rng.Uint32())
	}
}

func newMix(c *Ctx, kk *KeyKind, maxU int) *Mix {
	if c.lim > 0 && c.mix != nil {
		m := *c.mix
		return &m
	}
	u := 4 << c.rng.IntN(10)
	if u > maxU {
		u = maxU
	}
	if u > kk.N {
		u = kk.N
	}
	if c.big {
		u = min(u, 50)
	}
	return &Mix{U: u, target: c.rng.IntN(u + 1), pattern: c.rng.IntN(5), reads: 20 + c.rng.IntN(40)}
}

func (x *Mix) rank(c *Ctx) int {
	if x.hot != nil && len(x.hot) > 0 && c.rng.IntN(8) != 0 {
		return x.hot[c.rng.IntN(len(x.hot))]
	}
	switch x.pattern {
	case 1:
		x.pos = (x.pos + 1 + c.rng.IntN(2)) % x.U
		return x.pos
	case 2:
		x.pos = (x.pos + x.U - 1 - c.rng.IntN(2)%x.U) % x.U
		return x.pos
	case 3:
		if c.rng.IntN(20) == 0 {
			x.pos = c.rng.IntN(x.U)
		}
		return (x.pos + c.rng.IntN(12)) % x.U
	case 4:
		k := c.rng.IntN(1 + x.U/8)
		if c.rng.IntN(2) == 0 {
			return k
		}
		return x.U - 1 - k
	}
	return c.rng.IntN(x.U)
}

// some index, mostly legal, sometimes just outside, sometimes wild
func someIndex(c *Ctx, n int) int {
	switch c.rng.IntN(24) {
	case 0:
		return -1
	case 1:
		return n
	case 2:
		return n + 1 + c.rng.IntN(5)
	case 3:
		return []int{-1 << 63, 1<<63 - 1, -2, 1 << 32, -(1 << 32)}[c.rng.IntN(5)]
	case 4:
		return 0
	case 5:
		return n - 1
	}
	if n == 0 {
		return 0
	}
	return c.rng.IntN(n)
}

// presentOr returns the rank of a present item (when there is one), else a random rank.
func (d *MD) presentOr(x *Mix) int {
	if x.hot != nil && d.c.rng.IntN(8) != 0 {
		return x.hot[d.c.rng.IntN(len(x.hot))]
	}
	if n := len(d.mod.r); n > 0 && d.c.rng.IntN(4) != 0 {
		return d.mod.r[d.c.rng.IntN(n)]
	}
	return x.rank(d.c)
}

// index is some index, or that of a rank the stretch stays with.
func (d *MD) index(x *Mix) int {
	if x.hot != nil && d.c.rng.IntN(8) != 0 {
		i, _ := d.mod.find(x.hot[d.c.rng.IntN(len(x.hot))])
		return i
	}
	return someIndex(d.c, len(d.mod.r))
}

// RandomOp performs one map operation.
func (d *MD) RandomOp(x *Mix) {
	c := d.c
	if c.rng.IntN(300) == 0 {
		x.pattern = c.rng.IntN(5)
	}
	if x.cap > 0 {
		if c.rng.IntN(60) == 0 {
			d.burst(x.cap)
			return
		}
	} else if c.rng.IntN(150) == 0 {
		x.target = c.rng.IntN(x.U + 1)
	}
	x.stretch(c)
	if c.rng.IntN(100) < x.reads {
		d.RandomRead(x)
		return
	}
	op := 0
	for try := 0; try < 6; try++ {
		grow := len(d.mod.r) < x.target
		k := c.rng.IntN(10)
		switch {
		case k < 2:
			op = opPatch + c.rng.IntN(2)
		case (k < 8) == grow:
			op = opPut
		default:
			op = opDel + c.rng.IntN(2)
		}
		if x.off>>op&1 == 0 {
			break
		}
		op = opPatch + c.rng.IntN(2)
	}
	switch op {
	case opPatch:
		d.Patch(d.presentOr(x))
	case opPatchIdx:
		d.PatchIdx(d.index(x))
	case opPut:
		d.Put(x.rank(c))
	case opDel:
		d.Del(d.presentOr(x))
	default:
		d.DelIdx(d.index(x))
	}
}

func (d *MD) RandomRead(x *Mix) {
	c := d.c
	op := 0
	for try := 0; try < 6; try++ {
		op = opGet + c.rng.IntN(6)
		if x.off>>op&1 == 0 {
			break
		}
	}
	switch op {
	case opGet:
		d.Get(d.presentOr(x))
	case opGetAny:
		d.Get(x.rank(c))
	case opGetIdx:
		d.GetIdx(d.index(x))
	case opBisL:
		d.BisL(d.presentOr(x))
	case opBisR:
		d.BisR(d.presentOr(x))
	default:
		d.Len()
	}
}

// RandomUpdate performs one modifying operation (it may still be refused).
func (d *MD) RandomUpdate(x *Mix) {
	r := x.reads
	x.reads = 0
	d.RandomOp(x)
	x.reads = r
}

// ---- B+Tree driver ------------------------------------------------------------------------

type BT struct {
	MD
	t      sortedmap.BPlusTree
	cache  sortedmap.BPlusTreeCache
	max    uint64
	last   loc    // last flushed location
	lastM  *Model // contents at that flush
	policy int

	resLeft int  // events left of the stretch
	resOff  uint // kinds of residency event left out in this stretch
}

// resKind picks one of n kinds of residency event, in stretches from which some kinds are left out.
func (b *BT) resKind(n int) int {
	c := b.c
	if b.resLeft--; b.resLeft < 0 {
		b.resLeft = 3 + c.rng.IntN(30)
		b.resOff = 0
		switch c.rng.IntN(4) {
		case 0:
			b.resOff = uint(c.rng.Uint32())
		case 1:
			b.resOff = uint(c.rng.Uint32() | c.rng.Uint32())
		}
	}
	k := 0
	for try := 0; try < 40; try++ {
		if k = c.rng.IntN(n); b.resOff>>k&1 == 0 {
			break
		}
	}
	return k
}

var legalMax = []uint64{4, 6, 8, 10, 16, 32, 64, 12, 14, 18, 22, 100, 128}

// giantMax are maxima no node ever reaches.
var giantMax = []uint64{1<<16 - 2, 1 << 16, 1<<31 - 2, 1 << 31, 1<<32 - 2, 1 << 32, 1 << 40, 1<<63 - 2, 1 << 63, 1<<64 - 2}

// keyCap is max as a number of keys.
func keyCap(max uint64) int { return int(min(max, 1<<40)) }

func pickMax(c *Ctx) uint64 {
	if c.rng.IntN(16) == 0 {
		return giantMax[c.rng.IntN(len(giantMax))]
	}
	switch c.rng.IntN(10) {
	case 0, 1, 2, 3:
		return 4
	case 4, 5:
		return 6
	case 6:
		return 8
	case 7:
		return 10
	case 8:
		return 16
	}
	if c.rng.IntN(2) == 0 {
		return 2 * uint64(2+c.rng.IntN(100))
	}
	return legalMax[c.rng.IntN(len(legalMax))]
}

type BTOpt struct {
	kk     *KeyKind
	vk     *ValKind
	max    uint64
	policy int
	cache  sortedmap.BPlusTreeCache
	name   string
	fixed  bool // the kind of key is part of the check
}

func newBT(c *Ctx, o BTOpt) *BT {
	st := newStore(o.kk, o.vk, o.policy, c.rng.Uint64())
	return newBTOn(c, o, st)
}

func newBTOn(c *Ctx, o BTOpt, st *Store) *BT {
	if o.name == "" {
		o.name = "B+Tree"
	}
	b := &BT{max: o.max, cache: o.cache, policy: o.policy}
	b.c, b.kk, b.vk, b.name, b.st, b.mod = c, o.kk, o.vk, o.name, st, &Model{}
	b.t = sortedmap.NewBPlusTree(o.max, o.kk.Cmp, st, o.cache)
	b.m = b.t
	return b
}

func randBTOpt(c *Ctx) BTOpt {
	if c.big {
		o := BTOpt{kk: kkHuge, vk: vkHuge, max: []uint64{4, 4, 6, 8, 16, 64}[c.rng.IntN(6)], policy: c.rng.IntN(nPolicies)}
		switch c.rng.IntN(5) {
		case 0:
			o.vk = vkUnit
		case 1:
			o.kk = kkInt
		case 2:
			o.kk = kkStr
		}
		return o
	}
	return BTOpt{kk: anyKeys(c), vk: anyVals(c), max: pickMax(c), policy: c.rng.IntN(nPolicies)}
}

func anyKeys(c *Ctx) *KeyKind {
	l := keyKinds()
	if k := c.rng.IntN(len(l) + 1); k < len(l) {
		return l[k]
	}
	return arenaKeys()
}

func anyVals(c *Ctx) *ValKind {
	l := valKinds()
	if k := c.rng.IntN(len(l) + 1); k < len(l) {
		return l[k]
	}
	return arenaVals()
}

func (o BTOpt) String() string {
	return fmt.Sprintf("max=%d key=%s value=%s storage=%s", o.max, o.kk.Name, o.vk.Name, polNames[o.policy])
}

func (b *BT) Flush(purge bool) loc {
	p := 0
	if purge {
		p = 1
	}
	b.c.Step("Flush", p, 0)
	b.st.setOK(true, false)
	n, o, l, err := b.t.Flush(purge)
	b.st.setOK(false, false)
	b.noErr("Flush", err)
	b.last, b.lastM = loc{n, o, l}, b.mod.clone()
	return b.last
}

func (b *BT) Prune() {
	b.c.Step("Prune", 0, 0)
	b.st.setOK(false, true)
	err := b.t.Prune()
	b.st.setOK(false, false)
	b.noErr("Prune", err)
}

func (b *BT) Discard() {
	b.c.Step("Discard", 0, 0)
	b.st.setOK(false, true)
	err := b.t.Discard()
	b.st.setOK(false, false)
	b.noErr("Discard", err)
}

// try runs f and tells whether an operation in it failed through an injected fault.
func try(f func()) (failed bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			o, ok := r.(*opFailed)
			if !ok {
				panic(r)
			}
			failed, err = true, o.err
		}
	}()
	f()
	return
}

func (s *Store) setOK(put, disc bool) {
	s.mu.Lock()
	s.putOK, s.discOK = put, disc
	s.mu.Unlock()
}

func (b *BT) Purge(full bool) {
	f := 0
	if full {
		f = 1
	}
	b.c.Step("Purge", f, 0)
	b.noErr("Purge", b.t.Purge(full))
}

func (b *BT) Touch() {
	b.c.Step("Touch", 0, 0)
	b.noErr("Touch", b.t.Touch())
}

func (b *BT) TouchItem(i int) int {
	b.c.Step("TouchItem", i, 0)
	n, err := b.t.TouchItem(uint64(i))
	b.noErr("TouchItem", err)
	return int(n)
}

func (b *BT) Validate() {
	b.c.Step("Validate", 0, 0)
	b.noErr("Validate", b.t.Validate())
}

// reopen opens the tree at l in storage st with the given cache.
func (b *BT) reopen(st *Store, l loc, cache sortedmap.BPlusTreeCache) *BT {
	b.c.Step("OldBPlusTree", int(l.N), int(l.O))
	t, err := sortedmap.OldBPlusTree(l.N, l.O, l.L, b.kk.Cmp, st, cache)
	n := &BT{max: b.max, cache: cache, policy: b.policy, t: t, last: l, lastM: b.lastM}
	n.MD = b.MD
	n.m, n.st, n.name, n.after = t, st, "reopened "+b.name, nil
	n.mod = b.mod.clone()
	n.noErr("OldBPlusTree", err)
	return n
}

// fill puts a random set of n items.
func (b *BT) fill(n int, x *Mix) {
	for len(b.mod.r) < n && len(b.mod.r) < x.U {
		before := len(b.mod.r)
		b.Put(x.rank(b.c))
		if len(b.mod.r) == before {
			b.Put(b.c.rng.IntN(x.U))
		}
	}
}

// fillAsc fills fast in a random permutation of evenly spaced ranks (even ranks only, so odd ones are absent).
func (b *BT) fillPerm(n int) {
	step := 2
	if n*step > b.kk.N {
		n = b.kk.N / step
	}
	for _, i := range b.c.rng.Perm(n) {
		b.Put(i*step + 1)
	}
}

// image decodes what is in storage at l; when it is not a readable tree it fails (or, lenient, abandons the case).
func (b *BT) image(l loc) *Image {
	im, err := b.st.walk(l, curBO())
	if err != nil {
		b.bad("the flushed image at %v is not readable: %v", l, err)
	}
	return im
}

// mustImage is image for the properties about images: always a failure.
func (b *BT) mustImage(l loc) *Image {
	im, err := b.st.walk(l, curBO())
	if err != nil {
		b.c.Fail("%s: the flushed image at %v is not a readable tree: %v", b.name, l, err)
	}
	return im
}

// sameAs compares a decoded image with a model.
func (im *Image) sameAs(m *Model, vk *ValKind) string {
	if len(im.ranks) != len(m.r) {
		return fmt.Sprintf("%d items instead of %d", len(im.ranks), len(m.r))
	}
	for i := range m.r {
		if im.ranks[i] != m.r[i] {
			return fmt.Sprintf("key rank %d instead of %d at position %d", im.ranks[i], m.r[i], i)
		}
		if !vk.match(im.vals[i], m.v[i]) {
			return fmt.Sprintf("value %.60v instead of #%d at position %d", im.vals[i], m.v[i], i)
		}
	}
	return ""
}
