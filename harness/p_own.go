package main

import (
	"encoding/binary"
	"fmt"
	"sync"

	"github.com/NVIDIA/sortedmap"
)

// p_own.go: what callers own. Keys that compare equal without being the same (a map keeps the one first put), values
// that their owner changes in place and then patches again, and keys and values that share their memory with others.

// okey compares by rank only.
type okey struct {
	rank int
	tag  uint32
}

type cell struct{ id int }

var kkOwn = &KeyKind{
	Name: "tagged", N: 1 << 20,
	Key: func(r int) sortedmap.Key { return okey{rank: r} },
	Rank: func(k sortedmap.Key) (int, bool) {
		o, ok := k.(okey)
		return o.rank, ok
	},
	Cmp: func(a, b sortedmap.Key) (int, error) {
		x, ok1 := a.(okey)
		y, ok2 := b.(okey)
		if !ok1 || !ok2 {
			return 0, fmt.Errorf("cannot compare %T and %T", a, b)
		}
		return ord(x.rank, y.rank), nil
	},
	Pack: func(k sortedmap.Key) ([]byte, error) {
		o, ok := k.(okey)
		if !ok {
			return nil, badKey(k)
		}
		return append(put(4, uint64(o.rank), keyBO), put(4, uint64(o.tag), keyBO)...), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		if len(b) < 8 {
			return nil, 0, errShort("key", len(b))
		}
		return okey{int(keyBO.Uint32(b)), keyBO.Uint32(b[4:])}, 8, nil
	},
}

var vkOwn = &ValKind{
	Name: "cell",
	Val:  func(id int) sortedmap.Value { return &cell{id} },
	ID: func(v sortedmap.Value) (int, bool) {
		p, ok := v.(*cell)
		if !ok || p == nil {
			return 0, false
		}
		return p.id, true
	},
	Pack: func(v sortedmap.Value) ([]byte, error) {
		p, ok := v.(*cell)
		if !ok {
			return nil, fmt.Errorf("cannot pack value %T", v)
		}
		return put(4, uint64(p.id), keyBO), nil
	},
	Unpack: func(b []byte) (sortedmap.Value, uint64, error) {
		if len(b) < 4 {
			return nil, 0, errShort("value", len(b))
		}
		return &cell{int(keyBO.Uint32(b))}, 4, nil
	},
}

// ownRun drives one map; with reopen, only what a reopened tree holds is judged.
func ownRun(tree, reopen bool) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		var m sortedmap.SortedMap
		var bt sortedmap.BPlusTree
		var st *Store
		cache := randCache(c)
		if tree {
			st = newStore(kkOwn, vkOwn, c.rng.IntN(nPolicies), c.rng.Uint64())
			bt = sortedmap.NewBPlusTree([]uint64{4, 4, 6, 8, 64}[i%5], kkOwn.Cmp, st, cache)
			m = bt
		} else {
			m = sortedmap.NewLLRBTree(kkOwn.Cmp, newStore(kkOwn, vkOwn, 0, 1))
		}
		mod := &Model{}
		tags := map[int]uint32{} // of the keys first put
		cells := map[int]*cell{} // the values last put or patched
		U := 4 + c.rng.IntN([]int{12, 60, 400}[i%3])
		id := 0
		fail := func(format string, a ...any) {
			if reopen {
				panic(&abandon{fmt.Sprintf(format, a...)}) // another property's affair
			}
			c.Fail(format, a...)
		}
		noErr := func(op string, err error) {
			if err != nil {
				fail("%s returned error %v", op, err)
			}
		}
		check := func(m sortedmap.SortedMap, what string, fail func(string, ...any)) {
			n, err := m.Len()
			if err != nil || n != len(mod.r) {
				fail("%s: Len is %d (error %v), expected %d", what, n, err, len(mod.r))
			}
			for x, r := range mod.r {
				k, v, ok, err := m.GetByIndex(x)
				o, isKey := k.(okey)
				p, isVal := v.(*cell)
				if err != nil || !ok || !isKey || !isVal || p == nil || o.rank != r {
					fail("%s: GetByIndex(%d) returned %v, %v, %v, error %v; expected key %d", what, x, k, v, ok, err, r)
				}
				if o.tag != tags[r] {
					fail("%s: the key at %d is %d/%d, but %d/%d was put: of keys that compare equal the map holds the one first put", what, x, o.rank, o.tag, r, tags[r])
				}
				if p.id != mod.v[x] {
					fail("%s: key %d has value %d, expected %d", what, r, p.id, mod.v[x])
				}
				if !tree && p != cells[r] {
					fail("%s: key %d has a value equal to the one put, but not that one", what, r)
				}
			}
			c.Count("keys and values identified", int64(len(mod.r)))
		}
		// renew gives the value to patch with: a new one, or the present one changed in place.
		renew := func(r int) *cell {
			id++
			if c.rng.IntN(2) == 0 {
				return &cell{id}
			}
			v, ok, err := m.GetByKey(okey{r, c.rng.Uint32()})
			noErr("GetByKey", err)
			p, is := v.(*cell)
			if !ok || !is {
				return &cell{id}
			}
			p.id = id
			c.Count("values changed in place and patched", 1)
			return p
		}
		for g := 0; g < 6; g++ {
			for s := c.rng.IntN(3 * U); s >= 0; s-- {
				r := c.rng.IntN(U)
				k := okey{r, c.rng.Uint32()}
				x, present := mod.find(r)
				switch op := c.rng.IntN(12); op {
				case 0, 1, 2, 3:
					c.Step("Put", r, 0)
					id++
					p := &cell{id}
					ok, err := m.Put(k, p)
					noErr("Put", err)
					if ok == present {
						fail("Put(%d) returned %v, present=%v", r, ok, present)
					}
					if !present {
						mod.insert(x, r, id)
						tags[r], cells[r] = k.tag, p
					}
				case 4, 5:
					c.Step("DeleteByKey", r, 0)
					ok, err := m.DeleteByKey(k)
					noErr("DeleteByKey", err)
					if ok != present {
						fail("DeleteByKey(%d) returned %v, present=%v", r, ok, present)
					}
					if present {
						mod.remove(x)
					}
				case 6, 7:
					p := renew(r)
					c.Step("PatchByKey", r, 0)
					ok, err := m.PatchByKey(k, p)
					noErr("PatchByKey", err)
					if ok != present {
						fail("PatchByKey(%d) returned %v, present=%v", r, ok, present)
					}
					if present {
						mod.v[x], cells[r] = p.id, p
					}
				case 8, 9:
					if !present {
						continue
					}
					p := renew(r)
					c.Step("PatchByIndex", x, 0)
					ok, err := m.PatchByIndex(x, p)
					noErr("PatchByIndex", err)
					if !ok {
						fail("PatchByIndex(%d) returned false with %d items", x, len(mod.r))
					}
					mod.v[x], cells[r] = p.id, p
				case 10:
					c.Step("BisectLeft", r, 0)
					_, found, err := m.BisectLeft(k)
					noErr("BisectLeft", err)
					if found != present {
						fail("BisectLeft(%d) found=%v, present=%v", r, found, present)
					}
				default:
					if !tree {
						continue
					}
					c.Step("residency", 0, 0)
					switch c.rng.IntN(4) {
					case 0:
						_, _, _, err := bt.Flush(true)
						noErr("Flush", err)
					case 1:
						_, _, _, err := bt.Flush(false)
						noErr("Flush", err)
					case 2:
						noErr("Purge", bt.Purge(false))
					case 3:
						_, err := bt.TouchItem(uint64(c.rng.IntN(len(mod.r) + 1)))
						noErr("TouchItem", err)
					}
				}
			}
			if !reopen {
				check(m, "in use", fail)
				if v, ok := m.(interface{ Reset() }); ok && c.rng.IntN(4) == 0 {
					v.Reset()
					mod = &Model{}
				}
			} else {
				n, o, l, err := bt.Flush(c.rng.IntN(2) == 0)
				noErr("Flush", err)
				other, err := sortedmap.OldBPlusTree(n, o, l, kkOwn.Cmp, st.snapshot(), randCache(c))
				if err != nil {
					c.Fail("the flushed tree does not open: %v", err)
				}
				check(other, "reopened", c.Fail)
			}
			c.Eval(mix(c.h, uint64(g)), len(mod.r) > 0)
		}
	}
}

func init() {
	addPhase("C01", Phase{Name: "own keys and values", Items: scale(1500, 30000), Run: ownRun(false, false)})
	addPhase("C02", Phase{Name: "own keys and values", Items: scale(800, 16000), Run: ownRun(true, false)})
	addPhase("C06", Phase{Name: "own keys and values", Items: scale(800, 16000), Run: ownRun(true, true)})
}

// ---- shared memory -------------------------------------------------------------------------------

// Packed things of an arena lie one after the other in blocks: each is handed out as a slice whose spare capacity is the
// memory of the next ones. They are packed and unpacked without copying.
// Packed form: length, number (4 bytes), filling.
func packedOf(n int) []byte {
	b := make([]byte, 5+n%9)
	b[0] = byte(len(b))
	binary.BigEndian.PutUint32(b[1:], uint32(n))
	for i := 5; i < len(b); i++ {
		b[i] = byte(n + i)
	}
	return b
}

func numberOf(b []byte) (int, bool) {
	if len(b) < 5 || int(b[0]) != len(b) {
		return 0, false
	}
	n := int(binary.BigEndian.Uint32(b[1:]))
	if len(b) != 5+n%9 {
		return 0, false
	}
	for i := 5; i < len(b); i++ {
		if b[i] != byte(n+i) {
			return 0, false
		}
	}
	return n, true
}

func newArena() func(n int) []byte {
	const per = 16
	var mu sync.Mutex
	blocks := map[int][per][]byte{}
	return func(n int) []byte {
		mu.Lock()
		defer mu.Unlock()
		l, ok := blocks[n/per]
		if !ok {
			var buf []byte
			for k := 0; k < per; k++ {
				buf = append(buf, packedOf(n/per*per+k)...)
			}
			for k := 0; k < per; k++ {
				e := 5 + (n/per*per+k)%9
				l[k], buf = buf[:e], buf[e:]
			}
			blocks[n/per] = l
		}
		return l[n%per]
	}
}

func cutPacked(b []byte) ([]byte, error) {
	if len(b) < 1 || b[0] < 5 || len(b) < int(b[0]) {
		return nil, errShort("packed thing", len(b))
	}
	return b[:b[0]], nil
}

type (
	akey []byte
	aval []byte
)

func arenaKeys() *KeyKind {
	at := newArena()
	return &KeyKind{
		Name: "shared memory", N: 3856,
		Key: func(r int) sortedmap.Key { return akey(at(r)) },
		Rank: func(k sortedmap.Key) (int, bool) {
			a, ok := k.(akey)
			if !ok {
				return 0, false
			}
			return numberOf(a)
		},
		Cmp: func(a, b sortedmap.Key) (int, error) {
			x, ok1 := a.(akey)
			y, ok2 := b.(akey)
			if !ok1 || !ok2 || len(x) < 5 || len(y) < 5 {
				return 0, fmt.Errorf("cannot compare %T and %T", a, b)
			}
			return ord(binary.BigEndian.Uint32(x[1:]), binary.BigEndian.Uint32(y[1:])), nil
		},
		Pack: func(k sortedmap.Key) ([]byte, error) {
			a, ok := k.(akey)
			if !ok {
				return nil, badKey(k)
			}
			return a, nil
		},
		Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
			p, err := cutPacked(b)
			if err != nil {
				return nil, 0, err
			}
			return akey(p), uint64(len(p)), nil
		},
	}
}

func arenaVals() *ValKind {
	at := newArena()
	return &ValKind{
		Name: "shared memory",
		Val:  func(id int) sortedmap.Value { return aval(at(id)) },
		ID: func(v sortedmap.Value) (int, bool) {
			a, ok := v.(aval)
			if !ok {
				return 0, false
			}
			return numberOf(a)
		},
		Pack: func(v sortedmap.Value) ([]byte, error) {
			a, ok := v.(aval)
			if !ok {
				return nil, fmt.Errorf("cannot pack value %T", v)
			}
			return a, nil
		},
		Unpack: func(b []byte) (sortedmap.Value, uint64, error) {
			p, err := cutPacked(b)
			if err != nil {
				return nil, 0, err
			}
			return aval(p), uint64(len(p)), nil
		},
	}
}
