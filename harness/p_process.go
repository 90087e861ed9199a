package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/NVIDIA/sortedmap"
)

// Images travel to another process, are opened, modified and flushed there, and travel back.

type parcel struct {
	gold
	Policy int
	Seed   uint64
	Next   uint64 // where storage goes on
	Err    string // what was wrong, on the way back
}

func (b *BT) pack(l loc, next uint64) *parcel {
	p := &parcel{gold: gold{Name: b.name, Key: b.kk.Name, Val: b.vk.Name, Max: b.max, Root: [3]uint64{l.N, l.O, l.L}, Ranks: b.mod.r, Ids: b.mod.v}, Policy: b.policy, Next: next, Seed: b.c.rng.Uint64()}
	for l := range b.st.liveSet() {
		p.Nodes = append(p.Nodes, goldNode{l.N, l.O, hex.EncodeToString(b.st.bytesAt(l))})
	}
	return p
}

func (p *parcel) open(c *Ctx) *BT {
	o := BTOpt{max: p.Max, policy: p.Policy, name: p.Name}
	for _, k := range append(keyKinds(), arenaKeys()) {
		if k.Name == p.Key {
			o.kk = k
		}
	}
	for _, v := range append(valKinds(), arenaVals()) {
		if v.Name == p.Val {
			o.vk = v
		}
	}
	st := newStore(o.kk, o.vk, polUnique1, p.Seed)
	st.next = p.Next
	for _, n := range p.Nodes {
		b, _ := hex.DecodeString(n.Hex)
		st.live[[2]uint64{n.N, n.O}] = &rec{loc: loc{n.N, n.O, uint64(len(b))}, handed: b, copied: b, ret: fenced(b)}
	}
	m := &Model{r: p.Ranks, v: p.Ids}
	b := &BT{max: p.Max, last: loc{p.Root[0], p.Root[1], p.Root[2]}, lastM: m.clone(), policy: p.Policy}
	b.c, b.kk, b.vk, b.name, b.st, b.mod, b.nextID = c, o.kk, o.vk, "tree of another process", st, m, int(p.Next>>20)
	b.cache = randCache(c)
	c.Step("OldBPlusTree", int(p.Root[0]), int(p.Root[1]))
	t, err := sortedmap.OldBPlusTree(p.Root[0], p.Root[1], p.Root[2], o.kk.Cmp, st, b.cache)
	b.t, b.m = t, t
	b.noErr("OldBPlusTree", err)
	return b
}

func (b *BT) checkOpened() {
	b.All(true)
	d, err := b.t.FetchDimensionsReport()
	if err != nil || d.MaxKeysPerNode != b.max {
		b.c.Fail("a tree opened in another process reports maximum %d (error %v), expected %d", d.MaxKeysPerNode, err, b.max)
	}
}

func parcelMix(c *Ctx, p *parcel) *Mix {
	n := len(p.Ranks)
	kkN := 1 << 30
	for _, k := range append(keyKinds(), arenaKeys()) {
		if k.Name == p.Key {
			kkN = k.N
		}
	}
	return &Mix{U: min(kkN, 2*n+20), target: n}
}

// otherProcess is the child: parcels on its standard input, parcels on its standard output.
func otherProcess() {
	var in, out []*parcel
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		panic(err)
	}
	for _, p := range in {
		func() {
			c := &Ctx{prop: props["C06"], phase: "other process", w: &Worker{distinct: map[uint64]struct{}{}}, slot: &Slot{}, cnt: map[string]int64{}}
			c.rng = rand.New(rand.NewPCG(p.Seed, 3))
			var q *parcel
			defer func() {
				if r := recover(); r != nil {
					fl := toFailure(r)
					q = &parcel{Err: fl.msg + "\n" + fl.extra}
				}
				out = append(out, q)
			}()
			b := p.open(c)
			x := parcelMix(c, p)
			if p.Seed%3 == 0 { // changed before all of it was read
				for n := c.rng.IntN(60); n > 0; n-- {
					b.RandomUpdate(x)
				}
			}
			b.checkOpened()
			for n := c.rng.IntN(120); n > 0; n-- {
				b.RandomOp(x)
			}
			b.All(false)
			q = b.pack(b.Flush(p.Seed%2 == 0), 1<<51+1000)
		}()
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func otherProcessRun(c *Ctx, i int) {
	var ps []*parcel
	for k := 0; k < 30; k++ {
		o := randBTOpt(c)
		o.cache = randCache(c)
		b := newBT(c, o)
		x := newMix(c, o.kk, 500)
		for n := c.rng.IntN(2*x.U + 2); n > 0; n-- {
			b.RandomUpdate(x)
			if c.rng.IntN(60) == 0 {
				b.randomResidency()
			}
		}
		ps = append(ps, b.pack(b.Flush(k%2 == 0), 1<<50+1000))
	}
	js, _ := json.Marshal(ps)
	self, _ := os.Executable()
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "otherprocess")
	cmd.Stdin = strings.NewReader(string(js))
	var eb strings.Builder
	cmd.Stderr = &eb
	res, err := cmd.Output()
	if err != nil {
		s := eb.String()
		if strings.Contains(s, "github.com/NVIDIA/sortedmap.") {
			c.FailX(s, "another process that opens the images dies inside the library: %s", firstLine(s))
		}
		panic(fmt.Sprintf("the other process: %v %s", err, s))
	}
	var back []*parcel
	if err := json.Unmarshal(res, &back); err != nil || len(back) != len(ps) {
		panic(fmt.Sprintf("the other process answers %q", res))
	}
	for k, p := range back {
		if p == nil {
			panic("the other process gave no answer")
		}
		if p.Err != "" {
			if strings.HasPrefix(p.Err, "HARNESS-ERROR") {
				panic(p.Err)
			}
			c.Fail("image %d (max=%d key=%s value=%s, %d items) opened in another process: %s", k, ps[k].Max, ps[k].Key, ps[k].Val, len(ps[k].Ranks), p.Err)
		}
		b := p.open(c)
		b.checkOpened()
		c.Count("images opened by another process", 2)
		c.Eval(mix(c.h, uint64(k)), len(p.Ranks) > 0)
	}
}

func init() {
	addPhase("C06", Phase{Name: "other process", Items: scale(16, 300), Run: otherProcessRun})
	props["C06"].Min["images opened by another process"] = 300
}
