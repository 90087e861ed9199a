package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"

	"github.com/NVIDIA/sortedmap"
)

type goldNode struct {
	N, O uint64
	Hex  string
}

type gold struct {
	Name  string
	Key   string
	Val   string
	Max   uint64
	Root  [3]uint64
	Ranks []int
	Ids   []int
	Nodes []goldNode
}

func goldenDir() string { return filepath.Join(verifDir(), "harness", "golden") }

func goldenFiles() []string {
	if d := os.Getenv("SM_GOLDEN"); d != "" {
		l, _ := filepath.Glob(filepath.Join(d, "*.json"))
		sort.Strings(l)
		return l
	}
	l, _ := filepath.Glob(filepath.Join(goldenDir(), "*.json"))
	sort.Strings(l)
	return l
}

// mkGolden writes images with the library as it is now. It was run once, on the pinned commit.
func mkGolden(dir string) {
	os.MkdirAll(dir, 0o755)
	n := 0
	for ki, kk := range keyKinds() {
		for vi, vk := range valKinds() {
			for _, size := range []int{0, 1, 5, 40, 300} {
				if size == 300 && (ki+vi)%4 != 0 || size == 40 && (ki+vi)%2 != 0 || size < 40 && vi != ki%4 {
					continue
				}
				max := []uint64{4, 6, 16}[(ki+vi+size)%3]
				rng := rand.New(rand.NewPCG(uint64(n), 99))
				st := newStore(kk, vk, n%(polRandom+1), uint64(n)*77+1)
				t := sortedmap.NewBPlusTree(max, kk.Cmp, st, nil)
				m := &Model{}
				id := 0
				for len(m.r) < size {
					r := rng.IntN(min(kk.N, 3*size+3))
					id++
					if ok, err := t.Put(kk.Key(r), vk.Val(id)); err != nil {
						panic(err)
					} else if ok {
						i, _ := m.find(r)
						m.insert(i, r, id)
					}
					if rng.IntN(5) == 0 && len(m.r) > 2 {
						i := rng.IntN(len(m.r))
						if ok, err := t.DeleteByIndex(i); err != nil || !ok {
							panic("delete")
						}
						m.remove(i)
					}
				}
				a, b, c, err := t.Flush(false)
				if err != nil {
					panic(err)
				}
				g := gold{Name: fmt.Sprintf("g%03d-%s-%s-%d-max%d", n, kk.Name, vk.Name, size, max), Key: kk.Name, Val: vk.Name, Max: max, Root: [3]uint64{a, b, c}, Ranks: m.r, Ids: m.v}
				for l := range st.liveSet() {
					g.Nodes = append(g.Nodes, goldNode{l.N, l.O, hex.EncodeToString(st.bytesAt(l))})
				}
				sort.Slice(g.Nodes, func(i, j int) bool {
					return g.Nodes[i].N < g.Nodes[j].N || g.Nodes[i].N == g.Nodes[j].N && g.Nodes[i].O < g.Nodes[j].O
				})
				js, _ := json.MarshalIndent(g, "", " ")
				if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("g%03d.json", n)), append(js, '\n'), 0o644); err != nil {
					panic(err)
				}
				n++
			}
		}
	}
	fmt.Println(n, "golden images")
}

func goldenRun(c *Ctx, i int) {
	f := goldenFiles()[i]
	js, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	var g gold
	if err := json.Unmarshal(js, &g); err != nil {
		panic(err)
	}
	o := BTOpt{max: g.Max, name: g.Name}
	for _, k := range keyKinds() {
		if k.Name == g.Key {
			o.kk = k
		}
	}
	for _, v := range valKinds() {
		if v.Name == g.Val {
			o.vk = v
		}
	}
	st := newStore(o.kk, o.vk, polUnique1, 5)
	st.next = 1 << 50
	for _, n := range g.Nodes {
		b, _ := hex.DecodeString(n.Hex)
		st.live[[2]uint64{n.N, n.O}] = &rec{loc: loc{n.N, n.O, uint64(len(b))}, handed: b, copied: b, ret: fenced(b)}
	}
	m := &Model{r: g.Ranks, v: g.Ids}
	b := &BT{max: g.Max, last: loc{g.Root[0], g.Root[1], g.Root[2]}, lastM: m}
	b.c, b.kk, b.vk, b.name, b.st, b.mod, b.nextID = c, o.kk, o.vk, g.Name, st, m.clone(), 1<<20
	for k := 0; k < 2; k++ {
		c.Step("OldBPlusTree "+g.Name, k, 0)
		var cache sortedmap.BPlusTreeCache
		if k == 1 {
			cache = sortedmap.NewBPlusTreeCache(2, 5)
		}
		b.mod = m.clone()
		t, err := sortedmap.OldBPlusTree(g.Root[0], g.Root[1], g.Root[2], o.kk.Cmp, st, cache)
		b.t, b.m = t, t
		b.noErr("OldBPlusTree", err)
		b.All(true)
		d, err := t.FetchDimensionsReport()
		if err != nil || d.MaxKeysPerNode != g.Max {
			c.Fail("golden image %s: maximum %d (error %v), expected %d", g.Name, d.MaxKeysPerNode, err, g.Max)
		}
		c.Count("golden images opened", 1)
		c.Eval(mix(c.h, uint64(k)), len(m.r) > 0)
		x := &Mix{U: min(o.kk.N, 3*len(m.r)+4), target: len(m.r)}
		for n := 0; n < 40; n++ {
			b.RandomUpdate(x)
		}
		// what is written now is the same layout
		formatCheck(b, b.Flush(true))
		b.Touch()
		formatCheck(b, b.Flush(true))
	}
	if i < 2 {
		c.Sample("golden image %s: %d items, %d nodes", g.Name, len(m.r), len(g.Nodes))
	}
}
