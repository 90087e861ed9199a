package main

import (
	"math"
	"time"
)

// zwaits.go: the checks of other files with times of a second and more in which nothing happens, between operations
// (or, of concurrent histories, inside a callback): what goes by the clock would do something, or forget something, then.

const nappers = 12

// waiting runs a check many times at once, each with idle times before some of its operations.
func waiting(run func(c *Ctx, i int)) func(c *Ctx, i int) {
	return func(c *Ctx, i int) {
		var fs []func(*Ctx)
		for k := 0; k < nappers; k++ {
			n := c.rng.IntN(1 << 20)
			naps := napTimes(c, k)
			fs = append(fs, func(c *Ctx) {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(*abandon); !ok {
							panic(r)
						}
						c.Count("cases abandoned", 1)
					}
				}()
				c.naps = naps
				run(c, n)
			})
		}
		c.parallel(fs...)
		c.Done()
	}
}

// napTimes: two or three short naps, early or late, or a long one.
func napTimes(c *Ctx, k int) []nap {
	at := func(hi float64) int64 { return 3 + int64(math.Exp(c.rng.Float64()*math.Log(hi))) }
	if k == 0 {
		d := 5500 * time.Millisecond
		if c.tier == "thorough" {
			d = []time.Duration{11, 16, 31, 61, 121}[c.rng.IntN(5)] * time.Second
			d += 500 * time.Millisecond
		}
		return []nap{{at(300), d}}
	}
	var out []nap
	p := int64(0)
	for n := 2 + c.rng.IntN(2); n > 0; n-- {
		p += at(250)
		out = append(out, nap{p, time.Duration(1050+c.rng.IntN(1100)) * time.Millisecond})
	}
	return out
}

func phaseRun(id, name string) func(c *Ctx, i int) {
	for _, ph := range props[id].Phases {
		if ph.Name == name {
			return ph.Run
		}
	}
	panic("no phase " + id + " " + name)
}

func init() {
	for id, names := range map[string][]string{
		"C01": {"random"}, "C02": {"random"}, "C03": {"in-memory", "B+Tree"},
		"C04": {"in-memory", "btree"}, "C06": {"generations"}, "C07": {"crash-points"}, "C08": {"conservation"},
		"C09": {"every-flush"}, "C10": {"fetches"}, "C11": {"solo"}, "C14": {"histories"}, "C15": {"damage"}, "C16": {"touch"},
		"C18": {"reports"}, "C19": {"accepts"}, "C20": {"B+Tree"}, "C22": {"written"}, "C23": {"write-sets"}, "C25": {"purges"},
	} {
		for _, n := range names {
			addPhase(id, Phase{Name: "idle: " + n, Items: scale(8/len(names), 64/len(names)), Run: waiting(phaseRun(id, n))})
		}
		props[id].Min["idle times"] = 60
	}
	for id, names := range map[string][]string{"C12": {"statistics"}, "C13": {"limits", "order"}} {
		for _, n := range names {
			run := phaseRun(id, n)
			addPhase(id, Phase{Name: "idle: " + n, Items: scale(8/len(names), 64), Serial: true, Run: func(c *Ctx, i int) {
				c.naps = napTimes(c, 1)
				for j := range c.naps {
					c.naps[j].d = c.naps[j].d * 6 / 10
				}
				if i == 1 {
					c.naps = napTimes(c, 0)
				}
				run(c, i)
			}})
		}
		props[id].Min["idle times"] = 5
	}
}
