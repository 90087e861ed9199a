// Package main is a black-box runtime monitor for github.com/NVIDIA/sortedmap.
//
// core.go: case runner, verdicts, progress watchdog, evidence.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- properties -------------------------------------------------------------

type Phase struct {
	Name   string
	Items  func(tier string) int
	Serial bool // items run one at a time, on one goroutine
	Before func()
	After  func()
	Run    func(c *Ctx, i int)
}

type Prop struct {
	ID          string
	Race        bool
	Technique   string
	Rule        string
	Level       string // evidence level; exploration by default
	Assumptions []string
	Min         map[string]int64 // counters that must be reached, or the run is inconclusive
	Phases      []Phase
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// development only: divides the volumes
var divide = func() int {
	n, _ := strconv.Atoi(os.Getenv("SM_DIVIDE"))
	return max(n, 1)
}()

func scale(quick, thorough int) func(string) int {
	return func(tier string) int {
		n := quick
		if tier == "thorough" {
			n = thorough
		}
		return (n + divide - 1) / divide
	}
}

// ---- violation --------------------------------------------------------------

type Violation struct {
	Prop  string   `json:"property"`
	Phase string   `json:"phase"`
	Item  int      `json:"item"`
	Seed  uint64   `json:"seed"`
	Tier  string   `json:"tier"`
	Msg   string   `json:"what_failed"`
	Trace []string `json:"last_operations,omitempty"`
	Extra string   `json:"witness,omitempty"`
}

type failure struct{ msg, extra string }

// ---- context of one case ----------------------------------------------------

type traceRec struct {
	op   string
	a, b int
}

type Slot struct {
	steps atomic.Uint64
	busy  atomic.Bool
	desc  atomic.Pointer[string]
	kids  atomic.Pointer[[]*Slot] // progress of the goroutines of a case, kept apart so that counting does not synchronise them
	_     [64]byte
}

func (s *Slot) progress() uint64 {
	n := s.steps.Load()
	if k := s.kids.Load(); k != nil {
		for _, x := range *k {
			n += x.steps.Load()
		}
	}
	return n
}

type Ctx struct {
	prop  *Prop
	phase string
	item  int
	seed  uint64
	tier  string
	rng   *rand.Rand
	slot  *Slot
	w     *Worker

	cnt     map[string]int64
	ring    [240]traceRec
	last    string // the operation of the last Step
	ringN   int
	ops     int64
	h       uint64
	samples []string

	lim   int  // >0: a scaled phase, with trees of up to about lim items of large height or fan-out
	brink bool // a scaled phase whose trees have only nodes that are about to merge or split
	mix   *Mix // of the tree last made in a scaled phase
	big   bool // a phase with items of up to 70 KB
	many  int  // >0: a phase with about so many trees in one cache
	long  int  // >0: a phase with so many times the usual flush generations

	naps []nap // a phase in which nothing happens for a while before some operations
}

type nap struct {
	at int64
	d  time.Duration
}

// gens is the number of generations of a case that usually has n.
func (c *Ctx) gens(n int) int { return n * max(1, c.long) }

func mix(a, b uint64) uint64 {
	x := a ^ (b+0x9e3779b97f4a7c15)*0xbf58476d1ce4e5b9
	x ^= x >> 29
	x *= 0x94d049bb133111eb
	x ^= x >> 32
	return x
}

func hashStr(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

func (c *Ctx) Fail(format string, a ...any) {
	panic(&failure{msg: fmt.Sprintf(format, a...)})
}

func (c *Ctx) FailX(extra string, format string, a ...any) {
	panic(&failure{msg: fmt.Sprintf(format, a...), extra: extra})
}

func (c *Ctx) Count(name string, n int64) { c.cnt[name] += n }

func (c *Ctx) Max(name string, n int64) {
	if c.cnt["max:"+name] < n {
		c.cnt["max:"+name] = n
	}
}

// Step records one operation of the case: trace, history hash, progress.
func (c *Ctx) Step(op string, a, b int) {
	c.ring[c.ringN%len(c.ring)] = traceRec{op, a, b}
	c.ringN++
	c.last = op
	c.ops++
	c.h = mix(c.h, uint64(a)*31+uint64(b)+hash3(op))
	c.slot.steps.Add(1)
	if len(c.naps) > 0 && c.ops >= c.naps[0].at {
		d := c.naps[0].d
		c.naps = c.naps[1:]
		for ; d > 0; d -= 10 * time.Second {
			time.Sleep(min(d, 10*time.Second))
			c.slot.steps.Add(1)
		}
		c.Count("idle times", 1)
	}
}

func hash3(s string) uint64 {
	h := uint64(len(s))
	for i := 0; i < len(s); i++ {
		h = h*131 + uint64(s[i])
	}
	return h
}

func (c *Ctx) trace() []string {
	var out []string
	lo := 0
	if c.ringN > len(c.ring) {
		lo = c.ringN - len(c.ring)
	}
	for i := lo; i < c.ringN; i++ {
		r := c.ring[i%len(c.ring)]
		out = append(out, fmt.Sprintf("%d: %s %d %d", i, r.op, r.a, r.b))
	}
	return out
}

// Eval counts one evaluated case; distinct ones are identified by hash.
func (c *Ctx) Eval(h uint64, nontrivial bool) {
	c.cnt["evaluations"]++
	if nontrivial {
		c.w.addDistinct(mix(h, 77))
	}
}

// Done counts the whole item as one evaluated case, identified by its operation history.
func (c *Ctx) Done() { c.Eval(mix(c.h, hashStr(c.phase)), c.ops >= 5) }

func (c *Ctx) Sample(format string, a ...any) {
	if len(c.samples) < 2 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}

// Guard runs f and turns a panic inside the library into a violation; for goroutines of a case.
func (c *Ctx) Guard(out *atomic.Pointer[failure], f func()) {
	defer func() {
		if r := recover(); r != nil {
			fl := toFailure(r)
			out.CompareAndSwap(nil, fl)
		}
	}()
	f()
}

func toFailure(r any) *failure {
	if fl, ok := r.(*failure); ok {
		return fl
	}
	st := string(debug.Stack())
	if strings.Contains(st, "github.com/NVIDIA/sortedmap.") {
		return &failure{msg: fmt.Sprintf("panic in the library: %v", r), extra: st}
	}
	return &failure{msg: fmt.Sprintf("HARNESS-ERROR: %v", r), extra: st}
}

// ---- worker -----------------------------------------------------------------

type Worker struct {
	prop     *Prop
	tier     string
	seed     uint64
	mu       sync.Mutex
	cnt      map[string]int64
	distinct map[uint64]struct{}
	dmu      sync.Mutex
	viol     []Violation
	samples  []string
	stop     atomic.Bool
	slots    []*Slot
	onlyPh   string
	onlyItem int
	hung     atomic.Pointer[string]
}

func (w *Worker) addDistinct(h uint64) {
	w.dmu.Lock()
	if len(w.distinct) < 4_000_000 {
		w.distinct[h] = struct{}{}
	}
	w.dmu.Unlock()
}

type Result struct {
	Counters  map[string]int64 `json:"counters"`
	Distinct  int64            `json:"distinct"`
	Samples   []string         `json:"samples"`
	Viol      []Violation      `json:"violations"`
	Hang      string           `json:"hang,omitempty"`
	HangInLib bool             `json:"hang_in_lib,omitempty"`
	Finished  bool             `json:"finished"`
}

func (w *Worker) runItem(ph *Phase, i int, slot *Slot) {
	c := &Ctx{prop: w.prop, phase: ph.Name, item: i, seed: w.seed, tier: w.tier, w: w, slot: slot, cnt: map[string]int64{}}
	s1 := mix(w.seed, hashStr(w.prop.ID+"/"+ph.Name))
	c.rng = rand.New(rand.NewPCG(mix(s1, uint64(i)), uint64(i)+1))
	c.h = mix(s1, 5)
	d := fmt.Sprintf("%s/%s item %d", w.prop.ID, ph.Name, i)
	slot.desc.Store(&d)
	slot.steps.Add(1)
	slot.busy.Store(true)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(*abandon); ok {
					c.Count("cases abandoned", 1)
					c.Sample("abandoned: %s", a.why)
					return
				}
				fl := toFailure(r)
				v := Violation{Prop: w.prop.ID, Phase: ph.Name, Item: i, Seed: w.seed, Tier: w.tier, Msg: fl.msg, Extra: fl.extra, Trace: c.trace()}
				w.mu.Lock()
				w.viol = append(w.viol, v)
				w.mu.Unlock()
				w.stop.Store(true)
			}
		}()
		ph.Run(c, i)
	}()
	slot.busy.Store(false)
	slot.steps.Add(1)
	w.mu.Lock()
	for k, v := range c.cnt {
		if strings.HasPrefix(k, "max:") {
			if w.cnt[k] < v {
				w.cnt[k] = v
			}
		} else {
			w.cnt[k] += v
		}
	}
	w.cnt["operations"] += c.ops
	if len(w.samples) < 8 {
		w.samples = append(w.samples, c.samples...)
	}
	w.mu.Unlock()
}

const leftOut = "items left out for lack of time"

func (w *Worker) run() *Result {
	n := runtime.GOMAXPROCS(0)
	for i := 0; i < n; i++ {
		w.slots = append(w.slots, &Slot{})
	}
	hangCh := make(chan *Result, 1)
	go w.watchdog(hangCh)
	doneCh := make(chan struct{})
	// A check never runs out of its time without an answer: on a machine that is far too slow, the items not begun by then are
	// left out (and counted); what was explored is judged as always.
	enough := 600 * time.Second
	if w.tier == "thorough" {
		enough = 13000 * time.Second
	}
	begun := time.Now()
	late := func() bool { return time.Since(begun) > enough }
	go func() {
		quietN = runtime.NumGoroutine()
		for pi := range w.prop.Phases {
			ph := &w.prop.Phases[pi]
			if w.onlyPh != "" && w.onlyPh != ph.Name {
				continue
			}
			if w.stop.Load() {
				break
			}
			items := ph.Items(w.tier)
			var ran atomic.Int64
			if ph.Before != nil {
				ph.Before()
			}
			t0 := time.Now()
			if w.onlyPh != "" && w.onlyItem >= 0 {
				w.runItem(ph, w.onlyItem, w.slots[0])
				ran.Store(int64(items))
			} else if ph.Serial {
				for i := 0; i < items && !w.stop.Load() && !late(); i++ {
					w.runItem(ph, i, w.slots[0])
					ran.Add(1)
				}
			} else {
				var next atomic.Int64
				var wg sync.WaitGroup
				for g := 0; g < n; g++ {
					wg.Add(1)
					go func(s *Slot) {
						defer wg.Done()
						for !w.stop.Load() && !late() {
							i := int(next.Add(1)) - 1
							if i >= items {
								return
							}
							w.runItem(ph, i, s)
							ran.Add(1)
						}
					}(w.slots[g])
				}
				wg.Wait()
			}
			if ph.After != nil {
				ph.After()
			}
			if os.Getenv("SM_VERBOSE") != "" {
				fmt.Fprintf(os.Stderr, "phase %s: %d items %.1fs\n", ph.Name, items, time.Since(t0).Seconds())
			}
			w.mu.Lock()
			w.cnt["items "+ph.Name] += ran.Load()
			if left := int64(items) - ran.Load(); left > 0 && !w.stop.Load() {
				w.cnt[leftOut] += left
			}
			w.mu.Unlock()
		}
		close(doneCh)
	}()
	var hang *Result
	select {
	case <-doneCh:
	case hang = <-hangCh:
	}
	w.mu.Lock()
	w.dmu.Lock()
	res := &Result{Counters: map[string]int64{}, Distinct: int64(len(w.distinct)), Samples: append([]string{}, w.samples...), Viol: append([]Violation{}, w.viol...), Finished: hang == nil && w.cnt[leftOut] == 0}
	for k, v := range w.cnt {
		res.Counters[k] = v
	}
	if hang != nil {
		res.Hang, res.HangInLib = hang.Hang, hang.HangInLib
	}
	w.dmu.Unlock()
	w.mu.Unlock()
	sort.Slice(res.Viol, func(i, j int) bool { return res.Viol[i].Item < res.Viol[j].Item })
	return res
}

// watchdog looks for a slot that makes no progress although the process is being scheduled.
// Its verdict rests on stack evidence, not on elapsed time alone: a goroutine of the stuck case
// must be inside the library in every one of several stack samples.
func (w *Worker) watchdog(out chan *Result) {
	const tick = time.Second
	limit := 75 // ticks of no progress, each tick being a real scheduling of this goroutine
	if w.tier == "thorough" {
		limit = 180
	}
	last := make([]uint64, len(w.slots))
	still := make([]int, len(w.slots))
	for {
		time.Sleep(tick)
		for i, s := range w.slots {
			n := s.progress()
			if !s.busy.Load() || n != last[i] {
				last[i], still[i] = n, 0
				continue
			}
			still[i]++
			if still[i] < limit {
				continue
			}
			desc := ""
			if p := s.desc.Load(); p != nil {
				desc = *p
			}
			c0 := cpu()
			inLib := true
			var dump string
			for k := 0; k < 5; k++ {
				buf := make([]byte, 8<<20)
				buf = buf[:runtime.Stack(buf, true)]
				dump = string(buf)
				if !strings.Contains(dump, "github.com/NVIDIA/sortedmap.") {
					inLib = false
				}
				time.Sleep(time.Second)
				if s.progress() != n {
					inLib = false
				}
			}
			if len(dump) > 20000 {
				dump = dump[:20000]
			}
			out <- &Result{Hang: fmt.Sprintf("%s made no progress for %d scheduler ticks (process used %.1fs CPU in the last 5s)\n%s", desc, still[i], cpu()-c0, dump), HangInLib: inLib}
			return
		}
	}
}

func cpu() float64 {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return float64(r.Utime.Sec+r.Stime.Sec) + float64(r.Utime.Usec+r.Stime.Usec)/1e6
}

func workerMain(id, tier string, seed uint64, out, onlyPh string, onlyItem int) {
	p := props[id]
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f // Dump prints there
	}
	w := &Worker{prop: p, tier: tier, seed: seed, cnt: map[string]int64{}, distinct: map[uint64]struct{}{}, onlyPh: onlyPh, onlyItem: onlyItem}
	res := w.run()
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
	os.Exit(0)
}

// sub returns a context for another goroutine of the same case; merge it back with join.
func (c *Ctx) sub(i int) *Ctx {
	n := &Ctx{prop: c.prop, phase: c.phase, item: c.item, seed: c.seed, tier: c.tier, w: c.w, slot: &Slot{}, cnt: map[string]int64{}, lim: c.lim, brink: c.brink, mix: c.mix}
	n.rng = rand.New(rand.NewPCG(c.rng.Uint64(), uint64(i)))
	n.h = mix(c.h, uint64(i))
	return n
}

func (c *Ctx) join(n *Ctx) {
	for k, v := range n.cnt {
		if strings.HasPrefix(k, "max:") {
			if c.cnt[k] < v {
				c.cnt[k] = v
			}
		} else {
			c.cnt[k] += v
		}
	}
	c.ops += n.ops
	c.h = mix(c.h, n.h)
	if len(n.samples) > 0 && len(c.samples) < 2 {
		c.samples = append(c.samples, n.samples...)
	}
}

// parallel runs the functions at once, each with its own context, and rethrows the first failure.
func (c *Ctx) parallel(fs ...func(c *Ctx)) {
	var first atomic.Pointer[any]
	var tr atomic.Pointer[Ctx]
	var wg sync.WaitGroup
	subs := make([]*Ctx, len(fs))
	start := make(chan struct{})
	kids := make([]*Slot, len(fs))
	for i := range fs {
		subs[i] = c.sub(i)
		kids[i] = subs[i].slot
	}
	c.slot.kids.Store(&kids)
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case *failure, *abandon:
					default:
						r = toFailure(r)
					}
					if first.CompareAndSwap(nil, &r) {
						tr.Store(subs[i])
					}
				}
			}()
			<-start
			f(subs[i])
		}()
	}
	close(start)
	wg.Wait()
	c.slot.kids.Store(nil)
	c.slot.steps.Add(1)
	for _, s := range subs {
		c.join(s)
	}
	if r := first.Load(); r != nil {
		if t := tr.Load(); t != nil {
			c.ring, c.ringN = t.ring, t.ringN
		}
		panic(*r)
	}
}

// settle waits until background goroutines started by the library have ended or wait for something (serial phases only).
func (c *Ctx) settle() {
	t0 := time.Now()
	for i := 0; runtime.NumGoroutine() > quietN; i++ {
		if i < 200 {
			runtime.Gosched()
			continue
		}
		if n := runtime.NumGoroutine() - quietN; n > 2000 {
			if c.prop.ID == "C24" {
				c.Fail("the library has left %d goroutines behind", n)
			}
			return
		}
		if (i == 200 && waits.Load()) || i%400 == 0 {
			if libState() != "busy" {
				waits.Store(true)
				return
			}
			if d := time.Since(t0); d > 50*time.Millisecond && (d > 8*time.Second || spins.Load()) {
				// judge what is seen now
				c.Count("background goroutine still at work", 1)
				spins.Store(true)
				if c.prop.ID == "C13" {
					c.Fail("the evictor does not stop: %v after the last operation it is still at work", d.Round(time.Second))
				}
				return
			}
		}
		time.Sleep(20 * time.Microsecond)
	}
}

// quietN is the number of goroutines when the library runs none (serial phases).
var quietN int

// waits: the library keeps goroutines that wait for work; spins: it keeps some that do not wait.
var waits, spins atomic.Bool

// libState says what the goroutines of the library are doing, other than the one that asks.
func libState() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for n, g := range strings.Split(string(buf), "\n\n") {
		if n == 0 || !strings.Contains(g, "github.com/NVIDIA/sortedmap.") {
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		idle := false
		for _, s := range []string{"[chan receive", "[select", "[sync.Cond.Wait"} {
			idle = idle || strings.Contains(head, s)
		}
		if !idle {
			return "busy"
		}
	}
	return "idle"
}
