package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// smcheck check ID        supervises a worker process, decides the verdict, writes evidence
// smcheck worker ...      (internal)
// smcheck replay FILE     repeats the case recorded in a replay file
// smcheck list            lists the properties
func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: smcheck check ID | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], "", -1, seedEnv(), tierEnv()))
	case "worker":
		seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
		item, _ := strconv.Atoi(os.Args[7])
		workerMain(os.Args[2], os.Args[3], seed, os.Args[5], os.Args[6], item)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var v Violation
		if json.Unmarshal(b, &v) != nil || v.Prop == "" || props[v.Prop] == nil {
			fmt.Fprintln(os.Stderr, "not a replay file")
			os.Exit(3)
		}
		os.Exit(check(v.Prop, v.Phase, v.Item, v.Seed, v.Tier))
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			p := props[id]
			fmt.Printf("%s race=%v phases=%d\n", id, p.Race, len(p.Phases))
		}
	case "describe":
		m := map[string]any{}
		for id, p := range props {
			l := p.Level
			if l == "" {
				l = "exploration"
			}
			m[id] = map[string]any{"technique": p.Technique, "level": l, "race": p.Race, "assumptions": p.Assumptions}
		}
		json.NewEncoder(os.Stdout).Encode(m)
	case "otherprocess":
		otherProcess()
	case "mkgolden":
		mkGolden(os.Args[2])
	case "needsrace":
		if p := props[os.Args[2]]; p != nil && p.Race {
			fmt.Println("race")
		}
	default:
		os.Exit(3)
	}
}

func seedEnv() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func tierEnv() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func verifDir() string {
	if d := os.Getenv("SM_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func check(id, onlyPh string, onlyItem int, seed uint64, tier string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "smcheck-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	out := filepath.Join(tmp, "result.json")
	self, _ := os.Executable()
	ph := onlyPh
	cmd := exec.Command(self, "worker", id, tier, strconv.FormatUint(seed, 10), out, ph, strconv.Itoa(onlyItem))
	errPath := filepath.Join(tmp, "stderr")
	ef, _ := os.Create(errPath)
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(tmp, "race"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	limit := 820 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	timedOut := false
	select {
	case werr = <-done:
	case <-time.After(limit):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	ef.Close()
	stderrB, _ := os.ReadFile(errPath)
	stderrS := string(stderrB)

	var res Result
	res.Counters = map[string]int64{}
	haveRes := false
	if b, err := os.ReadFile(out); err == nil && json.Unmarshal(b, &res) == nil {
		haveRes = true
	}
	var viols []Violation
	mk := func(msg, extra string) Violation {
		return Violation{Prop: id, Phase: onlyPh, Item: onlyItem, Seed: seed, Tier: tier, Msg: msg, Extra: extra}
	}
	harnessErr := ""
	for _, v := range res.Viol {
		if strings.HasPrefix(v.Msg, "HARNESS-ERROR") {
			harnessErr = v.Msg + "\n" + v.Extra
			continue
		}
		viols = append(viols, v)
	}
	if res.Hang != "" {
		if res.HangInLib {
			viols = append(viols, mk("an operation never completes (deadlock or endless loop inside the library)", res.Hang))
		} else {
			harnessErr = "no progress: " + res.Hang
		}
	}
	if !haveRes && !timedOut {
		// The worker died: a panic in a background goroutine of the library, a runtime fatal error, ...
		if crash := crashText(stderrS); crash != "" && strings.Contains(crash, "github.com/NVIDIA/sortedmap.") {
			viols = append(viols, mk("the process was killed by a panic or fatal error inside the library: "+firstLine(crash), crash))
		} else {
			harnessErr = fmt.Sprintf("worker died: %v\n%s", werr, tail(stderrS, 4000))
		}
	}
	races := raceReports(tmp)
	res.Counters["race reports in the library"] = int64(len(races))
	if p.Race {
		for _, r := range races {
			viols = append(viols, mk("data race: "+raceKey(r), r))
			if len(viols) > 5 {
				break
			}
		}
	}
	if timedOut && len(viols) == 0 {
		harnessErr = "the worker ran out of its time limit"
	}

	writeEvidence(p, tier, seed, &res, time.Since(t0).Seconds(), len(viols))

	if len(viols) > 0 {
		rd := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rd, 0o755)
		for i, v := range viols {
			if i >= 5 {
				break
			}
			f := filepath.Join(rd, fmt.Sprintf("%s-seed%d-%d-%d.json", id, seed, os.Getpid(), i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("# %s %s item %d: %s\n", v.Prop, v.Phase, v.Item, tail(v.Msg, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		}
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE", id, harnessErr)
		return 4
	}
	cut := ""
	if n := res.Counters[leftOut]; n > 0 {
		cut = fmt.Sprintf(" (%d %s)", n, leftOut)
	} else if onlyPh == "" {
		for k, min := range p.Min {
			if res.Counters[k] < min {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE %s: observed only %d of %q (needs %d)\n", id, res.Counters[k], k, min)
				return 4
			}
		}
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d operations=%d %.1fs%s\n", id, tier, seed, res.Counters["evaluations"], res.Distinct, res.Counters["operations"], time.Since(t0).Seconds(), cut)
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// crashText returns the report of the goroutine that brought the process down.
func crashText(s string) string {
	i := -1
	for _, m := range []string{"panic: ", "fatal error: ", "runtime: ", "unexpected fault"} {
		if j := strings.Index(s, m); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 {
		return ""
	}
	t := s[i:]
	// for a fatal "all goroutines are asleep" any goroutine may show the library; otherwise take the first goroutine
	if !strings.Contains(firstLine(t), "asleep") {
		if k := strings.Index(t, "\n\ngoroutine "); k >= 0 {
			if k2 := strings.Index(t[k+2:], "\n\n"); k2 >= 0 {
				t = t[:k+2+k2]
			}
		}
	}
	if len(t) > 20000 {
		t = t[:20000]
	}
	return t
}

func raceReports(dir string) []string {
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	var out []string
	seen := map[string]bool{}
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") {
				continue
			}
			if !accessInLib(blk) {
				continue
			}
			k := raceKey(blk)
			if !seen[k] {
				seen[k] = true
				out = append(out, blk)
			}
		}
	}
	return out
}

// accessInLib: at least one of the two access stacks (not the goroutine creation stacks) is in the library.
func accessInLib(blk string) bool {
	i := strings.Index(blk, "\nGoroutine ")
	if i > 0 {
		blk = blk[:i]
	}
	return strings.Contains(blk, "github.com/NVIDIA/sortedmap.")
}

var reFn = regexp.MustCompile(`github\.com/NVIDIA/sortedmap\.([^\s(]*(?:\([^)]*\))?[^\s(]*)\(`)

func raceKey(blk string) string {
	i := strings.Index(blk, "\nGoroutine ")
	if i > 0 {
		blk = blk[:i]
	}
	var ks []string
	for _, part := range strings.SplitN(blk, "revious ", 2) {
		if m := reFn.FindStringSubmatch(part); m != nil {
			ks = append(ks, m[1])
		} else {
			ks = append(ks, "?")
		}
	}
	return strings.Join(ks, " / ")
}

func writeEvidence(p *Prop, tier string, seed uint64, res *Result, wall float64, nv int) {
	obs := map[string]int64{}
	for k, v := range res.Counters {
		if k != "evaluations" {
			obs[k] = v
		}
	}
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"evaluations":         res.Counters["evaluations"],
			"distinct_nontrivial": res.Distinct,
			"rule":                p.Rule,
			"samples":             samples,
			"observed":            obs,
			"finished":            res.Finished,
		},
		"assumptions": p.Assumptions,
		"wall_s":      wall,
		"violations":  nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, p.ID+".json"), append(b, '\n'), 0o644)
}
