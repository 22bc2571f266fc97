package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Extra, per property: runs in the parent after the shards, returns a violation detail or "".
type PhaseResult struct {
	Cases     int
	Events    map[string]int
	Distinct  int
	Samples   []string
	Violation *Violation
	Err       string // inconclusive
}

var ParentPhases = map[string]func(seed int64, tier, scratch string, only *Violation) PhaseResult{}

// ChildEnvs lists environments a property's shards are run under in turn (shard index modulo length).
var ChildEnvs = map[string][]string{}

type childRun struct {
	res    *Result
	stderr string
	code   int
	sig    syscall.Signal
	cat    string
	idx    int
	wall   bool
}

func runOne(o ChildOpts, scratch string, name string, env []string, timeout time.Duration) childRun {
	o.Out = filepath.Join(scratch, name+".out")
	o.Journal = filepath.Join(scratch, name+".jnl")
	exe := o.Exe
	if exe == "" {
		exe = os.Args[0]
	}
	cmd := exec.Command(exe, "child", "-prop", o.Prop, "-seed", strconv.FormatInt(o.Seed, 10), "-tier", o.Tier,
		"-shard", strconv.Itoa(o.Shard), "-shards", strconv.Itoa(o.Shards), "-cat", o.OnlyCat, "-idx", strconv.Itoa(o.OnlyIdx),
		"-out", o.Out, "-journal", o.Journal)
	cov := filepath.Join(scratch, "cov")
	os.MkdirAll(cov, 0o755)
	cmd.Env = append(os.Environ(), "GOCOVERDIR="+cov, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	cmd.Env = append(cmd.Env, env...)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.Stdout = &errb
	rv := childRun{}
	if err := cmd.Start(); err != nil {
		rv.code = -1
		rv.stderr = err.Error()
		return rv
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		rv.wall = true
	}
	rv.stderr = errb.String()
	rv.code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		rv.sig = ws.Signal()
	}
	if b, err := os.ReadFile(o.Out); err == nil {
		var r Result
		if json.Unmarshal(b, &r) == nil {
			rv.res = &r
		}
	}
	if b, err := os.ReadFile(o.Journal); err == nil && len(b) > 41 {
		rv.cat = strings.TrimSpace(string(b[:40]))
		rv.idx, _ = strconv.Atoi(strings.TrimSpace(string(b[40:])))
	}
	return rv
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Parent supervises the shards of one property and writes the evidence.
func Parent(args []string) int {
	start := time.Now()
	if len(args) < 1 || Props[args[0]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vh ID [--replay FILE]")
		return 2
	}
	id := args[0]
	p := Props[id]
	var seed int64 = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.ParseInt(s, 10, 64)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		var err error
		scratch, err = os.MkdirTemp("", "verif")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.RemoveAll(scratch)
	}
	timeout := 840 * time.Second
	if tier == "thorough" {
		timeout = 4 * time.Hour
	}
	if s := os.Getenv("VERIF_TIMEOUT"); s != "" {
		n, _ := strconv.Atoi(s)
		timeout = time.Duration(n) * time.Second
	}

	var only *Violation
	if len(args) >= 3 && args[1] == "--replay" {
		b, err := os.ReadFile(args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		only = &Violation{}
		if json.Unmarshal(b, only) != nil || only.Property != id {
			fmt.Fprintln(os.Stderr, "not a replay file for", id)
			return 2
		}
		seed = only.Seed
		tier = "thorough" // the index may be beyond the quick range
	}

	// Eight processes at a time. Types made by reflection are never freed, so long runs use more of them, one after another.
	shards := 8
	if tier == "thorough" {
		shards = 64
	}
	if p.Single {
		shards = 1
	}
	if s := os.Getenv("VERIF_SHARDS"); s != "" {
		shards, _ = strconv.Atoi(s)
	}
	envs := ChildEnvs[id]
	envOf := func(s int) []string {
		if len(envs) == 0 {
			return nil
		}
		return []string{envs[s%len(envs)]}
	}
	var runs []childRun
	var viol *Violation
	inconclusive, exe := "", ""
	if prep := Prepare[id]; prep != nil {
		exe, viol, inconclusive = prep(seed, tier, scratch)
	}
	if viol != nil || inconclusive != "" {
		// nothing to run
	} else if only != nil {
		n := 1
		if len(envs) > 0 {
			n = len(envs)
		}
		for s := 0; s < n; s++ {
			runs = append(runs, runOne(ChildOpts{Prop: id, Seed: seed, Tier: tier, Shards: 1, OnlyCat: only.Category, OnlyIdx: only.Index, Exe: exe}, scratch, fmt.Sprint("replay", s), envOf(s), timeout))
		}
	} else if len(p.Cats) > 0 {
		runs = make([]childRun, shards)
		var wg sync.WaitGroup
		slots := make(chan struct{}, 8)
		for s := 0; s < shards; s++ {
			wg.Add(1)
			slots <- struct{}{}
			go func(s int) {
				defer wg.Done()
				defer func() { <-slots }()
				runs[s] = runOne(ChildOpts{Prop: id, Seed: seed, Tier: tier, Shard: s, Shards: shards, Exe: exe}, scratch, fmt.Sprint("shard", s), envOf(s), timeout)
			}(s)
		}
		wg.Wait()
	}

	cases := 0
	catCases := map[string]int{}
	events := map[string]int{}
	distinct := map[uint64]struct{}{}
	var samples []interface{}
	for s, r := range runs {
		if r.res != nil {
			cases += r.res.Cases
			for k, v := range r.res.CatCases {
				catCases[k] += v
			}
			for k, v := range r.res.Events {
				events[k] += v
			}
			for _, d := range r.res.Distinct {
				distinct[d] = struct{}{}
			}
			if len(samples) < 24 {
				for _, x := range r.res.Samples {
					samples = append(samples, x)
				}
			}
			if r.res.Violation != nil {
				if viol == nil {
					viol = r.res.Violation
				}
				continue
			}
			if r.res.Done && r.code == 0 {
				continue
			}
		}
		// the process died or was stopped before it was done
		switch {
		case r.wall:
			inconclusive = "wall-clock limit reached in " + r.cat
		case r.code == 66 && strings.Contains(r.stderr, "DATA RACE"):
			viol = &Violation{id, r.cat, r.idx, seed, "data race: " + tail(r.stderr, 6000)}
		case strings.Contains(r.stderr, "fatal error:") || strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "goroutine stack exceeds"):
			viol = &Violation{id, r.cat, r.idx, seed, "process crashed: " + tail(r.stderr, 4000)}
		case r.cat != "" && only == nil:
			// killed from outside or unclear: only a crash that repeats for this case alone counts
			r2 := runOne(ChildOpts{Prop: id, Seed: seed, Tier: tier, Shards: 1, OnlyCat: r.cat, OnlyIdx: r.idx, Exe: exe}, scratch, fmt.Sprint("again", s), envOf(s), timeout)
			if r2.res != nil && r2.res.Violation != nil {
				viol = r2.res.Violation
			} else if r2.res == nil || !r2.res.Done {
				viol = &Violation{id, r.cat, r.idx, seed, fmt.Sprintf("process died (exit %d, signal %v): %s", r2.code, r2.sig, tail(r2.stderr, 2000))}
			} else {
				inconclusive = fmt.Sprintf("shard %d died (exit %d, signal %v): %s", s, r.code, r.sig, tail(r.stderr, 2000))
			}
		default:
			inconclusive = fmt.Sprintf("shard %d died (exit %d, signal %v): %s", s, r.code, r.sig, tail(r.stderr, 2000))
		}
	}
	extraDistinct := 0
	if ph := ParentPhases[id]; ph != nil && viol == nil && inconclusive == "" {
		r := ph(seed, tier, scratch, only)
		cases += r.Cases
		extraDistinct = r.Distinct
		for k, v := range r.Events {
			events[k] += v
		}
		for _, x := range r.Samples {
			samples = append(samples, x)
		}
		if r.Violation != nil {
			viol = r.Violation
		}
		if r.Err != "" {
			inconclusive = r.Err
		}
	}

	total := 0
	for _, v := range events {
		total += v
	}
	if viol == nil && inconclusive == "" && only == nil && total < p.MinEvents {
		inconclusive = fmt.Sprintf("only %d events observed, expected at least %d", total, p.MinEvents)
	}

	if only == nil {
		cov := map[string]interface{}{
			"evaluations": cases, "distinct_nontrivial": len(distinct) + extraDistinct, "rule": p.Rule, "samples": samples,
			"monitor_events": events, "cases_per_category": catCases, "processes": len(runs),
		}
		if len(samples) == 0 {
			cov["samples"] = []interface{}{"none"}
		}
		if sc := stmtCoverage(filepath.Join(scratch, "cov")); sc != nil {
			cov["statement_coverage"] = sc
		}
		if inconclusive != "" {
			cov["inconclusive"] = inconclusive
		}
		ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
			"wall_s": time.Since(start).Seconds(), "violations": 0}
		if viol != nil {
			ev["violations"] = 1
			cov["violation"] = viol
		}
		if len(p.Assumptions) > 0 {
			ev["assumptions"] = p.Assumptions
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}

	if viol != nil {
		fmt.Printf("%s: %s case %s/%d (seed %d)\n%s\n", id, "violated in", viol.Category, viol.Index, viol.Seed, viol.Detail)
		path := ""
		if only != nil {
			path = args[2]
		} else {
			dir := filepath.Join(verif, "replay")
			os.MkdirAll(dir, 0o755)
			path = filepath.Join(dir, fmt.Sprintf("%s-%s-%d-seed%d.json", id, strings.ReplaceAll(viol.Category, " ", "_"), viol.Index, viol.Seed))
			b, _ := json.MarshalIndent(viol, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("%s: inconclusive: %s\n", id, inconclusive)
		return 2
	}
	var ks []string
	for k := range events {
		ks = append(ks, fmt.Sprintf("%s=%d", k, events[k]))
	}
	sort.Strings(ks)
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %s, %.1fs\n", id, cases, len(distinct)+extraDistinct, strings.Join(ks, " "), time.Since(start).Seconds())
	return 0
}

func stmtCoverage(dir string) map[string]string {
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i", dir).Output()
	if err != nil {
		return nil
	}
	rv := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && strings.Contains(f[0], "go-eosio") {
			rv[strings.TrimPrefix(f[0], "github.com/greymass/go-eosio/")] = f[2]
		}
	}
	if len(rv) == 0 {
		return nil
	}
	return rv
}
