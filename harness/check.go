package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// cmdCheck decides one property: it runs all phases in worker processes,
// minimises what they find, and writes the evidence.
func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	scale := fs.Float64("scale", 1, "")
	wall := fs.Float64("wall", 0, "wall clock cap in seconds for the simulations")
	fs.Parse(args)
	loadSites()
	start := time.Now()
	exe, err := os.Executable()
	must(err)
	dir := filepath.Dir(exe)
	phs := phases(*prop)
	if len(phs) == 0 {
		die("no check for %s", *prop)
	}
	if *wall == 0 {
		*wall = 240
		if *tier == "thorough" {
			*wall = 1500
		}
	}
	work, err := os.MkdirTemp(dir, "work-"+*prop+"-")
	must(err)
	defer os.RemoveAll(work)
	ev := newEvidence(*prop, *tier, *seed)
	var found *ReplayFile
	for pi, ph := range phs {
		n := ph.quick
		if *tier == "thorough" {
			n = ph.thorough
		}
		n = int64(float64(n) * *scale)
		outs, crash := runPhase(dir, work, *prop, pi, ph, *seed, n, *wall/float64(len(phs)))
		ev.add(ph, n, outs)
		for _, o := range outs {
			if o.Nondet != "" {
				cleanup(work)
				die("the simulation is not deterministic: %s", o.Nondet)
			}
			if o.Found != nil && (found == nil || o.Found.Run < found.Run) {
				found = o.Found
			}
		}
		if crash != nil && (found == nil || crash.Run < found.Run) {
			found = crash
		}
		if found != nil {
			found.Tier = *tier
			break
		}
	}
	known := []string{}
	for k, what := range knownFindings {
		if strings.HasPrefix(k, *prop+" ") {
			known = append(known, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", *prop, k[len(*prop)+1:], what))
		}
	}
	sort.Strings(known)
	for _, l := range known {
		fmt.Println(l)
	}
	var code int
	if found != nil {
		path := report(dir, work, *verif, found)
		ev.Violations = 1
		ev.Coverage["violation"] = map[string]any{"class": found.Violation.Class, "message": trim(found.Violation.Msg, 600), "replay": path}
		fmt.Printf("%s: %s\n", *prop, trim(found.Violation.Msg, 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		code = 1
	}
	ev.finish(phs, time.Since(start).Seconds())
	must(os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755))
	must(writeJSON(filepath.Join(*verif, "evidence", *prop+".json"), ev))
	cleanup(work)
	if code == 0 {
		fmt.Printf("%s: held in %d simulated runs (%d distinct non-trivial), %.1f s\n", *prop, ev.Coverage["evaluations"], ev.Coverage["distinct_nontrivial"], time.Since(start).Seconds())
	}
	os.Exit(code)
}

func cleanup(work string) { os.RemoveAll(work) }

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func binary(dir string, race bool) string {
	if race {
		return filepath.Join(dir, "sim-race")
	}
	return filepath.Join(dir, "sim")
}

func childEnv(work string, race bool) []string {
	env := []string{"GODEBUG=randautoseed=0", "GOMAXPROCS=2", "GOTRACEBACK=all"}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GODEBUG=") && !strings.HasPrefix(e, "GOMAXPROCS=") {
			env = append(env, e)
		}
	}
	if race {
		env = append(env, "GORACE=atexit_sleep_ms=0 exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2 log_path="+filepath.Join(work, "race"))
	}
	return env
}

// runPhase spreads the runs over worker processes.
func runPhase(dir, work, prop string, pi int, ph phase, seed uint64, n int64, wall float64) ([]*workerOut, *ReplayFile) {
	W := runtime.NumCPU()
	if W > 8 {
		W = 8
	}
	type proc struct {
		cmd  *exec.Cmd
		out  string
		err  *os.File
		done chan error
	}
	stop := filepath.Join(work, fmt.Sprintf("stop%d", pi))
	var ps []*proc
	for w := 0; w < W; w++ {
		p := &proc{out: filepath.Join(work, fmt.Sprintf("out%d-%d", pi, w)), done: make(chan error, 1)}
		p.cmd = exec.Command(binary(dir, ph.race), "run", "-prop", prop, "-phase", fmt.Sprint(pi),
			"-seed", fmt.Sprint(seed), "-w", fmt.Sprint(w), "-W", fmt.Sprint(W), "-n", fmt.Sprint(n),
			"-wall", fmt.Sprint(wall), "-out", p.out, "-status", p.out+".status", "-stop", stop)
		p.cmd.Env = childEnv(work, ph.race)
		f, err := os.Create(p.out + ".err")
		must(err)
		p.err = f
		p.cmd.Stderr = f
		p.cmd.Stdout = f
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		must(p.cmd.Start())
		go func() { p.done <- p.cmd.Wait() }()
		ps = append(ps, p)
	}
	deadline := time.After(time.Duration((wall + 120) * float64(time.Second)))
	var outs []*workerOut
	var crash *ReplayFile
	for _, p := range ps {
		var err error
		select {
		case err = <-p.done:
		case <-deadline:
			b, _ := os.ReadFile(p.out + ".status")
			for _, q := range ps {
				q.cmd.Process.Kill()
			}
			cleanup(work)
			die("a worker did not end: %s, phase %d, run %s", prop, pi, strings.TrimSpace(string(b)))
		}
		if err != nil {
			// The code under test brought the process down, or we did. It
			// counts only if the same run does so again by itself.
			b, _ := os.ReadFile(p.out + ".status")
			e, _ := os.ReadFile(p.out + ".err")
			run := int64(-1)
			fmt.Sscan(string(b), &run)
			c := confirmCrash(dir, work, prop, pi, ph, seed, run)
			if c == nil {
				cleanup(work)
				die("worker failed (%v) in run %d of %s: %s", err, run, prop, trim(string(e), 3000))
			}
			if crash == nil || c.Run < crash.Run {
				crash = c
			}
			continue
		}
		b, err := os.ReadFile(p.out)
		must(err)
		o := &workerOut{}
		must(json.Unmarshal(b, o))
		outs = append(outs, o)
	}
	return outs, crash
}

// confirmCrash repeats a run in a fresh process and sees whether that dies.
func confirmCrash(dir, work, prop string, pi int, ph phase, seed uint64, run int64) *ReplayFile {
	if run < 0 {
		return nil
	}
	rf := &ReplayFile{Property: prop, VerifSeed: seed, Run: run, RaceBuild: ph.race, Plan: genPlan(prop, ph, seed, run),
		Violation: Viol{Class: "crash", Props: []string{prop}}}
	file := filepath.Join(work, "crash.json")
	must(writeJSON(file, rf))
	out, dead := replayOnce(dir, work, file, ph.race, 60)
	if !dead {
		return nil
	}
	rf.Violation.Msg = "the process died: " + trim(out, 3000)
	return rf
}

// replayOnce runs a replay in a fresh process. dead: it ended in a way only a
// fatal error of the code under test ends it.
func replayOnce(dir, work, file string, race bool, secs int) (string, bool) {
	cmd := exec.Command("timeout", "-s", "KILL", fmt.Sprint(secs), binary(dir, race), "replay", "-q", file)
	cmd.Env = childEnv(work, race)
	b, err := cmd.CombinedOutput()
	code := 0
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	s := string(b)
	dead := code == 2 && (strings.Contains(s, "fatal error:") || strings.Contains(s, "\ngoroutine ")) && !strings.HasPrefix(s, "sim: ")
	return s, dead
}

func reproduces(dir, work, file string, rf *ReplayFile) bool {
	s, dead := replayOnce(dir, work, file, rf.RaceBuild, 120)
	if rf.Violation.Class == "crash" {
		return dead
	}
	return strings.Contains(s, "VIOLATION property="+rf.Property+" ")
}

// report minimises a violation, proves that it replays, and writes it down.
func report(dir, work, verif string, rf *ReplayFile) string {
	rdir := filepath.Join(verif, "replays")
	must(os.MkdirAll(rdir, 0o755))
	path := filepath.Join(rdir, fmt.Sprintf("%s-seed%d-run%d.json", rf.Property, rf.VerifSeed, rf.Run))
	raw := filepath.Join(work, "raw.json")
	must(writeJSON(raw, rf))
	if rf.Violation.Class != "crash" {
		min := filepath.Join(work, "min.json")
		cmd := exec.Command("timeout", "-s", "KILL", "150", binary(dir, rf.RaceBuild), "minimise", "-budget", minimiseBudget(), raw, min)
		cmd.Env = childEnv(work, rf.RaceBuild)
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "minimisation failed: %v %s\n", err, trim(string(b), 1000))
		} else if m, err := os.ReadFile(min); err == nil {
			q := &ReplayFile{}
			must(json.Unmarshal(m, q))
			if reproduces(dir, work, min, q) {
				must(os.WriteFile(path, m, 0o644))
				rf.Violation = q.Violation
				fmt.Printf("minimised: %s\n", q.Minimised)
				return path
			}
		}
	}
	ok := reproduces(dir, work, raw, rf)
	if !ok && rf.RaceBuild {
		for i := 0; i < 4 && !ok; i++ {
			ok = reproduces(dir, work, raw, rf)
		}
	}
	if !ok {
		b, _ := os.ReadFile(raw)
		os.WriteFile(path+".unconfirmed", b, 0o644)
		cleanup(work)
		die("a violation of %s in run %d does not replay: the simulation is not deterministic (%s)", rf.Property, rf.Run, trim(rf.Violation.Msg, 500))
	}
	b, err := os.ReadFile(raw)
	must(err)
	must(os.WriteFile(path, b, 0o644))
	return path
}

// ---- evidence

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        uint64         `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`

	runs, nontrivial, incon, steps, rechecked int64
	simNS                                     float64
	maxShare                                  float64
	stats, policies, other                    map[string]int64
	hashes                                    map[uint64]bool
	hits                                      map[int]bool
	perPhase                                  []map[string]any
}

func newEvidence(prop, tier string, seed uint64) *evidence {
	return &evidence{Property: prop, Tier: tier, Seed: seed, Level: "exploration",
		Coverage: map[string]any{}, stats: map[string]int64{}, policies: map[string]int64{}, other: map[string]int64{},
		hashes: map[uint64]bool{}, hits: map[int]bool{}}
}

func (e *evidence) add(ph phase, n int64, outs []*workerOut) {
	var runs int64
	capped := false
	for _, o := range outs {
		runs += o.Runs
		e.nontrivial += o.Nontrivial
		e.incon += o.Inconclusive
		e.steps += o.Steps
		e.maxShare = max(e.maxShare, o.MaxShare)
		e.simNS += o.SimNS
		e.rechecked += o.Rechecked
		capped = capped || o.Capped
		for k, v := range o.Stats {
			e.stats[k] += v
		}
		for k, v := range o.Policies {
			e.policies[k] += v
		}
		for k, v := range o.Other {
			e.other[k] += v
		}
		for _, h := range o.Hashes {
			e.hashes[h] = true
		}
		for _, h := range o.Hits {
			e.hits[h] = true
		}
	}
	e.runs += runs
	e.perPhase = append(e.perPhase, map[string]any{"phase": ph.name, "race_detector": ph.race, "planned_runs": n, "runs": runs, "wall_clock_cap_reached": capped})
}

func (e *evidence) finish(phs []phase, wall float64) {
	c := e.Coverage
	c["evaluations"] = e.runs
	c["distinct_nontrivial"] = len(e.hashes)
	c["rule"] = "Each evaluation is one simulated run: workload, faults and schedule drawn from Mix(VERIF_SEED, property, phase, run number). A run is non-trivial if at least one task was preempted in the middle of its work, or a timer fired, or a fault of the workload took effect; two runs are distinct if the hash of the schedule (every task switch with the program point and virtual time at which it happened) together with the hash of the history of observable events differs. Counted as the size of the set of such hashes."
	c["nontrivial_runs"] = e.nontrivial
	c["phases"] = e.perPhase
	c["seeds"] = e.runs
	c["runs_per_hour"] = int64(float64(e.runs) / wall * 3600)
	c["simulated_seconds"] = e.simNS / 1e9
	c["scheduling_steps"] = e.steps
	c["longest_run_in_percent_of_step_bound"] = math.Round(e.maxShare*1000) / 10
	c["policies"] = e.policies
	faults, ops := map[string]int64{}, map[string]int64{}
	for k, v := range e.stats {
		if strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "sched.") || strings.HasPrefix(k, "timer.") || strings.HasPrefix(k, "net.") {
			faults[k] = v
		} else {
			ops[k] = v
		}
	}
	c["faults_and_nondeterminism_injected"] = faults
	c["events_observed"] = ops
	c["inconclusive_histories"] = e.incon
	c["runs_repeated_and_replayed_for_determinism"] = e.rechecked
	if len(e.other) > 0 {
		c["violations_seen_by_class"] = e.other
	}
	files := map[string][2]int{}
	for _, s := range allSites {
		f := s.Pos
		if i := strings.IndexByte(f, ':'); i > 0 {
			f = f[:i]
		}
		v := files[f]
		v[1]++
		if e.hits[int(s.ID)] {
			v[0]++
		}
		files[f] = v
	}
	var cov []string
	for f, v := range files {
		if v[0] > 0 {
			cov = append(cov, fmt.Sprintf("%s %d/%d", f, v[0], v[1]))
		}
	}
	sort.Strings(cov)
	c["program_points_reached"] = cov
	c["components_real"] = "all library packages of /repo's working tree (sms, encoding/...), compiled from an instrumented copy made for this run"
	c["components_stubbed"] = "goroutine scheduling, sync, sync/atomic, channels, time and map iteration order (simulated by verif/simrt); the network, the service centre and the peers (harness)"
	var samples []any
	for pi := range phs {
		if phs[pi].race != raceMode {
			continue
		}
		for i := int64(0); i < 40 && len(samples) < 3*(pi+1); i++ {
			p := genPlan(e.Property, phs[pi], e.Seed, i)
			o := evaluate(p, true)
			if !o.Nontrivial {
				continue
			}
			var log []string
			for _, l := range o.Log {
				if !strings.HasPrefix(l, "  ~") {
					log = append(log, l)
				}
			}
			if len(log) > 30 {
				log = log[:30]
			}
			samples = append(samples, map[string]any{"phase": phs[pi].name, "run": i, "policy": p.Policy.Kind.String(), "steps": o.Steps, "switches": o.Switches, "history": log})
		}
	}
	c["samples"] = samples
	e.Assumptions = []string{
		"Sampling: a clean batch is evidence, not proof.",
		"Preemption happens between statements and inside compound assignments of the library, and at synchronisation operations; sequentially consistent memory (weaker effects only as data races, in the phases with the race detector).",
		"The instrumented copy behaves like the original (the repository's own tests pass on it with the simulator off: tools/instr_selftest.sh).",
	}
	e.WallS = wall
}

// minimiseBudget is how many seconds a violation is minimised.
func minimiseBudget() string {
	if s := os.Getenv("VERIF_MINIMISE"); s != "" {
		return s
	}
	return "45"
}
