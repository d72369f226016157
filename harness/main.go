package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	_ "github.com/warthog618/sms/simsites"
	"verif/simrt"
)

var raceMode = simrt.RaceBuild

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+format+"\n", args...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: sim check|run|replay|minimise|one|digest ...")
	}
	args := os.Args[2:]
	switch os.Args[1] {
	case "check":
		cmdCheck(args)
	case "run":
		cmdRun(args)
	case "replay":
		cmdReplay(args)
	case "minimise":
		cmdMinimise(args)
	case "one":
		cmdOne(args)
	case "digest":
		cmdDigest(args)
	default:
		die("unknown command %s", os.Args[1])
	}
}

// ---- program points

type siteInfo struct {
	ID   int32  `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

var (
	allSites  []siteInfo
	hotPool   []int32
	rootSites []int32
)

func loadSites() {
	exe, err := os.Executable()
	must(err)
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "sms", "sites.json"))
	must(err)
	must(json.Unmarshal(b, &allSites))
}

// setHotPool restricts the program points at which hot-site schedules preempt.
func setHotPool(prefixes ...string) {
	hotPool = hotPool[:0]
	for _, s := range allSites {
		for _, p := range prefixes {
			if strings.HasPrefix(s.Pos, p) {
				hotPool = append(hotPool, s.ID)
			}
		}
	}
	if len(hotPool) == 0 {
		for _, s := range allSites {
			hotPool = append(hotPool, s.ID)
		}
	}
}

func hotSite(r *simrt.RNG) int32 { return hotPool[r.Intn(len(hotPool))] }

// ---- race reports

var raceLogOff int64

func raceLogPath() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return fmt.Sprintf("%s.%d", strings.TrimPrefix(f, "log_path="), os.Getpid())
		}
	}
	return ""
}

// raceReports returns the reports written since the last call.
func raceReports() []string {
	p := raceLogPath()
	if p == "" {
		return nil
	}
	b, err := os.ReadFile(p)
	if err != nil || int64(len(b)) <= raceLogOff {
		return nil
	}
	txt := string(b[raceLogOff:])
	raceLogOff = int64(len(b))
	var out []string
	for _, r := range strings.Split(txt, "==================") {
		if strings.Contains(r, "DATA RACE") && credible(r) {
			out = append(out, strings.TrimSpace(r))
		}
	}
	return out
}

// credible reports whether both accesses of a report were made by code of the
// library or by one of the probes that stand for its callers. The simulator's
// own memory (the channels it parks goroutines on, say) is reused by the
// allocator, and now and then the detector pairs an access from its earlier
// life with a later one: such a report says nothing about the library.
func credible(rep string) bool {
	if i := strings.Index(rep, "\nGoroutine "); i > 0 {
		rep = rep[:i]
	}
	st := strings.SplitN(rep, "\nPrevious ", 2)
	if len(st) != 2 {
		return true
	}
	for _, a := range st {
		if strings.Contains(a, "by main goroutine") {
			return false // runs no task
		}
		if strings.Contains(a, "main.sortedKeys") && !strings.Contains(a, "slices.") || strings.Contains(a, "main.readSnapshot") {
			continue // reads a snapshot
		}
		if !strings.Contains(a, "warthog618/sms") && !strings.Contains(a, "verif/simrt/probe") && !strings.Contains(a, "failed to restore") {
			return false
		}
	}
	return true
}

// evaluate executes a plan and adds the data races it showed.
func evaluate(p *Plan, trace bool) *Outcome {
	if raceMode {
		raceReports() // whatever came before
	}
	o := Execute(p, trace)
	if raceMode && o.Races > 0 {
		reps := raceReports()
		if raceLogPath() == "" {
			reps = []string{"(no report text)"}
		}
		c := &ctx{plan: p, out: o}
		for _, rep := range reps {
			class, props := "race", map[string]string{
				"collector": "C04", "encoder": "C11", "codec": "C12", "buffers": "C14", "e2e": "C14", "exchange": "C24"}[p.Scenario]
			// only the accesses count, not how the goroutines came about
			acc := rep
			if i := strings.Index(acc, "\nGoroutine "); i > 0 {
				acc = acc[:i]
			}
			if p.Scenario == "collector" && strings.Contains(acc, "(*Collector).Pipes(") {
				props = "C04 C07" // taking a snapshot must not race either
			}
			if p.Scenario == "encoder" && (strings.Contains(acc, "sms.(*Counter).") || strings.Contains(acc, "sms.Counter.")) {
				class, props = "race-counter", "C10"
			}
			if strings.Contains(acc, "verif/simrt/probe") || strings.Contains(acc, "readSnapshot") || strings.Contains(acc, "sortedKeys") {
				switch p.Scenario {
				case "collector":
					class, props = "race-snapshot", "C07"
				case "encoder":
					class, props = "race-caller-memory", "C11"
				}
			}
			if len(rep) > 3000 {
				rep = rep[:3000]
			}
			c.viol(class, props, "data race:\n%s", rep)
		}
	}
	return o
}

var knownFindings = func() map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "KNOWN: property="); ok {
			if w := strings.SplitN(rest, " ", 3); len(w) == 3 {
				m[w[0]+" "+w[1]] = w[2]
			}
		}
	}
	return m
}()

// knownFinding reports whether a defect is on the list of those left alone.
func knownFinding(prop, id string) bool { return knownFindings[prop+" "+id] != "" }

func match(o *Outcome, prop string) *Viol {
	for i := range o.Viols {
		for _, p := range o.Viols[i].Props {
			if p == prop {
				return &o.Viols[i]
			}
		}
	}
	return nil
}

func matchClass(o *Outcome, prop, class string) *Viol {
	for i := range o.Viols {
		if o.Viols[i].Class != class {
			continue
		}
		for _, p := range o.Viols[i].Props {
			if p == prop {
				return &o.Viols[i]
			}
		}
	}
	return nil
}

// ---- worker

// workerOut is what a worker reports.
type workerOut struct {
	Runs         int64            `json:"runs"`
	Nontrivial   int64            `json:"nontrivial"`
	Inconclusive int64            `json:"inconclusive"`
	Steps        int64            `json:"steps"`
	MaxShare     float64          `json:"max_share"` // of the step bound, by the longest run
	SimNS        float64          `json:"sim_ns"`
	Stats        map[string]int64 `json:"stats"`
	Policies     map[string]int64 `json:"policies"`
	Hashes       []uint64         `json:"hashes"`
	Hits         []int            `json:"hits"`
	Other        map[string]int64 `json:"other"` // violations of other properties
	Found        *ReplayFile      `json:"found"`
	Nondet       string           `json:"nondet"`
	Capped       bool             `json:"capped"`
	Rechecked    int64            `json:"rechecked"`
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	phase := fs.Int("phase", 0, "")
	seed := fs.Uint64("seed", 1, "")
	w := fs.Int64("w", 0, "")
	W := fs.Int64("W", 1, "")
	n := fs.Int64("n", 1, "")
	wall := fs.Float64("wall", 60, "")
	out := fs.String("out", "", "")
	status := fs.String("status", "", "")
	stop := fs.String("stop", "", "")
	from := fs.Int64("from", 0, "")
	fs.Parse(args)
	loadSites()
	ph := phases(*prop)[*phase]
	start := time.Now()
	wo := &workerOut{Stats: map[string]int64{}, Policies: map[string]int64{}, Other: map[string]int64{}}
	hashes := map[uint64]bool{}
	var st *os.File
	if *status != "" {
		var err error
		st, err = os.Create(*status)
		must(err)
	}
	for i := *w; i < *n; i += *W {
		if i < *from {
			continue
		}
		if time.Since(start).Seconds() > *wall {
			wo.Capped = true
			break
		}
		if *stop != "" && i%16 == *w%16 {
			if b, err := os.ReadFile(*stop); err == nil {
				if m, err := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64); err == nil && i > m {
					break
				}
			}
		}
		if st != nil {
			st.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		p := genPlan(*prop, ph, *seed, i)
		o := evaluate(p, false)
		wo.Runs++
		wo.Steps += o.Steps
		if x := float64(o.Steps) / float64(max(1, p.MaxSteps)); x > wo.MaxShare {
			wo.MaxShare = x
		}
		wo.SimNS += float64(o.SimNS)
		wo.Inconclusive += int64(o.Inconclusive)
		wo.Policies[p.Policy.Kind.String()]++
		for k, v := range o.Stats {
			wo.Stats[k] += v
		}
		if o.Nontrivial {
			wo.Nontrivial++
			hashes[simrt.Mix(o.Hash, o.LogHash)] = true
		}
		for _, v := range o.Viols {
			wo.Other[v.Class+" "+strings.Join(v.Props, ",")]++
		}
		v := match(o, *prop)
		if v != nil && strings.HasPrefix(v.Class, "race") {
			// A data race is a property of the run: it shows again.
			again := false
			for k := 0; k < 3 && !again; k++ {
				again = matchClass(evaluate(p.clone(), false), *prop, v.Class) != nil
			}
			if !again {
				wo.Stats["unconfirmed_race_reports"]++
				v = nil
			}
		}
		if v != nil {
			q := p.clone()
			q.Replay, q.Devs = true, o.Recorded
			wo.Found = &ReplayFile{Property: *prop, VerifSeed: *seed, Run: i, RaceBuild: raceMode, Violation: *v, Plan: q}
			if *stop != "" {
				old := int64(1 << 62)
				if b, err := os.ReadFile(*stop); err == nil {
					if m, err := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64); err == nil {
						old = m
					}
				}
				if i < old {
					tmp := fmt.Sprintf("%s.%d", *stop, *w)
					os.WriteFile(tmp, []byte(fmt.Sprint(i)), 0o644)
					os.Rename(tmp, *stop)
				}
			}
			break
		}
		if i/(*W)%64 == 7 && len(o.Viols) == 0 {
			// determinism: the same plan again, and replayed from its trace
			wo.Rechecked++
			o2 := evaluate(p.clone(), false)
			q := p.clone()
			q.Replay, q.Devs = true, o.Recorded
			o3 := evaluate(q, false)
			if o.LogHash != o2.LogHash || o.Hash != o2.Hash || o.Steps != o2.Steps {
				wo.Nondet = fmt.Sprintf("run %d differs when repeated: %x/%x %x/%x %d/%d", i, o.LogHash, o2.LogHash, o.Hash, o2.Hash, o.Steps, o2.Steps)
				break
			}
			if o.LogHash != o3.LogHash || o.Hash != o3.Hash || o.Steps != o3.Steps {
				wo.Nondet = fmt.Sprintf("run %d differs when replayed: %x/%x %x/%x %d/%d", i, o.LogHash, o3.LogHash, o.Hash, o3.Hash, o.Steps, o3.Steps)
				break
			}
		}
	}
	for h := range hashes {
		wo.Hashes = append(wo.Hashes, h)
	}
	for i, h := range simrt.Hits() {
		if h != 0 {
			wo.Hits = append(wo.Hits, i)
		}
	}
	b, err := json.Marshal(wo)
	must(err)
	must(os.WriteFile(*out+".tmp", b, 0o644))
	must(os.Rename(*out+".tmp", *out))
}

// cmdDigest prints a digest per run, to compare processes.
func cmdDigest(args []string) {
	fs := flag.NewFlagSet("digest", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	phase := fs.Int("phase", 0, "")
	seed := fs.Uint64("seed", 1, "")
	w := fs.Int64("w", 0, "")
	W := fs.Int64("W", 1, "")
	n := fs.Int64("n", 1, "")
	fs.Parse(args)
	loadSites()
	ph := phases(*prop)[*phase]
	for i := *w; i < *n; i += *W {
		o := evaluate(genPlan(*prop, ph, *seed, i), false)
		fmt.Printf("%s %d %d %x %x %d %d %d\n", *prop, *phase, i, o.Hash, o.LogHash, o.Steps, o.SimNS, len(o.Viols))
	}
}

// cmdOne shows one run.
func cmdOne(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	phase := fs.Int("phase", 0, "")
	seed := fs.Uint64("seed", 1, "")
	run := fs.Int64("run", 0, "")
	plan := fs.Bool("plan", false, "")
	fs.Parse(args)
	loadSites()
	p := genPlan(*prop, phases(*prop)[*phase], *seed, *run)
	o := evaluate(p, true)
	if *plan {
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	}
	for _, l := range o.Log {
		fmt.Println(l)
	}
	for _, v := range o.Viols {
		fmt.Println("VIOL", v.Class, v.Props, v.Msg)
	}
	fmt.Println(o.Stats)
}

// cmdReplay executes a replay file: exit 1 if the violation shows again.
func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("q", false, "")
	fs.Parse(args)
	loadSites()
	b, err := os.ReadFile(fs.Arg(0))
	must(err)
	rf := &ReplayFile{}
	must(json.Unmarshal(b, rf))
	if rf.Plan == nil {
		die("%s holds no plan", fs.Arg(0))
	}
	if rf.RaceBuild != raceMode {
		die("this replay needs the other build (race_build: %v)", rf.RaceBuild)
	}
	o := evaluate(rf.Plan, true)
	if !*quiet {
		for _, l := range o.Log {
			fmt.Println(l)
		}
	}
	for _, v := range o.Viols {
		fmt.Printf("broken: %s [%s]: %s\n", strings.Join(v.Props, ","), v.Class, v.Msg)
	}
	if v := matchClass(o, rf.Property, rf.Violation.Class); v != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fs.Arg(0))
		os.Exit(1)
	}
	fmt.Println("the violation did not show")
}

func cmdMinimise(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	budget := fs.Float64("budget", 40, "")
	fs.Parse(args)
	loadSites()
	b, err := os.ReadFile(fs.Arg(0))
	must(err)
	rf := &ReplayFile{}
	must(json.Unmarshal(b, rf))
	q, note := minimise(rf, *budget)
	rf.Plan, rf.Minimised = q, note
	o := evaluate(q, true)
	v := matchClass(o, rf.Property, rf.Violation.Class)
	if v == nil {
		die("minimisation lost the violation")
	}
	rf.Violation = *v
	rf.Log = o.Log
	if len(rf.Log) > 400 {
		rf.Log = rf.Log[:400]
	}
	must(writeJSON(fs.Arg(1), rf))
}

func writeJSON(file string, v any) error {
	var bb bytes.Buffer
	enc := json.NewEncoder(&bb)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode(v); err != nil {
		return err
	}
	if err := os.WriteFile(file+".tmp", bb.Bytes(), 0o644); err != nil {
		return err
	}
	return os.Rename(file+".tmp", file)
}
