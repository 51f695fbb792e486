package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/rmera/boo/zsim/simrt"
)

// Check is one property's simulation.
type Check struct {
	ID       string
	Run      func(h *H)
	Quick    int // simulated runs per tier
	Thorough int
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
	Want     []string // probes that must not stay at zero
	Level    string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func runSeed(id string, base uint64, i int) uint64 {
	return simrt.Mix(base*0x9e3779b97f4a7c15 ^ simrt.HashString(id) ^ simrt.Mix(uint64(i)+77))
}

// oneRun executes one simulated run and never lets a panic of the harness or
// of the code under test (outside a simulated execution) escape.
func oneRun(ck *Check, c *simrt.Choices) (h *H) {
	h = newH(c)
	reset()
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				if fromHarness(st) {
					fmt.Fprintf(os.Stderr, "harness error: %v\n%s\n", p, st)
					os.Exit(3)
				}
				h.Fail("panic", "panic: %v\n%s", p, trim(st))
			}
		}()
		ck.Run(h)
	}()
	reset()
	if h.V != nil {
		h.MixS(h.V.Class)
	}
	return h
}

// fromHarness tells whether the innermost frame below panic is the harness's.
func fromHarness(st string) bool {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "main.(*H).") && false {
			continue
		}
		if strings.HasPrefix(l, "main.") || strings.Contains(l, "/zsim/simrt") {
			return true
		}
		if strings.HasPrefix(l, "github.com/rmera/boo") {
			return false
		}
	}
	return true
}

func trim(st string) string {
	var out []string
	lines := strings.Split(st, "\n")
	for i := 0; i+1 < len(lines) && len(out) < 10; i++ {
		if strings.HasPrefix(lines[i], "github.com/rmera/boo") {
			out = append(out, lines[i]+" @ "+strings.TrimSpace(lines[i+1]))
		}
	}
	return strings.Join(out, "\n")
}

// Found is a violation with what it takes to see it again.
type Found struct {
	Check   string     `json:"property"`
	Seed    uint64     `json:"seed"`
	Index   int        `json:"index"`
	Base    uint64     `json:"base"`
	W       int        `json:"worker"`
	NW      int        `json:"workers"`
	V       *Violation `json:"violation"`
	Choices []uint64   `json:"choices"`
}

// Stats of a batch of runs.
type Stats struct {
	Runs     int            `json:"runs"`
	Steps    int64          `json:"steps"`
	Switches int            `json:"switches"`
	Preempts int            `json:"preempts"`
	Tasks    int            `json:"tasks"`
	MaxLive  int            `json:"max_live"`
	Clock    int64          `json:"clock"`
	Execs    int            `json:"execs"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Hashes   []uint64       `json:"hashes"` // of the distinct non-trivial runs
	Sample   [][]string     `json:"sample"`
	Det      map[int]uint64 `json:"det"` // index -> fingerprint, for the determinism check
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Det: map[int]uint64{}}
}

func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.Preempts += o.Preempts
	s.Tasks += o.Tasks
	s.Clock += o.Clock
	s.Execs += o.Execs
	if o.MaxLive > s.MaxLive {
		s.MaxLive = o.MaxLive
	}
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	s.Hashes = append(s.Hashes, o.Hashes...)
	s.Sample = append(s.Sample, o.Sample...)
	for k, v := range o.Det {
		s.Det[k] = v
	}
}

var outFD *os.File

func silence() {
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	outFD = os.NewFile(uintptr(fd), "out")
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup3(int(null.Fd()), 1, 0); err != nil {
		panic(err)
	}
}

func main() {
	mode := flag.String("mode", "drive", "")
	id := flag.String("check", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	verif := flag.String("verif", "/verif", "")
	w := flag.Int("w", 0, "")
	nw := flag.Int("nw", 8, "")
	from := flag.Int("from", 0, "")
	n := flag.Int("n", 100, "")
	upto := flag.Int("upto", -1, "")
	capS := flag.Float64("cap", 60, "")
	file := flag.String("file", "", "")
	only := flag.String("only", "", "")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	// Tasks pass one token: real parallelism inside a process gains nothing.
	if *mode != "drive" {
		runtime.GOMAXPROCS(2)
		debug.SetGCPercent(200)
	}
	switch *mode {
	case "drive":
		os.Exit(drive(*id, *tier, *seed, *verif, *n))
	case "work":
		silence()
		work(checks[*id], uint64(*seed), *w, *nw, *from, *n, *upto, *capS, *only)
	case "shrink":
		silence()
		shrinkMode(*file, *capS)
	case "replay":
		silence()
		os.Exit(replayMode(*file))
	case "list":
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	}
}

func emit(tag string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Fprintf(outFD, "%s %s\n", tag, b)
}

// work runs seeds from+w, from+w+nw, ... below n; it stops at the first violation.
func work(ck *Check, base uint64, w, nw, from, n, upto int, capS float64, only string) {
	st := newStats()
	start := time.Now()
	seen := map[uint64]bool{}
	var idx []int
	if only != "" {
		for _, s := range strings.Split(only, ",") {
			i, _ := strconv.Atoi(s)
			idx = append(idx, i)
		}
	} else {
		for i := from + w; i < n; i += nw {
			idx = append(idx, i)
		}
	}
	cnt := 0
	for _, i := range idx {
		if upto >= 0 && i > upto {
			break
		}
		if time.Since(start).Seconds() > capS {
			break
		}
		fmt.Fprintf(outFD, "B %d\n", i)
		sd := runSeed(ck.ID, base, i)
		h := oneRun(ck, simrt.NewSeeded(sd))
		st.Runs++
		cnt++
		st.Steps += h.Steps
		st.Switches += h.Sw
		st.Preempts += h.Pre
		st.Tasks += h.Tasks
		st.Clock += h.Clock
		st.Execs += h.execs
		if h.Live > st.MaxLive {
			st.MaxLive = h.Live
		}
		for k, v := range h.Faults {
			st.Faults[k] += v
		}
		for k, v := range h.Probes {
			st.Probes[k] += v
		}
		if len(h.Faults) > 0 && h.execs > 0 && !seen[h.Hash] {
			seen[h.Hash] = true
			st.Hashes = append(st.Hashes, h.Hash)
		}
		if len(st.Sample) < 2 && len(h.Faults) > 0 {
			st.Sample = append(st.Sample, append([]string{fmt.Sprintf("run %d seed %d: %d steps, %d switches, faults %v", i, sd, h.Steps, h.Sw, h.Faults)}, h.Case...))
		}
		if only != "" || cnt%17 == 3 {
			st.Det[i] = h.Hash
		}
		if h.V != nil {
			emit("V", &Found{Check: ck.ID, Seed: sd, Index: i, Base: base, W: w, NW: nw, V: h.V, Choices: h.C.Rec})
			break
		}
	}
	emit("S", st)
}

// ---------- driver

type workerOut struct {
	st      *Stats
	found   *Found
	last    int
	crashed bool
	stderr  string
	code    int
}

func spawn(timeout time.Duration, args ...string) *workerOut {
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var eb limited
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p, err := cmd.StdoutPipe()
	if err != nil {
		die("%v", err)
	}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	defer t.Stop()
	o := &workerOut{last: -1}
	sc := bufio.NewScanner(p)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Text()
		if len(l) < 2 || l[1] != ' ' {
			continue
		}
		switch l[0] {
		case 'B':
			o.last, _ = strconv.Atoi(l[2:])
		case 'V':
			o.found = &Found{}
			if err := json.Unmarshal([]byte(l[2:]), o.found); err != nil {
				die("%v", err)
			}
		case 'S':
			o.st = newStats()
			if err := json.Unmarshal([]byte(l[2:]), o.st); err != nil {
				die("%v", err)
			}
		}
	}
	err = cmd.Wait()
	o.stderr = eb.String()
	o.code = cmd.ProcessState.ExitCode()
	o.crashed = err != nil
	return o
}

type limited struct{ b []byte }

func (l *limited) Write(p []byte) (int, error) {
	if room := 1<<16 - len(l.b); room > 0 {
		l.b = append(l.b, p[:min(room, len(p))]...)
	}
	return len(p), nil
}
func (l *limited) String() string { return string(l.b) }

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(2)
}

// Replay is the file a violation is reported with.
type Replay struct {
	Found
	Note     string   `json:"note"`
	Minimal  bool     `json:"minimised"`
	From     int      `json:"choices_before_minimising"`
	History  []int    `json:"history,omitempty"` // runs to execute first, in the same process
	Crash    bool     `json:"process_crash,omitempty"`
	Labels   []string `json:"labelled_choices,omitempty"`
	Case     []string `json:"case,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	HowTo    string   `json:"how_to_replay"`
	Hash     uint64   `json:"fingerprint"`
	Stderr   string   `json:"stderr,omitempty"`
	Replayed string   `json:"replayed"`
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func drive(id, tier string, seed int64, verif string, _ int) int {
	ck := checks[id]
	if ck == nil {
		die("no check %q", id)
	}
	start := time.Now()
	n, capS := ck.Quick, 75.0
	if tier == "thorough" {
		n, capS = ck.Thorough, 700.0
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VERIF_CAP"); s != "" {
		capS, _ = strconv.ParseFloat(s, 64)
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	args := func(w int) []string {
		return []string{"-mode", "work", "-check", id, "-seed", fmt.Sprint(seed), "-w", fmt.Sprint(w), "-nw", fmt.Sprint(nw), "-n", fmt.Sprint(n), "-cap", fmt.Sprint(capS)}
	}
	outs := make([]*workerOut, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			outs[w] = spawn(time.Duration(capS*1.5+120)*time.Second, args(w)...)
		}(w)
	}
	wg.Wait()
	searchWall := time.Since(start).Seconds()
	st := newStats()
	var found *Found
	for w, o := range outs {
		if o.st != nil {
			st.merge(o.st)
		}
		if o.found != nil && (found == nil || o.found.Index < found.Index) {
			found = o.found
		}
		if o.crashed && o.found == nil {
			if o.code == 3 || o.last < 0 {
				die("worker %d failed (%d): %s", w, o.code, o.stderr)
			}
		}
	}
	replay := ""
	if found != nil {
		replay = report(ck, found, verif, seed, tier)
	} else {
		for w, o := range outs {
			if o.crashed {
				replay = reportCrash(ck, o, w, nw, verif, seed)
				break
			}
		}
	}
	viol := 0
	if replay != "" {
		viol = 1
	}
	// Determinism: a sample of runs again, in one fresh process.
	det, mism := 0, 0
	if viol == 0 {
		var ids []int
		for i := range st.Det {
			ids = append(ids, i)
		}
		sort.Ints(ids)
		lim := 120
		if len(ids) > lim {
			ids = ids[:lim]
		}
		var s []string
		for _, i := range ids {
			s = append(s, strconv.Itoa(i))
		}
		if len(s) > 0 {
			o := spawn(300*time.Second, "-mode", "work", "-check", id, "-seed", fmt.Sprint(seed), "-only", strings.Join(s, ","), "-cap", "20")
			if o.st == nil {
				die("determinism re-run failed: %s", o.stderr)
			}
			for i, hsh := range o.st.Det {
				det++
				if st.Det[i] != hsh {
					mism++
				}
			}
		}
	}
	distinct := map[uint64]bool{}
	for _, v := range st.Hashes {
		distinct[v] = true
	}
	var samples []any
	for _, s := range st.Sample {
		if len(samples) < 4 {
			samples = append(samples, s)
		}
	}
	wall := time.Since(start).Seconds()
	var zero []string
	for _, p := range ck.Want {
		if st.Probes[p] == 0 {
			zero = append(zero, p)
		}
	}
	level := ck.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": level, "wall_s": wall, "violations": viol,
		"assumptions": append([]string{
			"preemption happens between statements and inside read-modify-write statements of the instrumented packages; gonum and the standard library run atomically between such points",
			"a clean batch is evidence over the sampled seeds, not a proof",
		}, ck.Assume...),
		"coverage": map[string]any{
			"evaluations":            st.Runs,
			"distinct_nontrivial":    len(distinct),
			"rule":                   ck.Rule + " A run is non-trivial if at least one task switch or fault happened in it, and distinct by the fingerprint of its schedule (sequence of synchronisation operations, switches and step counts of all its executions).",
			"samples":                samples,
			"simulated_executions":   st.Execs,
			"runs_per_hour":          int(float64(st.Runs) / searchWall * 3600),
			"seeds_per_hour":         int(float64(st.Runs) / searchWall * 3600),
			"simulated_steps":        st.Steps,
			"simulated_clock_s":      float64(st.Clock) / 1e9,
			"time_note":              "the code has no timers or deadlines, so simulated time is counted in scheduler steps (instrumented statements)",
			"tasks_created":          st.Tasks,
			"max_live_tasks":         st.MaxLive,
			"task_switches":          st.Switches,
			"preemptions":            st.Preempts,
			"faults_injected":        st.Faults,
			"probes":                 st.Probes,
			"probes_at_zero":         zero,
			"determinism_reruns":     det,
			"determinism_mismatches": mism,
			"components_real":        ck.Real,
			"components_simulated":   ck.Stub,
			"interleaving_measure":   "fingerprint of the schedule as above",
			"seed_derivation":        "run i uses splitmix(VERIF_SEED, property, i); every choice of the run derives from it",
			"planned_runs":           n,
			"stopped_by_wall_cap":    viol == 0 && st.Runs < n,
			"worker_processes":       nw,
		},
	}
	writeJSON(filepath.Join(verif, "evidence", id+".json"), ev)
	if mism > 0 {
		fmt.Printf("WARNING: %d of %d re-run seeds did not repeat their fingerprint\n", mism, det)
	}
	if viol > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if st.Runs == 0 {
		die("no run completed")
	}
	fmt.Printf("%s: held on %d simulated runs (%d distinct non-trivial), %d steps, %d switches, %.1f s\n", id, st.Runs, len(distinct), st.Steps, st.Switches, wall)
	fmt.Printf("  faults %v\n  probes %v\n", st.Faults, st.Probes)
	if len(zero) > 0 {
		fmt.Printf("  probes at zero: %v\n", zero)
	}
	return 0
}

func report(ck *Check, f *Found, verif string, seed int64, tier string) string {
	path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%016x.json", f.Check, f.Seed))
	r := &Replay{Found: *f, From: len(f.Choices), HowTo: fmt.Sprintf("bash /verif/run.sh replay %s", path)}
	writeJSON(path, r)
	capS := "25"
	if tier == "thorough" {
		capS = "90"
	}
	// minimise in a process of its own, then replay in another
	o := spawn(5*time.Minute, "-mode", "shrink", "-file", path, "-cap", capS)
	ok := false
	if !o.crashed {
		ok = replayOnce(path)
	}
	if !ok { // keep the original choices
		writeJSON(path, r)
		ok = replayOnce(path)
	}
	if !ok { // what ran before in that process mattered: replay with its history
		for i := f.W; i < f.Index; i += f.NW {
			r.History = append(r.History, i)
		}
		r.Note = "needs the earlier runs of the same process"
		writeJSON(path, r)
		ok = replayOnce(path)
		for ok && len(r.History) > 1 {
			full := r.History
			r.History = full[len(full)/2:]
			writeJSON(path, r)
			if !replayOnce(path) {
				r.History = full
				writeJSON(path, r)
				break
			}
		}
	}
	var rr Replay
	b, _ := os.ReadFile(path)
	_ = json.Unmarshal(b, &rr)
	rr.Replayed = "same violation in a fresh process"
	if !ok {
		die("the violation %q (%s) of seed %d did not repeat in a fresh process", f.V.Class, f.V.Msg, f.Seed)
	}
	writeJSON(path, &rr)
	fmt.Printf("%s: %s: %s\n", ck.ID, rr.V.Class, rr.V.Msg)
	fmt.Printf("  seed %d, %d choices minimised to %d\n", rr.Seed, rr.From, len(rr.Choices))
	for _, l := range rr.Case {
		fmt.Println("  case:", l)
	}
	return path
}

func replayOnce(path string) bool {
	o := spawn(5*time.Minute, "-mode", "replay", "-file", path)
	return o.code == 1
}

func reportCrash(ck *Check, o *workerOut, w, nw int, verif string, seed int64) string {
	sd := runSeed(ck.ID, uint64(seed), o.last)
	path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%016x.json", ck.ID, sd))
	if o.code < 0 && !strings.Contains(o.stderr, "fatal error") && !strings.Contains(o.stderr, "panic") {
		die("worker was killed in run %d (watchdog or memory): %s", o.last, o.stderr)
	}
	r := &Replay{Found: Found{Check: ck.ID, Seed: sd, Index: o.last, Base: uint64(seed), W: w, NW: nw, V: &Violation{Class: "process-crash", Msg: firstLines(o.stderr, 12)}}, Crash: true, HowTo: fmt.Sprintf("bash /verif/run.sh replay %s", path)}
	writeJSON(path, r)
	for i := 0; i < 2; i++ {
		p := spawn(5*time.Minute, "-mode", "replay", "-file", path)
		if !p.crashed || p.code == 0 || p.code == 3 {
			die("worker ended in run %d (seed %d), not repeatable: %s", o.last, sd, o.stderr)
		}
	}
	r.Replayed = "the process ends the same way every time"
	r.Stderr = firstLines(o.stderr, 40)
	writeJSON(path, r)
	fmt.Printf("%s: process-crash: %s\n", ck.ID, r.V.Msg)
	return path
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		die("%v", err)
	}
	return r
}

func choicesOf(r *Replay) *simrt.Choices {
	if r.Crash || r.Choices == nil && !r.Minimal {
		return simrt.NewSeeded(r.Seed)
	}
	return simrt.NewReplay(r.Choices)
}

// replayMode exits 1 if the file's violation happens again.
func replayMode(path string) int {
	r := readReplay(path)
	ck := checks[r.Check]
	for _, i := range r.History {
		oneRun(ck, simrt.NewSeeded(runSeed(ck.ID, r.Base, i)))
	}
	h := oneRun(ck, choicesOf(r))
	if h.V != nil && h.V.Class == r.V.Class {
		fmt.Fprintf(outFD, "VIOLATION property=%s replay=%s\n%s: %s\n", r.Check, path, h.V.Class, h.V.Msg)
		if r.Hash != 0 && r.Hash != h.Hash {
			fmt.Fprintf(outFD, "note: fingerprint %x, recorded %x\n", h.Hash, r.Hash)
		}
		return 1
	}
	if h.V != nil {
		fmt.Fprintf(outFD, "another violation: %s: %s\n", h.V.Class, h.V.Msg)
		return 4
	}
	fmt.Fprintln(outFD, "no violation")
	return 0
}

// shrinkMode minimises the choices of a replay file in place.
func shrinkMode(path string, capS float64) {
	r := readReplay(path)
	ck := checks[r.Check]
	deadline := time.Now().Add(time.Duration(capS * float64(time.Second)))
	tries := 0
	best := r.Choices
	try := func(v []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		h := oneRun(ck, simrt.NewReplay(v))
		if h.V != nil && h.V.Class == r.V.Class {
			got := h.C.Rec
			if len(got) < len(v) || len(v) < len(got) {
				// what was actually consumed, without trailing zeros
			}
			best = trimZeros(got)
			return true
		}
		return false
	}
	if !try(best) {
		fmt.Fprintln(os.Stderr, "does not repeat")
		os.Exit(5)
	}
	for pass := 0; pass < 6 && time.Now().Before(deadline); pass++ {
		before := fmt.Sprint(best)
		// shorter: everything from a point on is simplest
		for n := len(best) / 2; n >= 1; n /= 2 {
			for len(best) > n && try(append([]uint64(nil), best[:len(best)-n]...)) {
			}
		}
		// drop blocks
		for sz := 32; sz >= 1; sz /= 2 {
			for i := len(best) - sz; i >= 0; i -= sz {
				if i+sz > len(best) {
					continue
				}
				v := append(append([]uint64(nil), best[:i]...), best[i+sz:]...)
				try(v)
			}
			if time.Now().After(deadline) {
				break
			}
		}
		// zero blocks, then single values
		for sz := 16; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(best); i += sz {
				z := true
				for _, x := range best[i : i+sz] {
					z = z && x == 0
				}
				if z {
					continue
				}
				v := append([]uint64(nil), best...)
				for j := i; j < i+sz; j++ {
					v[j] = 0
				}
				try(v)
			}
		}
		// smaller values
		for i := 0; i < len(best); i++ {
			for i < len(best) && best[i] > 0 {
				v := append([]uint64(nil), best...)
				v[i] = best[i] / 2
				if try(v) {
					continue
				}
				v = append([]uint64(nil), best...)
				v[i] = best[i] - 1
				if best[i] > 64 || !try(v) {
					break
				}
			}
		}
		if fmt.Sprint(best) == before {
			break
		}
	}
	simrt.Logging = true
	c := simrt.NewReplay(best)
	c.KeepLabels()
	h := oneRun(ck, c)
	if h.V == nil {
		fmt.Fprintln(os.Stderr, "lost while minimising")
		os.Exit(5)
	}
	r.Choices = best
	r.Minimal = true
	r.V = h.V
	r.Hash = h.Hash
	r.Case = h.Case
	for i, l := range c.Lab {
		if i < 300 {
			r.Labels = append(r.Labels, fmt.Sprintf("%s=%d", l, c.Rec[i]))
		}
	}
	r.Trace = h.Log
	if len(r.Trace) > 400 {
		r.Trace = append(r.Trace[:200:200], append([]string{"..."}, r.Trace[len(r.Trace)-200:]...)...)
	}
	r.Note = fmt.Sprintf("minimised in %d tries", tries)
	writeJSON(path, r)
}

func trimZeros(v []uint64) []uint64 {
	n := len(v)
	for n > 0 && v[n-1] == 0 {
		n--
	}
	return append([]uint64(nil), v[:n]...)
}
