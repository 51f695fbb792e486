// Command harness decides rmera/boo's properties by deterministic simulation:
// it is built together with an instrumented copy of the code.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"syscall"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"github.com/rmera/boo/zsim/simos"
	"github.com/rmera/boo/zsim/simrt"
)

// Violation of the property a run checks.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// H is one simulated run of a check.
type H struct {
	large  bool // the data generated last need a large tree
	bulky  bool // larger data than most
	C      *simrt.Choices
	V      *Violation
	Hash   uint64
	Steps  int64
	Sw     int
	Pre    int
	Tasks  int
	Live   int
	Clock  int64
	Faults map[string]int
	Probes map[string]int
	Case   []string
	Log    []string
	execs  int
}

func newH(c *simrt.Choices) *H {
	return &H{C: c, Hash: 1469598103934665603, Faults: map[string]int{}, Probes: map[string]int{}}
}

// Fail records the run's (first) violation.
func (h *H) Fail(class, f string, a ...any) {
	if h.V == nil {
		m := fmt.Sprintf(f, a...)
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		h.V = &Violation{class, m}
	}
}

// Note describes the case for samples and replay files.
func (h *H) Note(f string, a ...any) { h.Case = append(h.Case, fmt.Sprintf(f, a...)) }

// Probe counts a condition worth reaching.
func (h *H) Probe(name string) { h.Probes[name]++ }

// Fault counts a fault that was injected.
func (h *H) Fault(name string) { h.Faults[name]++ }

func (h *H) mix(v uint64) { h.Hash = simrt.Mix(h.Hash ^ v) }

// MixS adds an observed value to the run's fingerprint.
func (h *H) MixS(s string) { h.mix(simrt.HashString(s)) }

// SimOpt configures one simulated execution.
type SimOpt struct {
	Policy   int   // -1: chosen
	MaxSteps int64 // 0: default
	Crash    bool  // may crash at a chosen point
	RandSet  bool
	RandSeed uint64
	RandMode int
	AllowEnd bool // caller judges panics, deadlocks and the like itself
	CrashPt  int
	Tag      string
}

// Sim runs root under the scheduler and turns panics, deadlocks, leaked tasks
// and lack of progress into violations.
func (h *H) Sim(o SimOpt, root func()) *simrt.Result {
	cfg := simrt.Config{MaxSteps: o.MaxSteps, Policy: o.Policy, RandMode: -1}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 250_000_000
		if h.bulky {
			cfg.MaxSteps *= 12
		}
	}
	if o.RandSet {
		cfg.RandSet, cfg.RandSeed, cfg.RandMode = true, o.RandSeed, o.RandMode
	}
	if o.Crash {
		cfg.CrashSync = o.CrashPt
	}
	res, run := simrt.Exec(h.C, cfg, root)
	h.execs++
	h.mix(res.Hash)
	h.mix(uint64(res.Steps))
	h.Steps += res.Steps
	h.Sw += res.Switches
	h.Pre += res.Preempts
	h.Tasks += res.Tasks
	h.Clock += int64(res.Clock)
	if res.MaxLive > h.Live {
		h.Live = res.MaxLive
	}
	if res.Switches > 0 {
		h.Faults["task-switch"] += res.Switches
	}
	if res.Preempts > 0 {
		h.Faults["preemption-mid-statement-sequence"] += res.Preempts
	}
	if res.Crashed {
		h.Fault("crash")
	}
	if simrt.Logging {
		h.Log = append(h.Log, fmt.Sprintf("--- execution %d %s", h.execs, o.Tag))
		h.Log = append(h.Log, run.Log...)
	}
	if o.AllowEnd {
		return res
	}
	h.judge(res, o.Tag)
	return res
}

func (h *H) judge(res *simrt.Result, tag string) {
	switch {
	case res.Panic != nil:
		h.Fail("panic", "%s panic: %s\n%s", tag, res.Panic.Value, res.Panic.Stack)
	case res.Crashed:
	case res.StepLimit:
		h.Fail("no-progress", "%s did not finish within %d steps", tag, res.Steps)
	case res.Deadlock:
		h.Fail("deadlock", "%s never returns: %s", tag, strings.Join(res.Leaked, "; "))
	case len(res.Leaked) > 0:
		h.Fail("leak", "%s left tasks blocked for ever: %s", tag, strings.Join(res.Leaked, "; "))
	}
}

// reset puts every hook and the simulated disk back to neutral.
func reset() {
	boo.SimTrain, boo.SimAccuracy, boo.SimSubSample, utils.SimCVSamples = nil, nil, nil, nil
	simos.Disk = simos.NewFS()
}

// ---------- generators

type rng struct{ s uint64 }

func (r *rng) u() uint64 { r.s += 0x9e3779b97f4a7c15; return simrt.Mix(r.s) }
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u() % uint64(n))
}
func (r *rng) f() float64 { return float64(r.u()>>11) / (1 << 53) }

// DataSpec bounds a generated data set.
type DataSpec struct {
	MinRows, MaxRows int
	MinCols, MaxCols int
	MaxClasses       int
	UniqueRows       bool
	Big              bool // some are several times larger
}

// Data generates a labelled data set; column 0 identifies the row if asked to.
func (h *H) Data(sp DataSpec) *utils.DataBunch {
	if sp.MinCols == 0 {
		sp.MinCols = 1
	}
	if sp.MaxCols == 0 {
		sp.MaxCols = 4
	}
	if sp.MaxClasses == 0 {
		sp.MaxClasses = 4
	}
	if sp.Big && h.C.Chance("big", 0.02) {
		sp.MinRows, sp.MaxRows, sp.MaxCols, sp.MaxClasses = sp.MaxRows, sp.MaxRows*6, sp.MaxCols*4, sp.MaxClasses*3
		h.Probe("large-data")
	}
	rows := h.C.Int("rows", sp.MinRows, sp.MaxRows)
	cols := h.C.Int("cols", sp.MinCols, sp.MaxCols)
	ncl := h.C.Int("classes", 1, sp.MaxClasses)
	style := h.C.Int("values", 0, 3)
	if sp.Big && h.C.Chance("tree", 0.004) { // one that takes a large tree to fit
		rows, cols, ncl, style = h.C.Int("rows", 150, 400), 1, 2, 3
		h.Probe("large-tree")
		h.large = true
	}
	if sp.Big && !h.large && h.C.Chance("wide", 0.012) { // far more columns than rows
		rows, cols = h.C.Int("rows", sp.MinRows, max(sp.MinRows, 6)), []int{h.C.Int("cols", 10, 24), h.C.Int("cols", 30, 80), h.C.Int("cols", 120, 140)}[h.C.Int("width", 0, 2)]
		h.Probe("wide-data")
	}
	h.bulky = h.bulky || rows > 30 || cols > 8
	scale := []float64{1, 1, 1, 1, 1e-9, 1e7}[h.C.Int("scale", 0, 5)]
	ulps := false
	if sp.Big {
		switch h.C.Int("extreme", 0, 60) {
		case 1:
			scale = 1.5e307
			h.Probe("huge-values")
		case 2, 3:
			ulps = true
			h.Probe("adjacent-values")
		}
	}
	r := &rng{h.C.Word("data")}
	lab := make([]int, ncl)
	for i := range lab {
		lab[i] = i
	}
	switch h.C.Int("labels", 0, 4) {
	case 4: // more than a float64 tells apart
		for i := range lab {
			lab[i] = 1<<60 + i
		}
	case 3: // more than 32 bits
		for i := range lab {
			lab[i] = (3<<33 + i*977<<20) * (1 - 2*(i%2))
		}
	case 1: // not contiguous, not sorted, negative
		for i := range lab {
			lab[i] = []int{7, -3, 100, 2, 0, -11}[i%6] + 1000*(i/6)
		}
	case 2:
		for i := range lab {
			lab[i] = ncl - i
		}
	}
	d := &utils.DataBunch{}
	cent := make([]float64, ncl*cols)
	for i := range cent {
		cent[i] = float64(r.n(9)) - 4
	}
	for i := 0; i < rows; i++ {
		k := r.n(ncl)
		if style == 2 {
			k = i % ncl
		}
		row := make([]float64, cols)
		for j := range row {
			switch style {
			case 0:
				row[j] = float64(r.n(5)) - 2
			case 1:
				row[j] = cent[k*cols+j] + r.f()*3
			case 2:
				row[j] = cent[k*cols+j] + r.f()
			default:
				row[j] = math.Round((r.f()*20-10)*1000) / 1000
			}
		}
		for j := range row {
			row[j] *= scale
			if ulps {
				row[j] = math.Float64frombits(math.Float64bits(1.25+math.Trunc(math.Abs(row[j]))) + uint64(r.n(4)))
			}
		}
		if sp.UniqueRows {
			row[0] = float64(i) + 0.5
		}
		d.Data = append(d.Data, row)
		d.Labels = append(d.Labels, lab[k])
	}
	if h.C.Chance("keys", 0.6) {
		for j := 0; j < cols; j++ {
			d.Keys = append(d.Keys, fmt.Sprintf("feat%d", j))
		}
	}
	h.Note("data: %d rows, %d columns, up to %d classes, style %d, scale %g", rows, cols, ncl, style, scale)
	return d
}

func cloneData(d *utils.DataBunch) *utils.DataBunch {
	r := &utils.DataBunch{}
	for _, v := range d.Data {
		r.Data = append(r.Data, append([]float64(nil), v...))
	}
	r.Labels = append([]int(nil), d.Labels...)
	r.Keys = append([]string(nil), d.Keys...)
	r.FloatLabels = append([]float64(nil), d.FloatLabels...)
	return r
}

func sameData(a, b *utils.DataBunch) string {
	if len(a.Data) != len(b.Data) || len(a.Labels) != len(b.Labels) || len(a.Keys) != len(b.Keys) {
		return fmt.Sprintf("sizes %d/%d/%d and %d/%d/%d", len(a.Data), len(a.Labels), len(a.Keys), len(b.Data), len(b.Labels), len(b.Keys))
	}
	for i := range a.Data {
		if len(a.Data[i]) != len(b.Data[i]) {
			return fmt.Sprintf("row %d has %d and %d values", i, len(a.Data[i]), len(b.Data[i]))
		}
		for j := range a.Data[i] {
			if math.Float64bits(a.Data[i][j]) != math.Float64bits(b.Data[i][j]) {
				return fmt.Sprintf("row %d column %d: %v and %v", i, j, a.Data[i][j], b.Data[i][j])
			}
		}
	}
	for i := range a.Labels {
		if a.Labels[i] != b.Labels[i] {
			return fmt.Sprintf("label %d: %d and %d", i, a.Labels[i], b.Labels[i])
		}
	}
	for i := range a.Keys {
		if a.Keys[i] != b.Keys[i] {
			return fmt.Sprintf("key %d: %q and %q", i, a.Keys[i], b.Keys[i])
		}
	}
	return ""
}

// BoostOpts generates training options.
func (h *H) BoostOpts(maxRounds int) *boo.Options {
	var o *boo.Options
	if h.C.Chance("xgb", 0.7) {
		o = boo.DefaultXOptions()
		o.SubSample = []float64{1, 0.9, 0.7, 0.5, 0.3}[h.C.Int("subsample", 0, 4)]
		o.ColSubSample = []float64{1, 0.9, 0.6, 0.4}[h.C.Int("colsubsample", 0, 3)]
		o.MinSample = []int{1, 0, 2, 5}[h.C.Int("minsample", 0, 3)]
		o.Gamma = []float64{0, 0.25, 0.05, 0, 1.5}[h.C.Int("gamma", 0, 4)]
		o.Lambda = []float64{1, 0.5, 0, 2, 0.03, 25}[h.C.Int("lambda", 0, 5)]
	} else {
		o = boo.DefaultGOptions()
	}
	o.Rounds = h.C.Int("rounds", 1, maxRounds)
	o.MaxDepth = h.C.Int("depth", 1, 4)
	o.MinChildWeight = []float64{1, 2, 3, 1, 1, 2.5, 0.4, 7}[h.C.Int("mcw", 0, 7)]
	if h.large {
		h.large = false
		o.MaxDepth, o.MinChildWeight, o.Gamma, o.SubSample, o.Rounds = 20, 1, 0, 1, h.C.Int("rounds", 1, 2)
	} else if h.C.Chance("deep", 0.05) {
		o.MaxDepth = h.C.Int("deeper", 5, 14)
		o.MinChildWeight = 1
		h.Probe("deep-trees")
	} else if h.C.Chance("no-depth", 0.02) {
		o.MaxDepth = 0
		h.Probe("no-depth")
	}
	o.LearningRate = []float64{0.25, 0.1, 0.5, 0.8, 1, 0.37, 0.013, 1.7}[h.C.Int("lr", 0, 7)]
	o.EarlyStop = []int{0, 1, 2, 3, 5}[h.C.Int("earlystop", 0, 4)]
	o.BaseScore = []float64{0.5, 0, 0.3, -1.7, 12}[h.C.Int("basescore", 0, 4)]
	h.Note("options: %s early stop %d, min sample %d", o, o.EarlyStop, o.MinSample)
	return o
}

func copyOpts(o *boo.Options) boo.Options { return *o }

func optsDiff(a, b boo.Options) string {
	var d []string
	add := func(n string, x, y any) {
		if x != y {
			d = append(d, fmt.Sprintf("%s %v/%v", n, x, y))
		}
	}
	add("XGB", a.XGB, b.XGB)
	add("Rounds", a.Rounds, b.Rounds)
	add("MaxDepth", a.MaxDepth, b.MaxDepth)
	add("EarlyStop", a.EarlyStop, b.EarlyStop)
	add("LearningRate", a.LearningRate, b.LearningRate)
	add("Lambda", a.Lambda, b.Lambda)
	add("MinChildWeight", a.MinChildWeight, b.MinChildWeight)
	add("Gamma", a.Gamma, b.Gamma)
	add("SubSample", a.SubSample, b.SubSample)
	add("ColSubSample", a.ColSubSample, b.ColSubSample)
	add("BaseScore", a.BaseScore, b.BaseScore)
	add("MinSample", a.MinSample, b.MinSample)
	add("TreeMethod", a.TreeMethod, b.TreeMethod)
	add("Verbose", a.Verbose, b.Verbose)
	an, bn := "", ""
	if a.Loss != nil {
		an = a.Loss.Name()
	}
	if b.Loss != nil {
		bn = b.Loss.Name()
	}
	add("Loss", an, bn)
	return strings.Join(d, ", ")
}

func optsKey(o *boo.Options) string {
	return fmt.Sprintf("%v|%d|%d|%d|%x|%x|%x|%x|%x|%x|%x|%d|%v", o.XGB, o.Rounds, o.MaxDepth, o.EarlyStop, math.Float64bits(o.LearningRate), math.Float64bits(o.Lambda), math.Float64bits(o.MinChildWeight), math.Float64bits(o.Gamma), math.Float64bits(o.SubSample), math.Float64bits(o.ColSubSample), math.Float64bits(o.BaseScore), o.MinSample, o.Verbose)
}

// ---------- model digests

func bitsStr(f []float64) string {
	var b strings.Builder
	for _, v := range f {
		fmt.Fprintf(&b, "%x ", math.Float64bits(v))
	}
	return b.String()
}

// modelKey is everything a user can see of a model: labels, sizes, predicted
// probabilities for the points, the feature ranking.
func modelKey(m *boo.MultiClass, pts [][]float64) string {
	var b strings.Builder
	fmt.Fprintf(&b, "labels %v classes %d rounds", m.ClassLabels(), m.Classes())
	for k := 0; k < m.Classes(); k++ {
		fmt.Fprintf(&b, " %d", m.Rounds(k))
	}
	for _, p := range pts {
		fmt.Fprintf(&b, "\n%s -> %d", bitsStr(m.PredictSingle(p)), m.PredictSingleClass(p))
	}
	f, err := m.FeatureImportance()
	if err != nil {
		fmt.Fprintf(&b, "\nimportance error %v", err)
	} else if f.Len() > 0 {
		fmt.Fprintf(&b, "\n%s", f.String())
	}
	return b.String()
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "", ""
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q and %q", i, x, y)
		}
	}
	return "no difference"
}

func modelJSON(m *boo.MultiClass) (string, error) {
	var b strings.Builder
	err := boo.JSONMultiClass(m, "softmax", &b)
	return b.String(), err
}

func loadModel(s []byte) (*boo.MultiClass, error) {
	return boo.UnJSONMultiClass(bufio.NewReader(bytes.NewReader(s)))
}

// safeLoad loads a model and uses it; a panic is returned as text.
func safeLoad(s []byte, pts [][]float64) (key string, err error, pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = fmt.Sprint(p)
		}
	}()
	m, err := loadModel(s)
	if err != nil {
		return "", err, ""
	}
	if m == nil {
		return "", nil, "nil model without an error"
	}
	return modelKey(m, pts), nil, ""
}

// ---------- faulty streams

// faultReader hands out data in chosen fragments and can fail at an offset.
type faultReader struct {
	h      *H
	data   []byte
	off    int
	failAt int // -1: never
	err    error
	mode   int // 0 whole, 1 one byte, 2 random, 3 random with empty reads, 4 data together with EOF
	r      rng
	empty  int
	done   bool
}

func (h *H) reader(data []byte, failAt int, err error) *faultReader {
	f := &faultReader{h: h, data: data, failAt: failAt, err: err, mode: h.C.Int("fragment", 0, 4)}
	if f.mode > 1 {
		f.r.s = h.C.Word("fragments")
	}
	return f
}

func (f *faultReader) Read(p []byte) (int, error) {
	simrt.SyncPoint(50, 1)
	if len(p) == 0 {
		return 0, nil
	}
	end := len(f.data)
	if f.failAt >= 0 && f.failAt < end {
		end = f.failAt
	}
	left := end - f.off
	if left == 0 {
		if f.failAt >= 0 {
			f.h.Fault("read-error")
			return 0, f.err
		}
		return 0, io.EOF
	}
	n := len(p)
	switch f.mode {
	case 1:
		n = 1
	case 2, 4:
		n = 1 + f.r.n(40)
	case 3:
		if f.empty < 20 && f.r.n(4) == 0 {
			f.empty++
			f.h.Fault("empty-read")
			return 0, nil
		}
		f.empty = 0
		n = 1 + f.r.n(17)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > left {
		n = left
	}
	if n < len(p) && n < left {
		f.h.Fault("short-read")
	}
	copy(p, f.data[f.off:f.off+n])
	f.off += n
	if f.mode == 4 && f.off == len(f.data) && f.failAt < 0 {
		f.h.Fault("data-with-eof")
		return n, io.EOF
	}
	return n, nil
}

var ioErrs = []error{syscall.EIO, io.ErrUnexpectedEOF, syscall.EINTR, errors.New("connection reset")}

// diskFaults installs a fault plan on the simulated disk and returns a
// function that tells whether an error was injected.
type diskPlan struct {
	h       *H
	r       rng
	short   bool
	failOp  string
	failN   int
	seen    map[string]int
	Hit     bool
	partial int
}

func (h *H) diskShort() *diskPlan {
	p := &diskPlan{h: h, seen: map[string]int{}, short: true, failN: -1}
	p.r.s = h.C.Word("disk")
	simos.Disk.Fault = p.fault
	return p
}

// diskFail makes the n-th operation of one kind fail.
func (h *H) diskFail(op string, n int, short bool) *diskPlan {
	p := &diskPlan{h: h, seen: map[string]int{}, short: short, failOp: op, failN: n}
	p.r.s = h.C.Word("disk")
	p.partial = h.C.Int("partial", 0, 60)
	simos.Disk.Fault = p.fault
	return p
}

func (p *diskPlan) fault(op, name string, n int) (int, error) {
	k := p.seen[op]
	p.seen[op]++
	if op == p.failOp && k == p.failN {
		p.Hit = true
		p.h.Fault("disk-" + op + "-error")
		switch op {
		case "read", "write":
			m := p.partial
			if m > n {
				m = n
			}
			if op == "write" && m == n && n > 0 {
				m = n - 1
			}
			if op == "write" {
				return m, syscall.ENOSPC
			}
			return m, []error{syscall.EIO, io.ErrUnexpectedEOF, syscall.EINTR, syscall.ESTALE}[p.partial%4]
		}
		return 0, syscall.EIO
	}
	if p.short && op == "read" && n > 1 {
		p.h.Fault("disk-short-read")
		return 1 + p.r.n(n), nil
	}
	return -1, nil
}

// ---------- search observation

// Train is one training a search asked for.
type Train struct {
	Key  string
	O    boo.Options
	P    *boo.Options
	Task int
	D    *utils.DataBunch
	M    *boo.MultiClass
	Acc  []float64
	Test []*utils.DataBunch
	Full bool
	Seq  int
}

// Watch observes (and, if Landscape is set, replaces) trainings and scores.
type Watch struct {
	h         *H
	Full      *utils.DataBunch
	Trains    []*Train
	byModel   map[*boo.MultiClass]*Train
	active    map[string]int // options being trained on folds
	MaxActive int
	Real      bool
	Landscape func(o *boo.Options, fold int) float64
	folds     map[string]int
	CVCalls   int
	FailAt    map[int]bool
	// fail the n-th call (from 1) for a candidate by the calling task, for the
	// starting point of a gradient step, or for a probe of one
	FailCand, FailBase, FailProbe    int
	candCalls, baseCalls, probeCalls int
	Failed                           int
	FailedIn                         []int
	CVTasks                          []int
	tiny                             int
}

var errInjected = errors.New("injected failure of the sampling")

// watch installs the hooks.
func (h *H) watch(full *utils.DataBunch) *Watch {
	w := &Watch{h: h, Full: full, byModel: map[*boo.MultiClass]*Train{}, folds: map[string]int{}, active: map[string]int{}, FailAt: map[int]bool{}}
	boo.SimTrain = w.train
	boo.SimAccuracy = w.accuracy
	utils.SimCVSamples = w.samples
	return w
}

func (w *Watch) train(D *utils.DataBunch, opts []*boo.Options, impl func(...*boo.Options) *boo.MultiClass) *boo.MultiClass {
	var o *boo.Options
	if len(opts) > 0 {
		o = opts[0]
	}
	t := &Train{Task: simrt.CurID(), D: D, P: o, Full: w.isFull(D), Seq: len(w.Trains)}
	if o != nil {
		t.O = *o
		t.Key = optsKey(o)
	}
	w.Trains = append(w.Trains, t)
	if !t.Full {
		w.active[t.Key]++
	}
	if len(w.active) > w.MaxActive {
		w.MaxActive = len(w.active)
	}
	var m *boo.MultiClass
	if w.Real || t.Full {
		m = impl(opts...)
	} else {
		// a real, but small, ensemble: the score comes from the landscape
		c := boo.DefaultGOptions()
		c.Rounds, c.MaxDepth = 1, 1
		simrt.SyncPoint(51, 1)
		m = impl(c)
		simrt.SyncPoint(51, 2)
	}
	if !t.Full {
		if w.active[t.Key]--; w.active[t.Key] == 0 {
			delete(w.active, t.Key)
		}
	}
	t.M = m
	w.byModel[m] = t
	return m
}

// isFull tells whether D is (a copy of) the whole data set.
func (w *Watch) isFull(D *utils.DataBunch) bool {
	return D == w.Full || len(D.Data) == len(w.Full.Data) && len(D.Data) > 0 && sameData(D, w.Full) == ""
}

func (w *Watch) accuracy(M *boo.MultiClass, D *utils.DataBunch, impl func() float64) float64 {
	t := w.byModel[M]
	var a float64
	if w.Landscape != nil && t != nil {
		k := fmt.Sprintf("%d/%s", t.Task, t.Key)
		a = w.Landscape(&t.O, w.folds[k])
		w.folds[k]++
		simrt.SyncPoint(52, 1)
	} else {
		a = impl()
	}
	if t != nil {
		t.Acc = append(t.Acc, a)
		t.Test = append(t.Test, D)
	}
	return a
}

func (w *Watch) samples(data *utils.DataBunch, nfold int, impl func() (int, func() (*utils.DataBunch, *utils.DataBunch), error)) (int, func() (*utils.DataBunch, *utils.DataBunch), error) {
	w.CVCalls++
	id := simrt.CurID()
	w.CVTasks = append(w.CVTasks, id)
	fail := w.FailAt[w.CVCalls]
	switch m := simrt.CurMark(); {
	case m == 0 && id == 0:
		w.candCalls++
		fail = fail || w.candCalls == w.FailCand
	case m == 1:
		w.baseCalls++
		fail = fail || w.baseCalls == w.FailBase
	case m == 2:
		w.probeCalls++
		fail = fail || w.probeCalls == w.FailProbe
	}
	if fail {
		w.Failed++
		w.FailedIn = append(w.FailedIn, id)
		w.h.Fault("evaluation-failure")
		simrt.SyncPoint(53, 1)
		return 0, nil, errInjected
	}
	return impl()
}

// evals groups trainings by options: key -> scores of its folds, in order.
func (w *Watch) evals() map[string][]*Train {
	m := map[string][]*Train{}
	for _, t := range w.Trains {
		if !t.Full {
			m[t.Key] = append(m[t.Key], t)
		}
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// wantFolds is the number of folds documented for n rows: the requested one (5
// if none), or the largest smaller one that leaves at least two rows per fold.
func wantFolds(n, nfold int) int {
	nf := nfold
	if nf <= 0 {
		nf = 5
	}
	for nf > 0 && n/nf < 2 {
		nf--
	}
	if nf < 2 {
		return 0
	}
	return nf
}

// alike allows for sums over many rows in another order.
func alike(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-13*(1+math.Abs(a)+math.Abs(b))
}

// Result of a search.
type searchRes struct {
	Acc  float64
	Accs []float64
	O    *boo.Options
	Err  error
}

func (r searchRes) String() string {
	o := "<nil>"
	if r.O != nil {
		o = optsKey(r.O)
	}
	return fmt.Sprintf("best %x accs %s options %s err %v", math.Float64bits(r.Acc), bitsStr(r.Accs), o, r.Err != nil)
}

var searchNames = []string{"grid", "gradient", "hybrid"}

func runSearch(kind int, d *utils.DataBunch, nfold int, g *cv.GridOptions) (r searchRes) {
	switch kind {
	case 0:
		r.Acc, r.Accs, r.O, r.Err = cv.Grid(d, nfold, g)
	case 1:
		r.Acc, r.Accs, r.O, r.Err = cv.GradientGrid(d, nfold, g)
	default:
		r.Acc, r.Accs, r.O, r.Err = cv.HybridGradientGrid(d, nfold, g)
	}
	return r
}
