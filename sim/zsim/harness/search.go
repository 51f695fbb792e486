package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"github.com/rmera/boo/zsim/simrt"
)

var realCV = []string{"cv (searches, gradient step, cross-validation)", "boo (training, prediction, serialisation)", "utils (folds, matrices, losses)"}
var stubSched = []string{"goroutine scheduler, channels, select, sync, map iteration order (simulated)", "math/rand (seeded streams, uniform and adversarial)", "os and log (in memory)"}

// axis is one dimension of a grid, with steps exact in binary unless it has
// decimal ones.
type axis struct {
	lo, step float64
	n        int
	slack    bool
	decimal  bool
}

func (a axis) arr() [3]float64 {
	hi := a.lo + a.step*float64(a.n-1)
	if a.decimal {
		hi = math.Round(hi*1e6) / 1e6
		last := a.vals()[a.n-1]
		// whether a final value that the steps only miss by rounding is part
		// of the range is not specified
		a.slack = a.slack || last > hi
	}
	if a.slack {
		hi += a.step / 2
	}
	return [3]float64{a.lo, hi, a.step}
}
func (a axis) arri() [3]int {
	f := a.arr()
	return [3]int{int(f[0]), int(f[1]), int(f[2])}
}
func (a axis) vals() []float64 {
	var r []float64
	v := a.lo
	for i := 0; i < a.n; i++ {
		r = append(r, v)
		v += a.step
	}
	return r
}

// tenths gives a real axis decimal values and steps.
func (h *H) tenths(name string, a *axis, los, steps []float64) {
	a.lo, a.step = los[h.C.Int(name+"-lo", 0, len(los)-1)], steps[h.C.Int(name+"-step", 0, len(steps)-1)]
	a.decimal = true
}

// gridKey is optsKey up to the rounding of the values of a range.
func gridKey(o *boo.Options) string {
	c := onGrid(*o)
	return optsKey(&c)
}

func onGrid(o boo.Options) boo.Options {
	for _, p := range []*float64{&o.LearningRate, &o.Lambda, &o.MinChildWeight, &o.Gamma, &o.SubSample, &o.ColSubSample} {
		*p = math.Round(*p*1e6) / 1e6
	}
	return o
}

// gridSpec is a grid and its axes.
type gridSpec struct {
	G                        *cv.GridOptions
	Rounds, MD, LR, Gam, Lam axis
	SS, CSS, MCW             axis
	Total                    int
	wild                     bool // not for real training
}

func (h *H) axis(name string, budget *int, los []float64, steps []float64, maxn int) axis {
	a := axis{lo: los[h.C.Int(name+"-lo", 0, len(los)-1)], step: steps[h.C.Int(name+"-step", 0, len(steps)-1)], n: 1}
	if maxn > *budget {
		maxn = *budget
	}
	if maxn > 1 {
		a.n = h.C.Int(name+"-n", 1, maxn)
	}
	*budget /= a.n
	a.slack = h.C.Chance(name+"-slack", 0.3)
	return a
}

// gridSpecN generates a grid of at most maxCombos points.
func (h *H) gridSpecN(maxCombos int, wild ...bool) *gridSpec {
	s := &gridSpec{}
	s.wild = len(wild) > 0 && wild[0]
	b := maxCombos
	// the order in which the dimensions get the budget varies
	type dim struct {
		name  string
		los   []float64
		steps []float64
		to    *axis
	}
	dims := []dim{
		{"rounds", []float64{1, 2, 5}, []float64{1, 2, 3}, &s.Rounds},
		{"maxdepth", []float64{2, 3, 1}, []float64{1, 2}, &s.MD},
		{"lr", []float64{0.25, 0.125}, []float64{0.125, 0.25}, &s.LR},
		{"subsample", []float64{0.5, 0.75}, []float64{0.0625, 0.125}, &s.SS},
		{"lambda", []float64{0.5, 0, 1}, []float64{0.5, 1}, &s.Lam},
		{"mcw", []float64{1, 2}, []float64{1, 0.5}, &s.MCW},
		{"gamma", []float64{0, 0.25}, []float64{0.25, 0.125}, &s.Gam},
		{"colsubsample", []float64{0.5, 0.75}, []float64{0.0625, 0.125}, &s.CSS},
	}
	if s.wild {
		h.Probe("unusual-values")
		dims = []dim{
			{"rounds", []float64{100, 1000, 0, 12}, []float64{7, 100, 500, 1}, &s.Rounds},
			{"maxdepth", []float64{8, 1, 12, 0}, []float64{1, 4, 10}, &s.MD},
			{"lr", []float64{0.0009765625, 1, 1.5, 0.25}, []float64{0.0009765625, 0.00048828125, 0.5, 2}, &s.LR},
			{"subsample", []float64{0.03125, 1, 0.9375}, []float64{0.0009765625, 0.03125}, &s.SS},
			{"lambda", []float64{10, 64, 0.0009765625, 1000}, []float64{8, 100, 0.00048828125}, &s.Lam},
			{"mcw", []float64{10, 0.25, 25}, []float64{5, 20, 0.0625}, &s.MCW},
			{"gamma", []float64{5, 20, 0.0009765625}, []float64{4, 20, 0.0009765625}, &s.Gam},
			{"colsubsample", []float64{0.03125, 1, 0.9375}, []float64{0.0009765625, 0.03125}, &s.CSS},
		}
	}
	off := h.C.Int("first-dim", 0, len(dims)-1)
	for i := range dims {
		d := dims[(i+off)%len(dims)]
		*d.to = h.axis(d.name, &b, d.los, d.steps, 4)
	}
	if !s.wild && h.C.Chance("decimal", 0.25) {
		h.Probe("decimal-steps")
		h.tenths("lr", &s.LR, []float64{0.1, 0.2, 0.05, 0.3}, []float64{0.1, 0.05, 0.2})
		h.tenths("gamma", &s.Gam, []float64{0.1, 0, 0.3}, []float64{0.1, 0.3})
		h.tenths("lambda", &s.Lam, []float64{0.1, 0.7, 1.1}, []float64{0.1, 0.2, 0.7})
		h.tenths("subsample", &s.SS, []float64{0.6, 0.5, 0.1}, []float64{0.1, 0.05})
		h.tenths("colsubsample", &s.CSS, []float64{0.6, 0.5, 0.1}, []float64{0.1, 0.05})
		h.tenths("mcw", &s.MCW, []float64{1.1, 1.4, 2}, []float64{0.1, 0.3})
	}
	g := cv.DefaultXGridOptions()
	if !h.C.Chance("grid-xgb", 0.6) {
		g = cv.DefaultGGridOptions()
	}
	// integer axes have no room for half a step
	if int(s.Rounds.step)%2 != 0 {
		s.Rounds.slack = false
	}
	if int(s.MD.step)%2 != 0 {
		s.MD.slack = false
	}
	g.Rounds = s.Rounds.arri()
	g.MaxDepth = s.MD.arri()
	g.LearningRate = s.LR.arr()
	g.Gamma = s.Gam.arr()
	g.Lambda = s.Lam.arr()
	g.SubSample = s.SS.arr()
	g.ColSubSample = s.CSS.arr()
	g.MinChildWeight = s.MCW.arr()
	g.EarlyStop = []int{0, 3, 10, 1}[h.C.Int("earlystop", 0, 3)]
	g.Verbose = h.C.Chance("verbose", 0.15)
	g.NCPUs = []int{1, 2, 3, 4, 6, 0, 8, 16, 5, 24, 40}[h.C.Int("ncpus", 0, 10)]
	s.G = g
	s.Total = s.Rounds.n * s.MD.n * s.LR.n * s.SS.n * s.Lam.n * s.MCW.n * s.Gam.n * s.CSS.n
	h.Note("grid: %d combinations, xgb %v, %d cpus, rounds %v depth %v lr %v gamma %v lambda %v subsample %v colsubsample %v mcw %v", s.Total, g.XGB, g.NCPUs, g.Rounds, g.MaxDepth, g.LearningRate, g.Gamma, g.Lambda, g.SubSample, g.ColSubSample, g.MinChildWeight)
	return s
}

// combos lists the options of every combination.
func (s *gridSpec) combos() []boo.Options {
	var out []boo.Options
	for _, rn := range s.Rounds.vals() {
		for _, cw := range s.MCW.vals() {
			for _, md := range s.MD.vals() {
				for _, css := range s.CSS.vals() {
					for _, lr := range s.LR.vals() {
						for _, lam := range s.Lam.vals() {
							for _, gam := range s.Gam.vals() {
								for _, ss := range s.SS.vals() {
									o := boo.DefaultGOptions()
									if s.G.XGB {
										o = boo.DefaultXOptions()
									}
									o.Rounds, o.MinChildWeight, o.MaxDepth = int(rn), cw, int(md)
									o.ColSubSample, o.LearningRate, o.Lambda, o.Gamma, o.SubSample = css, lr, lam, gam, ss
									o.XGB, o.EarlyStop = s.G.XGB, s.G.EarlyStop
									out = append(out, *o)
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func hashOpts(o *boo.Options, salt uint64) uint64 {
	return simrt.Mix(simrt.HashString(optsKey(o)) ^ salt)
}

// landscape generates a score that is a pure function of the options.
func (h *H) landscape(kinds ...int) (string, func(o *boo.Options, fold int) float64) {
	salt := h.C.Word("landscape")
	kind := h.C.Int("landscape-kind", 0, 7)
	if len(kinds) > 0 {
		kind = kinds[0]
	}
	r := &rng{salt}
	w := make([]float64, 6)
	for i := range w {
		w[i] = r.f()*2 - 1
		if r.n(3) == 0 {
			w[i] = 0
		}
	}
	vec := func(o *boo.Options) []float64 {
		return []float64{o.Gamma, o.Lambda, o.SubSample, o.ColSubSample, o.LearningRate, float64(o.Rounds) / 10}
	}
	clamp := func(v float64) float64 { return math.Max(0, math.Min(100, v)) }
	switch kind {
	case 0:
		return "linear", func(o *boo.Options, _ int) float64 {
			s := 50.0
			for i, x := range vec(o) {
				s += 3 * w[i] * x
			}
			return clamp(s)
		}
	case 1:
		return "steep linear", func(o *boo.Options, _ int) float64 {
			s := 50.0
			for i, x := range vec(o) {
				s += 12 * w[i] * x
			}
			return clamp(s)
		}
	case 2:
		return "rugged", func(o *boo.Options, _ int) float64 {
			return float64(hashOpts(o, salt)%100000)/1000.5 + 0.01
		}
	case 3:
		return "peak", func(o *boo.Options, _ int) float64 {
			s := 95.0
			for i, x := range vec(o) {
				d := x - (0.5 + w[i]/3)
				s -= 8 * d * d
			}
			return clamp(s)
		}
	case 4:
		return "flat", func(o *boo.Options, _ int) float64 { return 42 }
	case 5:
		return "ties", func(o *boo.Options, _ int) float64 {
			return 20 * float64(1+hashOpts(o, salt)%4)
		}
	}
	if kind == 6 {
		return "terraces", func(o *boo.Options, _ int) float64 {
			s := 50.0
			for i, x := range vec(o) {
				s += 8 * w[i] * math.Floor(x*(1.5+w[5-i]))
			}
			return clamp(s)
		}
	}
	return "zero", func(o *boo.Options, _ int) float64 { return 0 }
}

// ---------- C01: exhaustive grid search

func init() {
	register(&Check{ID: "C01", Run: runC01, Quick: 100000, Thorough: 400000,
		Rule: "Each run generates a grid (1 to 300 combinations over all eight hyperparameters), a data set, folds, workers, a score for each combination and a schedule of the worker tasks, and runs the real grid search on them.",
		Real: realCV, Stub: append([]string{"the score of a trained model in most runs (a chosen value per combination and fold; in the others the real accuracy)"}, stubSched...),
		Want: []string{"partial-last-batch", "parallel-trainings", "tie-for-best", "real-training", "no-workers-requested", "fewer-folds", "decimal-steps", "over-100-combinations", "unusual-values", "large-data"}})
}

func runC01(h *H) {
	combos := []int{12, 6, 30, 20}[h.C.Int("combos", 0, 3)]
	if h.C.Chance("large-grid", 0.02) {
		combos = h.C.Int("combos", 120, 300)
	}
	sp := h.gridSpecN(combos, h.C.Chance("wild", 0.15))
	if sp.Total > 100 {
		h.Probe("over-100-combinations")
	}
	g := sp.G
	d := h.Data(DataSpec{MinRows: 4, MaxRows: 14, MaxCols: 3, MaxClasses: 3, Big: sp.Total <= 30 && h.C.Chance("bigdata", 0.3)})
	nfold := []int{2, 3, 0, 4, 5, 11}[h.C.Int("nfold", 0, 5)]
	want := wantFolds(len(d.Data), nfold)
	real := h.C.Chance("real", 0.08) && !sp.wild && !(h.bulky && sp.Total > 12)
	score := h.C.Int("scores", 0, 4)
	salt := h.C.Word("scores-salt")
	w := h.watch(d)
	w.Real = real
	if !real {
		w.Landscape = func(o *boo.Options, fold int) float64 {
			x := hashOpts(o, salt)
			switch score {
			case 0: // all different, folds too
				return float64(x%9000)/100 + float64(simrt.Mix(x+uint64(fold))%1000)/1000 + 1
			case 1: // many ties
				return float64(10 * (1 + x%3))
			case 2: // mostly zero
				if x%4 == 0 {
					return float64(x % 101)
				}
				return 0
			case 3: // some of them differ in the last digits only
				return 90 + float64(x%5)*1e-12*float64(uint64(1)<<(4*(salt%8)))
			}
			return 90 + float64(x%1000)/1e4 // nearly equal
		}
	} else {
		h.Probe("real-training")
	}
	before, gb := cloneData(d), *g
	h.bulky = h.bulky || sp.Total > 30 || real // more steps to allow for
	h.Note("nfold %d (expects %d), scores %d, real %v", nfold, want, score, real)
	var r searchRes
	res := h.Sim(SimOpt{Policy: -1, Tag: "grid search"}, func() { r = runSearch(0, d, nfold, g) })
	if h.V != nil || !res.RootDone {
		return
	}
	if want != 0 && want < nfold {
		h.Probe("fewer-folds")
	}
	if r.Err != nil {
		h.Fail("unexpected-error", "the search failed: %v", r.Err)
		return
	}
	ncpus := g.NCPUs
	if ncpus < 1 {
		ncpus = 1
		h.Probe("no-workers-requested")
	}
	if sp.Total%ncpus != 0 {
		h.Probe("partial-last-batch")
	}
	if w.MaxActive > 1 {
		h.Probe("parallel-trainings")
	}
	if w.MaxActive > ncpus {
		h.Fail("too-parallel", "%d combinations were trained at once, %d requested", w.MaxActive, ncpus)
	}
	ev := map[string][]*Train{}
	for _, t := range w.Trains {
		if !t.Full {
			k := gridKey(&t.O)
			ev[k] = append(ev[k], t)
		}
	}
	expect := map[string]boo.Options{}
	for _, o := range sp.combos() {
		expect[gridKey(&o)] = onGrid(o)
	}
	var means []float64
	best := math.Inf(-1)
	mean := map[string]float64{}
	for _, k := range sortedKeys(ev) {
		ts := ev[k]
		e, ok := expect[k]
		if !ok {
			h.Fail("wrong-combination", "evaluated options that are not in the grid: %s early stop %d (grid rounds %v)", ts[0].O.String(), ts[0].O.EarlyStop, g.Rounds)
			return
		}
		if d := optsDiff(e, onGrid(ts[0].O)); d != "" {
			h.Fail("wrong-settings", "evaluated options differ from the requested ones: %s", d)
			return
		}
		if len(ts) != want {
			h.Fail("not-once", "combination %s was trained %d times, expected once per fold, %d", ts[0].O.String(), len(ts), want)
			return
		}
		s := 0.0
		n := 0
		for _, t := range ts {
			for _, a := range t.Acc {
				s += a
				n++
			}
		}
		if n != want && !real {
			h.Fail("not-once", "combination %s was scored %d times, expected %d", ts[0].O.String(), n, want)
			return
		}
		m := s / float64(want)
		means = append(means, m)
		mean[k] = m
		best = math.Max(best, m)
	}
	for _, k := range sortedKeys(expect) {
		if _, ok := ev[k]; !ok {
			e := expect[k]
			h.Fail("missed", "a combination was never evaluated: %s (%d of %d were)", e.String(), len(ev), len(expect))
			return
		}
	}
	h.MixS(r.String())
	if !near(r.Acc, best) {
		h.Fail("wrong-best", "best accuracy returned %v, the measured maximum is %v", r.Acc, best)
		return
	}
	if r.O == nil {
		h.Fail("no-options", "no options returned for best accuracy %v", r.Acc)
		return
	}
	m, ok := mean[gridKey(r.O)]
	if !ok || !near(m, best) {
		h.Fail("wrong-options", "the options returned (%s) scored %v, not the best %v", r.O, m, best)
		return
	}
	if df := optsDiff(expect[gridKey(r.O)], onGrid(*r.O)); df != "" {
		h.Fail("wrong-options", "the options returned differ from the combination that scored best: %s", df)
		return
	}
	ties := 0
	for _, m := range means {
		if near(m, best) {
			ties++
		}
	}
	if ties > 1 {
		h.Probe("tie-for-best")
	}
	if bad := sameMultiset(means, r.Accs); bad != "" {
		h.Fail("wrong-accuracies", "the accuracies returned are not the measured ones: %s", bad)
		return
	}
	if s := sameData(before, d); s != "" {
		h.Fail("data-modified", "the search modified its data: %s", s)
	}
	if gb != *g {
		h.Fail("options-modified", "the search modified its grid options: %v, were %v", *g, gb)
	}
}

func sameMultiset(a, b []float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d measured, %d returned", len(a), len(b))
	}
	x, y := append([]float64(nil), a...), append([]float64(nil), b...)
	sort.Float64s(x)
	sort.Float64s(y)
	for i := range x {
		if !near(x[i], y[i]) {
			return fmt.Sprintf("measured %v, returned %v", x, y)
		}
	}
	return ""
}

// gradSpec generates grid options for the gradient searches.
func (h *H) gradSpec(maxPairs int, wild ...bool) *gridSpec {
	s := &gridSpec{}
	s.wild = len(wild) > 0 && wild[0]
	b := maxPairs
	s.MD = h.axis("maxdepth", &b, []float64{2, 3}, []float64{1, 2}, 3)
	s.MCW = h.axis("mcw", &b, []float64{1, 2}, []float64{1, 0.5}, 3)
	s.Lam = h.axis("lambda", &b, []float64{0.5, 0, 1}, []float64{0.5, 1}, 2)
	s.Rounds = h.axis("rounds", &b, []float64{4, 10, 2}, []float64{2, 5, 10}, 2)
	if h.C.Chance("decimal", 0.25) {
		h.Probe("decimal-steps")
		h.tenths("lambda", &s.Lam, []float64{0.1, 0.7, 1.1}, []float64{0.1, 0.2, 0.7})
		h.tenths("mcw", &s.MCW, []float64{1.1, 1.4, 2}, []float64{0.1, 0.3})
	}
	one := 1
	big := func(name string, los, steps []float64) axis {
		a := h.axis(name, &one, los, steps, 1)
		a.n = h.C.Int(name+"-n", 1, 4)
		return a
	}
	s.LR = big("lr", []float64{0.125, 0.25}, []float64{0.125, 0.0625})
	s.SS = big("subsample", []float64{0.5, 0.25, 0.75}, []float64{0.0625, 0.125})
	s.CSS = big("colsubsample", []float64{0.5, 0.25, 0.75}, []float64{0.0625, 0.125})
	s.Gam = big("gamma", []float64{0, 0.25}, []float64{0.25, 0.125})
	if s.wild {
		h.Probe("unusual-values")
		pick := func(name string, a *axis, los, steps []float64) {
			a.lo, a.step = los[h.C.Int(name+"-lo", 0, len(los)-1)], steps[h.C.Int(name+"-step", 0, len(steps)-1)]
			a.decimal = false
		}
		pick("rounds", &s.Rounds, []float64{100, 1000, 300}, []float64{50, 8, 200})
		pick("maxdepth", &s.MD, []float64{8, 12}, []float64{1, 4})
		pick("mcw", &s.MCW, []float64{10, 25, 0.25}, []float64{5, 20, 0.0625})
		pick("lambda", &s.Lam, []float64{10, 64, 1000, 0.0009765625}, []float64{8, 100})
		pick("gamma", &s.Gam, []float64{5, 20, 0.0009765625}, []float64{4, 20})
		pick("lr", &s.LR, []float64{0.0009765625, 1, 1.5}, []float64{0.0009765625, 0.5})
		pick("subsample", &s.SS, []float64{0.03125, 0.0625}, []float64{0.25, 0.03125})
		pick("colsubsample", &s.CSS, []float64{0.03125, 0.0625}, []float64{0.25, 0.03125})
	}
	if int(s.MD.step)%2 != 0 {
		s.MD.slack = false
	}
	if int(s.Rounds.step)%2 != 0 {
		s.Rounds.slack = false
	}
	g := cv.DefaultXGridOptions()
	if h.C.Chance("grid-g", 0.15) {
		g = cv.DefaultGGridOptions()
	}
	g.Rounds, g.MaxDepth = s.Rounds.arri(), s.MD.arri()
	g.LearningRate, g.Gamma, g.Lambda = s.LR.arr(), s.Gam.arr(), s.Lam.arr()
	g.SubSample, g.ColSubSample, g.MinChildWeight = s.SS.arr(), s.CSS.arr(), s.MCW.arr()
	g.EarlyStop = []int{10, 0, 3}[h.C.Int("earlystop", 0, 2)]
	g.NSteps = h.C.Int("nsteps", 0, 5)
	g.Central = h.C.Chance("central", 0.5)
	g.Step = []float64{0.1, 0.05, 0.5, 1, 0}[h.C.Int("step", 0, 4)]
	g.DeltaFraction = []float64{0.05, 0.01, 0.25, 0.5, 0}[h.C.Int("delta", 0, 4)]
	g.NCPUs = h.C.Int("ncpus", 0, 4)
	g.Verbose = h.C.Chance("verbose", 0.1)
	s.G = g
	h.Note("search space: xgb %v, rounds %v depth %v lr %v gamma %v lambda %v subsample %v colsubsample %v mcw %v, %d steps of %v, delta %v, central %v, early stop %d", g.XGB, g.Rounds, g.MaxDepth, g.LearningRate, g.Gamma, g.Lambda, g.SubSample, g.ColSubSample, g.MinChildWeight, g.NSteps, g.Step, g.DeltaFraction, g.Central, g.EarlyStop)
	return s
}

func insideLimits(o *boo.Options, g *cv.GridOptions) string {
	var bad []string
	f := func(n string, v float64, lim [3]float64) {
		if !(v >= lim[0]-1e-9 && v <= lim[1]+1e-9) { // up to rounding
			bad = append(bad, fmt.Sprintf("%s %v outside [%v,%v]", n, v, lim[0], lim[1]))
		}
	}
	i := func(n string, v int, lim [3]int) {
		if v < lim[0] || v > lim[1] {
			bad = append(bad, fmt.Sprintf("%s %v outside [%v,%v]", n, v, lim[0], lim[1]))
		}
	}
	i("Rounds", o.Rounds, g.Rounds)
	i("MaxDepth", o.MaxDepth, g.MaxDepth)
	f("LearningRate", o.LearningRate, g.LearningRate)
	f("Gamma", o.Gamma, g.Gamma)
	f("Lambda", o.Lambda, g.Lambda)
	f("SubSample", o.SubSample, g.SubSample)
	f("ColSubSample", o.ColSubSample, g.ColSubSample)
	f("MinChildWeight", o.MinChildWeight, g.MinChildWeight)
	return strings.Join(bad, ", ")
}

// ---------- C02: searches finish and leave nothing behind

func init() {
	register(&Check{ID: "C02", Run: runC02, Quick: 90000, Thorough: 400000,
		Rule: "Each run picks an entry point (the three searches, the gradient step with and without an output channel, the single-parameter step, cross-validation over channels), a configuration including degenerate ones, failing evaluations and a schedule; it must return within the step bound with no task left blocked.",
		Real: realCV, Stub: append([]string{"the score of a trained model in most runs"}, stubSched...),
		Want: []string{"grid", "gradient", "hybrid", "gradstep", "gradstep-out", "paramstep", "cv-channels", "tiny-data", "evaluation-failed", "zero-step", "default-options", "default-options-failing"}})
}

func runC02(h *H) {
	kind := h.C.Int("entry", 0, 6)
	small := h.C.Chance("tiny", 0.2)
	ds := DataSpec{MinRows: 4, MaxRows: 12, MaxCols: 3, MaxClasses: 3, Big: h.C.Chance("bigdata", 0.3)}
	if small {
		ds = DataSpec{MinRows: 0, MaxRows: 4, MaxCols: 2, MaxClasses: 2}
	}
	d := h.Data(ds)
	if len(d.Data) < 4 {
		h.Probe("tiny-data")
	}
	nfold := []int{2, 3, 5, 0, 8}[h.C.Int("nfold", 0, 4)]
	w := h.watch(d)
	w.Real = h.C.Chance("real", 0.1) && !h.bulky
	if !w.Real {
		_, w.Landscape = h.landscape()
	}
	if h.C.Chance("fail", 0.4) {
		n := h.C.Int("failures", 1, 4)
		for i := 0; i < n; i++ {
			w.FailAt[h.C.Int("fail-at", 1, 18)] = true
		}
		if h.C.Chance("fail-all", 0.15) {
			for i := 0; i < 400; i++ {
				w.FailAt[i] = true
			}
		}
	}
	var g *cv.GridOptions
	if kind == 0 {
		g = h.gridSpecN(14).G
	} else {
		g = h.gradSpec(4).G
	}
	g.WriteBest = h.C.Chance("writebest", 0.15)
	if h.C.Chance("few-cpus", 0.1) {
		g.NCPUs = -1
	}
	defaults, failing := 0, false
	if kind == 1 && !w.Real && !g.WriteBest && h.C.Chance("no-options", 0.005) { // the defaults
		defaults = h.C.Int("nil-options", 1, 2)
		g = cv.DefaultXGridOptions()
		h.Probe("default-options")
	}
	if kind < 3 && defaults == 0 && h.C.Chance("no-options-tiny", 0.02) { // the defaults, ending at once
		defaults = h.C.Int("nil-options", 1, 2)
		for i := 0; i < 400; i++ {
			w.FailAt[i] = true
		}
		failing = true
		h.Probe("default-options-failing")
	}
	if kind < 3 && h.C.Chance("zero-step", 0.04) {
		step := []float64{0, -1}[h.C.Int("which-step", 0, 1)]
		switch h.C.Int("zero-step-of", 0, 3) {
		case 0:
			g.MaxDepth[2] = int(step)
		case 1:
			g.MinChildWeight[2] = step
		case 2:
			g.Rounds[2] = int(step)
		case 3:
			g.Lambda[2] = step
		}
		h.Note("steps: depth %v, mcw %v, rounds %v, lambda %v", g.MaxDepth, g.MinChildWeight, g.Rounds, g.Lambda)
		h.Probe("zero-step")
	}
	o := h.startOpts(g)
	h.Note("entry %d, nfold %d, real %v, failures %d", kind, nfold, w.Real, len(w.FailAt))
	done := false
	names := []string{"grid", "gradient", "hybrid", "gradstep", "gradstep-out", "paramstep", "cv-channels"}
	so := SimOpt{Policy: -1, Tag: names[kind]}
	if failing {
		so.AllowEnd, so.MaxSteps = true, 20_000_000
	}
	res := h.Sim(so, func() {
		switch kind {
		case 0, 1, 2:
			if defaults > 0 {
				var none []*cv.GridOptions
				if defaults == 2 {
					none = append(none, nil)
				}
				switch kind {
				case 0:
					cv.Grid(d, nfold, none...)
				case 1:
					cv.GradientGrid(d, nfold, none...)
				case 2:
					cv.HybridGradientGrid(d, nfold, none...)
				}
			} else {
				runSearch(kind, d, nfold, g)
			}
		case 3:
			cv.GradStep(o, g, d, g.Step, g.DeltaFraction, nfold, g.Central, nil)
		case 4:
			out := make(chan *boo.Options)
			simrt.Go(func() { cv.GradStep(o, g, d, g.Step, g.DeltaFraction, nfold, g.Central, out) })
			simrt.Recv(out)
		case 5:
			out := make(chan *boo.Options)
			p := []string{"Gamma", "Lambda", "SubSample", "ColSubSample", "LearningRate", "Rounds"}[h.C.Int("param", 0, 5)]
			simrt.Go(func() {
				cv.ParamaterGradStep(d, o, g, p, g.Step, g.DeltaFraction, 40, nfold, g.Central, out)
			})
			simrt.Recv(out)
		case 6:
			c := &cv.Options{O: o, Conc: true, Acc: make(chan float64), Err: make(chan error), Ochan: make(chan *boo.Options)}
			simrt.Go(func() { cv.MultiClassCrossValidation(d, nfold, c) })
			simrt.Recv(c.Err)
			simrt.Recv(c.Acc)
			simrt.Recv(c.Ochan)
		}
		done = true
	})
	h.Probe(names[kind])
	if w.Failed > 0 {
		h.Probe("evaluation-failed")
	}
	if failing {
		if res.StepLimit && w.CVCalls > 300 {
			// it does not hang: it evaluates the rest of a million combinations
			h.Probe("goes-on-after-a-failure")
			return
		}
		h.judge(res, names[kind])
	}
	if h.V == nil && (!done || !res.RootDone) {
		h.Fail("no-return", "%s did not return", names[kind])
	}
}

// startOpts are boosting options somewhere inside the limits.
func (h *H) startOpts(g *cv.GridOptions) *boo.Options {
	o := boo.DefaultXOptions()
	if !g.XGB {
		o = boo.DefaultGOptions()
		o.MinSample = 1
	}
	at := func(n string, l [3]float64) float64 {
		switch h.C.Int("start-"+n, 0, 4) {
		case 0:
			return (l[0] + l[1]) / 2
		case 1:
			return l[0]
		case 2:
			return l[1]
		case 3:
			return l[0] + (l[1]-l[0])*0.25
		}
		return l[0] + (l[1]-l[0])*0.9
	}
	fl := func(a [3]int) [3]float64 { return [3]float64{float64(a[0]), float64(a[1]), 0} }
	o.Rounds = int(at("rounds", fl(g.Rounds)))
	o.MaxDepth = int(at("depth", fl(g.MaxDepth)))
	o.LearningRate = at("lr", g.LearningRate)
	o.Gamma = at("gamma", g.Gamma)
	o.Lambda = at("lambda", g.Lambda)
	o.SubSample = at("ss", g.SubSample)
	o.ColSubSample = at("css", g.ColSubSample)
	o.MinChildWeight = at("mcw", g.MinChildWeight)
	o.EarlyStop = g.EarlyStop
	return o
}

// ---------- C03: failed evaluations are reported

func init() {
	register(&Check{ID: "C03", Run: runC03, Quick: 120000, Thorough: 400000,
		Rule: "Each run makes one or more chosen evaluations (cross-validations) of a search, gradient step or direct call fail, at a chosen position and under a chosen schedule, and checks what the caller is told.",
		Real: realCV, Stub: append([]string{"the score of a trained model (a pure function of the options)", "the failing evaluation (the fold sampler returns an error)"}, stubSched...),
		Want: []string{"grid-failure", "gradient-candidate-failure", "gradient-probe-failure", "gradient-start-failure", "hybrid-candidate-failure", "gradstep-probe-failure", "gradstep-base-failure", "cv-direct-failure", "cv-channel-failure", "small-data-error", "all-fail"}})
}

func runC03(h *H) {
	kind := h.C.Int("entry", 0, 5)
	switch kind {
	case 0:
		c03Search(h, 0)
	case 1:
		c03Search(h, 1)
	case 2:
		c03Search(h, 2)
	case 3, 4:
		c03Step(h)
	default:
		c03CV(h)
	}
}

func c03Search(h *H, kind int) {
	d := h.Data(DataSpec{MinRows: 4, MaxRows: 10, MaxCols: 2, MaxClasses: 3, Big: h.C.Chance("bigdata", 0.3)})
	nfold := h.C.Int("nfold", 2, 3)
	w := h.watch(d)
	_, w.Landscape = h.landscape()
	var g *cv.GridOptions
	if kind == 0 {
		g = h.gridSpecN(14).G
	} else {
		g = h.gradSpec(4).G
	}
	all := h.C.Chance("all", 0.1)
	root := kind != 0 && h.C.Chance("candidate", 0.5)
	base := kind != 0 && !root && h.C.Chance("start", 0.2)
	switch {
	case all:
		for i := 1; i < 2000; i++ {
			w.FailAt[i] = true
		}
	case kind == 0:
		w.FailAt[h.C.Int("fail-at", 1, 14)] = true
		if h.C.Chance("two", 0.2) {
			w.FailAt[h.C.Int("fail-at", 1, 14)] = true
		}
	case root:
		// a candidate is evaluated outside of any gradient step. If the steps
		// were not recognised, central differences leave only candidates to
		// the calling task
		g.Central = true
		w.FailCand = h.C.Int("fail-candidate", 1, 8)
	case base:
		g.Central = false
		w.FailBase = h.C.Int("fail-start", 1, 8)
	default:
		w.FailProbe = h.C.Int("fail-probe", 1, 30)
	}
	if h.C.Chance("small", 0.08) { // really too few rows
		d.Data, d.Labels = d.Data[:h.C.Int("left", 0, 3)], d.Labels[:0]
		for range d.Data {
			d.Labels = append(d.Labels, 1)
		}
	}
	small := len(d.Data) < 4
	var r searchRes
	res := h.Sim(SimOpt{Policy: -1, Tag: searchNames[kind]}, func() { r = runSearch(kind, d, nfold, g) })
	if h.V != nil || !res.RootDone {
		return
	}
	h.MixS(r.String())
	mustFail := small && w.CVCalls > 0
	if small {
		h.Probe("small-data-error")
	}
	if w.Failed > 0 {
		switch {
		case all:
			h.Probe("all-fail")
			mustFail = true
		case kind == 0:
			h.Probe("grid-failure")
			mustFail = true
		case root:
			h.Probe([]string{"", "gradient", "hybrid"}[kind] + "-candidate-failure")
			mustFail = true
		case base:
			h.Probe("gradient-start-failure")
		default:
			h.Probe("gradient-probe-failure")
		}
	}
	if mustFail {
		if r.Err == nil {
			h.Fail("error-lost", "%s: an evaluation failed, but the search returned no error (best %v)", searchNames[kind], r.Acc)
			return
		}
		if r.O != nil {
			h.Fail("best-with-error", "%s: the search returned options together with an error: %s", searchNames[kind], r.O)
			return
		}
		if r.Acc > 0 {
			h.Fail("best-with-error", "%s: the search returned accuracy %v together with an error", searchNames[kind], r.Acc)
		}
		return
	}
	if r.Err != nil {
		h.Fail("unexpected-error", "%s: no candidate evaluation failed, but the search returned: %v", searchNames[kind], r.Err)
		return
	}
	if r.O == nil {
		h.Fail("no-options", "%s returned neither options nor an error", searchNames[kind])
		return
	}
	if kind == 0 && w.Failed == 0 {
		return
	}
	checkReturned(h, w, searchNames[kind], r)
}

// checkReturned: the options returned are the ones that measured the accuracy returned.
func checkReturned(h *H, w *Watch, name string, r searchRes) {
	f := w.Landscape(r.O, 0)
	if !near(f, r.Acc) {
		h.Fail("wrong-options", "%s: the options returned (%s) score %v, but the accuracy returned is %v", name, r.O, f, r.Acc)
		return
	}
	if len(w.evals()[optsKey(r.O)]) == 0 {
		h.Fail("never-measured", "%s: the options returned (%s) were never evaluated", name, r.O)
	}
}

func c03Step(h *H) {
	st := h.newStep()
	w := st.w
	base := !st.g.Central && h.C.Chance("fail-base", 0.3)
	n := 0
	if base {
		w.FailBase = 1
	} else {
		n = h.C.Int("failures", 1, 3)
		for i := 0; i < n; i++ {
			k := h.C.Int("fail-at", 1, 12)
			if !st.g.Central {
				k++ // the first one is the base
			}
			w.FailAt[k] = true
		}
	}
	st.useOut = h.C.Chance("out", 0.4)
	got := st.run(h, -1)
	if h.V != nil || got == nil {
		return
	}
	if w.Failed == 0 {
		return
	}
	if base {
		h.Probe("gradstep-base-failure")
		if df := optsDiff(st.start, *got); df != "" {
			h.Fail("moved-after-failure", "the evaluation of the starting point failed, but the options changed: %s", df)
		}
		return
	}
	h.Probe("gradstep-probe-failure")
	p := st.probes()
	for _, name := range paramNames {
		a, b := paramOf(&st.start, name), paramOf(got, name)
		if a == b {
			continue
		}
		if !p[name].plus || st.g.Central && !p[name].minus {
			h.Fail("moved-after-failure", "the probe of %s failed, but it moved from %v to %v", name, a, b)
			return
		}
	}
}

func c03CV(h *H) {
	d := h.Data(DataSpec{MinRows: 0, MaxRows: 9, MaxCols: 2, MaxClasses: 3, Big: h.C.Chance("bigdata", 0.3)})
	nfold := h.C.Int("nfold", 0, 4)
	w := h.watch(d)
	_, w.Landscape = h.landscape()
	inject := h.C.Chance("inject", 0.6)
	if inject {
		w.FailAt[1] = true
	}
	conc := h.C.Chance("conc", 0.5)
	o := boo.DefaultXOptions()
	if h.C.Chance("nil-options", 0.1) { // the defaults
		o = nil
		h.Probe("cv-no-options")
	}
	var acc, cacc float64
	var err, cerr error
	var co *boo.Options
	co = o
	extra := 0
	res := h.Sim(SimOpt{Policy: -1, Tag: "cross-validation"}, func() {
		if !conc {
			acc, err = cv.MultiClassCrossValidation(d, nfold, &cv.Options{O: o})
			return
		}
		buf := h.C.Int("buffer", 0, 3)
		c := &cv.Options{O: o, Conc: true, Acc: make(chan float64, buf), Err: make(chan error, buf), Ochan: make(chan *boo.Options, buf)}
		fin := make(chan bool)
		simrt.Go(func() {
			acc, err = cv.MultiClassCrossValidation(d, nfold, c)
			simrt.SendTo[bool](fin)(true)
		})
		cerr = simrt.Recv(c.Err)
		cacc = simrt.Recv(c.Acc)
		co = simrt.Recv(c.Ochan)
		simrt.Recv(fin)
		extra = simrt.Len(c.Err) + simrt.Len(c.Acc) + simrt.Len(c.Ochan)
	})
	if h.V != nil || !res.RootDone {
		return
	}
	bad := w.Failed > 0 || wantFolds(len(d.Data), nfold) == 0
	if bad {
		if conc {
			h.Probe("cv-channel-failure")
		} else {
			h.Probe("cv-direct-failure")
		}
		if err == nil {
			h.Fail("error-lost", "the cross-validation of %d rows could not be done, but returned %v and no error", len(d.Data), acc)
			return
		}
		if conc && (cerr == nil || co != nil || cacc > 0) {
			h.Fail("error-lost", "the cross-validation failed, but its channels delivered error %v, accuracy %v, options %v", cerr, cacc, co)
			return
		}
	} else {
		if err != nil || cerr != nil {
			h.Fail("unexpected-error", "the cross-validation failed: %v %v", err, cerr)
			return
		}
		if conc && !near(acc, cacc) {
			h.Fail("channel-differs", "the cross-validation returned %v, but its channel delivered %v", acc, cacc)
			return
		}
		if o != nil && (co == nil || optsDiff(*o, *co) != "") {
			h.Fail("channel-differs", "the channel delivered other options than the evaluated ones")
			return
		}
	}
	if extra > 0 {
		h.Fail("extra-values", "%d more values were sent than the one per channel", extra)
	}
}

// ---------- C04: the gradient step

var paramNames = []string{"Gamma", "Lambda", "SubSample", "ColSubSample", "LearningRate", "Rounds"}

func paramOf(o *boo.Options, n string) float64 {
	switch n {
	case "Gamma":
		return o.Gamma
	case "Lambda":
		return o.Lambda
	case "SubSample":
		return o.SubSample
	case "ColSubSample":
		return o.ColSubSample
	case "LearningRate":
		return o.LearningRate
	}
	return float64(o.Rounds)
}

func setParam(o *boo.Options, n string, from *boo.Options) {
	switch n {
	case "Gamma":
		o.Gamma = from.Gamma
	case "Lambda":
		o.Lambda = from.Lambda
	case "SubSample":
		o.SubSample = from.SubSample
	case "ColSubSample":
		o.ColSubSample = from.ColSubSample
	case "LearningRate":
		o.LearningRate = from.LearningRate
	default:
		o.Rounds = from.Rounds
	}
}

func limitOf(g *cv.GridOptions, n string) (lo, hi, st float64) {
	var l [3]float64
	switch n {
	case "Gamma":
		l = g.Gamma
	case "Lambda":
		l = g.Lambda
	case "SubSample":
		l = g.SubSample
	case "ColSubSample":
		l = g.ColSubSample
	case "LearningRate":
		l = g.LearningRate
	default:
		l = [3]float64{float64(g.Rounds[0]), float64(g.Rounds[1]), float64(g.Rounds[2])}
	}
	return l[0], l[1], l[2]
}

type probeSeen struct {
	plus, minus bool
	fp, fm      float64
}

type step struct {
	h      *H
	d      *utils.DataBunch
	g      *cv.GridOptions
	w      *Watch
	o      *boo.Options
	start  boo.Options
	nfold  int
	useOut bool
	land   string
	sent   *boo.Options
}

func (h *H) newStep() *step {
	s := &step{h: h}
	s.d = h.Data(DataSpec{MinRows: 4, MaxRows: 9, MaxCols: 2, MaxClasses: 3, Big: h.C.Chance("bigdata", 0.3)})
	wild := h.C.Chance("wild", 0.12)
	s.g = h.gradSpec(1, wild).G
	if !wild && h.C.Chance("wide", 0.5) { // room to move
		s.g.Rounds, s.g.MaxDepth = [3]int{1, 60, 10}, [3]int{2, 6, 1}
		s.g.LearningRate, s.g.Gamma = [3]float64{0.05, 1, 0.1}, [3]float64{0, 1, 0.1}
		s.g.Lambda, s.g.MinChildWeight = [3]float64{0, 4, 0.5}, [3]float64{1, 5, 1}
		s.g.SubSample, s.g.ColSubSample = [3]float64{0.1, 1, 0.1}, [3]float64{0.1, 1, 0.1}
	}
	s.nfold = h.C.Int("nfold", 2, 3)
	s.o = h.startOpts(s.g)
	if h.C.Chance("odd-options", 0.3) {
		s.o.BaseScore, s.o.MinSample, s.o.EarlyStop = 0.25, 3, 7
	}
	s.start = *s.o
	s.w = h.watch(s.d)
	s.land, s.w.Landscape = h.landscape()
	h.Note("gradient step from %s on a %s landscape, nfold %d", s.o, s.land, s.nfold)
	return s
}

// run executes the step and returns the options it came to.
func (s *step) run(h *H, policy int) *boo.Options {
	o := s.start
	s.o = &o
	var got *boo.Options
	s.sent = nil
	res := h.Sim(SimOpt{Policy: policy, Tag: "gradient step", RandSet: true, RandSeed: 5}, func() {
		if !s.useOut {
			got = cv.GradStep(s.o, s.g, s.d, s.g.Step, s.g.DeltaFraction, s.nfold, s.g.Central, nil)
			return
		}
		out := make(chan *boo.Options)
		fin := make(chan bool, 1)
		simrt.Go(func() {
			got = cv.GradStep(s.o, s.g, s.d, s.g.Step, s.g.DeltaFraction, s.nfold, s.g.Central, out)
			simrt.SendTo[bool](fin)(true)
		})
		s.sent = simrt.Recv(out)
		simrt.Recv(fin)
	})
	if h.V != nil || !res.RootDone {
		return nil
	}
	if got == nil {
		h.Fail("no-options", "the gradient step returned nothing")
		return nil
	}
	if s.useOut {
		if s.sent == nil {
			h.Fail("no-options", "the gradient step sent nothing")
			return nil
		}
		if df := optsDiff(*s.sent, *got); df != "" {
			h.Fail("channel-differs", "the gradient step sent other options than it returned: %s", df)
			return nil
		}
		if df := optsDiff(s.start, *s.o); df != "" {
			h.Fail("original-modified", "the gradient step with an output channel modified the original options: %s", df)
			return nil
		}
	}
	c := *got
	return &c
}

// probes tells, for each hyperparameter, which probes were scored.
func (s *step) probes() map[string]probeSeen {
	m := map[string]probeSeen{}
	for _, t := range s.w.Trains {
		if t.Full || len(t.Acc) == 0 {
			continue
		}
		for _, n := range paramNames {
			a, b := paramOf(&s.start, n), paramOf(&t.O, n)
			p := m[n]
			switch {
			case b > a:
				p.plus, p.fp = true, s.w.Landscape(&t.O, 0)
			case b < a:
				p.minus, p.fm = true, s.w.Landscape(&t.O, 0)
			}
			m[n] = p
		}
	}
	return m
}

func init() {
	register(&Check{ID: "C04", Run: runC04, Quick: 150000, Thorough: 400000,
		Rule: "Each run generates a search space, a starting point, a score that is a pure function of the options and a schedule for the (up to 13) tasks of a gradient step, then repeats the step under the simplest schedule and compares.",
		Real: realCV, Stub: append([]string{"the score of a trained model (a pure function of the options)"}, stubSched...),
		Want: []string{"moved", "flat", "central", "forward", "out-channel", "zero-parameter", "must-move", "probed", "unusual-values"}})
}

func runC04(h *H) {
	s := h.newStep()
	s.useOut = h.C.Chance("out", 0.4)
	if s.useOut {
		h.Probe("out-channel")
	}
	got := s.run(h, -1)
	if got == nil {
		return
	}
	h.MixS(optsKey(got))
	trains := s.w.Trains
	// every probe differs from the start in at most one tuned hyperparameter
	for _, t := range trains {
		if t.P == nil {
			h.Fail("wrong-probe", "a probe was trained without options")
			return
		}
		var diff []string
		c := t.O
		for _, n := range paramNames {
			if paramOf(&s.start, n) != paramOf(&t.O, n) {
				diff = append(diff, n)
				setParam(&c, n, &s.start)
			}
		}
		if df := optsDiff(s.start, c); df != "" {
			h.Fail("wrong-probe", "a probe lost settings of the starting options: %s", df)
			return
		}
		if len(diff) == 1 {
			a, b := paramOf(&s.start, diff[0]), paramOf(&t.O, diff[0])
			d := math.Abs(a * s.g.DeltaFraction)
			tol := 1e-9 * (1 + math.Abs(a))
			if diff[0] == "Rounds" {
				tol = 1
			}
			if math.Abs(math.Abs(b-a)-d) > tol {
				h.Fail("wrong-probe", "a probe changed %s from %v to %v, not by the fraction %v", diff[0], a, b, s.g.DeltaFraction)
				return
			}
		}
		if len(diff) > 1 {
			h.Fail("mixed-probe", "a probe changed %v at once: %s, start %s", diff, optsDiff(s.start, t.O), &s.start)
			return
		}
	}
	h.optionCopies(s.o)
	if h.V != nil {
		return
	}
	c := *got
	if s.g.Central {
		h.Probe("central")
	} else {
		h.Probe("forward")
	}
	p := s.probes()
	f0 := s.w.Landscape(&s.start, 0)
	for _, n := range paramNames {
		a, b := paramOf(&s.start, n), paramOf(got, n)
		setParam(&c, n, &s.start)
		if math.IsNaN(b) || math.IsInf(b, 0) {
			h.Fail("not-a-number", "%s became %v", n, b)
			return
		}
		if a == 0 {
			h.Probe("zero-parameter")
		}
		var diff float64
		q := p[n]
		// the slope is measured with a point above and, for central differences, another below
		fd := s.g.DeltaFraction
		if d := a * fd; fd > 0 && fd < 1 && d > 0 && (n != "Rounds" || d >= 1.001) && s.start.Check() == nil {
			if !q.plus || s.g.Central && !q.minus {
				h.Fail("not-probed", "no slope was measured for %s, at %v: a point above it %v, below it %v (central %v)", n, a, q.plus, q.minus, s.g.Central)
				return
			}
			h.Probe("probed")
		}
		if s.g.Central {
			if q.plus && q.minus {
				diff = q.fp - q.fm
			} else if q.plus != q.minus {
				// a truncated or refused probe: nothing to compare
				if b != a && !(q.plus && q.minus) {
					h.Fail("moved-blind", "%s moved from %v to %v without probes on both sides", n, a, b)
					return
				}
			}
		} else if q.plus {
			diff = q.fp - f0
		}
		switch {
		case b == a:
		case diff == 0:
			h.Fail("moved-flat", "%s moved from %v to %v although its probes scored the same", n, a, b)
			return
		case (b > a) != (diff > 0):
			h.Fail("downhill", "%s moved from %v to %v, against the measured slope %v", n, a, b, diff)
			return
		default:
			h.Probe("moved")
		}
		// It has to move if one of the shrinking steps stays within the limits.
		lo, hi, st := limitOf(s.g, n)
		if b == a && diff != 0 && s.g.DeltaFraction > 0 && s.g.Step > 0 && a > 0 && insideLimits(&s.start, s.g) == "" && s.start.MinSample >= 1 {
			hh := s.g.DeltaFraction * a
			slopes := []float64{diff / hh}
			if s.g.Central { // whichever way the slope is scaled
				slopes = []float64{diff / 2 * hh, diff / (2 * hh)}
			}
			must := true
			for _, sl := range slopes {
				must = must && stepFits(a, lo, hi, sl*st, s.g.Step, n == "Rounds")
			}
			if must {
				h.Fail("did-not-move", "%s stayed at %v although its probes differ by %v and there is room in [%v,%v]", n, a, diff, lo, hi)
				return
			}
		}
		if b != a {
			hh := s.g.DeltaFraction * a
			if math.Max(math.Abs(diff)/hh, math.Abs(diff)*hh)*st*s.g.Step < (hi-lo)/4 {
				h.Probe("must-move")
			}
		}
	}
	if s.land == "flat" {
		h.Probe("flat")
	}
	if df := optsDiff(s.start, c); df != "" {
		h.Fail("settings-lost", "the step changed settings it does not tune: %s", df)
		return
	}
	if insideLimits(&s.start, s.g) == "" {
		if bad := insideLimits(got, s.g); bad != "" {
			h.Fail("outside-limits", "the step left the search limits: %s", bad)
			return
		}
	}
	// the same step under the simplest schedule
	s2 := *s
	reset()
	s2.w = h.watch(s.d)
	s2.w.Landscape = s.w.Landscape
	got2 := s2.run(h, 0)
	if got2 == nil {
		return
	}
	if df := optsDiff(*got, *got2); df != "" {
		h.Fail("schedule-dependent", "the same step under another schedule: %s", df)
	}
}

// optionCopies checks that a copy of the options is complete and that only
// options alike in every setting compare equal.
func (h *H) optionCopies(o *boo.Options) {
	x := *o
	x.MinSample, x.TreeMethod, x.Verbose, x.BaseScore = 7, "other", !x.Verbose, 0.375
	x.EarlyStop += 3
	y := x.Clone()
	if df := optsDiff(x, *y); df != "" || y.Loss != x.Loss || y.TreeMethod != x.TreeMethod || y.Verbose != x.Verbose {
		h.Fail("incomplete-copy", "a copy of options differs from them: %s %+v, %+v", df, x, *y)
		return
	}
	if !x.Equal(y) || !y.Equal(&x) {
		h.Fail("copy-not-equal", "a copy of options does not compare equal to them: %+v", x)
		return
	}
	v := reflect.ValueOf(y).Elem()
	i := h.C.Int("field", 0, v.NumField()-1)
	switch f := v.Field(i); f.Kind() {
	case reflect.Int:
		f.SetInt(f.Int() + 1)
	case reflect.Float64:
		switch h.C.Int("difference", 0, 3) {
		case 0:
			f.SetFloat(math.Nextafter(f.Float(), math.Inf(1)))
		case 1:
			f.SetFloat(f.Float() + 1e-7)
		case 2:
			f.SetFloat(f.Float() - 0.001)
		default:
			f.SetFloat(f.Float() + 0.25)
		}
	case reflect.Bool:
		f.SetBool(!f.Bool())
	case reflect.String:
		f.SetString(f.String() + "x")
	default:
		return
	}
	if x.Equal(y) || y.Equal(&x) {
		h.Fail("unequal-equal", "options that differ in %s compare equal", v.Type().Field(i).Name)
	}
}

// stepFits tells whether a move along the slope, of the size asked for or
// shrunk down to a tenth of it, stays within the limits.
func stepFits(a, lo, hi, slope, step float64, whole bool) bool {
	for st := step; st > 0.1001*step; st *= 0.8 {
		d := slope * st
		if whole {
			d = math.Trunc(d)
		}
		m := 1e-9 * (1 + math.Abs(a))
		if whole {
			m = 0
		}
		if b := a + d; b >= lo+m && b <= hi-m {
			return whole && math.Abs(d) >= 1 && math.Abs(slope*st-math.Round(slope*st)) > 1e-6 || !whole && math.Abs(d) > 1e-12*math.Abs(a)
		} else if b >= lo-m && b <= hi+m {
			return false // too close to tell
		}
	}
	return false
}

// ---------- C05: gradient searches

func init() {
	register(&Check{ID: "C05", Run: runC05, Quick: 12000, Thorough: 250000,
		Rule: "Each run generates a search space, data, folds and a score for the gradient and hybrid searches, runs the search under a chosen schedule and again under the simplest one.",
		Real: realCV, Stub: append([]string{"the score of a trained model (a pure function of the options; in some runs the real accuracy)"}, stubSched...),
		Want: []string{"gradient", "hybrid", "improved", "several-starting-points", "central", "forward", "real-training", "path-followed", "step-undone", "got-stuck", "wide-limits", "unusual-values", "over-ten-steps", "large-data"}})
}

func runC05(h *H) {
	kind := h.C.Int("search", 1, 2)
	long := h.C.Chance("many-steps", 0.25)
	combos := 6
	if long {
		combos = 2
	}
	s := h.gradSpec(combos, h.C.Chance("wild", 0.12))
	g := s.G
	wide := false
	if long {
		g.NSteps = h.C.Int("steps", 5, 9)
		if h.C.Chance("very-many", 0.1) {
			g.NSteps = h.C.Int("steps", 10, 26)
			h.Probe("over-ten-steps")
		}
		g.Central = h.C.Chance("central-steps", 0.8)
		if kind == 1 && !s.wild && h.C.Chance("wide", 0.5) { // room to go on after getting stuck
			g.LearningRate, g.Gamma, g.Lambda = [3]float64{0.05, 0.95, 0.1}, [3]float64{0, 2, 0.25}, [3]float64{0, 4, 0.5}
			g.SubSample, g.ColSubSample, g.Rounds = [3]float64{0.1, 0.9, 0.1}, [3]float64{0.1, 0.9, 0.1}, [3]int{2, 30, 4}
			wide = true
			h.Probe("wide-limits")
		}
	}
	d := h.Data(DataSpec{MinRows: 4, MaxRows: 12, MaxCols: 2, MaxClasses: 3, Big: h.C.Chance("bigdata", 0.3)})
	nfold := []int{2, 3, 4, 5, 0, 11}[h.C.Int("nfold", 0, 5)]
	want := wantFolds(len(d.Data), nfold)
	real := h.C.Chance("real", 0.05) && !s.wild && !h.bulky
	land, f := h.landscape()
	if wide && h.C.Chance("terraces", 0.7) {
		land, f = h.landscape(6)
		g.Step = []float64{0.5, 1}[h.C.Int("terrace-step", 0, 1)]
		g.DeltaFraction = []float64{0.1, 0.25}[h.C.Int("terrace-delta", 0, 1)]
	}
	rs := h.C.Word("rand")
	rm := h.C.Int("randmode", 0, 3)
	h.bulky = h.bulky || long || real
	h.Note("%s search, nfold %d, %s landscape, real %v", searchNames[kind], nfold, land, real)
	exec := func(policy int) (searchRes, *Watch) {
		reset()
		w := h.watch(d)
		w.Real = real
		if !real {
			w.Landscape = f
		}
		var r searchRes
		res := h.Sim(SimOpt{Policy: policy, Tag: searchNames[kind] + " search", RandSet: true, RandSeed: rs, RandMode: rm}, func() { r = runSearch(kind, d, nfold, g) })
		if h.V == nil && !res.RootDone {
			h.Fail("no-return", "the search did not return")
		}
		return r, w
	}
	before, gb := cloneData(d), *g
	r, w := exec(-1)
	if h.V != nil {
		return
	}
	name := searchNames[kind]
	h.Probe(name)
	h.MixS(r.String())
	if r.Err != nil {
		h.Fail("unexpected-error", "the %s search failed: %v", name, r.Err)
		return
	}
	if r.O == nil {
		h.Fail("no-options", "the %s search returned no options", name)
		return
	}
	if g.Central {
		h.Probe("central")
	} else {
		h.Probe("forward")
	}
	if len(r.Accs) > 1 {
		h.Probe("improved")
	}
	if real {
		h.Probe("real-training")
	}
	ev := w.evals()
	if real {
		// the accuracy returned is the mean of one evaluation of these options
		ts := ev[optsKey(r.O)]
		ok := false
		for i := 0; i+want <= len(ts); i++ {
			sum := 0.0
			for _, t := range ts[i : i+want] {
				for _, a := range t.Acc {
					sum += a
				}
			}
			ok = ok || near(sum/float64(want), r.Acc)
		}
		if !ok {
			h.Fail("wrong-options", "the %s search: no evaluation of the options returned (%s) gave the accuracy returned, %v", name, r.O, r.Acc)
			return
		}
	} else {
		checkReturned(h, w, "the "+name+" search", r)
		if h.V != nil {
			return
		}
	}
	if len(r.Accs) == 0 || !near(r.Accs[len(r.Accs)-1], r.Acc) {
		h.Fail("accuracies", "the %s search: the accuracies %v do not end in the best one, %v", name, r.Accs, r.Acc)
		return
	}
	for i := 1; i < len(r.Accs); i++ {
		if !(r.Accs[i] > r.Accs[i-1]) {
			h.Fail("accuracies", "the %s search: the accuracies %v are not increasing", name, r.Accs)
			return
		}
	}
	if bad := insideLimits(r.O, g); bad != "" {
		h.Fail("outside-limits", "the %s search returned options outside the search limits: %s", name, bad)
		return
	}
	def := boo.DefaultGOptions()
	if g.XGB {
		def = boo.DefaultXOptions()
	}
	pairs := map[string]bool{}
	for _, k := range sortedKeys(ev) {
		ts := ev[k]
		o := ts[0].O
		if o.XGB != g.XGB || o.EarlyStop != g.EarlyStop || o.MinSample != def.MinSample || o.Loss == nil || o.Loss.Name() != def.Loss.Name() {
			h.Fail("wrong-settings", "the %s search evaluated xgb %v early stop %d min sample %d, requested xgb %v early stop %d min sample %d", name, o.XGB, o.EarlyStop, o.MinSample, g.XGB, g.EarlyStop, def.MinSample)
			return
		}
		if len(ts)%want != 0 {
			h.Fail("wrong-folds", "the %s search trained %s %d times, not a multiple of the %d folds", name, o.String(), len(ts), want)
			return
		}
		pairs[fmt.Sprintf("%d/%.6f", o.MaxDepth, o.MinChildWeight)] = true
	}
	for _, t := range w.Trains {
		for _, td := range t.Test {
			if n := len(td.Data) + len(t.D.Data); n != len(d.Data) || len(td.Data) < len(d.Data)/want {
				h.Fail("wrong-folds", "the %s search trained on %d rows and tested on %d of %d, with %d folds requested", name, len(t.D.Data), len(td.Data), len(d.Data), want)
				return
			}
		}
	}
	for _, md := range s.MD.vals() {
		for _, cw := range s.MCW.vals() {
			if !pairs[fmt.Sprintf("%d/%.6f", int(md), cw)] {
				h.Fail("missed", "the %s search never tried depth %v with minimum child weight %v", name, md, cw)
				return
			}
		}
	}
	if len(pairs) > 1 {
		h.Probe("several-starting-points")
	}
	// the steps taken: each measures the six slopes (and, forward, where it starts), then the point it gets to
	starts := len(s.MD.vals()) * len(s.MCW.vals())
	if kind == 2 {
		starts *= len(s.Rounds.vals()) * len(s.Lam.vals())
	}
	n := 0
	for _, t := range w.Trains {
		if !t.Full {
			n++
		}
	}
	n /= want
	least, most := 1+6*min(g.NSteps, 3), 1+g.NSteps*8
	if g.Central {
		most = 1 + g.NSteps*13
	}
	if n < starts*least || n > starts*most {
		h.Fail("wrong-steps", "the %s search made %d evaluations for %d starting points with up to %d steps each (central %v, %s landscape): not in [%d,%d]", name, n, starts, g.NSteps, g.Central, land, starts*least, starts*most)
		return
	}
	if kind == 2 { // the hybrid search also goes over rounds and lambda
		seen := map[string]bool{}
		for _, t := range w.Trains {
			seen[fmt.Sprintf("%d/%.6f/%d/%.6f", t.O.Rounds, t.O.Lambda, t.O.MaxDepth, t.O.MinChildWeight)] = true
		}
		for _, rn := range s.Rounds.vals() {
			for _, lam := range s.Lam.vals() {
				for _, md := range s.MD.vals() {
					for _, cw := range s.MCW.vals() {
						if !seen[fmt.Sprintf("%d/%.6f/%d/%.6f", int(rn), lam, int(md), cw)] {
							h.Fail("missed", "the hybrid search never tried %v rounds with lambda %v, depth %v, minimum child weight %v", rn, lam, md, cw)
							return
						}
					}
				}
			}
		}
	}
	if !real {
		best := math.Inf(-1)
		for _, t := range w.Trains {
			// without steps, or in the calling task with central differences, only candidates are evaluated
			if !t.Full && (g.NSteps == 0 || g.Central && t.Task == 0) {
				best = math.Max(best, f(&t.O, 0))
			}
		}
		if best > r.Acc && !near(best, r.Acc) {
			h.Fail("best-lost", "the %s search evaluated a candidate with accuracy %v, but returned %v", name, best, r.Acc)
			return
		}
	}
	if s := sameData(before, d); s != "" {
		h.Fail("data-modified", "the search modified its data: %s", s)
		return
	}
	if gb != *g {
		h.Fail("options-modified", "the search modified its grid options")
		return
	}
	gc := gb
	gc.WriteBest = !gc.WriteBest
	gc.Verbose = h.C.Chance("verbose-copy", 0.5)
	if c := gc.Clone(); c == nil || *c != gc {
		h.Fail("incomplete-copy", "a copy of grid options differs from them: %+v, %+v", c, gc)
		return
	}
	if real {
		return
	}
	h.searchPath(name, s, w, f, want, kind == 2)
	if h.V != nil {
		return
	}
	r2, _ := exec(0)
	if h.V != nil {
		return
	}
	if r.String() != r2.String() {
		h.Fail("schedule-dependent", "the %s search under another schedule, with the same random draws: %s, and %s", name, r, r2)
	}
}

// pathStep is one step of a search: the points it probed around, and the
// point it got to, if any.
type pathStep struct {
	at   boo.Options
	lo   map[string]*boo.Options
	hi   map[string]*boo.Options
	cand *boo.Options
}

// searchPath follows a search with central differences from step to step: the
// tasks it starts evaluate the probes, the calling task the points it gets to.
// A trace of another shape is not judged.
func (h *H) searchPath(name string, s *gridSpec, w *Watch, f func(*boo.Options, int) float64, want int, hybrid bool) {
	g := s.G
	if !g.Central || g.NSteps == 0 || g.DeltaFraction <= 0 || g.DeltaFraction >= 1 || g.Step <= 0 {
		return
	}
	// the evaluations, in the order they began
	type eval struct {
		root bool
		o    boo.Options
	}
	var evs []eval
	left := map[string]int{}
	for _, t := range w.Trains {
		if t.Full {
			continue
		}
		k := fmt.Sprintf("%d/%s", t.Task, t.Key)
		if left[k] == 0 {
			evs = append(evs, eval{t.Task == 0, t.O})
			left[k] = want
		}
		left[k]--
	}
	if len(evs) == 0 || !evs[0].root || evs[0].o.Check() != nil {
		return
	}
	first := evs[0].o
	on := func(v float64, a axis) bool {
		for _, x := range a.vals() {
			if x == v {
				return true
			}
		}
		return false
	}
	seen := map[string]bool{}
	isStart := func(o *boo.Options) bool {
		if o.LearningRate != first.LearningRate || o.SubSample != first.SubSample || o.ColSubSample != first.ColSubSample || o.Gamma != first.Gamma {
			return false
		}
		if hybrid && (!on(float64(o.Rounds), s.Rounds) || !on(o.Lambda, s.Lam)) {
			return false
		}
		if !hybrid && (o.Rounds != first.Rounds || o.Lambda != first.Lambda) {
			return false
		}
		return !seen[optsKey(o)]
	}
	type path struct {
		start boo.Options
		steps []*pathStep
	}
	var paths []*path
	for i := 0; i < len(evs); {
		if !evs[i].root || !isStart(&evs[i].o) {
			return
		}
		p := &path{start: evs[i].o}
		seen[optsKey(&p.start)] = true
		paths = append(paths, p)
		i++
		for i < len(evs) && !evs[i].root {
			if i+12 > len(evs) {
				return
			}
			st := &pathStep{lo: map[string]*boo.Options{}, hi: map[string]*boo.Options{}}
			for _, n := range paramNames { // the value most of them have
				cnt := map[float64]int{}
				for _, e := range evs[i : i+12] {
					cnt[paramOf(&e.o, n)]++
				}
				ok := false
				for _, e := range evs[i : i+12] {
					if cnt[paramOf(&e.o, n)] >= 10 {
						setParam(&st.at, n, &e.o)
						ok = true
					}
				}
				if !ok {
					return
				}
			}
			for k := range evs[i : i+12] {
				e := &evs[i+k]
				if e.root {
					return
				}
				for _, n := range paramNames {
					if a, b := paramOf(&st.at, n), paramOf(&e.o, n); b > a {
						st.hi[n] = &e.o
					} else if b < a {
						st.lo[n] = &e.o
					}
				}
			}
			c := evs[i].o
			for _, n := range paramNames {
				setParam(&c, n, &st.at)
			}
			st.at = c
			if st.at.Check() != nil { // the probes below it are not evaluated then
				return
			}
			i += 12
			if i < len(evs) && evs[i].root && isStart(&evs[i].o) && hybrid {
				// a new starting point, or a step that moved only what starting points differ in?
				c := evs[i].o
				c.Rounds, c.Lambda = st.at.Rounds, st.at.Lambda
				if optsDiff(c, st.at) == "" {
					return
				}
			}
			if i < len(evs) && evs[i].root && !isStart(&evs[i].o) {
				st.cand = &evs[i].o
				i++
			}
			p.steps = append(p.steps, st)
		}
	}
	h.Probe("path-followed")
	moved := func(n string, a, b *boo.Options, frac float64) bool {
		x, y := paramOf(a, n), paramOf(b, n)
		tol := frac*math.Abs(x)*(1+1e-9) + 1e-12
		if n == "Rounds" {
			tol++
		}
		return math.Abs(x-y) > tol
	}
	best := math.Inf(-1)
	for _, p := range paths {
		from, cand := p.start, &p.start
		for i, st := range p.steps {
			// where it goes on from
			frac, why := 0.2, "moved nothing"
			if cand != nil {
				sc := f(cand, 0)
				switch {
				case sc < best && near(sc, best):
					frac = 1e9
				case sc < best:
					frac, why = 0.1, "got to a lower score"
				default:
					from, frac, why = *cand, 0, "got there"
				}
				best = math.Max(best, sc)
			}
			for _, n := range paramNames {
				if moved(n, &from, &st.at, frac) {
					h.Fail("wrong-path", "the %s search: step %d began with %s %v; the step before %s, so it goes on from %v", name, i+1, n, paramOf(&st.at, n), why, paramOf(&from, n))
					return
				}
			}
			if why == "got to a lower score" {
				h.Probe("step-undone")
			}
			from, cand = st.at, st.cand
			if cand != nil || insideLimits(&st.at, g) != "" || st.at.MinSample < 1 {
				continue
			}
			for _, n := range paramNames {
				a := paramOf(&st.at, n)
				if st.hi[n] == nil || st.lo[n] == nil || a <= 0 {
					continue
				}
				lo, hi, grid := limitOf(g, n)
				diff, hh := f(st.hi[n], 0)-f(st.lo[n], 0), g.DeltaFraction*a
				if diff != 0 && stepFits(a, lo, hi, diff/2*hh*grid, g.Step, n == "Rounds") && stepFits(a, lo, hi, diff/(2*hh)*grid, g.Step, n == "Rounds") {
					h.Fail("step-not-measured", "the %s search: step %d should have moved %s from %v (slope %v), but no point it got to was evaluated", name, i+1, n, a, diff)
					return
				}
			}
		}
		if cand != nil {
			best = math.Max(best, f(cand, 0))
		}
		if k := len(p.steps); k < g.NSteps {
			if k < 3 || p.steps[k-1].cand != nil || p.steps[k-2].cand != nil || p.steps[k-3].cand != nil {
				h.Fail("stopped-early", "the %s search took %d of %d steps from a starting point, although it had not got stuck", name, k, g.NSteps)
				return
			}
			h.Probe("got-stuck")
		}
		for i := 2; i < len(p.steps); i++ {
			if p.steps[i-2].cand == nil && p.steps[i-1].cand != nil && p.steps[i].cand == nil {
				h.Probe("moved-again")
			}
		}
	}
}
