package main

import (
	"fmt"
	"maps"
	"math"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"github.com/rmera/boo/zsim/simrt"
	"gonum.org/v1/gonum/mat"
)

// ---------- C13: sharing

type shareJob struct {
	op   int
	arg  int
	key  uint64
	solo string
	got  string
}

var shareOps = []string{"train", "predict", "accuracy", "save", "importance", "confusion", "cross-validation", "grid-search", "gradient-step", "reload"}

func init() {
	var want []string
	for _, s := range shareOps {
		want = append(want, "op-"+s)
	}
	register(&Check{ID: "C13", Run: runC13, Quick: 100000, Thorough: 500000,
		Rule: "Each run picks two to four operations (training, prediction, accuracy, saving, importance, confusions and their rankings, cross-validation, the three searches, gradient step, reloading) on one shared data set, one shared options value and one shared model, runs each alone and then all at once under a chosen schedule with the same random draws per task, and compares every result and the shared values.",
		Real: append([]string{"confu (confusions)"}, realCV...), Stub: stubSched,
		Want: append(want, "shared-options", "small-weight-option", "several-searches", "same-operation", "gradient-step-moved", "fresh-model", "large-data", "wide-data", "huge-values")})
}

func runC13(h *H) {
	d := h.Data(DataSpec{MinRows: 5, MaxRows: 14, MinCols: 1, MaxCols: 3, MaxClasses: 3, Big: h.C.Chance("bigdata", 0.6)})
	o := h.BoostOpts(4)
	if h.C.Chance("small-weight", 0.3) {
		o.MinChildWeight = []float64{0.5, 0, 0.1}[h.C.Int("weight", 0, 2)]
		h.Probe("small-weight-option")
	}
	g := cv.DefaultXGridOptions()
	g.XGB = o.XGB
	g.Rounds, g.MaxDepth, g.LearningRate = [3]int{1, 2, 1}, [3]int{2, 3, 1}, [3]float64{0.25, 0.5, 0.25}
	g.Gamma, g.Lambda, g.SubSample = [3]float64{0, 0, 1}, [3]float64{1, 1, 1}, [3]float64{0.75, 0.75, 1}
	g.ColSubSample, g.MinChildWeight = [3]float64{0.75, 0.75, 1}, [3]float64{1, 1, 1}
	g.NCPUs = h.C.Int("ncpus", 1, 3)
	g.Central = h.C.Chance("central", 0.5)
	n := h.C.Int("tasks", 2, 4)
	var jobs []*shareJob
	heavy, maxHeavy := 0, 1
	g.NSteps = h.C.Int("nsteps", 1, 2)
	if h.C.Chance("several-searches", 0.3) {
		maxHeavy = 3
		g.MaxDepth, g.LearningRate, g.NSteps = [3]int{2, 2, 1}, [3]float64{0.25, 0.25, 0.25}, 1
		h.Probe("several-searches")
	}
	gs := g.Clone() // the limits of the single gradient steps, shared too
	gs.Rounds, gs.LearningRate, gs.Gamma, gs.Lambda = [3]int{1, 8, 1}, [3]float64{0.1, 0.9, 0.1}, [3]float64{0, 1, 0.1}, [3]float64{0.5, 2, 0.1}
	gs.SubSample, gs.ColSubSample = [3]float64{0.5, 1, 0.1}, [3]float64{0.5, 1, 0.1}
	gsref := *gs
	names := map[int]string{}
	for _, l := range d.Labels {
		names[l] = fmt.Sprintf("class-%d", l)
	}
	same := -1
	if h.C.Chance("same-operation", 0.3) {
		same = h.C.Int("op", 0, len(shareOps)-1)
		h.Probe("same-operation")
	}
	for i := 0; i < n; i++ {
		op := same
		if op < 0 {
			op = h.C.Int("op", 0, len(shareOps)-1)
		}
		j := &shareJob{op: op, arg: h.C.Int("arg", 0, 4), key: uint64(1000 + 17*i)}
		if j.op == 7 || j.op == 8 {
			if heavy++; heavy > maxHeavy {
				j.op = 0
			}
		}
		jobs = append(jobs, j)
		h.Probe("op-" + shareOps[j.op])
		h.Note("task %d: %s", i, shareOps[j.op])
	}
	rs, rm := h.C.Word("rand"), h.C.Int("randmode", 0, 3)
	pts := points(d, h.C.Word("points"))
	ref, oref, gref := cloneData(d), *o, *g
	var m *boo.MultiClass
	so := SimOpt{Policy: 0, RandSet: true, RandSeed: rs, RandMode: rm, Tag: "training the shared model"}
	h.Sim(so, func() { simrt.SetStream(1); m = boo.NewMultiClass(d, o) })
	if h.V != nil {
		return
	}
	// the same model again, for the tasks to be the first to use it
	var fresh *boo.MultiClass
	if h.C.Chance("fresh", 0.6) {
		h.Sim(so, func() { simrt.SetStream(1); fresh = boo.NewMultiClass(d, o) })
		if h.V != nil {
			return
		}
		h.Probe("fresh-model")
	}
	var mkey, mtext string
	h.Sim(so, func() { mkey = modelKey(m, pts); mtext, _ = modelJSON(m) })
	if h.V != nil {
		return
	}
	do := func(j *shareJob) string {
		simrt.SetStream(j.key)
		switch j.op {
		case 0:
			t := boo.NewMultiClass(d, o)
			return modelKey(t, pts)
		case 1:
			var b strings.Builder
			buf := make([]float64, len(m.ClassLabels()))
			for i, p := range pts {
				if (i+j.arg)%2 == 0 {
					b.WriteString(bitsStr(m.PredictSingle(p)))
				} else {
					b.WriteString(bitsStr(m.PredictSingle(p, buf)))
				}
				fmt.Fprintf(&b, "-> %d\n", m.PredictSingleClass(p))
			}
			return b.String()
		case 2:
			switch j.arg {
			case 0:
				return fmt.Sprint(m.Accuracy(d))
			case 3:
				return fmt.Sprint(m.Accuracy(d, m.Classes()+2))
			case 4:
				return fmt.Sprint(m.Accuracy(d, 2))
			}
			return fmt.Sprint(m.Accuracy(d, m.Classes()))
		case 3:
			s, err := modelJSON(m)
			return fmt.Sprint(err, s)
		case 4:
			f, err := m.FeatureImportance()
			if err != nil {
				return err.Error()
			}
			return f.String()
		case 5:
			c := confu.MCConfusions(m, d)
			mat := fmt.Sprint(c.Actual, c.Predicted, c.Labels, c.Matrix())
			if j.arg > 2 {
				return mat
			}
			_, top := c.TopNPerLabel(1 + j.arg)
			ranked := c.PrintTopN(2, names)
			if again := fmt.Sprint(c.Actual, c.Predicted, c.Labels, c.Matrix()); again != mat {
				return "the confusions changed: " + firstDiff(mat, again)
			}
			return mat + fmt.Sprint(top) + ranked
		case 6:
			if j.arg > 2 {
				c := &cv.Options{O: o, Conc: true, Acc: make(chan float64, 1), Err: make(chan error, 1), Ochan: make(chan *boo.Options, 1)}
				cv.MultiClassCrossValidation(d, 2+j.arg%2, c)
				err := simrt.Recv(c.Err)
				if err != nil {
					return "failed"
				}
				a := simrt.Recv(c.Acc)
				r := simrt.Recv(c.Ochan)
				return fmt.Sprint(math.Float64bits(a), r != nil && optsDiff(*o, *r) == "")
			}
			a, err := cv.MultiClassCrossValidation(d, 2+j.arg%2, &cv.Options{O: o})
			return fmt.Sprint(math.Float64bits(a), err != nil)
		case 7:
			return runSearch(j.arg%3, d, 2, g).String()
		case 8:
			start := o.Clone()
			if j.arg > 0 { // inside the limits, so that it can move
				start.Rounds, start.LearningRate, start.SubSample, start.ColSubSample, start.Lambda, start.Gamma = 4, 0.4, 0.75, 0.75, 1.25, 0.5
				start.MaxDepth, start.MinChildWeight, start.XGB = 2, 1, gs.XGB
			}
			from := optsKey(start)
			to := optsKey(cv.GradStep(start, gs, d, 0.02, 0.3, 2, g.Central, nil))
			if to != from {
				h.Probe("gradient-step-moved")
			}
			return to
		default:
			m2, err := loadModel([]byte(mtext))
			if err != nil {
				return err.Error()
			}
			return modelKey(m2, pts)
		}
	}
	// the draws of an evaluation depend on what is evaluated and for which job,
	// not on the goroutine that happens to do it
	boo.SimTrain = func(D *utils.DataBunch, opts []*boo.Options, impl func(...*boo.Options) *boo.MultiClass) (m *boo.MultiClass) {
		k := "none"
		if len(opts) > 0 && opts[0] != nil {
			k = optsKey(opts[0])
		}
		simrt.WithStream(simrt.StreamOf(simrt.HashString(fmt.Sprint("train ", simrt.Root(), k, D.Data, D.Labels))), func() { m = impl(opts...) })
		return m
	}
	utils.SimCVSamples = func(data *utils.DataBunch, nfold int, impl func() (int, func() (*utils.DataBunch, *utils.DataBunch), error)) (n int, next func() (*utils.DataBunch, *utils.DataBunch), err error) {
		st := simrt.StreamOf(simrt.HashString(fmt.Sprint("folds ", simrt.Root(), nfold, data.Data, data.Labels)))
		simrt.WithStream(st, func() { n, next, err = impl() })
		if next == nil {
			return n, next, err
		}
		sampler := next
		return n, func() (a, b *utils.DataBunch) {
			simrt.WithStream(st, func() { a, b = sampler() })
			return a, b
		}, err
	}
	for i, j := range jobs {
		j := j
		so.Tag = fmt.Sprintf("task %d alone (%s)", i, shareOps[j.op])
		h.Sim(so, func() { j.solo = do(j) })
		if h.V != nil {
			return
		}
	}
	if fresh != nil {
		oc := oref
		m, d, o = fresh, cloneData(ref), &oc
	}
	so.Policy, so.Tag = -1, "all at once"
	h.Sim(so, func() {
		fin := make(chan bool, n)
		for _, j := range jobs {
			j := j
			simrt.Go(func() {
				j.got = do(j)
				simrt.SendTo[bool](fin)(true)
			})
		}
		for range jobs {
			simrt.Recv(fin)
		}
	})
	if h.V != nil {
		return
	}
	if s := sameData(ref, d); s != "" {
		h.Fail("data-modified", "the shared data changed: %s", s)
		return
	}
	h.Probe("shared-options")
	if s := optsDiff(oref, *o); s != "" {
		h.Fail("options-modified", "the shared options changed: %s", s)
		return
	}
	if gref != *g || gsref != *gs {
		h.Fail("options-modified", "the shared grid options changed")
		return
	}
	for i, j := range jobs {
		h.MixS(j.got)
		if j.got != j.solo {
			h.Fail("interference", "task %d (%s) gives another result when run with the others: %s", i, shareOps[j.op], firstDiff(j.solo, j.got))
			return
		}
	}
	h.Sim(SimOpt{Policy: 0, Tag: "the shared model afterwards"}, func() {
		if k := modelKey(m, pts); k != mkey {
			h.Fail("model-modified", "the shared model changed: %s", firstDiff(mkey, k))
		}
	})
}

// ---------- C14: accumulating feature gains

var featRE = regexp.MustCompile(`Feature\s+(-?\d+)\s.*:\s*(-?[0-9.]+)`)

func parseFeats(s string) (map[int]float64, []float64, string) {
	m := map[int]float64{}
	var order []float64
	for i, l := range strings.Split(s, "\n") {
		if i == 0 || l == "" {
			continue
		}
		x := featRE.FindStringSubmatch(l)
		if x == nil {
			return nil, nil, fmt.Sprintf("line not understood: %q", l)
		}
		f, _ := strconv.Atoi(x[1])
		v, _ := strconv.ParseFloat(x[2], 64)
		if _, ok := m[f]; ok {
			return nil, nil, fmt.Sprintf("feature %d is listed twice", f)
		}
		m[f] = v
		order = append(order, v)
	}
	return m, order, ""
}

func init() {
	register(&Check{ID: "C14", Run: runC14, Quick: 1200000, Thorough: 3000000,
		Rule: "Each run lets two to five tasks add (or merge, at once, in stages or bit by bit) 1 to 12 chosen gains each, for 1 to 5 features, some runs 40, to one shared set, in some runs up to three more tasks merge one and the same set, under a chosen schedule that may preempt inside the statements of an addition.",
		Real: []string{"boo (feature gains)"}, Stub: []string{"goroutine scheduler, sync.Mutex (simulated)"},
		Want: []string{"add", "merge", "same-feature-added-concurrently", "first-addition-contended", "sorted", "both-signs", "set-merged-by-several"}})
}

func runC14(h *H) {
	xgb := h.C.Chance("xgb", 0.5)
	n := h.C.Int("tasks", 2, 5)
	nf := h.C.Int("features", 1, 5)
	if h.C.Chance("many-features", 0.1) {
		nf = 40
	}
	type add struct {
		f int
		g float64
	}
	plan := make([][]add, n)
	merge := make([]int, n) // 0: added to the set, 1: merged at the end, 2: merged in two stages, 3: bit by bit
	signs := h.C.Chance("both-signs", 0.3)
	off := []int{0, 0, 0, 5000, 37}[h.C.Int("first-feature", 0, 4)]
	stride := []int{1, 1, 1, 1, 256, 1 << 16, 1 << 33}[h.C.Int("stride", 0, 6)]
	if signs {
		h.Probe("both-signs")
	}
	want := map[int]float64{}
	tasksOf := map[int]int{}
	for i := range plan {
		k := h.C.Int("adds", 1, 12)
		if h.C.Chance("merge", 0.3) {
			merge[i] = h.C.Int("how", 1, 3)
		}
		own := map[int]bool{}
		for ; k > 0; k-- {
			a := add{off + stride*h.C.Int("feature", 0, nf-1), 0.125 * float64(h.C.Int("gain", 0, 400))}
			if !xgb != (signs && h.C.Chance("sign", 0.3)) {
				a.g = -a.g
			}
			plan[i] = append(plan[i], a)
			want[a.f] += a.g
			if !own[a.f] {
				own[a.f] = true
				tasksOf[a.f]++
			}
		}
		if merge[i] > 0 {
			h.Probe("merge")
		} else {
			h.Probe("add")
		}
	}
	for _, k := range tasksOf {
		if k > 1 {
			h.Probe("same-feature-added-concurrently")
			h.Probe("first-addition-contended")
			break
		}
	}
	// one set that several tasks merge, which only reads it
	var common []add
	users := 0
	if h.C.Chance("common", 0.25) {
		h.Probe("set-merged-by-several")
		users = h.C.Int("users", 1, 3)
		for k := h.C.Int("adds", 0, 5); k > 0; k-- {
			a := add{off + stride*h.C.Int("feature", 0, nf-1), 0.125 * float64(h.C.Int("gain", 0, 400))}
			common = append(common, a)
			want[a.f] += a.g * float64(users)
		}
	}
	h.Note("%d tasks, %d features, xgb %v, %d merge one set", n, nf, xgb, users)
	var src *boo.Feats
	srcText := ""
	var f *boo.Feats
	var text, sorted string
	ln := 0
	h.Sim(SimOpt{Policy: -1, Tag: "adding gains"}, func() {
		f = boo.NewFeats(xgb)
		fin := make(chan bool, n+users)
		src = boo.NewFeats(xgb)
		for _, a := range common {
			src.Add(a.f, a.g)
		}
		srcText = src.String()
		for i := 0; i < users; i++ {
			simrt.Go(func() {
				f.Merge(src)
				simrt.SendTo[bool](fin)(true)
			})
		}
		for i := range plan {
			i := i
			simrt.Go(func() {
				to := f
				if merge[i] > 0 {
					to = boo.NewFeats(xgb)
				}
				for _, a := range plan[i] {
					to.Add(a.f, a.g)
					if merge[i] == 3 {
						f.Merge(to)
						to = boo.NewFeats(xgb)
					}
				}
				if merge[i] == 2 {
					up := boo.NewFeats(xgb)
					up.Merge(to)
					to = up
				}
				if merge[i] > 0 {
					f.Merge(to) // of nothing, if all of it was merged already
				}
				simrt.SendTo[bool](fin)(true)
			})
		}
		for i := 0; i < n+users; i++ {
			simrt.Recv(fin)
		}
		text = f.String()
		ln = f.Len()
		sort.Sort(f)
		sorted = f.String()
	})
	if h.V != nil {
		return
	}
	h.MixS(text)
	was, _, _ := parseFeats(srcText)
	is, _, _ := parseFeats(src.String())
	if !maps.Equal(was, is) {
		h.Fail("source-changed", "merging a set changed it: %s, before %s", src, srcText)
		return
	}
	for k, s := range []string{text, sorted} {
		got, order, bad := parseFeats(s)
		if bad != "" {
			h.Fail("duplicate", "%s", bad)
			return
		}
		if len(got) != len(want) || ln != len(want) {
			h.Fail("lost", "%d features listed (length %d), %d were added", len(got), ln, len(want))
			return
		}
		for _, x := range sortedInts(want) {
			if v, ok := got[x]; !ok || math.Abs(v-want[x]) > 0.0011 {
				h.Fail("lost", "feature %d has %v, the gains added come to %v", x, v, want[x])
				return
			}
		}
		if k == 1 {
			h.Probe("sorted")
			for i := 1; i < len(order); i++ {
				if xgb && order[i] > order[i-1] || !xgb && order[i] < order[i-1] {
					h.Fail("order", "not in order of importance: %v", order)
					return
				}
			}
		}
	}
}

func sortedInts(m map[int]float64) []int {
	var k []int
	for i := range m {
		k = append(k, i)
	}
	sort.Ints(k)
	return k
}

// ---------- C15: what training produces

// recLoss records what the training loop shows its loss function.
type recLoss struct {
	l     utils.LossFunc
	calls []lossCall
	bad   string // a loss that is not the mean square error
}

type lossCall struct {
	kind  byte // 'g' gradients, 'l' loss
	class string
	probs []float64
	loss  float64
}

func flat(m *mat.Dense) []float64 {
	r, c := m.Dims()
	var v []float64
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			v = append(v, m.At(i, j))
		}
	}
	return v
}

func classOf(y *mat.Dense) string {
	var b strings.Builder
	for _, v := range flat(y) {
		if v == 1 {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
	}
	return b.String()
}

func (r *recLoss) Loss(y, p, tmp *mat.Dense) float64 {
	yv, pv := flat(y), flat(p)
	k := classOf(y)
	v := r.l.Loss(y, p, tmp)
	r.calls = append(r.calls, lossCall{'l', k, pv, v})
	if st, ok := r.l.(*steady); !ok || st.next == nil {
		w := 0.0
		for i := range yv {
			w += (yv[i] - pv[i]) * (yv[i] - pv[i]) / float64(len(yv))
		}
		if !alike(v, w) && r.bad == "" {
			r.bad = fmt.Sprintf("the %s loss of %v for %v is %v, not %v", r.l.Name(), pv, yv, v, w)
		}
	}
	return v
}
func (r *recLoss) Name() string { return r.l.Name() }
func (r *recLoss) NegGradients(y, p, res *mat.Dense) *mat.Dense {
	r.calls = append(r.calls, lossCall{'g', classOf(y), flat(p), 0})
	return r.l.NegGradients(y, p, res)
}
func (r *recLoss) Gradients(y, p, res *mat.Dense) *mat.Dense {
	r.calls = append(r.calls, lossCall{'g', classOf(y), flat(p), 0})
	return r.l.Gradients(y, p, res)
}
func (r *recLoss) Hessian(p, hs *mat.Dense) *mat.Dense { return r.l.Hessian(p, hs) }

// steady is a loss that improves or not as it is told.
type steady struct {
	utils.LossFunc
	next func(y *mat.Dense) float64
}

func (s *steady) Loss(y, p, tmp *mat.Dense) float64 {
	if s.next == nil {
		return s.LossFunc.Loss(y, p, tmp)
	}
	return s.next(y)
}

type trainJob struct {
	d      *utils.DataBunch
	o      *boo.Options
	rec    *recLoss
	m      *boo.MultiClass
	script bool
}

func init() {
	register(&Check{ID: "C15", Run: runC15, Quick: 200000, Thorough: 1200000,
		Rule: "Each run trains one or two real ensembles at once (both kinds, 1 to 5 classes, up to 16 rounds and in some runs up to 150, early stopping, subsampling with uniform and adversarial draws) with a loss function that records the training, and in part of the runs scripts its values, and compares the ensemble with the record.",
		Real: []string{"boo (training, prediction)", "utils (matrices, softmax, losses)"}, Stub: append([]string{"the training loss in part of the runs (scripted, to decide when a class stops)"}, stubSched...),
		Want: []string{"class-stopped-early", "classes-stop-at-different-rounds", "no-early-stop", "loss-reached-zero", "subsampled", "scripted-loss", "unscripted-loss", "one-class", "no-rounds", "saturated", "concurrent", "round-skipped", "subsampled-early-stop", "default-options", "runaway-scores"}})
}

func (h *H) newTrain(i int) *trainJob {
	j := &trainJob{}
	j.d = h.Data(DataSpec{MinRows: 2, MaxRows: 16, MaxCols: 3, MaxClasses: 5, Big: true})
	j.o = h.BoostOpts(8)
	j.o.Verbose = h.C.Chance("verbose", 0.3)
	switch h.C.Int("shape", 0, 9) {
	case 1, 2:
		j.o.Rounds = 16
		j.o.EarlyStop = h.C.Int("stop", 1, 3)
	case 3: // long: saturated probabilities
		if h.C.Chance("long", 0.3) && len(j.d.Data) <= 16 && len(j.d.Data[0]) <= 12 {
			j.o.Rounds = 150
			j.o.LearningRate = 0.8
			j.o.EarlyStop = 0
			j.o.MaxDepth = 3
			h.Probe("saturated")
		}
	case 4:
		j.o.XGB = true
		j.o.SubSample, j.o.MinSample = 0.5, 4
	case 5: // steps far too long: scores that run away
		if h.C.Chance("runaway", 0.6) {
			j.o.LearningRate = 0.9 + float64(h.C.Int("lr", 0, 2000))/1000
			if h.C.Chance("longer", 0.2) {
				j.o.LearningRate *= 40
			}
			if j.o.Rounds < 4 {
				j.o.Rounds = 4
			}
			j.o.XGB = false
			j.o.EarlyStop = 0
			h.Probe("runaway-scores")
		}
	}
	l := &steady{LossFunc: j.o.Loss}
	if j.o.EarlyStop > 0 && h.C.Chance("script", 0.5) {
		// every class gets its own sequence of improvements and setbacks
		j.script = true
		h.Probe("scripted-loss")
		r := &rng{h.C.Word("script")}
		cur := map[string]float64{}
		pUp := map[string]int{}
		l.next = func(y *mat.Dense) float64 {
			k := classOf(y)
			v, ok := cur[k]
			if !ok {
				v = 5
				pUp[k] = 1 + r.n(4)
			}
			switch {
			case r.n(5) < pUp[k]:
				v += 0.01 * float64(r.n(3)) // the same, or worse
			case r.n(30) == 0:
				v = 0
			default:
				v *= 0.9
			}
			cur[k] = v
			return v
		}
	} else if j.o.EarlyStop > 0 {
		h.Probe("unscripted-loss")
	}
	j.rec = &recLoss{l: l}
	j.o.Loss = j.rec
	return j
}

func runC15(h *H) {
	n := 1
	if h.C.Chance("concurrent", 0.2) {
		n = 2
		h.Probe("concurrent")
	}
	var jobs []*trainJob
	for i := 0; i < n; i++ {
		jobs = append(jobs, h.newTrain(i))
	}
	rs, rm := h.C.Word("rand"), h.C.Int("randmode", 0, 3)
	h.Faults[fmt.Sprintf("random-source-mode-%d", rm)]++
	h.Sim(SimOpt{Policy: -1, Tag: "training", RandSet: true, RandSeed: rs, RandMode: rm}, func() {
		fin := make(chan bool, n)
		for _, j := range jobs {
			j := j
			simrt.Go(func() {
				j.m = boo.NewMultiClass(j.d, j.o)
				simrt.SendTo[bool](fin)(true)
			})
		}
		for range jobs {
			simrt.Recv(fin)
		}
	})
	if h.V != nil {
		return
	}
	for _, j := range jobs {
		h.Sim(SimOpt{Policy: 0, Tag: "checking the model"}, func() { j.check(h) })
		if h.V != nil {
			return
		}
	}
	if h.C.Chance("no-options", 0.01) { // the default options
		h.Probe("default-options")
		d := jobs[0].d
		var keys []string
		for _, o := range [][]*boo.Options{{boo.DefaultXOptions()}, {}, {nil}} {
			o := o
			h.Sim(SimOpt{Policy: 0, Tag: "training with the default options", RandSet: true, RandSeed: rs, RandMode: rm}, func() {
				keys = append(keys, modelKey(boo.NewMultiClass(d, o...), points(d, 3)))
			})
			if h.V != nil {
				return
			}
		}
		if keys[1] != keys[0] || keys[2] != keys[0] {
			h.Fail("default-options", "training without options differs from training with the default ones: %s", firstDiff(keys[0]+keys[0], keys[1]+keys[2]))
		}
	}
}

func (j *trainJob) check(h *H) {
	m, d, o := j.m, j.d, j.o
	if j.rec.bad != "" {
		h.Fail("wrong-loss", "%s", j.rec.bad)
		return
	}
	// labels and classes
	seen := map[int]bool{}
	for _, l := range d.Labels {
		seen[l] = true
	}
	labels := m.ClassLabels()
	if len(labels) != len(seen) || m.Classes() != len(seen) {
		h.Fail("wrong-classes", "%d classes and labels %v for data with %d distinct labels", m.Classes(), labels, len(seen))
		return
	}
	for _, l := range labels {
		if !seen[l] {
			h.Fail("wrong-classes", "labels %v include one that is not in the data", labels)
			return
		}
		delete(seen, l)
	}
	if len(labels) == 1 {
		h.Probe("one-class")
	}
	labels[0] += 1000 // a copy
	if l2 := m.ClassLabels(); l2[0] == labels[0] {
		h.Fail("labels-shared", "changing the returned labels changes the model's")
		return
	}
	labels[0] -= 1000
	col := map[string]int{}
	for k, l := range labels {
		var b strings.Builder
		for _, x := range d.Labels {
			if x == l {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
		}
		col[b.String()] = k
	}
	// rounds
	trained := make([]int, len(labels))
	var losses = make([][]float64, len(labels))
	last := -1
	for i, c := range j.rec.calls {
		k, ok := col[c.class]
		if !ok {
			h.Fail("wrong-target", "training used a target that is not that of any class: %s", c.class)
			return
		}
		if c.kind == 'g' {
			trained[k]++
		} else {
			losses[k] = append(losses[k], c.loss)
			last = i
		}
	}
	full := !o.XGB || o.SubSample >= 1
	avail := o.Rounds
	if !full {
		avail = slices.Max(trained) // a class that does not stop takes part in all that are not skipped
		text, err := modelJSON(m)
		if err != nil {
			h.Fail("save-error", "%v", err)
			return
		}
		if n := strings.Count("\n"+text, "\nROUND"); n != avail && o.EarlyStop == 0 {
			h.Fail("wrong-rounds", "the model has %d rounds, its classes %v", n, trained)
			return
		} else if n > avail {
			avail = n
		}
		if o.EarlyStop > 0 && trained[0] > 0 {
			h.Probe("subsampled-early-stop")
		}

		h.Probe("subsampled")
	}
	total := 0
	diff := false
	for k := range labels {
		total += trained[k]
		if m.Rounds(k) != trained[k] {
			h.Fail("wrong-rounds", "class %d was trained for %d rounds, but the model reports %d (early stop %d)", k, trained[k], m.Rounds(k), o.EarlyStop)
			return
		}
		if trained[k] > o.Rounds {
			h.Fail("wrong-rounds", "class %d was trained for %d rounds, %d requested", k, trained[k], o.Rounds)
			return
		}
		diff = diff || trained[k] != trained[0]
		if o.EarlyStop == 0 {
			if full && trained[k] != o.Rounds {
				h.Fail("stopped-early", "class %d was trained for %d of %d rounds without early stopping", k, trained[k], o.Rounds)
				return
			}
			if trained[k] != trained[0] {
				h.Fail("stopped-early", "classes were trained for %v rounds without early stopping", trained)
				return
			}
			continue
		}
		// the early-stop rule; rounds skipped for lack of rows do not count
		ls := losses[k]
		if len(ls) != trained[k] {
			h.Fail("unmeasured", "class %d: %d losses for %d rounds with early stopping", k, len(ls), trained[k])
			return
		}
		streak, stop, why := 0, -1, ""
		for i, v := range ls {
			if v <= 1e-6 {
				stop, why = i, "zero"
				break
			}
			if i > 0 {
				if v >= ls[i-1] {
					streak++
				} else {
					streak = 0
				}
			}
			if streak >= o.EarlyStop {
				stop, why = i, "streak"
				break
			}
		}
		switch {
		case stop < 0 && trained[k] != avail:
			h.Fail("stopped-early", "class %d stopped after %d of %d rounds, but never had %d rounds in a row without progress: losses %v", k, trained[k], o.Rounds, o.EarlyStop, ls)
			return
		case stop >= 0 && trained[k] > stop+1:
			h.Fail("stopped-late", "class %d should have stopped after round %d (%s, early stop %d), but was trained for %d: losses %v", k, stop+1, why, o.EarlyStop, trained[k], ls)
			return
		case stop >= 0:
			h.Probe("class-stopped-early")
			if why == "zero" {
				h.Probe("loss-reached-zero")
			}
		}
	}
	if diff {
		h.Probe("classes-stop-at-different-rounds")
	}
	if o.EarlyStop == 0 {
		h.Probe("no-early-stop")
	}
	if total == 0 {
		h.Probe("no-rounds")
	}
	if !full && trained[0] < o.Rounds && o.EarlyStop == 0 {
		h.Probe("round-skipped")
	}
	if m.Rounds() != trained[0] {
		h.Fail("wrong-rounds", "the first class was trained for %d rounds, but the model reports %d", trained[0], m.Rounds())
		return
	}
	if r := m.Rounds(len(labels)); r != -1 {
		h.Fail("wrong-rounds", "the rounds of a class out of range are %d, not -1", r)
		return
	}
	// predictions
	var all [][]float64
	for _, p := range points(d, 3) {
		pr := m.PredictSingle(p)
		all = append(all, pr)
		if len(pr) != len(labels) {
			h.Fail("bad-probabilities", "%d probabilities for %d classes", len(pr), len(labels))
			return
		}
		sum, best := 0.0, 0
		for k, v := range pr {
			if math.IsNaN(v) || v < 0 || v > 1+1e-9 {
				h.Fail("bad-probabilities", "probabilities %v after %v rounds", pr, trained)
				return
			}
			sum += v
			if v > pr[best] {
				best = k
			}
		}
		if math.Abs(sum-1) > 1e-6 {
			h.Fail("bad-probabilities", "probabilities %v add up to %v", pr, sum)
			return
		}
		if c := m.PredictSingleClass(p); pr[c] != pr[best] {
			h.Fail("not-the-likeliest", "class %d predicted for probabilities %v", c, pr)
			return
		}
		if c := m.PredictSingleClass(p, make([]float64, len(labels))); pr[c] != pr[best] {
			h.Fail("not-the-likeliest", "class %d predicted, with a buffer, for probabilities %v", c, pr)
			return
		}
		if total == 0 {
			for _, v := range pr {
				if !alike(v, pr[0]) {
					h.Fail("bad-probabilities", "an ensemble without rounds prefers a class: %v", pr)
					return
				}
			}
		}
	}
	if h.likeliest(all); h.V != nil {
		return
	}
	right := 0
	for i, v := range d.Data {
		if labels[m.PredictSingleClass(v)] == d.Labels[i] {
			right++
		}
	}
	if a, w := m.Accuracy(d), 100*float64(right)/float64(len(d.Data)); !alike(a, w) {
		h.Fail("wrong-accuracy", "accuracy %v, %d of %d are right", a, right, len(d.Data))
		return
	}
	h.MixS(modelKey(m, points(d, 3)))
	// the model is what the training loop had at the end
	if last >= 0 {
		c := j.rec.calls[last]
		k := col[c.class]
		for i, v := range d.Data {
			if p := m.PredictSingle(v)[k]; math.Abs(p-c.probs[i]) > 1e-9 {
				if math.Abs(p-c.probs[i]) <= roundingOf(m, o.LearningRate) {
					h.Probe("runaway")
					return
				}
				h.Fail("not-what-was-trained", "row %d: the training ended with probability %v for class %d, the model gives %v (rounds %v)", i, c.probs[i], k, p, trained)
				return
			}
		}
	}
}

// roundingOf bounds what the order of the sums can change in a probability: it
// is a lot if the scores have run away.
func roundingOf(m *boo.MultiClass, lr float64) float64 {
	text, err := modelJSON(m)
	if err != nil {
		return 1 // infinite
	}
	trees, err := readTrees(text)
	if err != nil {
		return 0
	}
	sum := 0.0
	for _, round := range trees {
		big := 0.0
		for _, t := range round {
			t.each(func(t *rnode) {
				if t.leaf() {
					big = math.Max(big, math.Abs(t.Value))
				}
			})
		}
		sum += big * lr
	}
	return 1e-9 + sum*float64(len(trees))*1e-15
}

// likeliest checks the classes the library reads off probabilities of several points.
func (h *H) likeliest(all [][]float64) {
	flat := make([]float64, 0, len(all)*len(all[0]))
	for _, v := range all {
		flat = append(flat, v...)
	}
	c := boo.ClassesFromProbs(mat.NewDense(len(all), len(all[0]), flat))
	if r, k := c.Dims(); r != len(all) || k != 1 {
		h.Fail("not-the-likeliest", "classes of %d points are a %dx%d matrix", len(all), r, k)
		return
	}
	for i, v := range all {
		k := int(c.At(i, 0))
		if k < 0 || k >= len(v) || v[k] < slices.Max(v) {
			h.Fail("not-the-likeliest", "class %v read off probabilities %v", c.At(i, 0), v)
			return
		}
	}
}

// ---------- C16: subsampling

func init() {
	register(&Check{ID: "C16", Run: runC16, Quick: 200000, Thorough: 1200000,
		Rule: "Each run trains a real ensemble with row and column subsampling whose draws (per round) are chosen by the simulator, some rows and columns never being drawn; it then replaces what was never drawn and trains again with the same draws. Other runs check the draws themselves, from uniform and adversarial sources.",
		Real: []string{"boo (training, prediction, serialisation, subsampling)", "utils"}, Stub: []string{"the subsampling draws (chosen) in most runs", "math/rand (seeded streams, uniform and adversarial) in the others"},
		Want: []string{"rows", "columns", "rows-and-columns", "round-skipped", "deep-trees", "draws", "repeated-draws", "several-classes", "no-subsampling", "no-column-drawn", "early-stop"}})
}

// rowsFit routes the rows drawn down a tree and compares how many reach each
// node with the number of rows the node was built from.
func rowsFit(t *rnode, d *utils.DataBunch, rows []int) string {
	if t.Nsamples != len(rows) {
		return fmt.Sprintf("a node was built from %d rows, %d of those drawn reach it", t.Nsamples, len(rows))
	}
	if t.leaf() {
		return ""
	}
	var l, r []int
	for _, i := range rows {
		if d.Data[i][t.SplitFeatureIndex] <= t.Threshold {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	if s := rowsFit(t.l, d, l); s != "" {
		return s
	}
	return rowsFit(t.r, d, r)
}

func (t *rnode) each(f func(*rnode)) {
	if t == nil {
		return
	}
	f(t)
	t.l.each(f)
	t.r.each(f)
}

func runC16(h *H) {
	if h.C.Chance("draws", 0.2) {
		if h.C.Chance("few-rows", 0.1) {
			c16Chance(h)
		} else {
			c16Draws(h)
		}
		return
	}
	rows, cols := h.C.Int("rows", 8, 26), h.C.Int("cols", 1, 6)
	if h.C.Chance("big", 0.02) {
		rows, cols = h.C.Int("rows", 60, 120), h.C.Int("cols", 8, 20)
		h.Probe("large-data")
	}
	if rows == cols {
		rows++
	}
	ncl := h.C.Int("classes", 2, 4)
	r := &rng{h.C.Word("data")}
	d := &utils.DataBunch{}
	for i := 0; i < rows; i++ {
		k := i % ncl
		v := make([]float64, cols)
		for c := range v {
			v[c] = float64(r.n(7)) + r.f()
			if r.n(2) == 0 {
				v[c] += 3 * float64(k)
			}
		}
		d.Data, d.Labels = append(d.Data, v), append(d.Labels, k)
	}
	o := boo.DefaultXOptions()
	o.Rounds = h.C.Int("rounds", 1, 5)
	o.MaxDepth = h.C.Int("depth", 1, 6)
	o.Gamma, o.Lambda, o.MinChildWeight = 0, 1, 1
	o.LearningRate, o.EarlyStop, o.MinSample = 0.3, 0, h.C.Int("minsample", 0, 5)
	if h.C.Chance("other-settings", 0.5) {
		o.Gamma = []float64{0, 0.1, 0.5}[h.C.Int("gamma", 0, 2)]
		o.Lambda = []float64{1, 0, 2.5}[h.C.Int("lambda", 0, 2)]
		o.MinChildWeight = float64(h.C.Int("mcw", 0, 4))
		o.LearningRate = []float64{0.3, 0.05, 1}[h.C.Int("lr", 0, 2)]
		o.BaseScore = []float64{0.5, 0, -2}[h.C.Int("basescore", 0, 2)]
		o.Verbose = h.C.Chance("verbose", 0.2)
		if h.C.Chance("stop", 0.4) { // a class that stops has no tree in the rounds that follow
			o.EarlyStop, o.Rounds = h.C.Int("earlystop", 1, 3), o.Rounds+4
			h.Probe("early-stop")
		}
	}
	mode := h.C.Int("mode", 0, 3)
	o.SubSample, o.ColSubSample = 1, 1
	if fr := []float64{0.6, 0.9, 0.97, 0.999, 0.3, 0.04}; mode != 3 {
		if mode == 0 || mode == 2 {
			o.SubSample = fr[h.C.Int("subsample", 0, 5)]
		}
		if mode == 1 || mode == 2 {
			o.ColSubSample = fr[h.C.Int("colsubsample", 0, 5)]
		}
	}
	// what is never drawn
	rowOut, colOut := map[int]bool{}, map[int]bool{}
	if o.SubSample < 1 {
		for k := h.C.Int("rows-out", 0, rows/2); k > 0; k-- {
			rowOut[r.n(rows)] = true
		}
	}
	if o.ColSubSample < 1 && cols > 1 {
		for k := h.C.Int("cols-out", 0, cols-1); k > 0 && len(colOut) < cols-1; k-- {
			colOut[r.n(cols)] = true
		}
	}
	skips := mode == 0 && o.MinSample > 1 && h.C.Chance("skips", 0.5)
	salt := h.C.Word("draws")
	var rowDraws, colDraws [][]int
	rr := &rng{}
	boo.SimSubSample = func(tot int, frac float64, impl func() []int) []int {
		out, min := colOut, 1
		if want := map[int]float64{rows: o.SubSample, cols: o.ColSubSample}[tot]; want != 0 && frac != want {
			h.Fail("wrong-draws", "%d rows, %d columns: a fraction of %v is drawn from %d, %v was requested", rows, cols, frac, tot, want)
		}
		if tot == rows {
			out, min = rowOut, max(o.MinSample, 1)
			if skips && rr.n(3) == 0 {
				min = 0
			}
		} else if tot != cols {
			return impl()
		} else if rr.n(8) == 0 {
			h.Probe("no-column-drawn")
			colDraws = append(colDraws, []int{})
			h.Fault("chosen-draw")
			return []int{}
		}
		var in []int
		for i := 0; i < tot; i++ {
			if !out[i] {
				in = append(in, i)
			}
		}
		var s []int
		for try := 0; ; try++ {
			s = []int{}
			p := 1 + rr.n(10)
			for _, i := range in {
				if rr.n(10) < p {
					s = append(s, i)
				}
			}
			if min == 0 && len(s) > o.MinSample-1 {
				s = s[:rr.n(o.MinSample)]
			}
			if len(s) >= min {
				break
			}
			if try > 50 {
				s = append([]int{}, in...)
				break
			}
		}
		if tot == rows {
			rowDraws = append(rowDraws, s)
		} else {
			colDraws = append(colDraws, s)
		}
		h.Fault("chosen-draw")
		return append([]int{}, s...)
	}
	if len(rowOut) > 0 && rows-len(rowOut) < max(o.MinSample, 1) {
		rowOut = map[int]bool{}
	}
	h.Note("%d rows, %d columns, %d classes, mode %d, rounds %d depth %d min sample %d, rows never drawn %d, columns never drawn %d", rows, cols, ncl, mode, o.Rounds, o.MaxDepth, o.MinSample, len(rowOut), len(colOut))
	h.Probe([]string{"rows", "columns", "rows-and-columns", "no-subsampling"}[mode])
	h.Probe("several-classes")
	randomness := 0
	train := func(d *utils.DataBunch) (m *boo.MultiClass, text string, rd, cd [][]int) {
		rowDraws, colDraws = nil, nil
		rr.s = salt
		h.Sim(SimOpt{Policy: 0, Tag: "training", RandSet: true, RandSeed: 3}, func() {
			m = boo.NewMultiClass(d, o)
			randomness = simrt.CurStream().Draws
			var err error
			if text, err = modelJSON(m); err != nil {
				h.Fail("save-error", "%v", err)
			}
		})
		return m, text, rowDraws, colDraws
	}
	m, text, rd, cd := train(d)
	if h.V != nil {
		return
	}
	trees, err := readTrees(text)
	if err != nil {
		h.Fail("save-error", "the saved model is not understood: %v", err)
		return
	}
	if rd == nil && cd == nil && mode != 3 && randomness > 0 {
		// drawn in a way the simulator does not see: nothing to compare with
		h.Probe("draws-not-seen")
		return
	}
	// the draws happened
	// (the training may end once every class has stopped)
	times := o.Rounds
	if o.EarlyStop > 0 {
		times = min(times, max(len(rd), len(cd)))
		if mode == 3 {
			times = min(o.Rounds, len(trees))
		}
	}
	if o.SubSample < 1 && len(rd) != times || o.SubSample >= 1 && len(rd) != 0 {
		h.Fail("wrong-draws", "%d rounds with row subsampling %v drew rows %d times", o.Rounds, o.SubSample, len(rd))
		return
	}
	if o.ColSubSample < 1 && len(cd) != times || o.ColSubSample >= 1 && len(cd) != 0 {
		h.Fail("wrong-draws", "%d rounds with column subsampling %v drew columns %d times", o.Rounds, o.ColSubSample, len(cd))
		return
	}
	var usedRows, usedCols [][]int
	for i := 0; i < times; i++ {
		if rd != nil && len(rd[i]) < max(o.MinSample, 1) {
			h.Probe("round-skipped")
			continue
		}
		if rd != nil {
			usedRows = append(usedRows, rd[i])
		}
		if cd != nil {
			usedCols = append(usedCols, cd[i])
		}
	}
	wantRounds := times
	if rd != nil {
		wantRounds = len(usedRows)
	}
	if len(trees) > wantRounds || o.EarlyStop == 0 && (len(trees) < wantRounds || m.Rounds() != wantRounds) {
		h.Fail("wrong-rounds", "%d rounds in the model (%d reported), expected %d: a round is skipped if fewer than %d rows are drawn", len(trees), m.Rounds(), wantRounds, o.MinSample)
		return
	}
	for i, round := range trees {
		if len(round) != ncl {
			h.Fail("wrong-rounds", "%d trees in round %d for %d classes", len(round), i, ncl)
			return
		}
		for k, t := range round {
			if o.EarlyStop > 0 && t.Nsamples == 0 && t.leaf() {
				continue // the class has stopped
			}
			nodes, bad := 0, -1
			t.each(func(t *rnode) {
				nodes++
				if !t.leaf() && cd != nil && !slices.Contains(usedCols[i], t.SplitFeatureIndex) {
					bad = t.SplitFeatureIndex
				}
			})
			if bad >= 0 {
				h.Fail("wrong-column", "round %d class %d: the tree splits on column %d, drawn were %v", i, k, bad, usedCols[i])
				return
			}
			if nodes > 3 {
				h.Probe("deep-trees")
			}
			used := seq(rows)
			if rd != nil {
				used = usedRows[i]
			}
			if t.Nsamples != len(used) {
				h.Fail("wrong-rows", "round %d class %d: the tree was built from %d rows, %d were drawn", i, k, t.Nsamples, len(used))
				return
			}
			if s := rowsFit(t, d, used); s != "" {
				h.Fail("wrong-rows", "round %d class %d: %s", i, k, s)
				return
			}
		}
	}
	// what was never drawn does not matter
	if len(rowOut)+len(colOut) == 0 || o.EarlyStop > 0 {
		return
	}
	d2 := cloneData(d)
	for i := range d2.Data {
		for c := range d2.Data[i] {
			if rowOut[i] || colOut[c] {
				d2.Data[i][c] = r.f()*1e4 - 5e3
			}
		}
		if rowOut[i] && i >= ncl { // the first rows decide the order of the classes
			d2.Labels[i] = r.n(ncl)
		}
	}
	m2, _, rd2, cd2 := train(d2)
	if h.V != nil {
		return
	}
	if fmt.Sprint(rd, cd) != fmt.Sprint(rd2, cd2) {
		h.Fail("wrong-draws", "the number of draws depends on the values of the data")
		return
	}
	h.Fault("undrawn-data-replaced")
	for _, p := range points(d, 11) {
		q := append([]float64(nil), p...)
		for c := range q {
			if colOut[c] {
				q[c] = r.f()*1e4 - 5e3
			}
		}
		if a, b := bitsStr(m.PredictSingle(p)), bitsStr(m2.PredictSingle(q)); a != b {
			h.Fail("undrawn-data-used", "replacing rows and columns that were never drawn (%d and %d) changes the prediction from %v to %v", len(rowOut), len(colOut), m.PredictSingle(p), m2.PredictSingle(q))
			return
		}
	}
}

// c16Chance draws from few rows many times: every row has the same chance.
func c16Chance(h *H) {
	h.Probe("repeated-draws")
	tot := h.C.Int("few", 1, 6)
	frac := []float64{0.9, 0.5, 0.25, 0.1, 0.02}[h.C.Int("fraction", 0, 4)]
	rs := h.C.Word("rand")
	h.Faults["random-source-mode-0"]++
	const times = 3000
	seen := make([]int, tot)
	h.Note("%d draws of %d with probability %v", times, tot, frac)
	h.Sim(SimOpt{Policy: -1, Tag: "subsampling", RandSet: true, RandSeed: rs, RandMode: 0}, func() {
		for i := 0; i < times; i++ {
			for _, j := range boo.SubSample(tot, frac) {
				if j >= 0 && j < tot {
					seen[j]++
				} else {
					h.Fail("bad-draw", "index %d of %d drawn", j, tot)
				}
			}
		}
	})
	if h.V != nil {
		return
	}
	for i, n := range seen {
		if math.Abs(float64(n)/times-frac) > 0.06 {
			h.Fail("bad-draw", "row %d of %d was drawn %d times in %d with probability %v", i, tot, n, times, frac)
			return
		}
	}
}

func c16Draws(h *H) {
	h.Probe("draws")
	tot := []int{0, 1, 5, 40, 4000}[h.C.Int("total", 0, 4)]
	frac := []float64{1, 0.9, 0.5, 0.25, 0.1, 1.5}[h.C.Int("fraction", 0, 5)]
	rs, rm := h.C.Word("rand"), h.C.Int("randmode", 0, 3)
	h.Faults[fmt.Sprintf("random-source-mode-%d", rm)]++
	n := h.C.Int("tasks", 1, 3)
	got := make([][]int, n)
	h.Note("%d draws of %d with probability %v", n, tot, frac)
	h.Sim(SimOpt{Policy: -1, Tag: "subsampling", RandSet: true, RandSeed: rs, RandMode: rm}, func() {
		fin := make(chan bool, n)
		for i := range got {
			i := i
			simrt.Go(func() {
				got[i] = boo.SubSample(tot, frac)
				simrt.SendTo[bool](fin)(true)
			})
		}
		for range got {
			simrt.Recv(fin)
		}
	})
	if h.V != nil {
		return
	}
	for _, s := range got {
		seen := map[int]bool{}
		for _, i := range s {
			if i < 0 || i >= tot || seen[i] {
				h.Fail("bad-draw", "index %d of %d drawn twice or out of range", i, tot)
				return
			}
			seen[i] = true
		}
		if frac >= 1 && len(s) != tot {
			h.Fail("bad-draw", "%d of %d drawn with probability %v", len(s), tot, frac)
			return
		}
		if rm == 0 && tot >= 1000 && math.Abs(float64(len(s))/float64(tot)-math.Min(frac, 1)) > 0.06 {
			h.Fail("bad-draw", "%d of %d drawn with probability %v", len(s), tot, frac)
			return
		}
	}
}
