package main

import (
	"fmt"
	"math"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"github.com/rmera/boo/zsim/simrt"
)

// rowIDs are the row numbers of a set whose column 0 tells them; "" if all is well.
func rowIDs(full, d *utils.DataBunch) ([]int, string) {
	if d == nil {
		return nil, "a nil set"
	}
	var ids []int
	if len(d.Labels) != len(d.Data) && len(full.Labels) == len(full.Data) {
		return nil, fmt.Sprintf("%d rows with %d labels", len(d.Data), len(d.Labels))
	}
	for i, v := range d.Data {
		if len(v) == 0 {
			return nil, "an empty row"
		}
		id := int(math.Floor(v[0]))
		if id < 0 || id >= len(full.Data) || float64(id)+0.5 != v[0] {
			return nil, fmt.Sprintf("row %d is not one of the data: %v", i, v)
		}
		if len(v) != len(full.Data[id]) {
			return nil, fmt.Sprintf("row %d has %d of %d values", id, len(v), len(full.Data[id]))
		}
		for j := range v {
			if v[j] != full.Data[id][j] {
				return nil, fmt.Sprintf("row %d column %d is %v, not %v", id, j, v[j], full.Data[id][j])
			}
		}
		if len(full.Labels) == len(full.Data) && d.Labels[i] != full.Labels[id] {
			return nil, fmt.Sprintf("row %d has label %d, not its own, %d", id, d.Labels[i], full.Labels[id])
		}
		ids = append(ids, id)
	}
	if len(d.Keys) != len(full.Keys) {
		return nil, fmt.Sprintf("keys %v, the data has %v", d.Keys, full.Keys)
	}
	for i := range d.Keys {
		if d.Keys[i] != full.Keys[i] {
			return nil, fmt.Sprintf("keys %v, the data has %v", d.Keys, full.Keys)
		}
	}
	return ids, ""
}

// partition checks that tests cover every row once and that each training set
// is the complement of its test set.
func partition(n int, train, test [][]int) string {
	seen := make([]int, n)
	for f := range test {
		in := make([]int, n)
		for _, i := range test[f] {
			in[i]++
			seen[i]++
		}
		for _, i := range train[f] {
			in[i] += 10
		}
		for i, k := range in {
			switch k {
			case 1, 10:
			case 0:
				return fmt.Sprintf("fold %d: row %d is in neither set", f, i)
			case 11:
				return fmt.Sprintf("fold %d: row %d is both trained and tested on", f, i)
			default:
				return fmt.Sprintf("fold %d: row %d is repeated", f, i)
			}
		}
	}
	for i, k := range seen {
		if k != 1 {
			return fmt.Sprintf("row %d is tested on %d times", i, k)
		}
	}
	return ""
}

type foldJob struct {
	nfold, want int
	copies      bool
	mutate      bool
	n           int
	err         error
	bad         string
	nilSampler  bool
	sizes       []int
}

func init() {
	register(&Check{ID: "C11", Run: runC11, Quick: 900000, Thorough: 3000000,
		Rule: "Each run splits a generated data set (0 to 30 rows) into folds, in one to three tasks sharing it, with random draws from uniform and adversarial sources (repeating, extreme, bursts), requesting 0 to 12 folds, with and without copies; with copies, every set handed out is overwritten after it was checked.",
		Real: []string{"utils (fold sampler)"}, Stub: []string{"math/rand (seeded streams, uniform and adversarial)", "goroutine scheduler (simulated)"},
		Want: []string{"reduced-folds", "too-few-rows", "default-folds", "uneven", "copies", "references", "concurrent", "overwritten-copies", "unlabelled"}})
}

func (j *foldJob) run(full, ref *utils.DataBunch) {
	var next func() (*utils.DataBunch, *utils.DataBunch)
	if j.copies {
		j.n, next, j.err = utils.CrossValidationSamples(full, j.nfold, true)
	} else {
		j.n, next, j.err = utils.CrossValidationSamples(full, j.nfold)
	}
	if next == nil {
		j.nilSampler = true
		return
	}
	var tr, te [][]int
	for f := 0; f < j.n; f++ {
		a, b := next()
		ia, s := rowIDs(ref, a)
		if s != "" {
			j.bad = fmt.Sprintf("training set of fold %d: %s", f, s)
			return
		}
		ib, s := rowIDs(ref, b)
		if s != "" {
			j.bad = fmt.Sprintf("test set of fold %d: %s", f, s)
			return
		}
		tr, te = append(tr, ia), append(te, ib)
		j.sizes = append(j.sizes, len(ib))
		if j.mutate {
			for _, d := range []*utils.DataBunch{a, b} {
				for _, v := range d.Data {
					for k := range v {
						v[k] = -1e9
					}
				}
				for k := range d.Labels {
					d.Labels[k] = 12345
				}
				for k := range d.Keys {
					d.Keys[k] = "overwritten"
				}
			}
		}
	}
	for i := 0; i < 2; i++ {
		if a, b := next(); a != nil || b != nil {
			j.bad = fmt.Sprintf("after its %d folds, the sampler still returns sets", j.n)
			return
		}
	}
	if s := partition(len(ref.Data), tr, te); s != "" {
		j.bad = s
	}
}

func runC11(h *H) {
	d := h.Data(DataSpec{MinRows: 0, MaxRows: 30, MaxCols: 3, MaxClasses: 4, UniqueRows: true, Big: true})
	if h.C.Chance("thousands", 0.0006) {
		d = h.Data(DataSpec{MinRows: 900, MaxRows: 4200, MaxCols: 2, MaxClasses: 4, UniqueRows: true})
		h.Probe("thousands-of-rows")
	}
	if h.C.Chance("unlabelled", 0.15) {
		d.Labels = nil
		h.Probe("unlabelled")
	}
	ref := cloneData(d)
	n := 1
	if h.C.Chance("concurrent", 0.4) {
		n = h.C.Int("tasks", 2, 3)
		h.Probe("concurrent")
	}
	var jobs []*foldJob
	for i := 0; i < n; i++ {
		j := &foldJob{nfold: []int{5, 2, 3, 0, 4, 1, 7, 12, 10, -1, 25, 60}[h.C.Int("nfold", 0, 11)], copies: h.C.Chance("copies", 0.6)}
		j.mutate = j.copies && h.C.Chance("overwrite", 0.6)
		j.want = wantFolds(len(d.Data), j.nfold)
		jobs = append(jobs, j)
		h.Note("task %d: %d folds requested, %d expected, copies %v", i, j.nfold, j.want, j.copies)
	}
	rs, rm := h.C.Word("rand"), h.C.Int("randmode", 0, 3)
	h.Sim(SimOpt{Policy: -1, Tag: "fold sampler", RandSet: true, RandSeed: rs, RandMode: rm}, func() {
		fin := make(chan bool, n)
		for _, j := range jobs {
			j := j
			simrt.Go(func() {
				j.run(d, ref)
				simrt.SendTo[bool](fin)(true)
			})
		}
		for range jobs {
			simrt.Recv(fin)
		}
	})
	h.Faults[fmt.Sprintf("random-source-mode-%d", rm)]++
	if h.V != nil {
		return
	}
	if s := sameData(ref, d); s != "" {
		h.Fail("data-modified", "sampling modified the data: %s", s)
		return
	}
	for _, j := range jobs {
		asked := j.nfold
		if asked <= 0 {
			asked = 5
			h.Probe("default-folds")
		}
		h.MixS(fmt.Sprint(j.n, j.sizes))
		if j.bad != "" {
			h.Fail("bad-folds", "%d folds of %d rows: %s", j.n, len(d.Data), j.bad)
			return
		}
		if j.want == 0 {
			h.Probe("too-few-rows")
			if j.err == nil {
				h.Fail("no-error", "%d folds of %d rows are impossible, but no error was returned", j.nfold, len(d.Data))
				return
			}
			if j.n != 0 {
				h.Fail("no-error", "%d folds of %d rows are impossible, but %d folds were announced", j.nfold, len(d.Data), j.n)
				return
			}
			continue
		}
		if j.nilSampler || j.n != j.want {
			h.Fail("wrong-number", "%d folds of %d rows requested: %d announced, expected %d", j.nfold, len(d.Data), j.n, j.want)
			return
		}
		if (j.want != asked) != (j.err != nil) {
			h.Fail("reduction-unreported", "%d folds of %d rows requested, %d used, error %v", asked, len(d.Data), j.n, j.err)
			return
		}
		if j.want != asked {
			h.Probe("reduced-folds")
		}
		if len(d.Data)%j.n != 0 {
			h.Probe("uneven")
		}
		if j.copies {
			h.Probe("copies")
		} else {
			h.Probe("references")
		}
		if j.mutate {
			h.Probe("overwritten-copies")
		}
		for f, s := range j.sizes {
			if s < len(d.Data)/j.n || s < 2 {
				h.Fail("small-fold", "fold %d of %d rows in %d has %d rows", f, len(d.Data), j.n, s)
				return
			}
		}
	}
}

// ---------- C12: honest cross-validation

type cvJob struct {
	d     *utils.DataBunch
	ref   *utils.DataBunch
	o     *boo.Options
	oc    boo.Options
	conc  bool
	nfold int
	want  int
	acc   float64
	err   error
	cacc  float64
	cerr  error
	co    *boo.Options
	extra int
}

func init() {
	register(&Check{ID: "C12", Run: runC12, Quick: 240000, Thorough: 600000,
		Rule: "Each run cross-validates real models, directly or over channels, in one to three tasks that share the data or not, with uniform and adversarial random draws; the training and test set of every fold, the model each accuracy belongs to and the accuracies themselves are recomputed.",
		Real: realCV, Stub: stubSched,
		Want: []string{"direct", "channels", "concurrent", "shared-data", "reduced-folds", "too-few-rows", "uneven", "all-folds-scored", "default-options", "fold-without-ensemble", "large-data", "wide-data"}})
}

func runC12(h *H) {
	n := 1
	if h.C.Chance("concurrent", 0.4) {
		n = h.C.Int("tasks", 2, 3)
		h.Probe("concurrent")
	}
	shared := n > 1 && h.C.Chance("shared", 0.6)
	if shared {
		h.Probe("shared-data")
	}
	var jobs []*cvJob
	for i := 0; i < n; i++ {
		j := &cvJob{}
		if i > 0 && shared {
			j.d = jobs[0].d
		} else {
			j.d = h.Data(DataSpec{MinRows: 2, MaxRows: 16, MinCols: 2, MaxCols: 3, MaxClasses: 3, UniqueRows: true, Big: h.C.Chance("bigdata", 0.5)})
		}
		j.ref = cloneData(j.d)
		j.nfold = []int{3, 2, 5, 4, 0, 9, 13}[h.C.Int("nfold", 0, 6)]
		j.want = wantFolds(len(j.d.Data), j.nfold)
		j.conc = h.C.Chance("channels", 0.5)
		if n == 1 && h.C.Chance("default-options", 0.06) {
			h.Probe("default-options")
		} else {
			o := h.BoostOpts(3)
			// tells the jobs apart
			o.Rounds = o.Rounds + 10*i
			if i > 0 {
				o.MaxDepth = 1
			}
			o.Verbose = false
			j.o, j.oc = o, *o
		}
		jobs = append(jobs, j)
		h.Note("task %d: %d folds requested, %d expected, channels %v", i, j.nfold, j.want, j.conc)
	}
	// observe
	type fold struct {
		d    *utils.DataBunch
		m    *boo.MultiClass
		o    boo.Options
		key  string
		test *utils.DataBunch
		acc  float64
		n    int
	}
	var folds []*fold
	by := map[*boo.MultiClass]*fold{}
	stray := 0
	boo.SimTrain = func(D *utils.DataBunch, opts []*boo.Options, impl func(...*boo.Options) *boo.MultiClass) *boo.MultiClass {
		f := &fold{d: cloneData(D)}
		if len(opts) > 0 && opts[0] != nil {
			f.o = *opts[0]
			f.key = optsKey(opts[0])
		}
		folds = append(folds, f)
		if f.key == "" { // 500 rounds by default: too slow here
			c := boo.DefaultXOptions()
			c.Rounds = 2
			opts = []*boo.Options{c}
		}
		f.m = impl(opts...)
		by[f.m] = f
		return f.m
	}
	boo.SimAccuracy = func(M *boo.MultiClass, D *utils.DataBunch, impl func() float64) float64 {
		a := impl()
		if f := by[M]; f != nil {
			f.n++
			f.test, f.acc = cloneData(D), a
		} else {
			stray++
		}
		return a
	}
	rs, rm := h.C.Word("rand"), h.C.Int("randmode", 0, 3)
	h.Sim(SimOpt{Policy: -1, Tag: "cross-validation", RandSet: true, RandSeed: rs, RandMode: rm}, func() {
		fin := make(chan bool, n)
		for _, j := range jobs {
			j := j
			simrt.Go(func() {
				c := &cv.Options{O: j.o}
				if !j.conc {
					j.acc, j.err = cv.MultiClassCrossValidation(j.d, j.nfold, c)
					simrt.SendTo[bool](fin)(true)
					return
				}
				c.Conc, c.Err, c.Acc, c.Ochan = true, make(chan error, 2), make(chan float64, 2), make(chan *boo.Options, 2)
				ret := make(chan bool, 1)
				simrt.Go(func() {
					j.acc, j.err = cv.MultiClassCrossValidation(j.d, j.nfold, c)
					simrt.SendTo[bool](ret)(true)
				})
				j.cerr = simrt.Recv(c.Err)
				j.cacc = simrt.Recv(c.Acc)
				j.co = simrt.Recv(c.Ochan)
				simrt.Recv(ret)
				j.extra = len(c.Err) + len(c.Acc) + len(c.Ochan)
				simrt.SendTo[bool](fin)(true)
			})
		}
		for range jobs {
			simrt.Recv(fin)
		}
	})
	boo.SimTrain, boo.SimAccuracy = nil, nil
	h.Faults[fmt.Sprintf("random-source-mode-%d", rm)]++
	if h.V != nil {
		return
	}
	if stray > 0 {
		h.Fail("untracked-model", "%d accuracies were measured with models that were not trained in the cross-validation", stray)
		return
	}
	used := 0
	for i, j := range jobs {
		if s := sameData(j.ref, j.d); s != "" {
			h.Fail("data-modified", "cross-validation modified its data: %s", s)
			return
		}
		key := ""
		if j.o != nil {
			if s := optsDiff(j.oc, *j.o); s != "" {
				h.Fail("options-modified", "cross-validation modified its options: %s", s)
				return
			}
			key = optsKey(j.o)
		}
		if j.conc {
			h.Probe("channels")
		} else {
			h.Probe("direct")
		}
		if j.extra > 0 {
			h.Fail("extra-values", "%d more values were sent than the one per channel", j.extra)
			return
		}
		if j.want == 0 {
			h.Probe("too-few-rows")
			if j.err == nil || j.conc && j.cerr == nil {
				h.Fail("no-error", "task %d: %d rows can not be cross-validated, but there was no error (%v, %v)", i, len(j.d.Data), j.err, j.cerr)
				return
			}
			continue
		}
		if j.err != nil || j.cerr != nil {
			h.Fail("unexpected-error", "task %d: %v %v", i, j.err, j.cerr)
			return
		}
		var tr, te [][]int
		sum := 0.0
		scored := true
		cnt := 0
		for _, f := range folds {
			if f.key != key {
				continue
			}
			cnt++
			used++
			if j.o != nil {
				if s := optsDiff(j.oc, f.o); s != "" {
					h.Fail("wrong-settings", "task %d: a fold was trained with other options: %s", i, s)
					return
				}
			}
			a, s := rowIDs(j.ref, f.d)
			if s != "" {
				h.Fail("wrong-set", "task %d: training set: %s", i, s)
				return
			}
			if f.n == 0 {
				scored = false
				if f.m.Rounds() > 0 {
					h.Fail("fold-skipped", "task %d: a trained fold was never scored", i)
					return
				}
				continue
			}
			if f.n > 1 {
				h.Fail("scored-twice", "task %d: a model was scored %d times", i, f.n)
				return
			}
			b, s := rowIDs(j.ref, f.test)
			if s != "" {
				h.Fail("wrong-set", "task %d: test set: %s", i, s)
				return
			}
			tr, te = append(tr, a), append(te, b)
			right := 0
			labels := f.m.ClassLabels()
			for k, v := range f.test.Data {
				if labels[f.m.PredictSingleClass(v)] == f.test.Labels[k] {
					right++
				}
			}
			acc := 100 * float64(right) / float64(len(f.test.Data))
			if !near(acc, f.acc) {
				h.Fail("wrong-accuracy", "task %d: a fold scored %v, but %d of its %d rows are predicted right", i, f.acc, right, len(f.test.Data))
				return
			}
			if f.m.Rounds() <= 0 {
				acc = 0
			}
			sum += acc
		}
		if cnt != j.want {
			h.Fail("wrong-folds", "task %d: %d models were trained for %d folds", i, cnt, j.want)
			return
		}
		if scored {
			h.Probe("all-folds-scored")
			if s := partition(len(j.ref.Data), tr, te); s != "" {
				h.Fail("dishonest", "task %d: %s", i, s)
				return
			}
			if m := sum / float64(j.want); !near(m, j.acc) {
				h.Fail("wrong-mean", "task %d: the folds scored %v on average, but %v was returned", i, m, j.acc)
				return
			}
		}
		if !scored { // a fold without an ensemble counts as zero
			h.Probe("fold-without-ensemble")
			if m := sum / float64(j.want); !near(m, j.acc) {
				h.Fail("wrong-mean", "task %d: %d of %d folds gave no ensemble and the accuracies of the others add up to %v, but %v was returned", i, j.want-len(te), j.want, sum, j.acc)
				return
			}
		}
		if j.conc && !near(j.acc, j.cacc) {
			h.Fail("channel-differs", "task %d: %v was returned, but %v sent", i, j.acc, j.cacc)
			return
		}
		if j.conc && j.co != j.o && (j.co == nil || j.o == nil || optsDiff(*j.co, *j.o) != "") {
			h.Fail("channel-differs", "task %d: other options were sent than the evaluated ones", i)
			return
		}
		if len(j.d.Data)%j.want != 0 {
			h.Probe("uneven")
		}
		if a := j.nfold; a > j.want {
			h.Probe("reduced-folds")
		}
		h.MixS(fmt.Sprintf("%x", math.Float64bits(j.acc)))
	}
	if used != len(folds) {
		h.Fail("wrong-settings", "%d of %d models were trained with options that were not given", len(folds)-used, len(folds))
	}
}
