package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"github.com/rmera/boo/zsim/simrt"
)

// ---------- C17: the trees refine the boosting algorithm

// rnode is a node of a saved tree.
type rnode struct {
	utils.JSONNode
	l, r *rnode
}

func (t *rnode) leaf() bool { return t.l == nil && t.r == nil }

func (t *rnode) predict(x []float64) float64 {
	for !t.leaf() {
		if x[t.SplitFeatureIndex] <= t.Threshold {
			t = t.l
		} else {
			t = t.r
		}
	}
	return t.Value
}

// readTrees reads the trees of a saved model by round and class.
func readTrees(text string) ([][]*rnode, error) {
	var out [][]*rnode
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	i := 1
	var node func() (*rnode, error)
	node = func() (*rnode, error) {
		if i >= len(lines) {
			return nil, fmt.Errorf("a node is missing")
		}
		n := &rnode{}
		if err := json.Unmarshal([]byte(lines[i]), &n.JSONNode); err != nil {
			return nil, err
		}
		i++
		var err error
		if n.Leftid > 0 {
			if n.l, err = node(); err != nil {
				return nil, err
			}
		}
		if n.Rightid > 0 {
			if n.r, err = node(); err != nil {
				return nil, err
			}
		}
		if (n.l == nil) != (n.r == nil) {
			return nil, fmt.Errorf("a node has one branch")
		}
		return n, nil
	}
	for i < len(lines) {
		switch {
		case strings.HasPrefix(lines[i], "ROUND"):
			out = append(out, nil)
			i++
		case strings.HasPrefix(lines[i], "CLASS"):
			i++
		default:
			if len(out) == 0 {
				return nil, fmt.Errorf("a tree before the first round")
			}
			n, err := node()
			if err != nil {
				return nil, err
			}
			out[len(out)-1] = append(out[len(out)-1], n)
		}
	}
	return out, nil
}

type treeJob struct {
	d          *utils.DataBunch
	o          *boo.Options
	plain      bool // hessian of ones
	m          *boo.MultiClass
	rows, cols [][]int
	rands      int
	task       int
}

func init() {
	register(&Check{ID: "C17", Run: runC17, Quick: 162000, Thorough: 1200000,
		Rule: "Each run trains one or two real ensembles at once (both kinds, 1 to 4 classes, 4 to 24 rows, up to 6 rounds, both losses, subsampling with uniform and adversarial draws, early stopping), and replays the training on the recorded draws, node by node, against a reference of the algorithm.",
		Real: []string{"boo (training, prediction, serialisation, feature importance)", "utils (matrices, sorting, softmax, losses)"}, Stub: stubSched,
		Want: []string{"xgb", "gboost", "subsampled", "columns-drawn", "split-checked", "leaf-checked", "gain-too-small", "depth-limit", "minimum-limit", "concurrent", "early-stopped", "plain-hessian", "importance", "no-lambda", "saturated-leaf", "no-column-drawn"}})
}

func runC17(h *H) {
	n := 1
	if h.C.Chance("concurrent", 0.25) {
		n = 2
		h.Probe("concurrent")
	}
	var jobs []*treeJob
	for i := 0; i < n; i++ {
		j := &treeJob{d: h.Data(DataSpec{MinRows: 4, MaxRows: 24, MaxCols: 4, MaxClasses: 4, Big: true}), o: h.BoostOpts(6)}
		if j.o.XGB && j.o.Lambda == 0 {
			h.Probe("no-lambda")
		}
		if h.C.Chance("saturating", 0.04) {
			j.o.LearningRate = 60
			j.o.EarlyStop = 0
		}
		if !h.C.Chance("earlystop-too", 0.3) {
			j.o.EarlyStop = 0
		}
		if h.C.Chance("plain", 0.25) {
			j.plain = true
			j.o.Loss = &utils.SQErrLoss{}
			h.Probe("plain-hessian")
		} else {
			j.o.Loss = &utils.MSELoss{}
		}
		if len(j.d.Data) == len(j.d.Data[0]) {
			j.d.Data = append(j.d.Data, append([]float64(nil), j.d.Data[0]...))
			j.d.Labels = append(j.d.Labels, j.d.Labels[0])
		}
		jobs = append(jobs, j)
	}
	rs, rm := h.C.Word("rand"), h.C.Int("randmode", 0, 3)
	h.Faults[fmt.Sprintf("random-source-mode-%d", rm)]++
	boo.SimSubSample = func(tot int, frac float64, impl func() []int) []int {
		s := impl()
		for _, j := range jobs {
			if j.task == simrt.CurID() {
				switch tot {
				case len(j.d.Data):
					j.rows = append(j.rows, append([]int{}, s...))
				case len(j.d.Data[0]):
					j.cols = append(j.cols, append([]int{}, s...))
				}
			}
		}
		return s
	}
	h.Sim(SimOpt{Policy: -1, Tag: "training", RandSet: true, RandSeed: rs, RandMode: rm}, func() {
		fin := make(chan bool, n)
		for i, j := range jobs {
			i, j := i, j
			j.task = -1
			simrt.Go(func() {
				simrt.SetStream(uint64(500 + i))
				j.task = simrt.CurID()
				j.m = boo.NewMultiClass(j.d, j.o)
				j.rands = simrt.CurStream().Draws
				j.task = -1
				simrt.SendTo[bool](fin)(true)
			})
		}
		for range jobs {
			simrt.Recv(fin)
		}
	})
	boo.SimSubSample = nil
	if h.V != nil {
		return
	}
	for _, j := range jobs {
		h.Sim(SimOpt{Policy: 0, Tag: "checking the model"}, func() { j.check(h) })
		if h.V != nil {
			return
		}
	}
}

func softmax(v []float64) []float64 {
	m := math.Inf(-1)
	for _, x := range v {
		m = math.Max(m, x)
	}
	r := make([]float64, len(v))
	s := 0.0
	for i, x := range v {
		r[i] = math.Exp(x - m)
		s += r[i]
	}
	for i := range r {
		r[i] /= s
	}
	return r
}

func close9(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func (j *treeJob) check(h *H) {
	m, d, o := j.m, j.d, j.o
	text, err := modelJSON(m)
	if err != nil {
		h.Fail("save-error", "the model could not be saved: %v", err)
		return
	}
	trees, err := readTrees(text)
	if err != nil {
		h.Fail("save-error", "the saved model is not understood: %v", err)
		return
	}
	labels := m.ClassLabels()
	h.MixS(text)
	// the draws of each round in the model
	drawsRows, drawsCols := o.XGB && o.SubSample < 1, o.XGB && o.ColSubSample < 1
	if drawsRows && len(j.rows) != o.Rounds || drawsCols && len(j.cols) != o.Rounds || !drawsRows && !drawsCols && j.rands > 0 {
		h.Probe("draws-not-seen")
		return
	}
	var rows, cols [][]int
	for i := 0; i < o.Rounds; i++ {
		if drawsRows && len(j.rows[i]) < max(o.MinSample, 1) {
			continue
		}
		r, c := seq(len(d.Data)), seq(len(d.Data[0]))
		if drawsRows {
			r = j.rows[i]
		}
		if drawsCols {
			if c = j.cols[i]; len(c) == 0 {
				h.Probe("no-column-drawn")
			}
		}
		rows, cols = append(rows, r), append(cols, c)
	}
	if len(trees) != len(rows) {
		h.Fail("wrong-rounds", "%d rounds in the model, %d were drawn with enough rows", len(trees), len(rows))
		return
	}
	if o.XGB {
		h.Probe("xgb")
	} else {
		h.Probe("gboost")
	}
	if drawsRows {
		h.Probe("subsampled")
	}
	if drawsCols {
		h.Probe("columns-drawn")
	}
	raw := make([][]float64, len(d.Data))
	for i := range raw {
		raw[i] = make([]float64, len(labels))
		for k := range raw[i] {
			raw[i][k] = o.BaseScore
		}
	}
	imp := map[int]float64{}
	g, hs := make([]float64, len(raw)), make([]float64, len(raw))
	sat := make([]bool, len(raw)) // the label is certain, so there is no gradient
	for rd, round := range trees {
		if len(round) != len(labels) {
			h.Fail("wrong-rounds", "%d trees in round %d for %d classes", len(round), rd, len(labels))
			return
		}
		for k, t := range round {
			if o.EarlyStop > 0 && t.leaf() && t.Nsamples == 0 && t.Value == 0 {
				h.Probe("early-stopped")
				continue
			}
			for i := range raw {
				for _, v := range raw[i] {
					if !(math.Abs(v) < 1e6) { // the rounding of the sums decides from here on
						h.Probe("runaway")
						return
					}
				}
				p := softmax(raw[i])[k]
				y := 0.0
				if d.Labels[i] == labels[k] {
					y = 1
				}
				g[i], hs[i] = p-y, p*(1-p)
				if j.plain {
					hs[i] = 1
				}
				sat[i] = y == 1
				for l := range raw[i] {
					sat[i] = sat[i] && (l == k || raw[i][k]-raw[i][l] > 60)
				}
			}
			c := &treeCheck{h: h, d: d, o: o, g: g, hs: hs, sat: sat, cols: cols[rd], imp: imp, where: fmt.Sprintf("round %d, class %d", rd, k)}
			c.node(t, rows[rd], 0)
			if h.V != nil {
				return
			}
			for i := range raw {
				raw[i][k] += o.LearningRate * t.predict(d.Data[i])
			}
		}
	}
	for _, p := range points(d, 5) {
		v := make([]float64, len(labels))
		for k := range v {
			v[k] = o.BaseScore
		}
		for _, round := range trees {
			for k, t := range round {
				v[k] += o.LearningRate * t.predict(p)
			}
		}
		want := softmax(v)
		for k, q := range m.PredictSingle(p) {
			if math.Abs(q-want[k]) > 1e-9 {
				h.Fail("wrong-prediction", "the probability of class %d for %v is %v, its trees give %v", k, p, q, want[k])
				return
			}
		}
	}
	if _, ill := imp[-1]; ill {
		return
	}
	// importance: the gains of the splits, by feature
	f, err := m.FeatureImportance()
	if err != nil {
		h.Fail("wrong-importance", "feature importance: %v", err)
		return
	}
	got, order, bad := parseFeats(f.String())
	if bad != "" || len(got) != len(imp) {
		h.Fail("wrong-importance", "features %v are listed, %v were split on; %s", got, imp, bad)
		return
	}
	for x, v := range imp {
		w, ok := got[x]
		if !ok || math.Abs(w-v) > 1e-3+1e-9*math.Abs(v) {
			h.Fail("wrong-importance", "feature %d has importance %v, the gains of its splits come to %v", x, w, v)
			return
		}
	}
	for i := 1; i < len(order); i++ {
		if o.XGB && order[i] > order[i-1] || !o.XGB && order[i] < order[i-1] {
			h.Fail("wrong-importance", "features not in order of importance: %v", order)
			return
		}
	}
	h.Probe("importance")
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

type treeCheck struct {
	h     *H
	d     *utils.DataBunch
	o     *boo.Options
	g, hs []float64
	sat   []bool
	cols  []int
	imp   map[int]float64
	where string
}

// score of a split, the higher the better.
func (c *treeCheck) score(l, r []int) float64 {
	sum := func(v []float64, s []int) (t float64) {
		for _, i := range s {
			t += v[i]
		}
		return
	}
	gl, gr := sum(c.g, l), sum(c.g, r)
	if c.o.XGB {
		hl, hr := sum(c.hs, l), sum(c.hs, r)
		lam := c.o.Lambda
		return 0.5*(gl*gl/(hl+lam)+gr*gr/(hr+lam)-(gl+gr)*(gl+gr)/(hl+hr+lam)) - c.o.Gamma/2
	}
	nl, nr := float64(len(l)), float64(len(r))
	return gl*gl/nl + gr*gr/nr - (gl+gr)*(gl+gr)/(nl+nr)
}

func (c *treeCheck) node(t *rnode, s []int, depth int) {
	h, o := c.h, c.o
	if t.Nsamples != len(s) {
		h.Fail("wrong-rows", "%s: a node at depth %d has %d rows, %d reach it", c.where, depth, t.Nsamples, len(s))
		return
	}
	if t.Leaf != t.leaf() {
		h.Fail("bad-tree", "%s: a node at depth %d is marked as a leaf (%v) but has branches (%v)", c.where, depth, t.Leaf, !t.leaf())
		return
	}
	// the best split there is
	least := int(math.Max(o.MinChildWeight, 1))
	best, bestCol, bestAt, any := math.Inf(-1), -1, 0.0, false
	limited := false
	if depth < o.MaxDepth {
		for _, col := range c.cols {
			srt := append([]int(nil), s...)
			sort.SliceStable(srt, func(a, b int) bool { return c.d.Data[srt[a]][col] < c.d.Data[srt[b]][col] })
			for i := 1; i < len(srt); i++ {
				a, b := c.d.Data[srt[i-1]][col], c.d.Data[srt[i]][col]
				if a == b {
					continue
				}
				if i < least || len(srt)-i < least {
					limited = true
					continue
				}
				any = true
				if v := c.score(srt[:i], srt[i:]); v > best {
					best, bestCol, bestAt = v, col, (a+b)/2
				}
			}
		}
	} else {
		h.Probe("depth-limit")
	}
	const tol = 1e-9
	// without Lambda, the gain is not defined when no probability can change
	ill := false
	for _, i := range s {
		ill = ill || o.XGB && o.Lambda < 0.01 && c.hs[i] < 1e-4
	}
	if t.leaf() {
		switch {
		case ill:
			h.Probe("ill-conditioned")
		case any && (!o.XGB || best > tol):
			h.Fail("not-split", "%s: a node of %d rows at depth %d was not split, column %d at %v gives %v", c.where, len(s), depth, bestCol, bestAt, best)
			return
		case any:
			h.Probe("gain-too-small")
		case limited:
			h.Probe("minimum-limit")
		}
		sg, sh := 0.0, 0.0
		for _, i := range s {
			sg += c.g[i]
			sh += c.hs[i]
		}
		want := -sg / sh
		if o.XGB {
			want = -sg / (sh + o.Lambda)
		}
		if o.XGB {
			sh += o.Lambda
		}
		if sh < 1e-6 {
			all := true
			for _, i := range s {
				all = all && c.sat[i]
			}
			if all {
				h.Probe("saturated-leaf")
				if t.Value != 0 {
					h.Fail("wrong-leaf", "%s: a leaf of %d rows, whose class is certain, has value %v", c.where, len(s), t.Value)
				}
			}
			return
		}
		if math.Abs(want-t.Value) > 1e-7*math.Max(1, math.Abs(want)) {
			h.Fail("wrong-leaf", "%s: a leaf of %d rows has value %v, the step for these rows is %v", c.where, len(s), t.Value, want)
			return
		}
		h.Probe("leaf-checked")
		return
	}
	if depth >= o.MaxDepth {
		h.Fail("too-deep", "%s: a node at depth %d was split, the maximum depth is %d", c.where, depth, o.MaxDepth)
		return
	}
	col := t.SplitFeatureIndex
	in := false
	for _, x := range c.cols {
		in = in || x == col
	}
	if !in {
		h.Fail("wrong-column", "%s: a split on column %d, drawn were %v", c.where, col, c.cols)
		return
	}
	var l, r []int
	hi, lo := math.Inf(-1), math.Inf(1)
	for _, i := range s {
		v := c.d.Data[i][col]
		if v <= t.Threshold {
			l, hi = append(l, i), math.Max(hi, v)
		} else {
			r, lo = append(r, i), math.Min(lo, v)
		}
	}
	if len(l) < least || len(r) < least {
		h.Fail("too-few", "%s: a node of %d rows was split in %d and %d, the minimum is %d", c.where, len(s), len(l), len(r), least)
		return
	}
	if !close9(t.Threshold, (hi+lo)/2) {
		h.Fail("wrong-threshold", "%s: the threshold is %v, between values %v and %v", c.where, t.Threshold, hi, lo)
		return
	}
	sc := c.score(l, r)
	if ill {
		h.Probe("ill-conditioned")
		c.imp[-1] = 1 // the importance is not judged
		c.node(t.l, l, depth+1)
		if h.V == nil {
			c.node(t.r, r, depth+1)
		}
		return
	}
	if sc < best-tol*math.Max(1, math.Abs(best)) {
		h.Fail("not-the-best", "%s: split on column %d at %v, which gives %v; column %d at %v gives %v", c.where, col, t.Threshold, sc, bestCol, bestAt, best)
		return
	}
	if o.XGB && sc < -tol {
		h.Fail("useless-split", "%s: split on column %d at %v, which gives %v", c.where, col, t.Threshold, sc)
		return
	}
	h.Probe("split-checked")
	if o.XGB {
		c.imp[col] += sc
	} else {
		c.imp[col] -= sc
	}
	c.node(t.l, l, depth+1)
	if h.V != nil {
		return
	}
	c.node(t.r, r, depth+1)
}
