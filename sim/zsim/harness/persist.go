package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"syscall"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"github.com/rmera/boo/zsim/simos"
	"github.com/rmera/boo/zsim/simrt"
	"gonum.org/v1/gonum/mat"
)

var stubIO = []string{"the streams and files a model travels through (fragmenting, failing, torn)", "goroutine scheduler, channels, sync (simulated)", "math/rand (seeded streams, uniform and adversarial)"}

// points are instances to predict: the data's and others.
func points(d *utils.DataBunch, salt uint64) [][]float64 {
	r := &rng{salt}
	var pts [][]float64
	for i, v := range d.Data {
		if i < 12 {
			pts = append(pts, v)
		}
	}
	if len(d.Data) == 0 {
		return pts
	}
	for i := 0; i < 6; i++ {
		p := make([]float64, len(d.Data[0]))
		for j := range p {
			switch r.n(4) {
			case 0:
				p[j] = d.Data[r.n(len(d.Data))][j]
			case 1:
				p[j] = r.f()*1e6 - 5e5
			default:
				p[j] = r.f()*24 - 12
			}
		}
		pts = append(pts, p)
	}
	return pts
}

// modelCase generates data and options for a model to be saved.
func (h *H) modelCase(maxRounds int) (*utils.DataBunch, *boo.Options) {
	d := h.Data(DataSpec{MinRows: 2, MaxRows: 22, MaxCols: 4, MaxClasses: 5, Big: true})
	large := h.large
	o := h.BoostOpts(maxRounds)
	if large {
		return d, o
	}
	if h.C.Chance("many-classes", 0.0006) { // one for every row
		n := h.C.Int("classes", 130, 260)
		d = &utils.DataBunch{}
		for i := 0; i < n; i++ {
			d.Data = append(d.Data, []float64{float64(i%17) + 0.25})
			d.Labels = append(d.Labels, 1<<60+i)
		}
		o.Rounds, o.MaxDepth, o.MinChildWeight, o.SubSample = 1, 2, 1, 1
		h.Probe("over-128-classes")
		return d, o
	}
	switch h.C.Int("shape", 0, 7) {
	case 1: // no rounds at all
		o.XGB = true
		o.SubSample, o.MinSample = 0.5, 1000
	case 2: // stops early
		o.EarlyStop, o.LearningRate = 1, 0.8
		o.Rounds = maxRounds
	case 3: // many rounds
		o.Rounds = 12 + h.C.Int("many", 0, 20)
		o.MaxDepth = 2
	case 4: // stumps that do not split
		o.MaxDepth = 1
		o.MinChildWeight = 50
	}
	return d, o
}

// failWriter is a WriteString target that fails at its n-th call.
type failWriter struct {
	h   *H
	b   strings.Builder
	n   int
	err error
	Hit bool
	// it fails once only
	once bool
}

func (w *failWriter) WriteString(s string) (int, error) {
	simrt.SyncPoint(54, 1)
	w.n--
	if w.n == 0 || w.Hit && !w.once {
		w.Hit = true
		w.h.Fault("write-error")
		return 0, w.err
	}
	return w.b.WriteString(s)
}

// nanLoss is a loss function whose gradients are not numbers.
type nanLoss struct {
	utils.LossFunc
	v float64
}

func (l *nanLoss) Gradients(a, b, c *mat.Dense) *mat.Dense {
	g := l.LossFunc.Gradients(a, b, c)
	g.Set(0, 0, l.v)
	return g
}

func (l *nanLoss) NegGradients(a, b, c *mat.Dense) *mat.Dense {
	g := l.LossFunc.NegGradients(a, b, c)
	g.Set(0, 0, l.v)
	return g
}

type saveJob struct {
	m       *boo.MultiClass
	key     string
	acc     float64
	d       *utils.DataBunch
	pts     [][]float64
	wkind   int
	wn      int
	once    bool
	readIn  int // where the reading fails: anywhere, at the very end, at a line end
	bufsz   int
	werr    error
	rd      *faultReader
	rsize   int
	readAt  int
	rerr    error
	gen     int
	text    string
	saveErr error
	failed  bool // the write was made to fail
	m2      *boo.MultiClass
	loadErr error
	odd     bool // it has a number JSON has no text for
	h       *H
	name    string
}

func (j *saveJob) save() {
	switch j.wkind {
	case 1: // a target that fails
		w := &failWriter{h: j.h, n: j.wn, err: j.werr, once: j.once}
		j.saveErr = boo.JSONMultiClass(j.m, "softmax", w)
		j.text, j.failed = w.b.String(), w.Hit
	case 2, 3: // a buffered file
		f, err := simos.Create(j.name)
		if err != nil {
			j.saveErr, j.failed = err, true
			return
		}
		bw := bufio.NewWriterSize(f, j.bufsz)
		err = boo.JSONMultiClass(j.m, "softmax", bw)
		if e := bw.Flush(); err == nil {
			err = e
		}
		if e := f.Close(); err == nil {
			err = e
		}
		j.saveErr = err
		j.text = string(simos.Disk.Files[j.name].Data)
	default:
		var b strings.Builder
		j.saveErr = boo.JSONMultiClass(j.m, "softmax", &b)
		j.text = b.String()
	}
}

func (j *saveJob) load() {
	if j.wkind == 2 || j.wkind == 3 {
		f, err := simos.Open(j.name)
		if err != nil {
			j.loadErr = err
			return
		}
		j.m2, j.loadErr = boo.UnJSONMultiClass(bufio.NewReaderSize(f, j.rsize))
		f.Close()
		return
	}
	j.rd.data = []byte(j.text)
	if j.readAt >= 0 {
		j.rd.failAt = j.readAt % (len(j.text) + 1)
		switch j.readIn {
		case 1:
			j.rd.failAt = len(j.text)
		case 2:
			if i := strings.IndexByte(j.text[j.rd.failAt:], '\n'); i >= 0 {
				j.rd.failAt += i + 1
			}
		}
	}
	j.m2, j.loadErr = boo.UnJSONMultiClass(bufio.NewReaderSize(j.rd, j.rsize))
}

func init() {
	register(&Check{ID: "C06", Run: runC06, Quick: 100000, Thorough: 2000000,
		Rule: "Each run trains one or more real models (both kinds, 1 to 5 classes, 0 to 32 rounds, early-stopped, single-class), and one to three tasks save and load them through streams that fragment, stall or fail at a chosen point, buffers of chosen sizes, and the simulated disk.",
		Real: []string{"boo (training, prediction, serialisation)", "utils (tree serialisation, matrices)"}, Stub: stubIO,
		Want: []string{"xgb", "gboost", "no-rounds", "early-stopped-class", "over-128-classes", "one-class", "ten-rounds", "write-failure", "read-failure", "disk-write-failure", "concurrent", "same-model-concurrently", "second-generation", "unwritable-number", "single-tree"}})
}

// mirror is a tree of ours that the library's reader of trees fills.
type mirror struct {
	n    utils.JSONNode
	l, r utils.JTree
}

func (m *mirror) JNode(id uint, _ ...bool) *utils.JSONNode { c := m.n; c.Id = id; return &c }
func (m *mirror) Leftf(t utils.JTree) utils.JTree {
	if t != nil {
		m.l = t
	}
	return m.l
}
func (m *mirror) Rightf(t utils.JTree) utils.JTree {
	if t != nil {
		m.r = t
	}
	return m.r
}
func (m *mirror) Leaf() bool { return m.n.Leaf }
func (m *mirror) predict(row []float64) float64 {
	for !m.n.Leaf {
		c := m.r
		if row[m.n.SplitFeatureIndex] <= m.n.Threshold {
			c = m.l
		}
		m = c.(*mirror)
	}
	return m.n.Value
}

// c06Tree saves and reads one tree by itself.
func c06Tree(h *H) {
	d := h.Data(DataSpec{MinRows: 2, MaxRows: 16, MaxCols: 3, MaxClasses: 3})
	o := boo.DefaultXTreeOptions()
	if h.C.Chance("plain", 0.5) {
		o = boo.DefaultGTreeOptions()
	}
	o.MaxDepth = h.C.Int("depth", 0, 5)
	o.Gamma = 0
	r := &rng{h.C.Word("gradients")}
	for range d.Data {
		o.Y = append(o.Y, r.f()-0.5)
		o.Gradients, o.Hessian = append(o.Gradients, r.f()-0.5), append(o.Hessian, 0.1+r.f())
	}
	if h.C.Chance("some-rows", 0.5) {
		for i := range d.Data {
			if i == 0 || r.n(3) > 0 {
				o.Indexes = append(o.Indexes, i)
			}
		}
	}
	n := h.C.Int("savers", 1, 3)
	var before, after string
	texts, errs := make([]string, n), make([]error, n)
	h.Sim(SimOpt{Policy: -1, Tag: "saving a tree"}, func() {
		t := boo.NewTree(d.Data, o)
		before = t.Print("")
		fin := make(chan bool, n)
		for i := 0; i < n; i++ {
			simrt.Go(func() {
				b, _, err := utils.JSONTree(t)
				errs[i] = err
				for _, l := range b {
					texts[i] += string(l) + "\n"
				}
				simrt.SendTo[bool](fin)(true)
			})
		}
		for i := 0; i < n; i++ {
			simrt.Recv(fin)
		}
		after = t.Print("")
		if before != after {
			h.Fail("model-modified", "saving a tree modified it:\n%s\n%s", before, after)
			return
		}
		for i := range texts {
			if errs[i] != nil {
				h.Fail("save-error", "a tree could not be saved: %v", errs[i])
				return
			}
			rd := bufio.NewReader(strings.NewReader(texts[i]))
			first, err := rd.ReadString('\n')
			if err != nil {
				h.Fail("different-model", "nothing was saved of a tree")
				return
			}
			mk := func(j *utils.JSONNode) utils.JTree { return &mirror{n: *j} }
			jt, err := utils.UnJSONTree(first, rd, mk)
			if err != nil {
				h.Fail("load-error", "a saved tree could not be read: %v", err)
				return
			}
			if rest, _ := rd.ReadString('\n'); rest != "" {
				h.Fail("different-model", "part of a saved tree was not read: %s", rest)
				return
			}
			for k := 0; k < 20; k++ {
				row := d.Data[r.n(len(d.Data))]
				if k > 10 {
					row = append([]float64(nil), row...)
					row[r.n(len(row))] = r.f()*20 - 10
				}
				if a, b := t.PredictSingle(row), jt.(*mirror).predict(row); a != b {
					h.Fail("different-model", "a tree predicts %v, the one saved and read %v", a, b)
					return
				}
			}
		}
	})
	h.Probe("single-tree")
	h.MixS(before)
}

func runC06(h *H) {
	if h.C.Chance("tree", 0.05) {
		c06Tree(h)
		return
	}
	nt := 1
	if h.C.Chance("concurrent", 0.35) {
		nt = h.C.Int("tasks", 2, 3)
		h.Probe("concurrent")
	}
	shared := nt > 1 && h.C.Chance("shared-model", 0.5)
	if shared {
		h.Probe("same-model-concurrently")
	}
	jobs := make([]*saveJob, nt)
	var opts []*boo.Options
	for i := range jobs {
		j := &saveJob{h: h, name: fmt.Sprintf("m%d.json", i)}
		jobs[i] = j
		if i == 0 || !shared {
			var o *boo.Options
			j.d, o = h.modelCase(10)
			if h.C.Chance("unwritable", 0.03) {
				j.odd = true
				switch h.C.Int("unwritable-what", 0, 3) {
				case 0:
					o.BaseScore = math.Inf(1)
				case 1:
					o.BaseScore = math.NaN()
				case 2:
					o.LearningRate = math.Inf(1)
				case 3: // in the trees only
					o.Loss = &nanLoss{o.Loss, []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[h.C.Int("nan", 0, 2)]}
				}
				h.Note("base score %v, learning rate %v", o.BaseScore, o.LearningRate)
			}
			opts = append(opts, o)
		}
		j.wkind = h.C.Int("target", 0, 3)
		j.wn = 1 + h.C.Int("write-n", 0, 30)
		if j.wkind == 1 {
			j.once = h.C.Chance("fails-once", 0.4)
		}
		j.bufsz = []int{4096, 16, 61, 256, 1024}[h.C.Int("wbuf", 0, 4)]
		j.rsize = []int{4096, 16, 100, 1000, 65536}[h.C.Int("rbuf", 0, 4)]
		j.werr = ioErrs[h.C.Int("werr", 0, len(ioErrs)-1)]
		j.rerr = ioErrs[h.C.Int("rerr", 0, len(ioErrs)-1)]
		j.readAt = -1
		if h.C.Chance("read-fails", 0.25) {
			j.readAt = h.C.Int("read-at", 0, 20000)
			j.readIn = h.C.Int("read-in", 0, 2)
		}
		j.rd = h.reader(nil, -1, j.rerr)
		j.gen = h.C.Int("generations", 1, 2)
		h.Note("task %d: target %d, fails at write %d, read fails at %d, buffers %d and %d", i, j.wkind, j.wn, j.readAt, j.bufsz, j.rsize)
	}
	salt := h.C.Word("points")
	// train
	h.Sim(SimOpt{Policy: 0, Tag: "training"}, func() {
		for i, j := range jobs {
			if i > 0 && shared {
				j.m, j.d, j.odd = jobs[0].m, jobs[0].d, jobs[0].odd
			} else {
				j.m = boo.NewMultiClass(j.d, opts[i])
			}
			j.pts = points(j.d, salt)
			j.key = modelKey(j.m, j.pts)
			j.acc = j.m.Accuracy(j.d)
		}
	})
	if h.V != nil {
		return
	}
	for i, j := range jobs {
		if i > 0 && shared {
			continue
		}
		if opts[i].XGB {
			h.Probe("xgb")
		} else {
			h.Probe("gboost")
		}
		if j.m.Classes() == 1 {
			h.Probe("one-class")
		}
		lo, hi := 1<<30, 0
		for k := 0; k < j.m.Classes(); k++ {
			lo, hi = min(lo, j.m.Rounds(k)), max(hi, j.m.Rounds(k))
		}
		if hi == 0 {
			h.Probe("no-rounds")
		}
		if hi >= 10 {
			h.Probe("ten-rounds")
		}
		if lo != hi {
			h.Probe("early-stopped-class")
		}
	}
	var plan *diskPlan
	diskFails := nt == 1 && jobs[0].wkind == 3
	switch {
	case diskFails:
		op := []string{"write", "write", "create", "close", "read"}[h.C.Int("disk-op", 0, 4)]
		n := h.C.Int("disk-n", 0, 12)
		if op == "create" || op == "close" {
			n = 0
		}
		plan = h.diskFail(op, n, h.C.Chance("disk-short", 0.5))
	case h.C.Chance("disk-short", 0.5):
		plan = h.diskShort()
	}
	// save and load
	h.Sim(SimOpt{Policy: -1, Tag: "save and load"}, func() {
		fin := make(chan bool, nt)
		for _, j := range jobs {
			j := j
			simrt.Go(func() {
				j.save()
				if j.saveErr == nil {
					j.load()
				}
				simrt.SendTo[bool](fin)(true)
			})
		}
		for range jobs {
			simrt.Recv(fin)
		}
	})
	if h.V != nil {
		return
	}
	for _, j := range jobs {
		if j.failed {
			h.Probe("write-failure")
			if j.saveErr == nil {
				h.Fail("write-error-lost", "writing the model failed (call %d), but saving it returned no error", j.wn)
				return
			}
			continue
		}
		if diskFails && plan.Hit {
			h.Probe("disk-write-failure")
			if j.saveErr == nil && j.loadErr == nil {
				h.Fail("write-error-lost", "the disk failed (%s), but neither saving nor loading returned an error", plan.failOp)
				return
			}
			continue
		}
		if j.odd && j.saveErr != nil { // a number that can not be written
			h.Probe("unwritable-number")
			continue
		}
		if j.saveErr != nil {
			h.Fail("save-error", "the model could not be saved: %v", j.saveErr)
			return
		}
		if j.readAt >= 0 && j.wkind < 2 {
			h.Probe("read-failure")
			if j.loadErr == nil {
				h.Fail("read-error-lost", "reading the model failed with %q at byte %d of %d, but loading it returned no error", j.rerr, j.rd.failAt, len(j.text))
				return
			}
			continue
		}
		if j.loadErr != nil {
			h.Fail("load-error", "a saved model could not be loaded: %v", j.loadErr)
			return
		}
		var key string
		var acc float64
		h.Sim(SimOpt{Policy: 0, Tag: "using the loaded model"}, func() {
			key, acc = modelKey(j.m2, j.pts), j.m2.Accuracy(j.d)
		})
		if h.V != nil {
			return
		}
		h.MixS(key)
		if key != j.key {
			h.Fail("different-model", "the loaded model differs from the saved one: %s", firstDiff(j.key, key))
			return
		}
		if acc != j.acc {
			h.Fail("different-model", "the loaded model has an accuracy of %v, the saved one of %v", acc, j.acc)
			return
		}
		if j.gen == 2 {
			h.Probe("second-generation")
			h.Sim(SimOpt{Policy: 0, Tag: "second generation"}, func() {
				s, err := modelJSON(j.m2)
				if err != nil {
					h.Fail("save-error", "a loaded model could not be saved: %v", err)
					return
				}
				m3, err := loadModel([]byte(s))
				if err != nil {
					h.Fail("load-error", "a model saved, loaded and saved could not be loaded: %v", err)
					return
				}
				if k := modelKey(m3, j.pts); k != j.key {
					h.Fail("different-model", "saved and loaded twice, the model differs: %s", firstDiff(j.key, k))
				}
			})
		}
	}
	if o := simos.Disk.OpenHandles(); len(o) > 0 {
		h.Fail("open-handles", "files left open: %v", o)
	}
}

// ---------- C07: incomplete files are rejected

func init() {
	register(&Check{ID: "C07", Run: runC07, Quick: 40800, Thorough: 1500000,
		Rule: "Each run trains a real model, saves it (to the simulated disk, with a crash at a chosen operation, or in memory) and loads up to 40 damaged copies: prefixes cut at chosen bytes and at line ends, blocks that were never written (zeros; half of them start inside the line of a round or class), a tail of zeros, an unknown activation name, streams that end in an error or early.",
		Real: []string{"boo (training, prediction, serialisation)", "utils (tree serialisation, matrices)"}, Stub: stubIO,
		Want: []string{"cut-at-line-end", "cut-inside-line", "zero-tail", "zero-block", "crash-while-saving", "crash-rejected", "unknown-activation", "whole-rounds-missing", "empty-file", "early-end-of-stream"}})
}

// headerBlocks are the blocks of size sz that start inside the line that
// announces a round or a class.
func headerBlocks(b []byte, sz int) []int {
	var out []int
	for c := 0; c < len(b); c += sz {
		l := bytes.LastIndexByte(b[:c], '\n') + 1
		if c > l && (bytes.HasPrefix(b[l:], []byte("ROUND")) || bytes.HasPrefix(b[l:], []byte("CLASS"))) {
			out = append(out, c)
		}
	}
	return out
}

func runC07(h *H) {
	d, o := h.modelCase(8)
	salt := h.C.Word("points")
	var m *boo.MultiClass
	var text, key string
	var pts [][]float64
	h.Sim(SimOpt{Policy: 0, Tag: "training"}, func() {
		m = boo.NewMultiClass(d, o)
		pts = points(d, salt)
		key = modelKey(m, pts)
		s, err := modelJSON(m)
		if err != nil {
			h.Fail("save-error", "the model could not be saved: %v", err)
			return
		}
		text = s
	})
	if h.V != nil {
		return
	}
	r := &rng{h.C.Word("damage")}
	try := func(what string, b []byte) {
		if h.V != nil {
			return
		}
		h.Fault(what)
		var k, pan string
		var err error
		res := h.Sim(SimOpt{Policy: 0, Tag: "loading a damaged file", AllowEnd: true, MaxSteps: 20_000_000}, func() {
			k, err, pan = safeLoad(b, pts)
		})
		switch {
		case res.Panic != nil:
			pan = res.Panic.Value
		case res.StepLimit || res.Deadlock:
			h.Fail("no-progress", "loading %s (%d of %d bytes) does not end", what, len(b), len(text))
			return
		}
		if pan != "" {
			h.Fail("panic", "loading and using %s (%d of %d bytes) panics: %s", what, len(b), len(text), pan)
			return
		}
		if err == nil && k != key {
			h.Fail("damage-accepted", "%s (%d of %d bytes) was accepted as a different model: %s", what, len(b), len(text), firstDiff(key, k))
		}
	}
	if len(text) == 0 {
		h.Fail("save-error", "nothing was saved")
		return
	}
	// intact
	var k0, p0 string
	var e0 error
	h.Sim(SimOpt{Policy: 0, Tag: "loading the intact file"}, func() { k0, e0, p0 = safeLoad([]byte(text), pts) })
	if h.V == nil && (e0 != nil || p0 != "" || k0 != key) {
		h.Fail("intact-rejected", "the intact file was not loaded: %v %s", e0, p0)
	}
	b := []byte(text)
	var ends []int
	for i, c := range b {
		if c == '\n' && i+1 < len(b) {
			ends = append(ends, i+1)
		}
	}
	switch h.C.Int("damage-kind", 0, 5) {
	case 0: // cut at line ends, favouring the boundaries of trees and rounds
		for i := 0; i < 24 && len(ends) > 0; i++ {
			e := ends[r.n(len(ends))]
			if i == 0 {
				e = ends[len(ends)-1]
			}
			h.Probe("cut-at-line-end")
			if bytes.HasPrefix(b[e:], []byte("ROUND")) {
				h.Probe("whole-rounds-missing")
			}
			try("a file cut at a line end", b[:e])
		}
		h.Probe("empty-file")
		try("an empty file", nil)
	case 1:
		for i := 0; i < 24; i++ {
			c := r.n(len(b))
			if i < 3 {
				c = max(0, len(b)-1-i)
			}
			h.Probe("cut-inside-line")
			try("a truncated file", b[:c])
		}
	case 2: // the size was recorded, not the end of the data
		for i := 0; i < 20; i++ {
			c := r.n(len(b))
			if i%2 == 0 && len(ends) > 0 {
				c = ends[r.n(len(ends))]
			}
			z := append([]byte(nil), b...)
			for j := c; j < len(z); j++ {
				z[j] = 0
			}
			h.Probe("zero-tail")
			try("a file with a tail of zeros", z)
		}
	case 3: // a block was never written
		for i := 0; i < 20; i++ {
			sz := []int{16, 64, 128, 512, 4096}[r.n(5)]
			nb := (len(b) + sz - 1) / sz
			c := r.n(nb) * sz
			if i%2 == 0 { // one that starts inside the line of a round or class
				sz = 16
				if at := headerBlocks(b, sz); len(at) > 0 {
					c = at[r.n(len(at))]
					// and the blocks that follow, up to inside one of the next lines
					end, lines := c, r.n(12)
					for ; end < len(b) && lines > 0; end++ {
						if b[end] == '\n' {
							lines--
						}
					}
					sz = (end-c)/16*16 + 16*(1+r.n(8))
					h.Probe("zero-block-in-header")
				}
			}
			z := append([]byte(nil), b...)
			for j := c; j < len(z) && j < c+sz; j++ {
				z[j] = 0
			}
			h.Probe("zero-block")
			try("a file with a block of zeros", z)
		}
	case 4: // crash while saving to disk, with an older file there
		var ops int
		simos.Disk.OnOp = func(op, name string) { ops++ }
		save := func() {
			f, err := simos.Create("model.json")
			if err != nil {
				return
			}
			w := bufio.NewWriterSize(f, []int{4096, 64, 200, 16}[r.n(4)])
			if boo.JSONMultiClass(m, "softmax", w) == nil {
				w.Flush()
			}
			f.Close()
		}
		for i := 0; i < 6; i++ {
			seed := r.u()
			simos.Disk = simos.NewFS()
			simos.Disk.Files["model.json"] = &simos.Node{Data: []byte("an older file\n")}
			ops = 0
			simos.Disk.OnOp = func(op, name string) { ops++ }
			s := *r
			h.Sim(SimOpt{Policy: 0, Tag: "saving"}, save)
			total := ops
			*r = s
			cr := 1 + int(seed%uint64(total+1))
			simos.Disk = simos.NewFS()
			simos.Disk.Files["model.json"] = &simos.Node{Data: []byte("an older file\n")}
			ops = 0
			simos.Disk.OnOp = func(op, name string) {
				ops++
				if ops == cr {
					simos.Disk.Frozen = true
					simrt.CrashNow()
				}
			}
			res := h.Sim(SimOpt{Policy: 0, Tag: "saving, with a crash"}, save)
			simos.Disk.OnOp = nil
			left := simos.Disk.Files["model.json"].Data
			if res.Crashed {
				h.Probe("crash-while-saving")
				if len(left) < len(text) {
					h.Probe("crash-rejected")
				}
				if string(left) == "an older file\n" {
					continue
				}
				// what was not forced to disk may be lost, wholly or in part
				keep := len(left)
				if r.n(2) == 0 && keep > 0 {
					keep = r.n(keep + 1)
				}
				try("a file left by a crash", left[:keep])
			}
		}
	default:
		if h.C.Chance("activation", 0.5) {
			h.Probe("unknown-activation")
			nm := []string{"nosuch", "", "Softmax", "softmax2"}[h.C.Int("name", 0, 3)]
			var out strings.Builder
			var err error
			h.Sim(SimOpt{Policy: 0, Tag: "saving with another activation"}, func() { err = boo.JSONMultiClass(m, nm, &out) })
			if err == nil {
				try("a file naming the unknown activation "+nm, []byte(out.String()))
			}
			return
		}
		for i := 0; i < 12; i++ {
			h.Probe("early-end-of-stream")
			c := r.n(len(b) + 1)
			if i%2 == 0 && len(ends) > 0 {
				c = ends[r.n(len(ends))]
			}
			if i%6 == 5 {
				c = len(b)
			}
			e := []error{io.EOF, io.ErrUnexpectedEOF, syscall.EIO, errors.New("broken pipe")}[r.n(4)]
			rd := h.reader(b, c, e)
			var k, pan string
			var err error
			h.Fault("stream-ends-early")
			h.Sim(SimOpt{Policy: 0, Tag: "loading from a stream that ends early"}, func() {
				defer func() {
					if p := recover(); p != nil && !simrt.Dead() {
						pan = fmt.Sprint(p)
					}
				}()
				m2, er := boo.UnJSONMultiClass(bufio.NewReaderSize(rd, 16+r.n(300)))
				if err = er; er == nil {
					k = modelKey(m2, pts)
				}
			})
			if pan != "" {
				h.Fail("panic", "a stream that ends after %d of %d bytes with %v panics: %s", c, len(b), e, pan)
				return
			}
			if err == nil && (k != key || e != io.EOF) {
				h.Fail("damage-accepted", "a stream that ends after %d of %d bytes with %v was accepted as a model", c, len(b), e)
				return
			}
		}
	}
}

// ---------- C08: the best model on disk

func init() {
	register(&Check{ID: "C08", Run: runC08, Quick: 60000, Thorough: 500000,
		Rule: "Each run makes a search write its best model to the simulated disk, under a chosen schedule and with a chosen fault: none, a failing or full disk at a chosen operation, or a crash at a chosen operation; then every file left is loaded and compared with the models the search trained.",
		Real: realCV, Stub: append([]string{"the score of a trained model (a pure function of the options)"}, stubSched...),
		Want: []string{"grid", "gradient", "hybrid", "no-fault", "disk-fault", "crash", "several-bests", "same-file-rewritten", "torn-file-rejected", "create-fault", "write-fault", "close-fault"}})
}

func runC08(h *H) {
	kind := h.C.Int("search", 0, 2)
	d := h.Data(DataSpec{MinRows: 4, MaxRows: 10, MaxCols: 3, MaxClasses: 3, Big: h.C.Chance("bigdata", 0.3)})
	nfold := h.C.Int("nfold", 2, 3)
	var sp *gridSpec
	if kind == 0 {
		sp = h.gridSpecN(8)
	} else {
		sp = h.gradSpec(3)
	}
	g := sp.G
	if g.Rounds[1] > 6 { // files of a few kB
		g.Rounds[0], g.Rounds[1] = 2, 6
	}
	g.WriteBest = true
	land, f := h.landscape()
	if h.C.Chance("narrow", 0.3) { // several bests share a file name
		f0 := f
		f = func(o *boo.Options, k int) float64 { return 40 + f0(o, k)/200 }
	}
	fault := h.C.Int("fault", 0, 2)
	crashAt := 1 + h.C.Int("crash-at", 0, 9)
	w := h.watch(d)
	w.Landscape = f
	var plan *diskPlan
	ops := 0
	switch fault {
	case 1:
		op := []string{"write", "create", "close"}[h.C.Int("disk-op", 0, 2)]
		plan = h.diskFail(op, h.C.Int("disk-n", 0, 2), false)
	case 2:
		simos.Disk.OnOp = func(op, name string) {
			ops++
			if ops == crashAt {
				simos.Disk.Frozen = true
				simrt.CrashNow()
			}
		}
	}
	h.Note("%s search, %s landscape, fault %d", searchNames[kind], land, fault)
	var r searchRes
	res := h.Sim(SimOpt{Policy: -1, Tag: searchNames[kind] + " search"}, func() { r = runSearch(kind, d, nfold, g) })
	if h.V != nil {
		return
	}
	disk := simos.Disk
	disk.Fault, disk.OnOp, disk.Frozen = nil, nil, false
	h.Probe(searchNames[kind])
	if !res.Crashed && !res.RootDone {
		h.Fail("no-return", "the search did not return")
		return
	}
	pts := points(d, 7)
	keys := map[string]*Train{}
	full := 0
	var winner *Train
	h.Sim(SimOpt{Policy: 0, Tag: "reading the files"}, func() {
		for _, t := range w.Trains {
			if t.Full && t.M != nil {
				full++
				keys[modelKey(t.M, pts)] = t
				if r.O != nil && t.Key == optsKey(r.O) {
					winner = t
				}
			}
		}
		found := false
		var names []string
		for n := range disk.Files {
			names = append(names, n)
		}
		sort.Strings(names)
		if full > len(names) {
			h.Probe("same-file-rewritten")
		}
		for _, n := range names {
			k, err, pan := safeLoad(disk.Files[n].Data, pts)
			if pan != "" {
				h.Fail("panic", "loading %s panics: %s", n, pan)
				return
			}
			if err != nil {
				if plan != nil && plan.Hit || res.Crashed {
					h.Probe("torn-file-rejected")
					continue
				}
				h.Fail("bad-file", "the search wrote %s, which can not be loaded: %v", n, err)
				return
			}
			t := keys[k]
			if t == nil {
				h.Fail("wrong-model", "%s holds a model that the search never trained on all the data", n)
				return
			}
			if winner != nil && k == modelKey(winner.M, pts) {
				found = true
			}
		}
		if res.Crashed || plan != nil && plan.Hit {
			return
		}
		if winner == nil {
			h.Fail("no-model", "the search returned %s, but no model was trained with these options on all the data", r.O)
			return
		}
		if !found {
			h.Fail("no-model", "no file holds the model for the options returned, %s; the files are %v", r.O, names)
		}
	})
	if h.V != nil {
		return
	}
	if full > 1 {
		h.Probe("several-bests")
	}
	if res.Crashed {
		h.Probe("crash")
		return
	}
	if plan != nil && plan.Hit {
		h.Probe("disk-fault")
		h.Probe(plan.failOp + "-fault")
	} else {
		h.Probe("no-fault")
	}
	if o := disk.OpenHandles(); len(o) > 0 {
		h.Fail("open-handles", "the search left files open: %v", o)
		return
	}
	if r.Err != nil {
		if plan != nil && plan.Hit {
			return // a search may also report that it could not write
		}
		h.Fail("unexpected-error", "the search failed: %v", r.Err)
		return
	}
	if r.O == nil {
		h.Fail("no-options", "the search returned no options")
		return
	}
	h.MixS(r.String())
	// the result is the same as without writing
	checkReturned(h, w, "the "+searchNames[kind]+" search", r)
	if h.V == nil && kind == 0 {
		best := 0.0
		for _, t := range w.Trains {
			if !t.Full {
				best = max(best, f(&t.O, 0))
			}
		}
		if !near(best, r.Acc) {
			h.Fail("wrong-best", "the search measured up to %v, but returned %v", best, r.Acc)
		}
	}
}
