package main

import (
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/utils"
	"github.com/rmera/boo/zsim/simos"
	"github.com/rmera/boo/zsim/simrt"
)

var stubRead = []string{"the streams and files that are read (fragmenting, failing, ending without a newline)", "goroutine scheduler, channels, sync (simulated)"}

// table is what a data file says.
type table struct {
	cells  [][]string
	vals   [][]float64
	labels []int
	keys   []string
	hasLab bool
	hasHdr bool
	cols   int
}

func (h *H) table() *table {
	t := &table{hasLab: true}
	rows := h.C.Int("rows", 0, 10)
	t.cols = h.C.Int("cols", 1, 5)
	if h.C.Chance("labels-only", 0.03) {
		t.cols = 0
		h.Probe("labels-only")
	}
	t.hasHdr = h.C.Chance("header", 0.5)
	if h.C.Chance("long-lines", 0.03) {
		rows = h.C.Int("few", 1, 2)
		t.cols = []int{300, 1200, 11000}[h.C.Int("wide", 0, 2)]
		if h.C.Chance("huge", 0.03) {
			t.cols = 150000
			h.Probe("megabyte-line")
		}
		h.Probe("long-lines")
	}
	if rows == 0 {
		h.Probe("no-rows")
	}
	r := &rng{h.C.Word("table")}
	num := func() string {
		switch r.n(8) {
		case 0:
			return strconv.Itoa(r.n(2000) - 1000)
		case 1:
			return strconv.FormatFloat(r.f()*2e-7-1e-7, 'e', -1, 64)
		case 2:
			return strconv.FormatFloat(r.f()*1e19, 'g', -1, 64)
		case 3:
			return "0"
		case 4:
			return "-" + strconv.FormatFloat(r.f(), 'f', 6, 64)
		case 6:
			return []string{"+3.5", ".5", "7.", "1E3", "-2.5e-300", "1e+22", "00012", "0.1", "123456789.123456789"}[r.n(9)]
		case 5:
			return strconv.FormatFloat(math.Float64frombits(r.u()>>2|0x3000000000000000), 'g', -1, 64)
		}
		return strconv.FormatFloat(r.f()*100-50, 'f', 3, 64)
	}
	for j := 0; j < t.cols; j++ {
		t.keys = append(t.keys, fmt.Sprintf("key%d_%d", j, r.n(1000)))
	}
	if t.cols < 10 && h.C.Chance("tall", 0.02) {
		rows = 100 + h.C.Int("many", 0, 1400)
		h.Probe("many-rows")
	}
	for i := 0; i < rows; i++ {
		var c []string
		var v []float64
		for j := 0; j < t.cols; j++ {
			s := num()
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				panic(err)
			}
			c, v = append(c, s), append(v, f)
		}
		t.cells = append(t.cells, c)
		t.vals = append(t.vals, v)
		t.labels = append(t.labels, r.n(2000)-1000)
		switch r.n(10) {
		case 0, 1:
		case 2:
			t.labels[i] = int(r.u()>>uint(2+r.n(40))) * (1 - 2*r.n(2))
		default:
			t.labels[i] = r.n(5)
		}
	}
	return t
}

func (t *table) csv(h *H, sep string, nl string, last bool) string {
	pad := func() string {
		if h.C.Chance("pad", 0.05) {
			return " "
		}
		return ""
	}
	var lines []string
	if t.hasHdr {
		k := append([]string(nil), t.keys...)
		if t.hasLab {
			k = append([]string{"Labels"}, k...)
		}
		for i, f := range k {
			if strings.ContainsAny(f, sep+"\"") || f != strings.TrimSpace(f) {
				k[i] = `"` + strings.ReplaceAll(f, `"`, `""`) + `"`
			}
		}
		lines = append(lines, strings.Join(k, sep))
	}
	p := ""
	if t.cols < 10 && sep != "\t" {
		p = pad()
	}
	for i, c := range t.cells {
		k := append([]string(nil), c...)
		if t.hasLab {
			k = append([]string{strconv.Itoa(t.labels[i])}, k...)
		}
		lines = append(lines, strings.Join(k, sep+p))
	}
	return join(lines, nl, last)
}

func (t *table) libsvm(h *H, nl string, last bool) string {
	sp := []string{" ", "  ", "\t"}[h.C.Int("blanks", 0, 2)]
	var lines []string
	if t.hasHdr {
		k := []string{"Labels"}
		for i, v := range t.keys {
			k = append(k, fmt.Sprintf("%d:%s", i+1, v))
		}
		lines = append(lines, strings.Join(k, sp))
	}
	for i, c := range t.cells {
		k := []string{strconv.Itoa(t.labels[i])}
		for j, v := range c {
			k = append(k, fmt.Sprintf("%d:%s", j+1, v))
		}
		lines = append(lines, strings.Join(k, sp))
	}
	return join(lines, nl, last)
}

func join(lines []string, nl string, last bool) string {
	s := strings.Join(lines, nl)
	if last && len(lines) > 0 {
		s += nl
	}
	return s
}

// same compares what was read with the table.
func (t *table) same(d *utils.DataBunch) string {
	if d == nil {
		return "no data and no error"
	}
	if len(d.Data) != len(t.vals) {
		return fmt.Sprintf("%d rows, the file has %d", len(d.Data), len(t.vals))
	}
	for i, v := range t.vals {
		if len(d.Data[i]) != len(v) {
			return fmt.Sprintf("row %d has %d values, the file has %d", i, len(d.Data[i]), len(v))
		}
		for j, f := range v {
			if math.Float64bits(f) != math.Float64bits(d.Data[i][j]) && !(f == 0 && d.Data[i][j] == 0) {
				return fmt.Sprintf("row %d column %d is %v, the file says %s", i, j, d.Data[i][j], t.cells[i][j])
			}
		}
	}
	if t.hasLab {
		if len(d.Labels) != len(t.labels) {
			return fmt.Sprintf("%d labels, the file has %d", len(d.Labels), len(t.labels))
		}
		for i, l := range t.labels {
			if d.Labels[i] != l {
				return fmt.Sprintf("label %d is %d, the file says %d", i, d.Labels[i], l)
			}
		}
	} else if len(d.Labels) != 0 {
		return fmt.Sprintf("%d labels from a file without them", len(d.Labels))
	}
	if t.hasHdr {
		if len(d.Keys) != len(t.keys) {
			return fmt.Sprintf("keys %v, the file has %d of them", d.Keys, len(t.keys))
		}
		for i, k := range t.keys {
			if d.Keys[i] != k {
				return fmt.Sprintf("key %d is %q, the file says %q", i, d.Keys[i], k)
			}
		}
	} else if len(d.Keys) != 0 {
		return fmt.Sprintf("keys %v from a file without a header", d.Keys)
	}
	return ""
}

type readJob struct {
	kind   int // 0 csv stream, 1 csv file, 2 libsvm stream, 3 libsvm file
	t      *table
	text   string
	sep    string
	name   string
	rd     *faultReader
	fails  bool   // the stream fails
	bad    string // what makes the text malformed
	blank  bool
	d      *utils.DataBunch
	err    error
	export bool
}

func init() {
	register(&Check{ID: "C09", Run: runC09, Quick: 330000, Thorough: 3000000,
		Rule: "Each run writes one to three generated tables (0 to 10 rows, lines of up to 100 kB, with and without header, labels and final newline, three separators, LF and CR LF, exported by the library itself or not, well-formed or not) and reads them in as many tasks from streams that fragment, stall or fail at a chosen byte, or from the simulated disk.",
		Real: []string{"utils (CSV and libSVM readers and writers)"}, Stub: stubRead,
		Want: []string{"csv-stream", "csv-file", "libsvm-stream", "libsvm-file", "no-final-newline", "crlf", "export-round-trip", "stream-failure", "disk-failure", "malformed", "malformed-header", "no-rows", "long-lines", "concurrent", "blank-line", "missing-file", "odd-keys", "many-rows", "empty-export"}})
}

func (h *H) newRead(i int) *readJob {
	j := &readJob{kind: h.C.Int("reader", 0, 3), name: fmt.Sprintf("data%d", i)}
	nl := "\n"
	if h.C.Chance("crlf", 0.15) {
		nl = "\r\n"
		h.Probe("crlf")
	}
	last := h.C.Chance("final-newline", 0.6)
	if !last {
		h.Probe("no-final-newline")
	}
	j.sep = []string{",", ";", "\t"}[h.C.Int("sep", 0, 2)]
	if h.C.Chance("export", 0.3) {
		// data written by the library
		d := h.Data(DataSpec{MinRows: 0, MaxRows: 10, MaxCols: 4, MaxClasses: 4})
		cols := len(d.Keys)
		if len(d.Data) > 0 {
			cols = len(d.Data[0])
		} else {
			h.Probe("empty-export")
		}
		j.t = &table{hasLab: true, labels: d.Labels, cols: cols, hasHdr: len(d.Keys) > 0, keys: d.Keys}
		h.oddKeys(j.kind, d.Keys)
		nolab := h.C.Chance("unlabelled", 0.2)
		if nolab {
			d.Labels = nil
			j.t.labels = nil
		}
		for _, v := range d.Data {
			var c []string
			var w []float64
			for k, f := range v {
				v[k] = math.Round(f*1e4) / 1e4
				s := strconv.FormatFloat(v[k], 'f', 4, 64)
				f2, _ := strconv.ParseFloat(s, 64)
				c, w = append(c, s), append(w, f2)
			}
			j.t.cells, j.t.vals = append(j.t.cells, c), append(j.t.vals, w)
			if nolab {
				j.t.labels = append(j.t.labels, -1)
			}
		}
		if j.kind < 2 {
			if j.sep == "," && h.C.Chance("default-sep", 0.5) {
				j.text = d.CSV()
			} else {
				j.text = d.CSV(j.sep)
			}
		} else {
			j.text = d.LibSVM()
			// whoever reads it finds its columns by their numbers
			lines := strings.Split(j.text, "\n")
			nl := len(d.Data)
			if len(d.Keys) > 0 {
				nl++ // so does its header
			}
			for _, l := range lines[max(0, len(lines)-nl):] {
				n := 0
				for k, t := range strings.Fields(l) {
					if k > 0 {
						n++
						if !strings.HasPrefix(t, fmt.Sprintf("%d:", n)) {
							h.Fail("wrong-export", "term %d of an exported libSVM line is %q: %q", n, t, l)
						}
					}
				}
				if n != cols {
					h.Fail("wrong-export", "an exported libSVM line has %d terms for %d columns: %q", n, cols, l)
				}
			}
		}
		if last && j.text != "" {
			j.text += "\n"
		}
		j.export = true
		h.Probe("export-round-trip")
		return j
	}
	j.t = h.table()
	h.oddKeys(j.kind, j.t.keys)
	if j.kind < 2 {
		j.t.hasLab = h.C.Chance("labels", 0.7) || j.t.cols == 0
		j.text = j.t.csv(h, j.sep, nl, last)
	} else {
		j.text = j.t.libsvm(h, nl, last)
	}
	if len(j.t.vals) > 0 && h.C.Chance("malformed", 0.2) {
		j.malform(h, nl)
		if j.bad != "" {
			h.Probe("malformed")
		}
	}
	return j
}

// oddKeys gives some columns names that need care.
func (h *H) oddKeys(kind int, keys []string) {
	if len(keys) == 0 || len(keys) > 10 || !h.C.Chance("odd-keys", 0.25) {
		return
	}
	odd := []string{"a b", "x,y", "p;q", "sepal \"length\"", "t\tu", " lead", "trail ", "5", "Labels", "ångström", "-1.5e3", "a, \"b\"; c", "#c", "//", "'q'"}
	if kind >= 2 { // no blanks or colons in a libSVM header
		odd = []string{"5", "Labels", "ångström", "-1.5e3", "\"q\"", "#x", "a=b"}
	}
	for i := range keys {
		if k := h.C.Int("odd-key", 0, 2*len(odd)); k < len(odd) {
			keys[i] = odd[k]
		}
	}
	h.Note("keys %q", keys)
	h.Probe("odd-keys")
}

// malform damages one line of the text.
func (j *readJob) malform(h *H, nl string) {
	lines := strings.Split(j.text, nl)
	first := 0
	if j.t.hasHdr {
		first = 1
	}
	k := first + h.C.Int("bad-row", 0, len(j.t.vals)-1)
	if first == 1 && j.t.cols > 0 && h.C.Chance("bad-header", 0.12) {
		if j.kind >= 2 {
			f := strings.Fields(lines[0])
			if len(f) != j.t.cols+1 { // names with blanks
				return
			}
			f[h.C.Int("bad-key", 1, len(f)-1)] = []string{"key", "1:a:b"}[h.C.Int("bad-term", 0, 1)]
			lines[0], j.bad = strings.Join(f, " "), "a header with a malformed term"
		} else {
			lines[0] += j.sep + "more"
			j.bad = "a header with one more field"
		}
		h.Probe("malformed-header")
		j.text = strings.Join(lines, nl)
		return
	}
	sep := j.sep
	f := strings.Split(lines[k], sep)
	if j.kind >= 2 {
		f = strings.Fields(lines[k])
		sep = " "
	}
	x := len(f) - 1 // the damaged value
	if lo := len(f) - j.t.cols; lo >= 0 && lo < len(f)-1 {
		x = h.C.Int("bad-field", lo, len(f)-1)
	}
	switch h.C.Int("damage", 0, 6) {
	case 0: // a value that is not a number
		b := []string{"1.2.3", "abc", "1,5", "0x", "--2", "3a", "1e999", "-2e400"}[h.C.Int("bad-value", 0, 7)]
		if j.sep == "," || j.kind >= 2 {
			b = strings.ReplaceAll(b, ",", "..")
		}
		if j.kind >= 2 {
			f[x] = fmt.Sprintf("%d:%s", x, b)
		} else {
			f[x] = b
		}
		j.bad = "a value that is not a number"
	case 1: // a label that is not an integer
		if !j.t.hasLab {
			return
		}
		f[0] = []string{"x7", "99999999999999999999"}[h.C.Int("bad-label", 0, 1)]
		j.bad = "a label that is not a number, or too large"
	case 2:
		if j.kind >= 2 { // a term without an index
			f[x] = "3.5"
			j.bad = "a term without its index"
		} else { // one more field than the others
			if len(lines) < 2 || first+len(j.t.vals) < 2 {
				return
			}
			f = append(f, "1")
			j.bad = "a line with one more field"
		}
	case 3:
		if j.kind >= 2 {
			f[x] += ":4"
			j.bad = "a term with two values"
		} else {
			if first+len(j.t.vals) < 2 || len(f) < 2 {
				return
			}
			f = f[:len(f)-1]
			j.bad = "a line with one field less"
		}
	case 4: // a label with decimals
		if !j.t.hasLab {
			return
		}
		f[0] = "1.5"
		j.bad = "a label that is not an integer"
	case 6: // quotes where they do not belong
		if j.kind >= 2 {
			f[x] = fmt.Sprintf("%d:\"1\"", x)
		} else {
			f[x] = []string{`1"2`, `"1"2`, `"1`}[h.C.Int("quote", 0, 2)]
			if f[x] == `"1` && k != len(lines)-1 && lines[k+1] != "" {
				f[x] = `1"`
			}
		}
		j.bad = "misplaced quotes"
	case 5: // a blank line in between: an error, or ignored
		lines = append(lines[:k:k], append([]string{[]string{"", "   "}[h.C.Int("blank", 0, 1)]}, lines[k:]...)...)
		if j.kind < 2 {
			lines[k] = ""
		}
		j.text = strings.Join(lines, nl)
		j.blank = true
		h.Probe("blank-line")
		return
	}
	lines[k] = strings.Join(f, sep)
	j.text = strings.Join(lines, nl)
}

func (j *readJob) run() {
	sep := []rune(j.sep)[0]
	switch j.kind {
	case 0:
		j.d, j.err = utils.ParseCSVFromReader(j.rd, j.t.hasHdr, j.t.hasLab, sep)
	case 1:
		if sep == ',' {
			j.d, j.err = utils.DataBunchFromCSVFile(j.name, j.t.hasHdr, j.t.hasLab)
		} else {
			j.d, j.err = utils.DataBunchFromCSVFile(j.name, j.t.hasHdr, j.t.hasLab, sep)
		}
	case 2:
		j.d, j.err = utils.ParseLibSVMFromReader(j.rd, j.t.hasHdr)
	default:
		if !j.t.hasHdr {
			j.d, j.err = utils.DataBunchFromLibSVMFile(j.name)
		} else {
			j.d, j.err = utils.DataBunchFromLibSVMFile(j.name, true)
		}
	}
}

func runC09(h *H) {
	n := 1
	if h.C.Chance("concurrent", 0.25) {
		n = h.C.Int("tasks", 2, 3)
		h.Probe("concurrent")
	}
	var jobs []*readJob
	files := 0
	for i := 0; i < n; i++ {
		j := h.newRead(i)
		jobs = append(jobs, j)
		h.Probe([]string{"csv-stream", "csv-file", "libsvm-stream", "libsvm-file"}[j.kind])
		at, err := -1, error(nil)
		if j.kind%2 == 0 && h.C.Chance("stream-fails", 0.25) {
			at, err = h.C.Int("fail-at", 0, 1<<20)%(len(j.text)+1), ioErrs[h.C.Int("err", 0, len(ioErrs)-1)]
			j.fails = true
		}
		j.rd = h.reader([]byte(j.text), at, err)
		if j.kind%2 == 1 {
			files++
			simos.Disk.Files[j.name] = &simos.Node{Data: []byte(j.text)}
		}
		if len(j.text) > 20000 && j.rd.mode > 0 {
			j.rd.mode = 0
		}
		show := j.text
		if len(show) > 300 {
			show = show[:300] + "..."
		}
		h.Note("task %d: reader %d, header %v labels %v, malformed %q, text %q", i, j.kind, j.t.hasHdr, j.t.hasLab, j.bad, show)
	}
	var plan *diskPlan
	missing := false
	if files > 0 && n == 1 {
		switch h.C.Int("disk-fault", 0, 4) {
		case 1:
			plan = h.diskFail([]string{"read", "read", "open"}[h.C.Int("disk-op", 0, 2)], h.C.Int("disk-n", 0, 3), h.C.Chance("disk-short", 0.5))
		case 2:
			plan = h.diskShort()
		case 3:
			if h.C.Chance("missing", 0.3) {
				missing = true
				delete(simos.Disk.Files, jobs[0].name)
				h.Probe("missing-file")
				h.Fault("missing-file")
			}
		}
	}
	h.Sim(SimOpt{Policy: -1, Tag: "reading"}, func() {
		fin := make(chan bool, n)
		for _, j := range jobs {
			j := j
			simrt.Go(func() {
				j.run()
				simrt.SendTo[bool](fin)(true)
			})
		}
		for range jobs {
			simrt.Recv(fin)
		}
	})
	if h.V != nil {
		return
	}
	for _, j := range jobs {
		name := []string{"CSV", "CSV", "libSVM", "libSVM"}[j.kind]
		switch {
		case missing:
			if j.err == nil {
				h.Fail("error-lost", "reading a %s file that does not exist returned no error", name)
			}
		case j.fails:
			h.Probe("stream-failure")
			if j.err == nil {
				h.Fail("error-lost", "the stream failed with %q after %d of %d bytes, but the %s reader returned no error", j.rd.err, j.rd.failAt, len(j.text), name)
			}
		case plan != nil && plan.Hit:
			h.Probe("disk-failure")
			if j.err == nil {
				h.Fail("error-lost", "the disk failed (%s), but the %s reader returned no error", plan.failOp, name)
			}
		case j.bad != "":
			if j.err == nil {
				h.Fail("malformed-accepted", "%s was accepted by the %s reader", j.bad, name)
			}
		case j.blank && j.err != nil:
		case j.kind < 2 && j.t.hasHdr && j.text == "" && j.err != nil: // no header to read
		case j.err != nil:
			h.Fail("unexpected-error", "the %s reader failed on well-formed data: %v", name, j.err)
		default:
			if s := j.t.same(j.d); s != "" {
				h.Fail("wrong-data", "the %s reader: %s", name, s)
			}
		}
		if h.V != nil {
			return
		}
	}
	if o := simos.Disk.OpenHandles(); len(o) > 0 {
		h.Fail("open-handles", "files left open after reading: %v", o)
	}
}

// ---------- C10: name maps

type nameJob struct {
	m     map[int]string
	text  string
	sep   string
	dflt  bool
	name  string
	bad   string
	blank bool
	got   map[int]string
	err   error
}

func init() {
	register(&Check{ID: "C10", Run: runC10, Quick: 900000, Thorough: 3000000,
		Rule: "Each run writes one to three name files (0 to 12 entries, chosen separator, with and without final newline, well-formed or not) to the simulated disk and reads them in as many tasks while the disk fragments, fails or lacks the file.",
		Real: []string{"confu (name maps)"}, Stub: stubRead,
		Want: []string{"no-final-newline", "disk-failure", "malformed", "missing-file", "custom-separator", "concurrent", "blank-line", "empty", "crlf", "many-names"}})
}

func (h *H) newNames(i int) *nameJob {
	j := &nameJob{name: fmt.Sprintf("names%d", i), m: map[int]string{}, sep: " "}
	switch h.C.Int("sep", 0, 6) {
	case 1:
		j.sep = ","
	case 5:
		j.sep = "\t"
	case 6:
		j.sep = "="
	case 2:
		j.sep = ";"
	case 3:
		j.sep = "::"
	case 4:
		j.dflt = true
	default:
		j.dflt = h.C.Chance("no-sep", 0.5)
	}
	if j.sep != " " {
		h.Probe("custom-separator")
	}
	r := &rng{h.C.Word("names")}
	n := h.C.Int("entries", 0, 12)
	if n == 0 {
		h.Probe("empty")
	}
	long := h.C.Chance("long-names", 0.02)
	if h.C.Chance("many-names", 0.02) {
		n = h.C.Int("many", 300, 1000)
		h.Probe("many-names")
	}
	var lines []string
	for len(lines) < n {
		l := r.n(400) - 100
		if r.n(20) == 0 || n > 100 {
			l = int(r.u() >> uint(8+r.n(50)))
		}
		if _, ok := j.m[l]; ok {
			continue
		}
		nm := fmt.Sprintf("name%d", r.n(100000))
		switch {
		case long && r.n(2) == 0:
			nm = strings.Repeat("x", []int{4000, 4000, 65500}[r.n(3)]+r.n(200)) + nm
		case r.n(4) == 0:
			nm = "ñ" + nm
		case j.sep != " " && r.n(3) == 0:
			nm = "two words " + nm
		case j.sep == "::" && r.n(2) == 0:
			nm = []string{"a:b", "c:", "a:b:c"}[r.n(3)]
		case r.n(6) == 0:
			nm = strconv.Itoa(r.n(100))
		}
		j.m[l] = nm
		s := j.sep
		if s == " " && r.n(3) == 0 {
			s = "   "
		}
		lines = append(lines, fmt.Sprintf("%d%s%s", l, s, nm))
	}
	nl := "\n"
	if h.C.Chance("crlf", 0.15) {
		nl = "\r\n"
		h.Probe("crlf")
	}
	if n > 0 && h.C.Chance("malformed", 0.25) {
		k := h.C.Int("bad-line", 0, n-1)
		switch h.C.Int("damage", 0, 2) {
		case 0:
			lines[k] = "42"
			j.bad = "a line without a name"
		case 1:
			lines[k] = []string{"x", "9999999999999999999"}[h.C.Int("bad-label", 0, 1)] + strings.TrimPrefix(lines[k], "-")
			j.bad = "a label that is not a number"
		default:
			lines = append(lines[:k:k], append([]string{""}, lines[k:]...)...)
			j.blank = true
			h.Probe("blank-line")
		}
		if j.bad != "" {
			h.Probe("malformed")
		}
	}
	last := h.C.Chance("final-newline", 0.6)
	if !last {
		h.Probe("no-final-newline")
	}
	j.text = join(lines, nl, last)
	return j
}

func runC10(h *H) {
	n := 1
	if h.C.Chance("concurrent", 0.25) {
		n = h.C.Int("tasks", 2, 3)
		h.Probe("concurrent")
	}
	var jobs []*nameJob
	for i := 0; i < n; i++ {
		j := h.newNames(i)
		jobs = append(jobs, j)
		simos.Disk.Files[j.name] = &simos.Node{Data: []byte(j.text)}
		h.Note("task %d: separator %q, malformed %q, text %q", i, j.sep, j.bad, j.text)
	}
	var plan *diskPlan
	missing := false
	switch h.C.Int("disk-fault", 0, 4) {
	case 1:
		if n == 1 {
			plan = h.diskFail([]string{"read", "read", "open"}[h.C.Int("disk-op", 0, 2)], h.C.Int("disk-n", 0, 4), h.C.Chance("disk-short", 0.7))
		}
	case 2, 3:
		plan = h.diskShort()
	case 4:
		if n == 1 && h.C.Chance("missing", 0.3) {
			missing = true
			delete(simos.Disk.Files, jobs[0].name)
			h.Probe("missing-file")
			h.Fault("missing-file")
		}
	}
	h.Sim(SimOpt{Policy: -1, Tag: "reading names"}, func() {
		fin := make(chan bool, n)
		for _, j := range jobs {
			j := j
			simrt.Go(func() {
				if j.dflt && j.sep == " " && len(j.text)%2 == 0 {
					j.got, j.err = confu.ReadNameMap(j.name, "")
				} else if j.dflt && j.sep == " " {
					j.got, j.err = confu.ReadNameMap(j.name)
				} else {
					j.got, j.err = confu.ReadNameMap(j.name, j.sep)
				}
				simrt.SendTo[bool](fin)(true)
			})
		}
		for range jobs {
			simrt.Recv(fin)
		}
	})
	if h.V != nil {
		return
	}
	for _, j := range jobs {
		switch {
		case missing:
			if j.err == nil {
				h.Fail("error-lost", "reading a name file that does not exist returned no error")
			}
		case plan != nil && plan.Hit:
			h.Probe("disk-failure")
			if j.err == nil {
				h.Fail("error-lost", "the disk failed (%s), but reading the names returned no error and %v", plan.failOp, j.got)
			}
		case j.bad != "":
			if j.err == nil {
				h.Fail("malformed-accepted", "%s was accepted: %v", j.bad, j.got)
			}
		case j.blank && j.err != nil:
		case j.err != nil:
			h.Fail("unexpected-error", "reading well-formed names failed: %v", j.err)
		default:
			if len(j.got) != len(j.m) {
				h.Fail("wrong-names", "%d names read, the file has %d: %v", len(j.got), len(j.m), j.got)
				return
			}
			var ks []int
			for k := range j.m {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				if j.got[k] != j.m[k] {
					h.Fail("wrong-names", "the name of %d is %q, the file says %q", k, j.got[k], j.m[k])
					return
				}
			}
		}
		if h.V != nil {
			return
		}
	}
	if o := simos.Disk.OpenHandles(); len(o) > 0 {
		h.Fail("open-handles", "files left open after reading: %v", o)
	}
}

var _ = io.EOF
