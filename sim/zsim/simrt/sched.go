package simrt

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

type taskState int

const (
	stRunnable taskState = iota
	stBlocked
	stDone
)

// Task is one simulated thread: a goroutine that runs only while it holds the
// scheduler's token.
type Task struct {
	ID      int
	Path    uint64 // schedule-independent identity: parent's path and birth ordinal
	Root    uint64 // key of the nearest SetStream above
	mark    int    // what the task is doing, inherited by the tasks it spawns
	nkids   int
	wake    chan struct{}
	exited  chan struct{}
	state   taskState
	why     string
	killed  bool
	noPre   int
	stream  *Stream
	val     any
	ok      bool
	sel     int
	poll    func() bool
	waiting []*waiter
	prio    uint64
}

// Panic is a panic that reached the top of a task, which would have ended the
// real process.
type Panic struct {
	Task  int
	Value string
	Stack string
}

// Result is what a simulated run came to.
type Result struct {
	RootDone  bool
	Deadlock  bool
	Leaked    []string
	Panic     *Panic
	StepLimit bool
	Crashed   bool
	Steps     int64
	Switches  int
	Preempts  int
	Tasks     int
	SyncOps   int
	Hash      uint64
	MaxLive   int
	Clock     time.Duration
}

// Config of one run's scheduler.
type Config struct {
	MaxSteps  int64
	Policy    int // -1: chosen from the stream
	CrashSync int // kill everything at this sync operation (0: never)
	CrashStep int64
	RandMode  int    // how the random streams behave; -1: chosen
	RandSeed  uint64 // 0 together with RandSeedSet=false: chosen
	RandSet   bool
}

// Run is the state of the run in progress.
type Run struct {
	C       *Choices
	cfg     Config
	tasks   []*Task
	ready   []*Task
	root    *Task
	fin     chan struct{}
	res     Result
	aborted bool
	chans   map[uintptr]*chanState
	nchan   int
	now     time.Duration
	timers  []*Timer
	tseq    int
	policy  int
	gap     int
	nextPre int64
	victim  int
	changes map[int]bool
	granted int64
	live    int
	randSd  uint64
	randMd  int
	hash    uint64
	Log     []string
	logging bool
	OnCrash func()
}

var (
	// R is the run in progress, nil between runs.
	R    *Run
	cur  *Task
	fuel int64 = 1 << 30
)

// Active tells whether the caller runs inside a simulated run.
func Active() bool { return R != nil && cur != nil }

// Dead tells whether the current task is being torn down.
func Dead() bool { return cur != nil && cur.killed }

// CurID is the current task's number (-1 outside a run).
func CurID() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

const chunk = 1 << 16

// Logging turns on the human-readable event log of the following runs.
var Logging bool

func (r *Run) logf(format string, a ...any) {
	if r.logging && len(r.Log) < 4000 {
		r.Log = append(r.Log, fmt.Sprintf("[%d] t%d ", r.res.Steps+r.granted-fuel, CurID())+fmt.Sprintf(format, a...))
	}
}

// Logf adds a line to the event log; it never draws from the choice stream.
func Logf(format string, a ...any) {
	if R != nil {
		R.logf(format, a...)
	}
}

func (r *Run) mixHash(v uint64) { r.hash = (r.hash ^ v) * 0x100000001b3 }

// Exec runs root, and everything it spawns, under the simulated scheduler.
func Exec(c *Choices, cfg Config, root func()) (*Result, *Run) {
	if R != nil {
		panic("simrt: nested run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 50_000_000
	}
	r := &Run{C: c, cfg: cfg, fin: make(chan struct{}, 1), chans: map[uintptr]*chanState{}, hash: 14695981039346656037, logging: Logging}
	r.choosePolicy()
	if cfg.RandSet {
		r.randSd, r.randMd = cfg.RandSeed, cfg.RandMode
	} else {
		r.randSd = c.Word("rand-seed")
		r.randMd = cfg.RandMode
		if cfg.RandMode < 0 {
			r.randMd = int([]int{0, 0, 0, 1, 2, 3}[c.Next("rand-mode", 6)])
		}
	}
	R = r
	t := r.newTask(root, nil)
	r.root = t
	r.refuel()
	r.ready = r.ready[:0]
	cur = t
	t.wake <- struct{}{}
	<-r.fin
	// Tear down whatever is left, one task at a time.
	for i := 0; i < len(r.tasks); i++ {
		t := r.tasks[i]
		if t.state == stDone {
			continue
		}
		t.killed = true
		cur = t
		t.wake <- struct{}{}
		<-t.exited
	}
	cur = nil
	R = nil
	fuel = 1 << 30
	r.res.RootDone = r.res.RootDone || r.root.state == stDone && !r.root.killed
	r.res.Tasks = len(r.tasks)
	r.res.Hash = r.hash
	r.res.Clock = r.now
	return &r.res, r
}

func (r *Run) choosePolicy() {
	p := r.cfg.Policy
	if p < 0 {
		p = []int{0, 1, 1, 2, 2, 2, 3, 4, 4}[r.C.Next("policy", 9)]
	}
	r.policy = p
	switch p {
	case 2:
		r.gap = []int{4, 12, 40, 200, 1500, 20000}[r.C.Next("gap", 6)]
	case 3:
		r.changes = map[int]bool{}
		n := r.C.Int("pct-depth", 0, 4)
		for i := 0; i < n; i++ {
			r.changes[r.C.Int("pct-point", 1, 120)] = true
		}
	case 4:
		r.victim = r.C.Int("victim", 0, 8)
	}
	r.drawGap()
}

func (r *Run) drawGap() {
	if r.policy == 2 && r.gap > 0 {
		g := r.C.Next("run-for", uint64(2*r.gap)+1)
		if g == 0 {
			g = 1 << 40 // the simplest choice is not to preempt
		}
		r.nextPre = int64(g)
		return
	}
	r.nextPre = 1 << 40
}

func (r *Run) refuel() {
	g := int64(chunk)
	if r.nextPre < g {
		g = r.nextPre
	}
	if r.cfg.CrashStep > 0 && r.res.Steps < r.cfg.CrashStep && r.cfg.CrashStep-r.res.Steps < g {
		g = r.cfg.CrashStep - r.res.Steps
	}
	r.granted = g
	fuel = g
}

func (r *Run) account() {
	used := r.granted - fuel
	if used < 0 {
		used = 0
	}
	r.res.Steps += used
	r.nextPre -= used
	r.granted = 0
	fuel = 0
}

// Y is the statement-level yield point the instrumenter plants everywhere.
func Y() {
	fuel--
	if fuel > 0 {
		return
	}
	ySlow()
}

func ySlow() {
	r := R
	if r == nil || cur == nil || cur.killed {
		fuel = 1 << 30
		return
	}
	r.account()
	if r.res.Steps > r.cfg.MaxSteps {
		r.res.StepLimit = true
		r.abort()
	}
	if r.cfg.CrashStep > 0 && r.res.Steps >= r.cfg.CrashStep {
		r.crash()
	}
	if r.nextPre <= 0 {
		r.drawGap()
		if cur.noPre == 0 && len(r.ready) > 0 {
			r.res.Preempts++
			r.refuel()
			r.switchAway("preempt")
			return
		}
	}
	r.refuel()
}

func (r *Run) crash() {
	r.res.Crashed = true
	if r.OnCrash != nil {
		r.OnCrash()
	}
	r.abort()
}

// CrashNow ends the run as a process crash at this very point.
func CrashNow() {
	if Active() && !cur.killed {
		R.crash()
	}
}

// abort ends the run from inside a task; it does not return.
func (r *Run) abort() {
	r.aborted = true
	t := cur
	fuel = 1 << 30
	r.fin <- struct{}{}
	<-t.wake
	runtime.Goexit()
}

// NoPreempt runs f without statement-level or sync preemption.
func NoPreempt(f func()) {
	if cur == nil {
		f()
		return
	}
	t := cur
	t.noPre++
	defer func() { t.noPre-- }()
	f()
}

// Mark sets the mark of the current task, until the function it returns is called.
func Mark(m int) func() {
	if cur == nil {
		return func() {}
	}
	t, old := cur, cur.mark
	t.mark = m
	return func() { t.mark = old }
}

// CurMark is the mark of the current task.
func CurMark() int {
	if cur == nil {
		return 0
	}
	return cur.mark
}

func (r *Run) newTask(f func(), parent *Task) *Task {
	t := &Task{ID: len(r.tasks), wake: make(chan struct{}, 1), exited: make(chan struct{})}
	if parent != nil {
		parent.nkids++
		t.Path = Mix(parent.Path*31 + uint64(parent.nkids))
		t.Root, t.mark = parent.Root, parent.mark
	} else {
		t.Path = 1
	}
	if r.policy == 3 {
		t.prio = r.C.Next("prio", 1<<20)
	}
	r.tasks = append(r.tasks, t)
	r.live++
	if r.live > r.res.MaxLive {
		r.res.MaxLive = r.live
	}
	go func() {
		<-t.wake
		defer func() {
			p := recover()
			if t.killed {
				t.state = stDone
				close(t.exited)
				return
			}
			if p != nil {
				st := string(debug.Stack())
				r.res.Panic = &Panic{Task: t.ID, Value: fmt.Sprint(p), Stack: trimStack(st)}
				r.aborted = true
				t.state = stDone
				r.live--
				close(t.exited)
				r.fin <- struct{}{}
				return
			}
			r.account()
			t.state = stDone
			r.live--
			if t == r.root {
				r.res.RootDone = true
			}
			r.logf("exit")
			r.mixHash(uint64(t.ID)<<8 | 7)
			close(t.exited)
			r.handoff(nil)
		}()
		if t.killed {
			return
		}
		f()
	}()
	return t
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "github.com/rmera/boo") && !strings.Contains(l, "/zsim/simrt") {
			out = append(out, strings.TrimSpace(l)+" @ "+strings.TrimSpace(lines[i+1]))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Go spawns f as a new task.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	if cur.killed {
		return
	}
	r := R
	t := r.newTask(f, cur)
	r.ready = append(r.ready, t)
	r.logf("spawn t%d", t.ID)
	syncPoint(1, uint64(t.ID))
}

// GoCall spawns fn(args...), evaluated as the go statement evaluates them.
func GoCall(fn any, ellipsis bool, args ...any) {
	fv := reflect.ValueOf(fn)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 && !ellipsis {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	if ellipsis {
		Go(func() { fv.CallSlice(in) })
	} else {
		Go(func() { fv.Call(in) })
	}
}

// syncPoint marks an operation other tasks can observe; the policy may switch.
func syncPoint(kind int, obj uint64) {
	r := R
	r.res.SyncOps++
	r.mixHash(uint64(cur.ID)<<24 | uint64(kind)<<16 | obj)
	if r.cfg.CrashSync > 0 && r.res.SyncOps >= r.cfg.CrashSync {
		r.crash()
	}
	r.account()
	r.res.Steps++
	if r.res.Steps > r.cfg.MaxSteps {
		r.res.StepLimit = true
		r.abort()
	}
	if r.nextPre <= 0 {
		r.drawGap()
	}
	r.refuel()
	if cur.noPre > 0 || len(r.ready) == 0 {
		return
	}
	switch r.policy {
	case 0:
		return
	case 1:
		r.switchAway("sync")
	case 2:
		if r.C.Chance("sync-switch", 0.3) {
			r.switchAway("sync")
		}
	case 3:
		if r.changes[r.res.SyncOps] {
			cur.prio = 0
			r.logf("priority drop")
		}
		r.switchAway("prio")
	case 4:
		r.switchAway("starve")
	}
}

// SyncPoint is the exported form for the simulated libraries.
func SyncPoint(kind int, obj uint64) {
	if Active() && !cur.killed {
		syncPoint(kind, obj)
	}
}

// switchAway puts the current task back in the ready list and runs whichever
// the policy picks (possibly the same one).
func (r *Run) switchAway(why string) {
	t := cur
	r.ready = append(r.ready, t)
	n := r.pick()
	if n == t {
		return
	}
	r.res.Switches++
	r.mixHash(uint64(n.ID) + 0x5555)
	r.logf("%s -> t%d", why, n.ID)
	r.runTask(n, t)
}

func (r *Run) isVictim(t *Task) bool { return t.ID != 0 && t.ID%9 == r.victim }

// pick removes and returns the next task to run from the ready list. The
// simplest choice is the task that has been ready the longest, except that a
// preempted task (last in the list) is continued.
func (r *Run) pick() *Task {
	n := len(r.ready)
	k := 0
	switch r.policy {
	case 0:
		k = 0
	case 3:
		for i, t := range r.ready {
			if t.prio > r.ready[k].prio {
				k = i
			}
		}
	case 4:
		var ok []int
		for i, t := range r.ready {
			if !r.isVictim(t) {
				ok = append(ok, i)
			}
		}
		if len(ok) == 0 {
			k = int(r.C.Next("pick", uint64(n)))
		} else {
			k = ok[(len(ok)-1+int(r.C.Next("pick", uint64(len(ok)))))%len(ok)]
		}
	default:
		k = (n - 1 + int(r.C.Next("pick", uint64(n)))) % n
	}
	t := r.ready[k]
	r.ready = append(r.ready[:k], r.ready[k+1:]...)
	return t
}

// runTask passes the token to n and waits (as self, if not nil) to get it back.
func (r *Run) runTask(n, self *Task) {
	cur = n
	n.wake <- struct{}{}
	if self != nil {
		<-self.wake
		if self.killed {
			runtime.Goexit()
		}
	}
}

// handoff gives the token to some ready task; with none ready it fires timers,
// polls tasks waiting on channels the simulator does not own, or ends the run.
func (r *Run) handoff(self *Task) {
	for len(r.ready) == 0 {
		if r.pollForeign() {
			continue
		}
		if r.fireTimer() {
			continue
		}
		r.quiesce()
		r.fin <- struct{}{}
		if self != nil {
			<-self.wake
			runtime.Goexit()
		}
		return
	}
	n := r.pick()
	r.refuel()
	if n == self {
		cur = n
		return
	}
	r.res.Switches++
	r.mixHash(uint64(n.ID) + 0x7777)
	r.logf("run t%d", n.ID)
	r.runTask(n, self)
}

func (r *Run) pollForeign() bool {
	any := false
	for _, t := range r.tasks {
		if t.state == stBlocked && t.poll != nil && t.poll() {
			any = true
		}
	}
	return any
}

func (r *Run) quiesce() {
	for _, t := range r.tasks {
		if t.state == stBlocked {
			if t == r.root {
				r.res.Deadlock = true
			}
			r.res.Leaked = append(r.res.Leaked, fmt.Sprintf("t%d blocked in %s", t.ID, t.why))
		}
	}
}

// Block parks the current task until MakeReady.
func Block(why string) {
	r, t := R, cur
	r.account()
	t.state = stBlocked
	t.why = why
	r.logf("block %s", why)
	r.handoff(t)
	t.poll = nil
}

// Self is the current task.
func Self() *Task { return cur }

// MakeReady unblocks t.
func MakeReady(t *Task) {
	if t.state == stBlocked {
		t.state = stRunnable
		R.ready = append(R.ready, t)
	}
}

// Goexit ends the current task (used by hooks of a dying task).
func Goexit() { runtime.Goexit() }

// HashString is a stable string hash.
func HashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Spawn creates a ready task without a scheduling point (timers use it).
func Spawn(f func()) {
	t := R.newTask(f, R.root)
	R.ready = append(R.ready, t)
}
