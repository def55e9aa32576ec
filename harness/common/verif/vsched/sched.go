//go:build go1.21

// Package vsched is a controlled cooperative scheduler plus a deviation-bounded
// exhaustive explorer.  Code under test is rewritten (by /verif/tool/instr) so
// that every synchronisation operation, goroutine start, channel operation and
// clock access goes through this package; exactly one thread runs at a time and
// every switch is a recorded choice.
//
// The package is compiled WITHOUT race instrumentation, and its hand-offs are
// hidden from the race detector (runtime.RaceDisable), while the modelled
// mutexes/channels publish exactly the program's own happens-before edges.  So
// in a -race build each explored schedule is also checked for data races with
// respect to the program's real synchronisation only.
//
// No maps and no growing slices on the scheduling path: the runtime annotates
// those for the race detector even in uninstrumented packages.
package vsched

import (
	"database/sql"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

const (
	maxThreads = 64
	maxTimers  = 64
)

// Thread is one controlled thread.
type Thread struct {
	id      int
	name    string
	wake    chan struct{}
	enabled func() bool
	label   string
	done    bool
	client  bool // started by the driver with X.Go; must terminate
	exiting bool
	sync    byte // race annotation target: thread end -> join
	sel     selState
}

type timer struct {
	when   int64
	seq    int
	active bool
	fire   func()
}

// choice is one recorded scheduling or environment decision.
type choice struct {
	n      int  // alternatives
	pick   int  // taken
	costs  bool // alternatives > 0 cost one deviation
	free   bool // environment choice whose alternatives cost nothing
	curEn  bool
	thread int
}

// Exec is one controlled execution.
type Exec struct {
	threads    [maxThreads]*Thread
	n          int
	cur        *Thread
	prefix     []int
	choices    []choice
	steps      int
	maxSteps   int
	aborted    bool
	now        int64
	timers     [maxTimers]timer
	timerSeq   int
	timerFires int
	maxFires   int
	timerDev   bool
	delay      bool
	dbOwner    *Thread
	dbRows     map[*sql.Rows]*Thread
	chans      *chanState
	live       int
	endCh      chan struct{}
	finished   bool
	fail       *Failure
	deadlock   string
	horizon    bool
	diverged   bool
	diagPos    int
	trace      []string
	wantTrace  bool
	outcome    string
	raceBase   int
	kept       *keptChan
}

// Failure is a property violation seen during an execution.
type Failure struct {
	Key    string
	Detail string
}

var active *Exec

// Active reports whether a controlled execution is running.
//
//go:noinline
func Active() bool { return active != nil }

//go:noinline
func current() (*Exec, *Thread) {
	e := active
	if e == nil {
		return nil, nil
	}
	return e, e.cur
}

func newExec(cfg *Config, prefix []int) *Exec {
	e := &Exec{prefix: prefix, maxSteps: cfg.MaxSteps, maxFires: cfg.TimerFires, timerDev: cfg.TimerDeviations, delay: cfg.Delay, endCh: make(chan struct{}, 1), now: baseTime}
	e.choices = make([]choice, 0, cfg.MaxSteps+16)
	e.raceBase = raceErrors()
	return e
}

const baseTime = int64(1700000000) * int64(time.Second)

// start creates a thread (not yet running).
func (e *Exec) newThread(name string, client bool) *Thread {
	if e.n >= maxThreads {
		panic("vsched: too many threads")
	}
	t := &Thread{id: e.n, name: name, wake: make(chan struct{}, 1), client: client, sel: selState{fired: -1}}
	e.threads[e.n] = t
	e.n++
	e.live++
	return t
}

func alwaysEnabled() bool { return true }

func (e *Exec) body(t *Thread, f func()) {
	// wait for first scheduling
	t.park()
	defer e.threadEnd(t)
	if e.aborted {
		t.exiting = true
		return
	}
	defer func() {
		if t.exiting {
			recover()
			return
		}
		if r := recover(); r != nil {
			if _, ok := r.(abortSignal); ok {
				return
			}
			e.failf("panic:"+panicKey(r), "thread %s panicked: %v\n%s", t.name, r, trimStack(debug.Stack()))
			e.abort(t)
		}
	}()
	f()
}

type abortSignal struct{}

func panicKey(r interface{}) string {
	s := fmt.Sprint(r)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (e *Exec) failf(key, format string, args ...interface{}) {
	if e.fail == nil {
		e.fail = &Failure{Key: key, Detail: fmt.Sprintf(format, args...)}
	}
}

// threadEnd runs as the last action of every thread goroutine.
func (e *Exec) threadEnd(t *Thread) {
	RaceRelease(unsafe.Pointer(&t.sync))
	raceOff()
	t.done = true
	e.live--
	if e.aborted {
		e.wakeNextAborted()
		if e.live == 0 {
			e.endCh <- struct{}{}
		}
		return
	}
	if t.id == 0 {
		// driver finished: stop everything else
		e.aborted = true
		e.wakeNextAborted()
		if e.live == 0 {
			e.endCh <- struct{}{}
		}
		return
	}
	next := e.pick(nil)
	if next == nil {
		// nothing can run
		e.stuck()
		e.aborted = true
		e.wakeNextAborted()
		if e.live == 0 {
			e.endCh <- struct{}{}
		}
		return
	}
	e.cur = next
	next.wake <- struct{}{}
}

// wakeNextAborted wakes one parked thread at a time so that unwinding is sequential.
func (e *Exec) wakeNextAborted() {
	for i := 0; i < e.n; i++ {
		t := e.threads[i]
		if !t.done && !t.exiting {
			t.exiting = true
			e.cur = t
			t.wake <- struct{}{}
			return
		}
	}
}

func (t *Thread) park() {
	raceOff()
	<-t.wake
	raceOn()
}

func (e *Exec) abort(t *Thread) {
	e.aborted = true
	t.exiting = true
}

func (e *Exec) stuck() {
	// no fmt here: this may run with race detection of synchronisation off,
	// and fmt shares pooled buffers with the rest of the process
	s := ""
	for i := 0; i < e.n; i++ {
		t := e.threads[i]
		if !t.done {
			s += "[" + t.name + " blocked at " + t.label + "] "
		}
	}
	e.deadlock = s
}

// pick chooses the next thread to run; t is the thread at a scheduling point
// (nil when the current thread ended).  Returns nil when nothing can run.
func (e *Exec) pick(t *Thread) *Thread {
	for {
		var opts [maxThreads + 1]*Thread
		n := 0
		curEn := false
		if t != nil && t.enabled() {
			opts[0] = t
			n = 1
			curEn = true
		}
		for i := 0; i < e.n; i++ {
			o := e.threads[i]
			if o == t || o.done {
				continue
			}
			if o.enabled() {
				opts[n] = o
				n++
			}
		}
		ti := -1
		if e.timerFires < e.maxFires {
			ti = e.nextTimer()
		}
		nAlt := n
		if n == 0 {
			if ti < 0 {
				return nil
			}
			e.fireTimer(ti)
			continue
		}
		if e.timerDev && ti >= 0 {
			nAlt = n + 1
		}
		c := 0
		if nAlt > 1 {
			c = e.choose(nAlt, curEn || (nAlt > n && n == 1), t)
			if e.aborted {
				return nil
			}
		}
		if c >= n {
			e.fireTimer(ti)
			continue
		}
		return opts[c]
	}
}

func (e *Exec) nextTimer() int {
	best := -1
	for i := range e.timers {
		tm := &e.timers[i]
		if tm.active && (best < 0 || tm.when < e.timers[best].when || (tm.when == e.timers[best].when && tm.seq < e.timers[best].seq)) {
			best = i
		}
	}
	return best
}

func (e *Exec) fireTimer(i int) {
	tm := &e.timers[i]
	tm.active = false
	if tm.when > e.now {
		e.now = tm.when
	}
	e.timerFires++
	tm.fire()
}

func (e *Exec) addTimer(d int64, fire func()) int {
	for i := range e.timers {
		if !e.timers[i].active {
			e.timerSeq++
			e.timers[i] = timer{when: e.now + d, seq: e.timerSeq, active: true, fire: fire}
			return i
		}
	}
	panic("vsched: too many timers")
}

func (e *Exec) choose(n int, costs bool, t *Thread) int {
	k := len(e.choices)
	if k >= cap(e.choices)-1 || e.steps > e.maxSteps {
		e.horizon = true
		e.aborted = true
		return 0
	}
	c := 0
	if k < len(e.prefix) {
		c = e.prefix[k]
		if c >= n {
			e.diverged = true
			e.aborted = true
			return 0
		}
	}
	tid := -1
	if t != nil {
		tid = t.id
	}
	costs = costs || e.delay
	e.choices = e.choices[:k+1]
	e.choices[k] = choice{n: n, pick: c, costs: costs, curEn: costs, thread: tid}
	return c
}

// yield is a scheduling point: the thread is about to perform an operation that
// can proceed only when enabled() holds.
//
//go:noinline
func (e *Exec) yield(t *Thread, label string, enabled func() bool) {
	if t.exiting {
		return
	}
	if e.aborted {
		t.exiting = true
		runtime.Goexit()
	}
	t.enabled = enabled
	t.label = label
	e.steps++
	if e.steps > e.maxSteps {
		e.horizon = true
		e.abort(t)
		runtime.Goexit()
	}
	next := e.pick(t)
	if next == nil {
		if !e.aborted {
			e.stuck()
		}
		e.abort(t)
		runtime.Goexit()
	}
	if e.wantTrace {
		e.trace = append(e.trace, next.name+": "+next.label)
	}
	if next == t {
		return
	}
	e.cur = next
	raceOff()
	next.wake <- struct{}{}
	<-t.wake
	raceOn()
	if e.aborted {
		t.exiting = true
		runtime.Goexit()
	}
}

// Point is an always-enabled scheduling point.
//
//go:noinline
func Point(label string) {
	e, t := current()
	if e == nil {
		return
	}
	e.yield(t, label, alwaysEnabled)
}

// Block waits, as one scheduling point, until cond holds.
//
//go:noinline
func Block(label string, cond func() bool) {
	e, t := current()
	if e == nil {
		for !cond() {
			time.Sleep(time.Millisecond)
		}
		return
	}
	e.yield(t, label, cond)
}

// Exiting tells shims to become no-ops while a thread is being unwound.
//
//go:noinline
func Exiting() bool {
	e, t := current()
	return e != nil && t.exiting
}

// Go starts a goroutine of the code under test.
//
//go:noinline
func Go(f func()) {
	e, t := current()
	if e == nil {
		go f()
		return
	}
	if t.exiting {
		return
	}
	e.spawn("go", false, f)
	e.yield(t, "go", alwaysEnabled)
}

func (e *Exec) spawn(name string, client bool, f func()) *Thread {
	nt := e.newThread(fmt.Sprintf("%s#%d", name, e.n), client)
	nt.enabled = alwaysEnabled
	nt.label = "start"
	go e.body(nt, f)
	return nt
}

// Choose is an environment decision with n alternatives; alternative 0 is the
// default, any other one costs a deviation.
//
//go:noinline
func Choose(n int) int {
	e, t := current()
	if e == nil || t.exiting {
		return 0
	}
	c := e.choose(n, true, t)
	if e.aborted {
		t.exiting = true
		runtime.Goexit()
	}
	return c
}

// ---------------------------------------------------------------- driver API

// X is the driver's handle on one execution.
type X struct{ e *Exec }

// Go starts a client thread; Join waits for all of them.
func (x *X) Go(name string, f func()) {
	_, t := current()
	x.e.spawn(name, true, f)
	x.e.yield(t, "spawn", alwaysEnabled)
}

// Join blocks until every client thread has ended.
func (x *X) Join() {
	e, t := current()
	e.yield(t, "join clients", func() bool {
		for i := 0; i < e.n; i++ {
			if e.threads[i].client && !e.threads[i].done {
				return false
			}
		}
		return true
	})
	for i := 0; i < e.n; i++ {
		if e.threads[i].client {
			RaceAcquire(unsafe.Pointer(&e.threads[i].sync))
		}
	}
}

// Quiesce blocks until no other thread can make a step (background threads are idle).
func (x *X) Quiesce() {
	e, t := current()
	e.yield(t, "quiesce", func() bool {
		for i := 0; i < e.n; i++ {
			o := e.threads[i]
			if o != t && !o.done && o.enabled() {
				return false
			}
		}
		return true
	})
}

// Fail records a violation; the execution continues.
func (x *X) Fail(key, format string, args ...interface{}) { x.e.failf(key, format, args...) }

// Outcome labels this execution's observable result (for outcome counting).
func (x *X) Outcome(s string) { x.e.outcome = s }

// Steps returns the number of scheduling points so far (a logical clock).
func (x *X) Steps() int { return x.e.steps }

// Steps is the same for code without an X.
//
//go:noinline
func Steps() int {
	e, _ := current()
	if e == nil {
		return 0
	}
	return e.steps
}

// Config bounds an exploration.
type Config struct {
	Name            string
	MaxPreempt      int
	MaxSteps        int
	MaxExecs        int
	TimerFires      int
	TimerDeviations bool
	Deadline        time.Time
	// Delay makes every departure from the default schedule cost one, also the
	// choice of who runs when the current thread blocks (delay bounding);
	// otherwise only preemptions do.
	Delay bool
	// Shards > 1 splits the schedules between processes by the first departure
	// from the default schedule.
	Shard, Shards int
	AllowDeadlock   bool // do not report stuck executions (used for negative tests)
	Replay          []int
}

// Report is the result of an exploration.
type Report struct {
	Name       string
	Execs      int
	Points     int
	Bound      int
	Complete   bool
	MaxDepth   int
	Horizon    int
	Diverged   int
	Outcomes   map[string]int
	Failures   []FailedSchedule
	Sample     []int
	SampleText []string
}

// FailedSchedule is a replayable violation.
type FailedSchedule struct {
	Key      string   `json:"key"`
	Detail   string   `json:"detail"`
	Schedule []int    `json:"schedule"`
	Preempts int      `json:"preemptions"`
	Trace    []string `json:"trace"`
}

func runOne(cfg *Config, prefix []int, trace bool, body func(x *X)) *Exec {
	e := newExec(cfg, prefix)
	e.wantTrace = trace
	main := e.newThread("driver", false)
	main.enabled = alwaysEnabled
	active = e
	go e.body(main, func() { body(&X{e}) })
	raceOff()
	e.cur = main
	main.wake <- struct{}{}
	<-e.endCh
	raceOn()
	active = nil
	RaceAcquire(unsafe.Pointer(&main.sync))
	if e.fail == nil && e.deadlock != "" && !cfg.AllowDeadlock && !e.horizon && !e.diverged {
		e.fail = &Failure{Key: "deadlock", Detail: "no thread can run: " + e.deadlock}
	}
	if RaceBuild && e.fail == nil {
		if d := raceErrors() - e.raceBase; d > 0 {
			e.fail = &Failure{Key: "data-race", Detail: fmt.Sprintf("the race detector reported %d data race(s) under this schedule", d)}
		}
	}
	return e
}

// Run executes body once under the default schedule (no exploration).
func Run(body func(x *X)) *Failure {
	cfg := Config{MaxSteps: 100000, TimerFires: 1000}
	e := runOne(&cfg, nil, false, body)
	return e.fail
}

// Explore enumerates every schedule with at most cfg.MaxPreempt deviations,
// iterating the bound 0,1,..,MaxPreempt.
func Explore(cfg Config, body func(x *X)) *Report {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3000
	}
	if cfg.TimerFires == 0 {
		cfg.TimerFires = 200
	}
	r := &Report{Name: cfg.Name, Outcomes: map[string]int{}, Bound: -1}
	seenKey := map[string]bool{}
	if cfg.Replay != nil {
		e := runOne(&cfg, cfg.Replay, true, body)
		r.Execs = 1
		if e.fail != nil {
			r.Failures = append(r.Failures, FailedSchedule{Key: e.fail.Key, Detail: e.fail.Detail, Schedule: cfg.Replay, Trace: e.trace})
		}
		return r
	}
	stop := false
	handle := func(e *Exec, prefix []int) {
		r.Execs++
		r.Points += len(e.choices)
		if len(e.choices) > r.MaxDepth {
			r.MaxDepth = len(e.choices)
		}
		if e.horizon {
			r.Horizon++
		}
		if e.diverged {
			r.Diverged++
		}
		if e.outcome != "" {
			r.Outcomes[e.outcome]++
		}
		if e.fail != nil && !seenKey[e.fail.Key] {
			seenKey[e.fail.Key] = true
			sched := make([]int, len(e.choices))
			for i, c := range e.choices {
				sched[i] = c.pick
			}
			for len(sched) > 0 && sched[len(sched)-1] == 0 {
				sched = sched[:len(sched)-1]
			}
			// replay to obtain a trace and to confirm determinism
			k := e.fail.Key
			f := FailedSchedule{Key: k, Detail: e.fail.Detail, Schedule: sched, Preempts: preempts(e.choices, len(e.choices))}
			e2 := runOne(&cfg, sched, true, body)
			f.Trace = e2.trace
			if len(f.Trace) > 400 {
				f.Trace = f.Trace[len(f.Trace)-400:]
			}
			// The detector reports one race per pair of stacks per process, so a
			// data race is not expected to be reported again on replay.
			if k != "data-race" && (e2.fail == nil || e2.fail.Key != k) {
				f.Detail += fmt.Sprintf("\n(replay differed: %+v)", e2.fail)
				f.Key = "nonreproducible:" + k
			}
			if os.Getenv("VSCHED_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "FAIL %s: %s %s\n%s\n", cfg.Name, f.Key, f.Detail, strings.Join(f.Trace, "\n"))
			}
			r.Failures = append(r.Failures, f)
			if len(r.Failures) >= 8 {
				stop = true
			}
		}
		if r.Sample == nil || len(prefix) > len(r.Sample) && len(r.Sample) == 0 {
			r.Sample = append([]int{}, prefix...)
		}
	}
	over := func() bool {
		return stop || (cfg.MaxExecs > 0 && r.Execs >= cfg.MaxExecs) || (!cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline))
	}
	// frontier[b] holds prefixes costing exactly b deviations.
	frontier := make([][][]int, cfg.MaxPreempt+2)
	frontier[0] = [][]int{{}}
	first := 0
	for b := 0; b <= cfg.MaxPreempt; b++ {
		for len(frontier[b]) > 0 {
			if over() {
				return r
			}
			q := frontier[b]
			prefix := q[len(q)-1]
			frontier[b] = q[:len(q)-1]
			e := runOne(&cfg, prefix, false, body)
			if e.diverged {
				for try := 0; try < 20 && e.diverged; try++ {
					e = runOne(&cfg, prefix, false, body)
				}
			}
			if len(prefix) > 0 || cfg.Shard == 0 {
				handle(e, prefix)
			}
			if stop {
				return r
			}
			for i := len(prefix); i < len(e.choices); i++ {
				c := e.choices[i]
				cost := preempts(e.choices, i)
				if c.costs {
					cost++
				}
				if cost > cfg.MaxPreempt {
					continue
				}
				for alt := 1; alt < c.n; alt++ {
					if len(prefix) == 0 && cfg.Shards > 1 {
						if first++; first%cfg.Shards != cfg.Shard {
							continue
						}
					}
					np := make([]int, i+1)
					for j := 0; j < i; j++ {
						np[j] = e.choices[j].pick
					}
					np[i] = alt
					frontier[cost] = append(frontier[cost], np)
				}
			}
		}
		r.Bound = b
	}
	r.Complete = r.Horizon == 0 && r.Diverged == 0
	return r
}

func preempts(cs []choice, upto int) int {
	n := 0
	for i := 0; i < upto; i++ {
		if cs[i].costs && cs[i].pick > 0 {
			n++
		}
	}
	return n
}
