//go:build go1.21

// Package vh is the reporting half of every harness: coverage counters,
// violations with replayable descriptions, a progress watchdog, deadlines.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

// Violation is one property violation.
type Violation struct {
	Key    string      `json:"key"`
	Detail string      `json:"detail"`
	Replay interface{} `json:"replay"`
}

// Result is what a harness process hands to the runner.
type Result struct {
	Evaluations int                    `json:"evaluations"`
	Distinct    int                    `json:"distinct_nontrivial"`
	States      int                    `json:"states"`
	Transitions int                    `json:"transitions"`
	Traces      int                    `json:"traces_validated_against_impl"`
	Exhaustive  bool                   `json:"exhaustive"`
	Counters    map[string]int         `json:"counters"`
	Notes       map[string]interface{} `json:"notes"`
	Samples     []interface{}          `json:"samples"`
	Violations  []Violation            `json:"violations"`
	Outcomes    map[string]int         `json:"outcomes"`
	Assumptions []string               `json:"assumptions"`
	Finished    bool                   `json:"finished"`
}

// T is the harness handle.
type T struct {
	mu       sync.Mutex
	res      Result
	seen     map[uint64]struct{}
	seenV    map[string]int
	beat     int64
	cur      atomic.Value
	deadline time.Time
	Tier     string
	Seed     int64
	Shard    int
	Shards   int
	Scratch  string
	racelog  string
	racePos  int64
	only     string
	replay   map[string]interface{}
}

// Thorough reports the tier.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func (t *T) Pick(q, th int) int {
	if t.Thorough() {
		return th
	}
	return q
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Main runs a harness.
func Main(f func(t *T)) {
	t := &T{seen: map[uint64]struct{}{}, seenV: map[string]int{}, Tier: os.Getenv("VERIF_TIER")}
	if t.Tier == "" {
		t.Tier = "quick"
	}
	t.Seed = int64(envInt("VERIF_SEED", 1))
	t.Shard, t.Shards = envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	t.deadline = time.Now().Add(time.Duration(envInt("VERIF_DEADLINE_S", 600)) * time.Second)
	t.Scratch, _ = os.Getwd()
	t.only = os.Getenv("VERIF_ONLY")
	if rl := os.Getenv("VERIF_RACELOG"); rl != "" {
		t.racelog = fmt.Sprintf("%s.%d", rl, os.Getpid())
	}
	t.res.Exhaustive = true
	t.res.Counters = map[string]int{}
	t.res.Notes = map[string]interface{}{}
	t.res.Outcomes = map[string]int{}
	t.cur.Store(func() string { return "start" })
	go t.watchdog(time.Duration(envInt("VERIF_HANG_S", 120)) * time.Second)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopAll); ok {
					return
				}
				st := string(debug.Stack())
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, st)
				}
				t.Violate("panic:"+firstLine(fmt.Sprint(r)), fmt.Sprintf("panic outside a guarded case (%s): %v\n%s", t.curCase(), r, st), t.curCase())
			}
		}()
		f(t)
	}()
	t.res.Finished = true
	t.write()
	if len(t.res.Violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

type stopAll struct{}

func (t *T) curCase() string {
	defer func() { recover() }()
	return t.cur.Load().(func() string)()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 100 {
		s = s[:100]
	}
	return s
}

func (t *T) watchdog(limit time.Duration) {
	last, since, base := int64(-1), time.Now(), rss()
	stop := func(what string) {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		c := t.curCase()
		t.mu.Lock()
		t.res.Violations = append(t.res.Violations, Violation{Key: "hang", Detail: fmt.Sprintf("%s in case %s\n%s", what, c, buf[:n]), Replay: c})
		t.mu.Unlock()
		t.write()
		os.Exit(1)
	}
	for {
		time.Sleep(100 * time.Millisecond)
		b := atomic.LoadInt64(&t.beat)
		if b != last {
			last, since, base = b, time.Now(), rss()
			continue
		}
		if time.Since(since) > limit {
			stop(fmt.Sprintf("no progress for %v", limit))
		}
		// An endless loop that collects something takes the memory of the whole machine
		// long before the limit above.
		if grown := rss() - base; grown > runaway && time.Since(since) > time.Second {
			stop(fmt.Sprintf("no progress for %v and %d MB more memory", time.Since(since), grown>>20))
		}
	}
}

// runaway is how much one case may add to the memory of the process.
const runaway = 1500 << 20

// rss is the memory the process holds.
func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

func (t *T) write() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.res.Distinct = len(t.seen)
	b, err := json.MarshalIndent(&t.res, "", " ")
	if err != nil {
		b, _ = json.Marshal(map[string]interface{}{"error": err.Error()})
	}
	if p := os.Getenv("VERIF_OUT"); p != "" {
		os.WriteFile(p, b, 0o644)
	} else {
		os.Stdout.Write(b)
	}
}

// Beat marks progress.
func (t *T) Beat() { atomic.AddInt64(&t.beat, 1) }

// Case names the case being run (evaluated only when something goes wrong).
func (t *T) Case(f func() string) {
	t.cur.Store(f)
	t.Beat()
}

// Eval counts one evaluated case.
func (t *T) Eval() { t.res.Evaluations++; t.Beat() }

// EvalN counts n.
func (t *T) EvalN(n int) { t.res.Evaluations += n; t.Beat() }

// State counts a distinct state; it reports whether it is new.
func (t *T) State(key string) bool {
	if t.Distinct(key) {
		t.res.States++
		return true
	}
	return false
}

func (t *T) Transition() { t.res.Transitions++; t.Beat() }
func (t *T) Trace()      { t.res.Traces++; t.Beat() }

// Distinct records a distinct non-trivial case.
func (t *T) Distinct(key string) bool {
	h := fnv.New64a()
	h.Write([]byte(key))
	k := h.Sum64()
	if _, ok := t.seen[k]; ok {
		return false
	}
	t.seen[k] = struct{}{}
	return true
}

func (t *T) Count(name string, n int)               { t.res.Counters[name] += n }
func (t *T) Note(name string, v interface{})        { t.res.Notes[name] = v }
func (t *T) Outcome(s string)                       { t.res.Outcomes[s]++ }
func (t *T) Assume(s string)                        { t.res.Assumptions = append(t.res.Assumptions, s) }
func (t *T) NotExhaustive(why string)               { t.res.Exhaustive = false; t.res.Notes["capped"] = why }
func (t *T) Over() bool                             { return time.Now().After(t.deadline) }
func (t *T) Deadline() time.Time                    { return t.deadline }
func (t *T) Part(frac float64) time.Time            { return time.Now().Add(time.Duration(float64(time.Until(t.deadline)) * frac)) }

// Sample keeps up to 60 written-out cases.
func (t *T) Sample(v interface{}) {
	if len(t.res.Samples) < 60 {
		t.res.Samples = append(t.res.Samples, v)
	}
}

// Violate records a violation (at most 2 per key, 60 in all).
func (t *T) Violate(key, detail string, replay interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.seenV[key]++
	if t.seenV[key] > 2 || len(t.res.Violations) >= 60 {
		return
	}
	if len(detail) > 20000 {
		detail = detail[:20000]
	}
	t.res.Violations = append(t.res.Violations, Violation{key, detail, replay})
}

// Violated reports whether key has been reported.
func (t *T) Violated(key string) bool { return t.seenV[key] > 0 }

// Try runs f, turning a panic of the code under test into a violation.
func (t *T) Try(key string, replay interface{}, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(stopAll); is {
				panic(r)
			}
			t.Violate(key+":panic", fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack()), 4000)), replay)
			ok = false
		}
	}()
	f()
	return true
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Mine tells whether scenario i belongs to this shard.
func (t *T) Mine(i int) bool { return i%t.Shards == t.Shard }

// Explore runs one controlled-schedule scenario and folds its report in.
func (t *T) Explore(cfg vsched.Config, body func(x *vsched.X)) *vsched.Report {
	if t.only != "" && t.only != cfg.Name {
		return nil
	}
	if cfg.Deadline.IsZero() || cfg.Deadline.After(t.deadline) {
		cfg.Deadline = t.deadline
	}
	if s := os.Getenv("VERIF_SCHEDULE"); s != "" {
		json.Unmarshal([]byte(s), &cfg.Replay)
		if cfg.Replay == nil {
			cfg.Replay = []int{}
		}
	}
	n := 0
	name := cfg.Name
	t.Case(func() string { return fmt.Sprintf("scenario %s, execution %d", name, n) })
	r := vsched.Explore(cfg, func(x *vsched.X) {
		n++
		t.Beat()
		body(x)
	})
	t.res.Evaluations += r.Execs
	t.Count("schedules", r.Execs)
	t.Count("choice_points", r.Points)
	for o, c := range r.Outcomes {
		t.res.Outcomes[cfg.Name+": "+o] += c
		t.Distinct(cfg.Name + ":" + o)
	}
	t.Distinct(cfg.Name)
	if !r.Complete && len(r.Failures) == 0 {
		t.NotExhaustive(fmt.Sprintf("%s: bound completed %d of %d, horizon hits %d, divergences %d", cfg.Name, r.Bound, cfg.MaxPreempt, r.Horizon, r.Diverged))
	}
	t.Sample(map[string]interface{}{"scenario": cfg.Name, "schedules": r.Execs, "preemption_bound_completed": r.Bound, "of": cfg.MaxPreempt, "max_choice_points": r.MaxDepth, "distinct_outcomes": len(r.Outcomes)})
	for _, f := range r.Failures {
		key := cfg.Name + ":" + f.Key
		det := f.Detail
		if f.Key == "data-race" {
			sig, txt := t.raceReport()
			key = "data-race:" + sig
			det += "\n" + txt
		}
		t.Violate(key, det, map[string]interface{}{"scenario": cfg.Name, "schedule": f.Schedule, "preemptions": f.Preempts, "trace": f.Trace})
	}
	return r
}

// raceReport reads what the race detector wrote since last time and derives a
// signature from the topmost repository frames of the first report.
func (t *T) raceReport() (string, string) {
	if t.racelog == "" {
		return "?", ""
	}
	b, err := os.ReadFile(t.racelog)
	if err != nil || int64(len(b)) <= t.racePos {
		return "?", ""
	}
	txt := string(b[t.racePos:])
	t.racePos = int64(len(b))
	var frames []string
	section := false
	for _, l := range strings.Split(txt, "\n") {
		switch {
		case strings.HasPrefix(l, "Write at"), strings.HasPrefix(l, "Read at"), strings.HasPrefix(l, "Previous write"), strings.HasPrefix(l, "Previous read"):
			section = true
		case strings.HasPrefix(l, "Goroutine"):
			section = false
		case section && strings.HasPrefix(l, "  ") && strings.Contains(l, "fc-retrieval/") && !strings.Contains(l, "/verif/"):
			f := strings.TrimSpace(l)
			if i := strings.LastIndex(f, "fc-retrieval/"); i >= 0 {
				f = f[i+len("fc-retrieval/"):]
			}
			frames = append(frames, f)
			section = false
		}
		if len(frames) == 2 {
			break
		}
	}
	sort.Strings(frames)
	return strings.Join(frames, "|"), trim(txt, 6000)
}

// Keys lists the violation keys so far.
func (t *T) Keys() []string {
	var l []string
	for k := range t.seenV {
		l = append(l, k)
	}
	return l
}
