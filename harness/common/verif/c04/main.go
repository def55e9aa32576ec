//go:build go1.21

// C04: every crash point and every failing write while offers are being added.
// A child process runs the history under an LD_PRELOAD shim that kills it at, or
// fails, the n-th file-changing call; a second child opens the store again.
package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	"github.com/ConsenSys/fc-retrieval/common/verif/offers"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

const far = 4000000000

func cids(from, n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = big.NewInt(int64(from + i))
	}
	return r
}

// histories: the offers added before (without faults) and during the faulty run
type history struct {
	name   string
	before []offers.Offer
	add    []offers.Offer
}

func histories(thorough bool) []history {
	g := offers.Offer{Name: "G{10,11,12}", Provider: 1, CIDs: cids(10, 3), Price: 5, Expiry: far, QoS: 1, Sig: "s0"}
	d := offers.Offer{Name: "D{11}", Provider: 2, CIDs: cids(11, 1), Price: 6, Expiry: far, QoS: 1, Sig: "s1"}
	g2 := offers.Offer{Name: "G{12,13}", Provider: 3, CIDs: cids(12, 2), Price: 7, Expiry: far, QoS: 1, Sig: "s2"}
	big := offers.Offer{Name: "G of 40", Provider: 4, CIDs: cids(100, 40), Price: 8, Expiry: far, QoS: 1, Sig: "s3"}
	hs := []history{
		{"fresh", nil, []offers.Offer{g}},
		{"fresh two", nil, []offers.Offer{d, g}},
		{"existing", []offers.Offer{d, g2}, []offers.Offer{g}},
		{"existing, add again, then new", []offers.Offer{g}, []offers.Offer{g, g2, d}},
		{"many pages", []offers.Offer{d}, []offers.Offer{big, g}},
	}
	if thorough {
		h := history{name: "across a checkpoint"}
		for i := 0; i < 4; i++ {
			o := offers.Offer{Name: fmt.Sprintf("big%d", i), Provider: int64(10 + i), CIDs: cids(1000*(i+1), 900), Price: 8, Expiry: far, QoS: 1, Sig: "s"}
			if i < 2 {
				h.before = append(h.before, o)
			} else {
				h.add = append(h.add, o)
			}
		}
		hs = append(hs, h)
	}
	return hs
}

func add(m *offermgr.FCROfferMgr, o offers.Offer) error {
	if len(o.CIDs) == 1 {
		return m.AddDHTOffer(o.Make())
	}
	return m.AddGroupOffer(o.Make())
}

// known are all offers of the history, written out.
var known = map[string]bool{}

// look reports how an offer is found: complete, absent or broken.
func look(m *offermgr.FCROfferMgr, o offers.Offer) string {
	real := o.Make()
	want := offers.Show(real)
	count := func(l []cidoffer.CIDOffer) int {
		n := 0
		for i := range l {
			if l[i].GetMessageDigest() == real.GetMessageDigest() {
				if offers.Show(&l[i]) == want {
					n++
				} else {
					n += 100
				}
			} else if !known[offers.Show(&l[i])] {
				// a part of an offer has another digest
				n += 1000
			}
		}
		return n
	}
	got, ok := m.GetOfferByDigest(real.GetMessageDigest())
	n := 0
	if ok {
		n = count([]cidoffer.CIDOffer{*got})
	}
	full, none := n == 1, n == 0
	var seen []string
	for _, c := range []*big.Int{o.CIDs[0], o.CIDs[len(o.CIDs)/2], o.CIDs[len(o.CIDs)-1]} {
		id := offers.CID(c)
		l, _ := m.GetOffers(&id)
		k := count(l)
		seen = append(seen, fmt.Sprint(k))
		full, none = full && k == 1, none && k == 0
	}
	a, b := offers.CID(o.CIDs[0]), offers.CID(o.CIDs[len(o.CIDs)-1])
	l, _ := m.GetDHTOffersWithinRange(&a, &b, 1000)
	k := count(l)
	full, none = full && k == 1, none && k == 0
	switch {
	case full:
		return "complete"
	case none:
		return "absent"
	}
	return fmt.Sprintf("broken (digest %d, by CID %v, in range %d)", n, seen, k)
}

// child: VERIF_CHILD = "<history index> <what>"
func child() {
	logging.SetLogLevel("fatal")
	var hi int
	var what string
	fmt.Sscan(os.Getenv("VERIF_CHILD"), &hi, &what)
	h := histories(true)[hi]
	for _, o := range append(append([]offers.Offer{}, h.before...), h.add...) {
		known[offers.Show(o.Make())] = true
	}
	out := os.NewFile(3, "report")
	m := offermgr.NewFCROfferMgr()
	switch what {
	case "before":
		for _, o := range h.before {
			if err := add(m, o); err != nil {
				fmt.Fprintln(out, "setup failed:", err)
			}
		}
	case "add":
		if b, err := os.ReadFile(os.Getenv("FF_COUNT")); err == nil && len(b) >= 8 {
			fmt.Fprintf(out, "opened %d calls\n", binary.LittleEndian.Uint64(b))
		}
		for i, o := range h.add {
			if err := add(m, o); err != nil {
				fmt.Fprintf(out, "add %d failed\n", i)
			} else {
				fmt.Fprintf(out, "add %d ok\n", i)
			}
		}
		// with the fault still there, look-ups must at least not crash
		for _, o := range append(h.before, h.add...) {
			look(m, o)
		}
		fmt.Fprintln(out, "end")
		// The process goes on: whether the fault was a passing one is the parent's to
		// know. It may hit one of these calls, so each gets another try.
		for i, o := range h.add {
			s := look(m, o)
			if s != "complete" && s != "absent" {
				s = look(m, o)
			}
			fmt.Fprintf(out, "alive %d %s\n", i, s)
		}
		for i, o := range h.add {
			var err error
			for try := 0; try < 2; try++ {
				if err = add(m, o); err == nil {
					break
				}
			}
			if err != nil {
				fmt.Fprintf(out, "alive-again %d failed: %v\n", i, err)
			}
		}
		for i, o := range append(h.before, h.add...) {
			s := look(m, o)
			if s != "complete" {
				s = look(m, o)
			}
			fmt.Fprintf(out, "alive-finally %d %s\n", i, s)
		}
		fmt.Fprintln(out, "done")
	case "verify":
		for i, o := range h.before {
			fmt.Fprintf(out, "before %d %s\n", i, look(m, o))
		}
		for i, o := range h.add {
			fmt.Fprintf(out, "look %d %s\n", i, look(m, o))
		}
		for i, o := range h.add {
			if err := add(m, o); err != nil {
				fmt.Fprintf(out, "again %d failed: %v\n", i, err)
			}
		}
		for i, o := range append(h.before, h.add...) {
			fmt.Fprintf(out, "finally %d %s\n", i, look(m, o))
		}
		fmt.Fprintln(out, "end")
	}
	os.Exit(0)
}

func spawn(dir string, hi int, what string, env ...string) (lines []string, exit string, stderr string) {
	exe, _ := os.Executable()
	r, w, _ := os.Pipe()
	c := exec.Command(exe)
	c.Dir = dir
	c.Env = append(os.Environ(), fmt.Sprintf("VERIF_CHILD=%d %s", hi, what), "DOCKER_NAME=verifdb", "GOMAXPROCS=2")
	c.Env = append(c.Env, env...)
	c.ExtraFiles = []*os.File{w}
	var eb strings.Builder
	c.Stderr = &eb
	if err := c.Start(); err != nil {
		panic(err)
	}
	w.Close()
	timer := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	sc := bufio.NewScanner(r)
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	err := c.Wait()
	if !timer.Stop() {
		exit = "timeout"
	} else if err != nil {
		exit = err.Error()
	}
	r.Close()
	return lines, exit, eb.String()
}

func copyDir(from, to string) {
	os.RemoveAll(to)
	filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		q := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		return os.WriteFile(q, b, 0o644)
	})
}

func main() {
	if os.Getenv("VERIF_CHILD") != "" {
		child()
	}
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		so := filepath.Join(t.Scratch, "faultfs.so")
		if b, err := exec.Command("gcc", "-shared", "-fPIC", "-O1", "-o", so, filepath.Join(os.Getenv("VERIF_DIR"), "tool/faultfs.c"), "-ldl").CombinedOutput(); err != nil {
			panic(fmt.Sprint("cannot build the fault shim: ", err, string(b)))
		}
		modes := []string{"crash", "torn", "after", "error", "errors"}
		job := 0
		for hi, h := range histories(t.Thorough()) {
			// the state before the faulty run, made once
			ready := filepath.Join(t.Scratch, fmt.Sprintf("ready%d", hi))
			os.MkdirAll(ready, 0o755)
			if len(h.before) > 0 {
				if l, ex, se := spawn(ready, hi, "before"); len(l) > 0 || ex != "" {
					t.Violate("db:setup", fmt.Sprint(h.name, l, ex, se), h.name)
					return
				}
			}
			// count the file-changing calls of a run without a fault
			work := filepath.Join(t.Scratch, "work")
			cnt := filepath.Join(t.Scratch, "count")
			base := []string{"LD_PRELOAD=" + so, "FF_MATCH=verifdb", "FF_COUNT=" + cnt}
			copyDir(ready, work)
			l, ex, se := spawn(work, hi, "add", base...)
			if ex != "" || len(l) == 0 || l[len(l)-1] != "done" {
				t.Violate("db:no-fault", fmt.Sprintf("%s without a fault: %v %v %s", h.name, l, ex, se), h.name)
				return
			}
			b, _ := os.ReadFile(cnt)
			n := int(binary.LittleEndian.Uint64(b))
			if n < 5 {
				t.Violate("db:shim", fmt.Sprintf("only %d file-changing calls seen", n), h.name)
				return
			}
			opened := -1
			for _, s := range l {
				fmt.Sscanf(s, "opened %d calls", &opened)
			}
			if opened < 0 || opened >= n {
				t.Violate("db:shim", fmt.Sprintf("%d of %d file-changing calls when the store was opened", opened, n), h.name)
				return
			}
			t.Note(h.name, fmt.Sprintf("%d file-changing calls", n))
			for _, mode := range modes {
				for at := 0; at < n; at++ {
					job++
					if !t.Mine(job) {
						continue
					}
					if t.Over() {
						t.NotExhaustive("deadline")
						return
					}
					rep := map[string]interface{}{"history": h.name, "fault": mode, "at_call": at}
					desc := fmt.Sprintf("history %q, %s at file-changing call %d of %d", h.name, mode, at, n)
					t.Case(func() string { return desc })
					copyDir(ready, work)
					env := append(append([]string{}, base...), "FF_MODE="+mode, fmt.Sprintf("FF_AT=%d", at))
					if mode[0] == 'e' && at%2 == 1 {
						env = append(env, "FF_ERRNO=5")
					}
					l, ex, se := spawn(work, hi, "add", env...)
					killed := ex == "signal: killed"
					if ex != "" && !killed {
						key := "process-died"
						if strings.Contains(se, "panic: ") {
							key = "panic"
						}
						t.Violate("db:"+key, fmt.Sprintf("%s: the process ended with %s: %v\n%s", desc, ex, l, tail(se)), rep)
						continue
					}
					ok := map[int]bool{}
					for _, s := range l {
						var i int
						var r string
						if k, _ := fmt.Sscanf(s, "add %d %s", &i, &r); k == 2 && r == "ok" {
							ok[i] = true
						}
					}
					if mode == "error" && at >= opened {
						// one write was refused and the process lives on
						if ex != "" || len(l) == 0 || l[len(l)-1] != "done" {
							t.Violate("db:alive:end", fmt.Sprintf("%s: the process did not go on to the end: %q %v\n%s", desc, ex, l, tail(se)), rep)
							continue
						}
						alive := []string{}
						for _, s := range l {
							f := strings.SplitN(s, " ", 3)
							var i int
							if len(f) == 3 {
								fmt.Sscan(f[1], &i)
							}
							switch {
							case f[0] == "alive" && f[2] != "complete" && f[2] != "absent":
								alive = append(alive, fmt.Sprintf("offer %s is half stored: %s", h.add[i].Name, f[2]))
							case f[0] == "alive" && ok[i] && f[2] != "complete":
								alive = append(alive, fmt.Sprintf("offer %s was acknowledged but is %s", h.add[i].Name, f[2]))
							case f[0] == "alive-again":
								alive = append(alive, "adding again "+f[2])
							case f[0] == "alive-finally" && f[2] != "complete":
								alive = append(alive, "after adding again an offer is "+f[2])
							}
						}
						if len(alive) > 0 {
							t.Violate("db:alive:"+strings.SplitN(alive[0], ":", 2)[0], fmt.Sprintf("%s; in the same process: %s; %v", desc, alive[0], l), rep)
							continue
						}
					}
					v, ex2, se2 := spawn(work, hi, "verify")
					t.Eval()
					t.Distinct(fmt.Sprint(h.name, mode, at))
					if ex2 != "" || len(v) == 0 || v[len(v)-1] != "end" {
						t.Violate("db:reopen", fmt.Sprintf("%s; acknowledged %v; opening the store again and looking up ended with %q: %v\n%s", desc, l, ex2, v, tail(se2)), rep)
						continue
					}
					var states []string
					for _, s := range v {
						f := strings.SplitN(s, " ", 3)
						if f[0] == "end" {
							continue
						}
						var i int
						fmt.Sscan(f[1], &i)
						st := f[2]
						bad := ""
						switch f[0] {
						case "before":
							if st != "complete" {
								bad = "an offer stored before the fault is " + st
							}
						case "look":
							states = append(states, st)
							if st != "complete" && st != "absent" {
								bad = fmt.Sprintf("offer %s is half stored: %s", h.add[i].Name, st)
							} else if ok[i] && st != "complete" {
								bad = fmt.Sprintf("offer %s was acknowledged but is %s", h.add[i].Name, st)
							}
						case "again":
							bad = "adding again failed: " + st
						case "finally":
							if st != "complete" {
								bad = "after adding again an offer is " + st
							}
						}
						if bad != "" {
							t.Violate("db:half-stored:"+f[0], fmt.Sprintf("%s; acknowledged %v; %s", desc, l, bad), rep)
						}
					}
					t.Outcome(h.name + ": " + fmt.Sprint(states))
					if at%9 == 0 {
						t.Sample(map[string]interface{}{"case": desc, "reported": l, "after_reopening": states})
					}
				}
			}
		}
		t.Assume("the process is killed, the machine keeps running: everything written before the kill is on the file")
	})
}

func tail(s string) string {
	if i := strings.Index(s, "panic: "); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}
