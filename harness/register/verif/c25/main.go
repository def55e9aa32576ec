//go:build go1.21

// C25: every reachable state of the register over a small population, every
// operation in each of them, and every storage fault at every storage command,
// on the real request handlers with a stand-in for the database.
package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vredis"
	"github.com/ConsenSys/fc-retrieval/register/restapi"
	"github.com/ConsenSys/fc-retrieval/register/restapi/operations"
	"github.com/go-openapi/loads"
)

var (
	srv *vredis.Server
	api http.Handler
)

var fields = map[string][]string{
	"gateway":  {"nodeId", "address", "rootSigningKey", "signingKey", "regionCode", "networkInfoGateway", "networkInfoProvider", "networkInfoClient", "networkInfoAdmin"},
	"provider": {"nodeId", "address", "rootSigningKey", "signingKey", "regionCode", "networkInfoGateway", "networkInfoClient", "networkInfoAdmin"},
}

var kinds = []string{"gateway", "provider"}

type rec map[string]string

func (r rec) key() string { b, _ := json.Marshal(r); return string(b) }

func (r rec) strip() rec { // an empty field is an absent one
	o := rec{}
	for k, v := range r {
		if v != "" {
			o[k] = v
		}
	}
	return o
}

// op is one request.
type op struct {
	verb string // add get list del
	kind string
	id   string
	r    rec
	tag  string
}

func (o op) String() string {
	switch o.verb {
	case "add":
		return fmt.Sprintf("add %s %s(%s)", o.kind, o.id, o.tag)
	case "get":
		return fmt.Sprintf("get %s %s", o.kind, o.id)
	}
	return o.verb + " " + o.kind
}

type resp struct {
	code  int
	body  string
	panic string
}

func (o op) run() (r resp) {
	m, u, b := "GET", "/registers/"+o.kind, ""
	switch o.verb {
	case "add":
		m, b = "POST", o.r.key()
	case "get":
		u += "/" + o.id
	case "del":
		m = "DELETE"
	}
	return request(m, u, b)
}

func request(m, u, b string) (r resp) {
	q := httptest.NewRequest(m, u, strings.NewReader(b))
	q.Header.Set("Accept", "application/json")
	if b != "" {
		q.Header.Set("Content-Type", "application/json")
	}
	w := httptest.NewRecorder()
	defer func() {
		if e := recover(); e != nil {
			r.panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	api.ServeHTTP(w, q)
	return resp{code: w.Code, body: w.Body.String()}
}

// state is the model: per kind, per identifier, the latest registration.
type state map[string]map[string]rec

func (s state) key() string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (s state) clone() state {
	o := state{}
	for k, m := range s {
		n := map[string]rec{}
		for a, b := range m {
			n[a] = b
		}
		o[k] = n
	}
	return o
}

func empty() state { return state{"gateway": {}, "provider": {}} }

func (s state) apply(o op) state {
	n := s.clone()
	switch o.verb {
	case "add":
		n[o.kind][o.id] = o.r.strip()
	case "del":
		n[o.kind] = map[string]rec{}
	}
	return n
}

func ok(c int) bool { return c >= 200 && c < 300 }

func decodeList(b string) ([]string, error) {
	var l []rec
	if err := json.Unmarshal([]byte(b), &l); err != nil {
		return nil, err
	}
	var o []string
	for _, r := range l {
		o = append(o, r.strip().key())
	}
	sort.Strings(o)
	return o, nil
}

func (s state) list(kind string) []string {
	var o []string
	for _, r := range s[kind] {
		o = append(o, r.strip().key())
	}
	sort.Strings(o)
	return o
}

// judge compares an answer with the model, s being the state before; faulty
// answers may also be errors.
func judge(s state, o op, r resp, faulty bool) string {
	if r.panic != "" {
		return "crash: " + r.panic
	}
	if !ok(r.code) {
		if r.code < 400 {
			return fmt.Sprintf("answer %d is neither success nor error", r.code)
		}
		if faulty {
			return ""
		}
		if o.verb == "get" && s[o.kind][o.id] == nil {
			return ""
		}
		return fmt.Sprintf("failed: %d %s", r.code, r.body)
	}
	switch o.verb {
	case "add":
		var x rec
		if err := json.Unmarshal([]byte(r.body), &x); err != nil {
			return "undecodable answer " + r.body
		}
		if x.strip().key() != o.r.strip().key() {
			return "answered " + r.body + " to registering " + o.r.key()
		}
	case "get":
		want := s[o.kind][o.id]
		if want == nil {
			return "unknown identifier answered with success: " + r.body
		}
		var x rec
		if err := json.Unmarshal([]byte(r.body), &x); err != nil {
			return "undecodable answer " + r.body
		}
		if x.strip().key() != want.strip().key() {
			return "got " + x.key() + " want " + want.key()
		}
	case "list":
		l, err := decodeList(r.body)
		if err != nil {
			return "undecodable answer " + r.body
		}
		if w := s.list(o.kind); strings.Join(l, "\n") != strings.Join(w, "\n") {
			return fmt.Sprintf("listed %v want %v", l, w)
		}
	}
	return ""
}

// observe reads the whole state through the API; without faults.
func observe(ids []string) (state, string) {
	s := empty()
	for _, k := range kinds {
		r := op{verb: "list", kind: k}.run()
		if r.panic != "" || !ok(r.code) {
			return nil, fmt.Sprintf("listing %ss afterwards: %d %s %s", k, r.code, r.body, r.panic)
		}
		l, err := decodeList(r.body)
		if err != nil {
			return nil, "listing afterwards: " + r.body
		}
		var g []string
		for _, id := range ids {
			r := op{verb: "get", kind: k, id: id}.run()
			if r.panic != "" {
				return nil, "looking up afterwards: " + r.panic
			}
			if ok(r.code) {
				x := rec{}
				if err := json.Unmarshal([]byte(r.body), &x); err != nil {
					return nil, "looking up afterwards: " + r.body
				}
				s[k][id] = x.strip()
				g = append(g, x.strip().key())
			}
		}
		sort.Strings(g)
		if strings.Join(l, "\n") != strings.Join(g, "\n") {
			return nil, fmt.Sprintf("afterwards %ss are listed as %v but looked up as %v", k, l, g)
		}
	}
	return s, ""
}

func fill(kind, id, tag string) rec {
	r := rec{}
	for _, f := range fields[kind] {
		r[f] = tag + " " + f
	}
	r["nodeId"] = id
	return r
}

func main() { vh.Main(run) }

func run(t *vh.T) {
	srv = vredis.New()
	h, p := srv.HostPort()
	os.Setenv("REDIS_URL", h)
	os.Setenv("REDIS_PORT", p)
	os.Setenv("REDIS_PASSWORD", "secret")
	os.Setenv("SERVICE_NAME", "register")
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	spec, err := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
	if err != nil {
		panic(err)
	}
	s := restapi.NewServer(operations.NewRegisterAPI(spec))
	s.ConfigureAPI()
	api = s.GetHandler()
	zero := srv.Save()

	base := strings.Repeat("0", 62)
	ids := []string{base + "0a", base + "0b", "f" + base + "0"}
	if !t.Thorough() {
		ids = ids[:2]
	}
	unknown := []string{base + "0c", base + "0A", "gateway", "0a"}
	var ops []op
	for _, k := range kinds {
		for _, id := range ids {
			ops = append(ops, op{"add", k, id, fill(k, id, "one"), "one"}, op{"add", k, id, fill(k, id, "two"), "two"})
			r := rec{"nodeId": id, "address": "only"}
			ops = append(ops, op{"add", k, id, r, "bare"})
		}
		for _, id := range append(append([]string{}, ids...), unknown...) {
			ops = append(ops, op{verb: "get", kind: k, id: id})
		}
		ops = append(ops, op{verb: "list", kind: k}, op{verb: "del", kind: k})
	}

	// 1. every reachable state, every operation in it
	type node struct {
		m    state
		c    vredis.Snapshot
		path []string
	}
	seen := map[string]bool{}
	q := []node{{empty(), zero, nil}}
	seen[empty().key()] = true
	var all []node
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		mine := t.Mine(len(all))
		all = append(all, n)
		if mine {
			t.State("state " + n.m.key())
		}
		for _, o := range ops {
			next := n.m.apply(o)
			nk := next.key()
			if !mine && seen[nk] {
				continue
			}
			srv.Load(n.c)
			srv.Arm(-1, "")
			rep := append(append([]string{}, n.path...), o.String())
			t.Case(func() string { return strings.Join(rep, ", ") })
			r := o.run()
			if mine {
				t.Eval()
				t.Transition()
				t.Trace()
				if bad := judge(n.m, o, r, false); bad != "" {
					t.Violate(o.verb, strings.Join(rep, ", ")+": "+bad, rep)
					continue
				}
				got, bad := observe(append(append([]string{}, ids...), unknown...))
				if bad == "" && got.key() != nk {
					bad = "afterwards the register holds " + got.key() + " instead of " + nk
				}
				if bad != "" {
					t.Violate(o.verb+":after", strings.Join(rep, ", ")+": "+bad, rep)
					continue
				}
				t.Outcome(o.verb + fmt.Sprint(" ", r.code/100, "xx"))
			}
			if !seen[nk] {
				seen[nk] = true
				q = append(q, node{next, srv.Save(), rep})
			}
		}
		if t.Over() {
			t.NotExhaustive("time")
			return
		}
	}
	t.Sample(map[string]interface{}{"states": len(all), "operations": len(ops), "longest shortest history": len(all[len(all)-1].path)})
	if len(t.Keys()) > 0 {
		return
	}

	// 2. every sequence of operations without intermediate restoring (state
	// kept anywhere but in the database would show here)
	small := []op{}
	for _, k := range kinds {
		small = append(small, op{"add", k, ids[0], fill(k, ids[0], "one"), "one"}, op{"add", k, ids[0], fill(k, ids[0], "two"), "two"}, op{verb: "get", kind: k, id: ids[0]}, op{verb: "list", kind: k}, op{verb: "del", kind: k})
	}
	depth := t.Pick(3, 4)
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(small)
	}
	for c := 0; c < total; c++ {
		if !t.Mine(c) {
			continue
		}
		srv.Load(zero)
		srv.Arm(-1, "")
		m := empty()
		var rep []string
		x := c
		t.Eval()
		for d := 0; d < depth; d++ {
			o := small[x%len(small)]
			x /= len(small)
			rep = append(rep, o.String())
			r := o.run()
			if bad := judge(m, o, r, false); bad != "" {
				t.Violate("history:"+o.verb, strings.Join(rep, ", ")+": "+bad, rep)
				break
			}
			m = m.apply(o)
		}
		t.Distinct(strings.Join(rep, ","))
		if t.Over() {
			t.NotExhaustive("time")
			return
		}
	}

	// 3. every value of every field, alone and in pairs
	vals := []string{"", "x", " ", "a\"b\\c", "<a>&'", "null", "{\"nodeId\":\"z\"}", "zażółć 漢字 🙂", "a\nb\tc\u0000d\r\n", "\u2028\u007f", strings.Repeat("long ", 4000), "*3\r\n$4\r\nHDEL"}
	n := 0
	for _, k := range kinds {
		for i, f := range fields[k] {
			for j, g := range fields[k] {
				if j > i || f == "nodeId" || g == "nodeId" && j != i {
					continue
				}
				for _, v := range vals {
					for _, w := range vals {
						if j == i && v != w {
							continue
						}
						n++
						if !t.Mine(n) || (j != i && !t.Thorough() && (len(v) > 1000 || len(w) > 1000)) {
							continue
						}
						r := fill(k, ids[0], "v")
						r[f], r[g] = v, w
						srv.Load(zero)
						srv.Arm(-1, "")
						m := empty()
						t.Eval()
						t.Distinct(k + f + g + v + "|" + w)
						for _, o := range []op{{"add", k, ids[0], fill(k, ids[0], "old"), "old"}, {"add", k, ids[0], r, fmt.Sprintf("%s=%.40q %s=%.40q", f, v, g, w)}, {verb: "get", kind: k, id: ids[0]}, {verb: "list", kind: k}} {
							if bad := judge(m, o, o.run(), false); bad != "" {
								t.Violate("value:"+o.verb, fmt.Sprintf("%s of a %s with %s=%.60q %s=%.60q: %s", o.verb, k, f, v, g, w, bad), nil)
							}
							m = m.apply(o)
						}
					}
				}
			}
		}
	}

	// 4. requests that are no registration: an error or nothing, never a crash
	for _, k := range kinds {
		good := fill(k, ids[0], "one").key()
		var bodies []string
		for i := 0; i <= len(good); i++ {
			bodies = append(bodies, good[:i], good[:i]+"\x00"+good[i:])
		}
		bodies = append(bodies, "null", "[]", "1", "\"x\"", "{}", "[{}]", "{\"nodeId\":1}", "{\"nodeId\":{}}", "{\"nodeId\":null}", good+good, "\xff", "{\"nodeId\":\"\xff\"}")
		for i, b := range bodies {
			if !t.Mine(i) {
				continue
			}
			srv.Load(zero)
			srv.Arm(-1, "")
			t.Eval()
			r := request("POST", "/registers/"+k, b)
			if r.panic != "" {
				t.Violate("bad body", fmt.Sprintf("registering a %s with body %q: crash: %s", k, b, r.panic), b)
			}
			if !ok(r.code) {
				if got, bad := observe(ids); bad != "" || got.key() != empty().key() {
					t.Violate("bad body:after", fmt.Sprintf("registering a %s with body %q failed, and afterwards: %v %s", k, b, got, bad), b)
				}
			}
		}
	}

	// 5. every storage fault at every storage command of every operation in
	// every small state
	n = 0
	for _, nd := range all {
		if !t.Thorough() && len(nd.m["gateway"])+len(nd.m["provider"]) > 3 {
			continue
		}
		bare := false
		for _, k := range kinds {
			for _, r := range nd.m[k] {
				bare = bare || len(r) < 3 || strings.HasPrefix(r["address"], "two")
			}
		}
		if bare {
			continue
		}
		for _, o := range ops {
			if o.tag == "bare" || o.verb == "get" && o.id == unknown[2] {
				continue
			}
			n++
			if !t.Mine(n) {
				continue
			}
			srv.Load(nd.c)
			srv.Arm(-1, "")
			o.run()
			cmds, _ := srv.Seen()
			if cmds == 0 {
				t.Violate("no-storage", o.String()+" reached no storage", o.String())
			}
			for at := 0; at < cmds; at++ {
				fl := vredis.Faults
				if o.verb == "get" {
					fl = append(append([]string{}, fl...), vredis.Garbled)
				}
				for _, f := range fl {
					srv.Load(nd.c)
					srv.Arm(at, f)
					what := fmt.Sprintf("after %v: %s with fault %q at command %d", nd.path, o, f, at)
					t.Case(func() string { return what })
					r := o.run()
					_, hit := srv.Seen()
					if !hit {
						t.Violate("fault-missed", what, what)
						continue
					}
					t.Eval()
					t.Count("faults", 1)
					t.Distinct(what)
					t.Outcome(fmt.Sprintf("%s with %s: %dxx", o.verb, f, r.code/100))
					srv.Arm(-1, "")
					if bad := judge(nd.m, o, r, true); bad != "" {
						t.Violate("fault:"+o.verb+":"+o.kind, what+": "+bad, what)
						continue
					}
					got, bad := observe(append(append([]string{}, ids...), unknown...))
					if bad != "" {
						t.Violate("fault:"+o.verb+":after", what+": answered "+fmt.Sprint(r.code)+"; "+bad, what)
						continue
					}
					after := nd.m.apply(o)
					switch {
					case got.key() == after.key():
					case ok(r.code):
						t.Violate("fault:"+o.verb+":false success", what+fmt.Sprintf(": answered %d %s but the register holds %s", r.code, r.body, got.key()), what)
					case got.key() == nd.m.key():
					case o.verb == "del" && partial(nd.m, got, o.kind):
					default:
						t.Violate("fault:"+o.verb+":after", what+fmt.Sprintf(": answered %d and the register holds %s", r.code, got.key()), what)
					}
				}
			}
			if t.Over() {
				t.NotExhaustive("time")
				return
			}
		}
	}

	// 6. a long history leaves nothing behind that grows with it
	srv.Load(zero)
	srv.Arm(-1, "")
	srv.Quiesce(2 * time.Second)
	runtime.GC()
	g0, c0 := runtime.NumGoroutine(), srv.Open()
	const long = 200
	for i := 0; i < long; i++ {
		small[i%len(small)].run()
		t.Eval()
	}
	var g1, c1 int
	for i := 0; i < 100; i++ { // closing is asynchronous
		g1, c1 = runtime.NumGoroutine(), srv.Open()
		if g1-g0 < long/4 && c1-c0 < long/4 {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Note("after 200 requests", fmt.Sprintf("connections %d -> %d, goroutines %d -> %d", c0, c1, g0, g1))
	if c1-c0 >= long/4 {
		t.Violate("connections", fmt.Sprintf("%d requests, one after the other, left %d database connections open: a long history ends in storage being refused", long, c1-c0), nil)
	}
}

// partial: got is m with some registrations of the kind gone.
func partial(m, got state, kind string) bool {
	for _, k := range kinds {
		for id, r := range got[k] {
			if o, ok := m[k][id]; !ok || o.key() != r.key() {
				return false
			}
		}
		if k != kind && len(got[k]) != len(m[k]) {
			return false
		}
	}
	return true
}
