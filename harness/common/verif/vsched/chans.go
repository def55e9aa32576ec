//go:build go1.21

package vsched

import (
	"runtime"
	"unsafe"
)

type msg struct {
	v    interface{}
	next *msg
	sync byte
}

type chanState struct {
	next   *chanState
	key    unsafe.Pointer
	cap    int
	n      int
	head   *msg
	tail   *msg
	closed bool
	// race targets
	recvSync byte
	clsSync  byte
	// rendezvous bookkeeping for unbuffered channels
	recvWait [maxThreads]*Thread
	nRecv    int
	sendWait [maxThreads]*Thread
	nSend    int
}

type selState struct {
	waiting bool
	cases   []Case
	fired   int // index completed by the peer, -1 none
	val     interface{}
	ok      bool
	m       *msg
}

// Case is one select case.
type Case struct {
	key  unsafe.Pointer
	cap  int
	send bool
	v    interface{}
}

func (e *Exec) chanFor(key unsafe.Pointer, c int) *chanState {
	for s := e.chans; s != nil; s = s.next {
		if s.key == key {
			return s
		}
	}
	s := &chanState{key: key, cap: c, next: e.chans}
	e.chans = s
	return s
}

func chanPtr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// RecvCase/SendCase build select cases.
func RecvCase[T any](ch <-chan T) Case {
	return Case{key: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch)}
}
func SendCase[T any](ch chan<- T, v T) Case {
	return Case{key: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), send: true, v: v}
}

// As converts the received value.
func As[T any](ch <-chan T, r Recvd) T {
	if r.V == nil {
		var z T
		return z
	}
	return r.V.(T)
}
func As2[T any](ch <-chan T, r Recvd) (T, bool) { return As(ch, r), r.Ok }

// Recvd is a received value.
type Recvd struct {
	V  interface{}
	Ok bool
}

func Send[T any](ch chan<- T, v T) {
	if !Active() {
		ch <- v
		return
	}
	SelectOp(false, SendCase(ch, v))
}

func Recv[T any](ch <-chan T) T {
	if !Active() {
		return <-ch
	}
	_, r := SelectOp(false, RecvCase(ch))
	return As(ch, r)
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	_, r := SelectOp(false, RecvCase(ch))
	return As2(ch, r)
}

func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	closeKey(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
}

// Len is len(ch).
func Len[T any](ch chan T) int {
	if !Active() {
		return len(ch)
	}
	return lenKey(chanPtr(ch), cap(ch))
}

//go:noinline
func lenKey(key unsafe.Pointer, c int) int {
	e, _ := current()
	return e.chanFor(key, c).n
}

//go:noinline
func closeKey(key unsafe.Pointer, c int) {
	e, t := current()
	if t.exiting {
		return
	}
	if key == nil {
		panic("close of nil channel")
	}
	e.yield(t, "close(chan)", alwaysEnabled)
	s := e.chanFor(key, c)
	if s.closed {
		panic("close of closed channel")
	}
	RaceReleaseMerge(unsafe.Pointer(&s.clsSync))
	s.closed = true
}

// push is used by timers and environment code: a non-blocking buffered send
// performed outside any thread.
func (e *Exec) push(key unsafe.Pointer, c int, v interface{}) {
	s := e.chanFor(key, c)
	if s.n >= c {
		return
	}
	s.enqueue(v)
}

func (s *chanState) enqueue(v interface{}) *msg {
	m := &msg{v: v}
	if s.tail == nil {
		s.head = m
	} else {
		s.tail.next = m
	}
	s.tail = m
	s.n++
	return m
}

func (s *chanState) dequeue() *msg {
	m := s.head
	s.head = m.next
	if s.head == nil {
		s.tail = nil
	}
	s.n--
	return m
}

// waitingPeer finds another thread parked in a select that has a matching
// (opposite direction) case on unbuffered channel key.
func (e *Exec) waitingPeer(t *Thread, key unsafe.Pointer, send bool) (*Thread, int) {
	for i := 0; i < e.n; i++ {
		o := e.threads[i]
		if o == t || o.done || !o.sel.waiting || o.sel.fired >= 0 {
			continue
		}
		for j := range o.sel.cases {
			c := &o.sel.cases[j]
			if c.key == key && c.send == send {
				return o, j
			}
		}
	}
	return nil, -1
}

func (e *Exec) caseReady(t *Thread, c *Case) bool {
	if c.key == nil {
		return false
	}
	s := e.chanFor(c.key, c.cap)
	if c.send {
		if s.closed {
			return true // will panic
		}
		if c.cap > 0 {
			return s.n < c.cap
		}
		p, _ := e.waitingPeer(t, c.key, false)
		return p != nil
	}
	if s.n > 0 || s.closed {
		return true
	}
	if c.cap == 0 {
		p, _ := e.waitingPeer(t, c.key, true)
		return p != nil
	}
	return false
}

// SelectOp performs a select; returns the chosen case (or -1 for default).
//
//go:noinline
func SelectOp(hasDefault bool, cases ...Case) (int, Recvd) {
	e, t := current()
	if e == nil {
		panic("vsched: select outside a controlled execution")
	}
	if t.exiting {
		if hasDefault {
			return -1, Recvd{}
		}
		return 0, Recvd{}
	}
	label := "chan op"
	if len(cases) == 1 {
		if cases[0].send {
			label = "chan send"
		} else {
			label = "chan recv"
		}
	} else {
		label = "select"
	}
	if len(cases) == 0 && !hasDefault {
		e.yield(t, "select{}", func() bool { return false })
	}
	// The operation becomes visible to peers once the thread has arrived here.
	// Arrival is itself a scheduling point so that peers can act before it.
	e.yield(t, label+" (arrive)", alwaysEnabled)
	sel := &t.sel
	anyReady := func() bool {
		if sel.fired >= 0 {
			return true
		}
		for i := range cases {
			if e.caseReady(t, &cases[i]) {
				return true
			}
		}
		return false
	}
	if !anyReady() {
		if hasDefault {
			return -1, Recvd{}
		}
		RaceReleaseMerge(unsafe.Pointer(&t.sync))
		sel.cases = cases
		sel.fired = -1
		sel.waiting = true
		e.yield(t, label, anyReady)
		sel.waiting = false
		if sel.fired >= 0 {
			i := sel.fired
			sel.fired = -1
			sel.cases = nil
			if cases[i].send {
				s := e.chanFor(cases[i].key, cases[i].cap)
				RaceAcquire(unsafe.Pointer(&s.recvSync))
				return i, Recvd{}
			}
			if sel.m != nil {
				RaceAcquire(unsafe.Pointer(&sel.m.sync))
			}
			r := Recvd{V: sel.val, Ok: sel.ok}
			sel.val, sel.m = nil, nil
			return i, r
		}
		sel.cases = nil
	}
	// choose among ready cases (free environment choice)
	nReady := 0
	for i := range cases {
		if e.caseReady(t, &cases[i]) {
			nReady++
		}
	}
	pickN := 0
	if nReady > 1 {
		k := len(e.choices)
		pickN = e.choose(nReady, false, t)
		if e.aborted {
			t.exiting = true
			runtime.Goexit()
		}
		_ = k
	}
	idx := -1
	for i := range cases {
		if e.caseReady(t, &cases[i]) {
			if pickN == 0 {
				idx = i
				break
			}
			pickN--
		}
	}
	c := &cases[idx]
	s := e.chanFor(c.key, c.cap)
	if c.send {
		if s.closed {
			panic("send on closed channel")
		}
		if c.cap > 0 {
			m := s.enqueue(c.v)
			RaceAcquire(unsafe.Pointer(&s.recvSync))
			RaceRelease(unsafe.Pointer(&m.sync))
			return idx, Recvd{}
		}
		p, j := e.waitingPeer(t, c.key, false)
		m := &msg{v: c.v}
		RaceRelease(unsafe.Pointer(&m.sync))
		// receiver was already waiting: its arrival happens before our completion
		RaceAcquire(unsafe.Pointer(&s.recvSync))
		p.sel.fired = j
		p.sel.val, p.sel.ok, p.sel.m = c.v, true, m
		return idx, Recvd{}
	}
	if s.n > 0 {
		m := s.dequeue()
		RaceAcquire(unsafe.Pointer(&m.sync))
		RaceReleaseMerge(unsafe.Pointer(&s.recvSync))
		return idx, Recvd{V: m.v, Ok: true}
	}
	if c.cap == 0 {
		if p, j := e.waitingPeer(t, c.key, true); p != nil {
			v := p.sel.cases[j].v
			// sender's release was not recorded at arrival; use its thread sync
			RaceAcquire(unsafe.Pointer(&p.sync))
			RaceReleaseMerge(unsafe.Pointer(&s.recvSync))
			p.sel.fired = j
			return idx, Recvd{V: v, Ok: true}
		}
	}
	RaceAcquire(unsafe.Pointer(&s.clsSync))
	return idx, Recvd{}
}
