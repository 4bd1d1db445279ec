package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync/atomic"
	"time"
)

// Cooperative scheduler: exactly one request goroutine runs at a time; at every scheduling point the
// running one hands control back and the explorer chooses who continues.

type schedAbort struct{}

type sthread struct {
	id     int
	resume chan bool
	done   bool
	perr   interface{} // panic that must propagate to the explorer

	// blocked: waits for something another request holds (a lock in the code under test), so it
	// cannot be scheduled until it reaches its next scheduling point by itself.
	blocked bool
	goid    string
}

// A resumed request that reaches no scheduling point for this long is asked whether it is blocked. Once
// one was, the code under test evidently holds locks and the time is shortened.
var schedBlockTime = 200 * time.Millisecond

// waiting tells whether a goroutine waits for another one: on a lock or a channel.
func waiting(goid string) bool {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	i := bytes.Index(b, []byte("goroutine "+goid+" "))
	if i < 0 {
		return false
	}
	l := b[i:]
	if j := bytes.IndexByte(l, '\n'); j >= 0 {
		l = l[:j]
	}
	for _, s := range []string{"sync.", "semacquire", "chan ", "select"} {
		if bytes.Contains(l, []byte(s)) {
			return true
		}
	}
	return false
}

type Sched struct {
	x       *X
	threads []*sthread
	yield   chan int
	blocked atomic.Int32
	aborted atomic.Bool
	cur     int
	fine    bool // every point is a scheduling point; otherwise only operation points
	bounded bool // switching away from a runnable thread costs a deviation
	points  int
	script  []int // thread to run at each step (replaying a recorded schedule)
	taken   []int
	norace  bool
}

func NewSched(x *X, fine, bounded bool) *Sched {
	return &Sched{x: x, yield: make(chan int), fine: fine, bounded: bounded, cur: -1}
}

// point: fine-grained scheduling point.
func (s *Sched) point(label string) {
	if !s.fine || s.cur < 0 && !s.aborted.Load() {
		return
	}
	s.switchOut(label)
}

// opPoint: store-operation scheduling point.
func (s *Sched) opPoint(label string) {
	if s.cur < 0 && !s.aborted.Load() {
		return
	}
	s.switchOut(label)
}

func (s *Sched) switchOut(label string) {
	if s.aborted.Load() {
		panic(schedAbort{})
	}
	t := s.threads[s.cur]
	if s.blocked.Load() > 0 {
		id := goroutineID()
		for _, u := range s.threads {
			if u.goid == id {
				t = u
			}
		}
	}
	s.points++
	s.yield <- t.id
	if !<-t.resume {
		panic(schedAbort{})
	}
}

func goroutineID() string {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	if len(f) < 2 {
		return ""
	}
	return string(f[1])
}

// await waits until request id reaches its next scheduling point or its end; false: it is blocked.
func (s *Sched) await(id int, d time.Duration) bool {
	timer := time.NewTimer(d)
	defer timer.Stop()
	for {
		select {
		case j := <-s.yield:
			if s.threads[j].blocked {
				s.threads[j].blocked = false
				s.blocked.Add(-1)
			}
			if j == id || id < 0 {
				return true
			}
		case <-timer.C:
			if id < 0 || waiting(s.threads[id].goid) {
				return false
			}
			timer.Reset(d)
		}
	}
}

// Run executes the bodies to completion under all-choice scheduling.
func (s *Sched) Run(bodies ...func()) {
	for i, b := range bodies {
		t := &sthread{id: i, resume: make(chan bool)}
		s.threads = append(s.threads, t)
		go func(t *sthread, b func()) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(schedAbort); !ok {
						t.perr = e
					}
				}
				t.done = true
				s.yield <- t.id
			}()
			t.goid = goroutineID()
			if !<-t.resume {
				panic(schedAbort{})
			}
			b()
		}(t, b)
	}
	// abort ends all requests: those at a scheduling point by a panic there; those blocked run on, once
	// what they wait for is released, to their next scheduling point and end there.
	abort := func(e interface{}) {
		s.aborted.Store(true)
		for _, t := range s.threads {
			if !t.done && !t.blocked {
				t.resume <- false
				s.await(t.id, time.Second)
			}
		}
		for s.blocked.Load() > 0 && s.await(-1, time.Second) {
		}
		s.cur = -1
		panic(e)
	}
	last := -1
	for {
		var en []int
		if last >= 0 && !s.threads[last].done && !s.threads[last].blocked {
			en = append(en, last)
		}
		for _, t := range s.threads {
			if !t.done && !t.blocked && t.id != last {
				en = append(en, t.id)
			}
		}
		if len(en) == 0 {
			if s.blocked.Load() == 0 {
				break
			}
			if !s.await(-1, 5*time.Second) {
				s.x.Fail("deadlock", "%d concurrent requests wait for each other for ever", s.blocked.Load())
				break
			}
			continue
		}
		c := 0
		func() {
			defer func() {
				if e := recover(); e != nil {
					abort(e)
				}
			}()
			if n := len(s.taken); n < len(s.script) {
				for i, id := range en {
					if id == s.script[n] {
						c = i
					}
				}
			} else if s.script != nil {
				c = 0
			} else if s.bounded && last >= 0 && en[0] == last {
				c = s.x.Dev("sched", len(en))
			} else {
				c = s.x.Choose("sched", len(en))
			}
		}()
		s.cur = en[c]
		last = s.cur
		s.taken = append(s.taken, s.cur)
		s.x.trans++
		s.x.h = fnvAdd(s.x.h, fmt.Sprint("run", s.cur))
		t := s.threads[s.cur]
		t.resume <- true
		if !s.await(t.id, schedBlockTime) {
			t.blocked = true
			s.blocked.Add(1)
			schedBlockTime = 4 * time.Millisecond
		}
		// a request that has just been released gets the time to reach its next point
		for s.blocked.Load() > 0 && s.await(-1, 5*time.Millisecond) {
		}
		for _, t := range s.threads {
			if t.done && t.perr != nil {
				e := t.perr
				abort(e)
			}
		}
	}
	s.cur = -1
}
