package main

import (
	"sync"
	"time"

	"github.com/pa-m/sklearn/base"
)

// Sched holds calls at gates and lets them go one at a time in an order given by a
// priority list, once nothing new has arrived for a moment. It never deadlocks the code
// under test: whatever is waiting is released sooner or later, so code that runs its
// calls one after the other is as welcome as code that runs them all at once.
type Sched struct {
	mu      sync.Mutex
	waiting []*gateWait
	prio    []int
	step    int
	arrived chan struct{}
	stop    chan struct{}
	quiet   time.Duration
	done    sync.WaitGroup
}

type gateWait struct {
	key int
	ch  chan struct{}
}

// NewSched starts a scheduler; prio[k] picks among the waiting calls at release k.
func NewSched(prio []int, quiet time.Duration) *Sched {
	s := &Sched{prio: prio, arrived: make(chan struct{}, 1024), stop: make(chan struct{}), quiet: quiet}
	s.done.Add(1)
	go s.loop()
	return s
}

// Gate blocks the caller until the scheduler lets it go. key orders the waiting calls.
func (s *Sched) Gate(key int) {
	w := &gateWait{key: key, ch: make(chan struct{})}
	s.mu.Lock()
	k := 0
	for k < len(s.waiting) && s.waiting[k].key <= key {
		k++
	}
	s.waiting = append(s.waiting, nil)
	copy(s.waiting[k+1:], s.waiting[k:])
	s.waiting[k] = w
	s.mu.Unlock()
	select {
	case s.arrived <- struct{}{}:
	default:
	}
	<-w.ch
}

func (s *Sched) loop() {
	defer s.done.Done()
	for {
		t := time.NewTimer(s.quiet)
		select {
		case <-s.stop:
			t.Stop()
			s.mu.Lock()
			for _, w := range s.waiting {
				close(w.ch)
			}
			s.waiting = nil
			s.mu.Unlock()
			return
		case <-s.arrived:
			t.Stop()
			continue
		case <-t.C:
		}
		s.mu.Lock()
		if n := len(s.waiting); n > 0 {
			k := 0
			if len(s.prio) > 0 {
				k = s.prio[s.step%len(s.prio)] % n
				if k < 0 {
					k += n
				}
			}
			s.step++
			w := s.waiting[k]
			s.waiting = append(s.waiting[:k], s.waiting[k+1:]...)
			close(w.ch)
		}
		s.mu.Unlock()
	}
}

// Close ends the scheduler, releasing anything still waiting.
func (s *Sched) Close() { close(s.stop); s.done.Wait() }

// evlog is an event log ordered by its lock.
type evlog struct {
	mu sync.Mutex
	ev []Obj
}

func (l *evlog) add(o Obj) {
	l.mu.Lock()
	l.ev = append(l.ev, o)
	l.mu.Unlock()
}
func (l *evlog) snapshot() []Obj {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]Obj{}, l.ev...)
}

func runParallelize(in Obj) Obj {
	n, threads := I(in["n"]), I(in["threads"])
	prio := IV(in["prio"])
	var l evlog
	var sc *Sched
	if B(in["gated"]) {
		sc = NewSched(prio, 300*time.Microsecond)
	}
	base.Parallelize(threads, n, func(th, start, end int) {
		l.add(Obj{"e": "begin", "th": th, "s": start, "t": end})
		if sc != nil {
			sc.Gate(th)
		}
		l.add(Obj{"e": "end", "th": th, "s": start, "t": end})
	})
	l.add(Obj{"e": "return"})
	if sc != nil {
		time.Sleep(time.Millisecond)
		sc.Close()
	}
	time.Sleep(200 * time.Microsecond)
	return Obj{"ev": l.snapshot()}
}

func init() {
	register("parallel", func(g *Gen) {
		for k := 0; k < g.N(250, 1500); k++ {
			n := g.Range(0, 40)
			if g.Intn(4) == 0 {
				n = g.Range(0, 5000)
			}
			threads := g.Range(-1, 12)
			if g.Intn(6) == 0 {
				threads = g.Range(1, 200)
			}
			prio := make([]int, 8)
			for i := range prio {
				prio[i] = g.Intn(1000)
			}
			gated := k%3 != 0 && threads <= 16
			g.Add("parallelize", Obj{"n": n, "threads": threads, "prio": prio, "gated": gated})
		}
	}, map[string]func(Obj) Obj{"parallelize": runParallelize})
}
