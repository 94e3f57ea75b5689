package mc

import (
	"flag"
	"os"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
)

// WithBubbles runs f such that executions may use Bubble
func WithBubbles(f func(t *testing.T)) {
	testing.Init()
	flag.CommandLine.Parse([]string{"-test.timeout=0"})
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "mc", F: f}}, nil, nil)
	os.Exit(2)
}

// Sched is a scheduler that controls the goroutines of one execution at the points they announce. A goroutine that has
// reached a point waits there until it is chosen; while it runs to its next point (or its end) no other one runs.
type Sched struct {
	C       *C
	mu      sync.Mutex
	waiting []*waiter
	Steps   int
	MaxWait int // the most goroutines that ever waited at once
	First   int // the number that waited when the first one was chosen
}

type waiter struct {
	label string
	ch    chan struct{}
}

// Point announces a scheduling point. Labels of points that are reached concurrently must differ.
func (s *Sched) Point(label string) {
	w := &waiter{label, make(chan struct{})}
	s.mu.Lock()
	s.waiting = append(s.waiting, w)
	s.mu.Unlock()
	<-w.ch
}

// Bubble runs main and everything it starts under the scheduler, and enumerates all schedules. It fails when
// goroutines are left that can never go on.
func Bubble(t *testing.T, c *C, main func(s *Sched)) {
	var pv any
	synctest.Test(t, func(*testing.T) {
		s := &Sched{C: c}
		done := false
		defer func() {
			if p := recover(); p != nil {
				pv = p
				// let everything end, in any order
				for !done {
					synctest.Wait()
					s.mu.Lock()
					ws := s.waiting
					s.waiting = nil
					s.mu.Unlock()
					if len(ws) == 0 {
						break
					}
					for _, w := range ws {
						close(w.ch)
					}
				}
			}
		}()
		var mainPv any
		go func() {
			defer func() {
				mainPv = recover()
				done = true
			}()
			main(s)
		}()
		for {
			synctest.Wait()
			s.mu.Lock()
			ws := s.waiting
			s.mu.Unlock()
			if done {
				if len(ws) > 0 {
					c.Fail("leak", "goroutines are still at work after the call returned: %v", labels(ws))
				}
				break
			}
			if len(ws) == 0 {
				c.Fail("deadlock", "nothing can go on, but the call has not returned")
			}
			sort.Slice(ws, func(i, j int) bool { return ws[i].label < ws[j].label })
			if s.Steps == 0 {
				s.First = len(ws)
			}
			if len(ws) > s.MaxWait {
				s.MaxWait = len(ws)
			}
			s.Steps++
			k := 0
			if len(ws) > 1 {
				k = c.Choose(len(ws))
			}
			w := ws[k]
			s.mu.Lock()
			s.waiting = append(append([]*waiter{}, ws[:k]...), ws[k+1:]...)
			s.mu.Unlock()
			c.Op("run %s", w.label)
			close(w.ch)
		}
		if mainPv != nil {
			panic(mainPv)
		}
	})
	if pv != nil {
		panic(pv)
	}
}

func labels(ws []*waiter) (l []string) {
	for _, w := range ws {
		l = append(l, w.label)
	}
	return
}
