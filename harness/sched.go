package harness

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/kitex-contrib/xds/core/manager"
)

// A scheduler parks the goroutines of the client where the hooks of the code let it, and releases them as a schedule says.
type scheduler struct {
	mu     sync.Mutex
	armed  bool
	points map[string]bool // the stops that are in use, all if nil
	gate   int             // sends on this stream stop
	who    map[int64]string
	parked []*parked
	stops  int
}

type parked struct {
	who, point string
	free       chan struct{}
}

// threadOf names the goroutines that are not lookups by the point they stop at.
var threadOf = map[string]string{
	"update": "R", "update.selected": "R", "reconnect.reset": "R", "resub": "S", "send": "S", "sweep": "C",
}

func goid() int64 {
	var buf [64]byte
	f := bytes.Fields(buf[:runtime.Stack(buf[:], false)])
	n, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return n
}

// iAm names the calling goroutine.
func (s *scheduler) iAm(who string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.who[goid()] = who
}

// at is called at the stops.
func (s *scheduler) at(point, who string) {
	s.mu.Lock()
	if !s.armed || s.points != nil && !s.points[point] {
		s.mu.Unlock()
		return
	}
	if who == "" {
		who = threadOf[point]
		if n, ok := s.who[goid()]; ok && strings.HasPrefix(point, "get.") {
			who = n
		}
	}
	p := &parked{who: who, point: point, free: make(chan struct{})}
	s.parked = append(s.parked, p)
	s.stops++
	s.mu.Unlock()
	<-p.free
}

// release lets a thread go on to its next stop; it does nothing if the thread is not at one.
func (s *scheduler) release(who string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, p := range s.parked {
		if p.who == who {
			s.parked = append(s.parked[:i:i], s.parked[i+1:]...)
			close(p.free)
			return
		}
	}
}

func (s *scheduler) disarm() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.armed = false
	for _, p := range s.parked {
		close(p.free)
	}
	s.parked = nil
}

// releaseAll lets the goroutines go on to their next stops until none is at one.
func (s *scheduler) releaseAll() {
	for i := 0; i < 50; i++ {
		s.mu.Lock()
		ps := s.parked
		for _, p := range ps {
			close(p.free)
		}
		s.parked = nil
		s.mu.Unlock()
		if len(ps) == 0 {
			return
		}
		settled()
	}
}

// holding says if a goroutine is stopped.
func (s *scheduler) holding() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.parked) > 0
}

// Time cannot pass while a goroutine waits for a lock that a stopped one holds. This happens if the code has no stop where
// such a goroutine would be held before it takes the lock: stalled says that the schedule may be the reason that nothing
// happens, and with freeTicks no goroutine is stopped when time passes.
var (
	stalled   atomic.Bool
	freeTicks = os.Getenv("VERIF_FREE") != ""
)

func newScheduler(w *world) *scheduler {
	s := &scheduler{who: map[int64]string{}}
	manager.VerifPoint = func(point string) { s.at(point, "") }
	w.ads.sendGate = func(id int) {
		s.mu.Lock()
		on := s.armed && s.gate == id
		s.mu.Unlock()
		if on {
			s.at("send", "")
		}
	}
	return s
}

// goroutines returns the states of the other goroutines of this bubble.
func goroutines() (states []string) {
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	blocks := bytes.Split(buf, []byte("\n\n"))
	bubble := ""
	for i, b := range blocks {
		line, _, _ := bytes.Cut(b, []byte("\n"))
		l, r := bytes.IndexByte(line, '['), bytes.IndexByte(line, ']')
		if l < 0 || r < 0 {
			continue
		}
		st := string(line[l+1 : r])
		mine := ""
		if k := strings.Index(st, "synctest bubble"); k >= 0 {
			mine = st[k:]
		}
		if i == 0 {
			bubble = mine
			continue
		}
		if mine == bubble {
			states = append(states, st)
		}
	}
	return states
}

// settled waits until no goroutine of the client can go on; blocked says if some wait for a lock.
func settled() (blocked bool) {
	for i := 0; i < 3000; i++ {
		for j := 0; j < 3; j++ {
			runtime.Gosched()
		}
		busy := false
		blocked = false
		for _, st := range goroutines() {
			switch {
			case strings.HasPrefix(st, "running"), strings.HasPrefix(st, "runnable"), strings.HasPrefix(st, "syscall"), strings.HasPrefix(st, "copystack"),
				strings.HasPrefix(st, "preempted"), strings.HasPrefix(st, "waiting"), strings.HasPrefix(st, "IO wait"):
				busy = true
			case strings.Contains(st, "(durable)"):
			default:
				blocked = true
			}
		}
		if !busy {
			return blocked
		}
		if i > 100 {
			time.Now()
			runtime.Gosched()
		}
	}
	return true
}

// schedule runs steps with the goroutines stopping at the hooks, until everything is let go at the end.
func (w *world) schedule(st obj) {
	s := w.sched
	s.mu.Lock()
	s.points = nil
	if l := list(st["stops"]); len(l) > 0 {
		s.points = map[string]bool{}
		for _, p := range l {
			s.points[str(p)] = true
		}
	}
	s.gate = 0
	if st["gate"] == true {
		w.ads.mu.Lock()
		s.gate = w.ads.n
		w.ads.mu.Unlock()
	}
	s.armed = true
	s.mu.Unlock()
	for _, x := range list(st["steps"]) {
		y := x.(obj)
		w.log(ev{"e": "sched", "op": fmt.Sprint(y["op"], " ", y["who"])})
		blocked := false
		switch str(y["op"]) {
		case "go":
			s.release(str(y["who"]))
			settled()
		case "tick":
			if freeTicks {
				s.releaseAll()
			}
			if blocked = settled(); !blocked {
				stalled.Store(s.holding())
				time.Sleep(time.Duration(num(y["ms"])) * time.Millisecond)
				stalled.Store(false)
				settled()
			}
		case "reg":
			go w.register(str(y["t"]), func(id int) { s.at("handler", fmt.Sprint("H", id)) })
			settled()
		default:
			w.do(y)
			settled()
		}
	}
	s.disarm()
	synctest.Wait()
}
