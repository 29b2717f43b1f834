package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/klog"
)

type sink struct {
	mu sync.Mutex
	f  *os.File
}

func (s *sink) write(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.f.Write(append(b, '\n'))
}

func readLines(path string) []obj {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var ret []obj
	for sc.Scan() {
		o := obj{}
		if err := json.Unmarshal(sc.Bytes(), &o); err != nil {
			panic(err)
		}
		ret = append(ret, o)
	}
	return ret
}

// TestReplay runs the histories of VERIF_IN and writes the events to VERIF_OUT.
func TestReplay(t *testing.T) {
	if os.Getenv("VERIF_IN") == "" {
		t.Skip()
	}
	klog.SetOutput(devNull{})
	setEnv()
	// the circuit breakers share a ticker, keep it outside of the bubbles.
	keep := circuitbreak.NewCBSuite(nil)
	keep.ServicePanel()
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	out := &sink{f: f}
	var progress atomic.Int64
	var cur atomic.Value
	cur.Store("")
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			} else if stalled.Load() && time.Since(since) > 15*time.Second {
				out.write(obj{"b": cur.Load(), "e": "stall"})
				os.Exit(3)
			} else if time.Since(since) > 45*time.Second {
				out.write(obj{"b": cur.Load(), "e": "hang"})
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
	}()
	dir := t.TempDir()
	for _, h := range readLines(os.Getenv("VERIF_IN")) {
		id := fmt.Sprint(h["b"])
		cur.Store(id)
		progress.Add(1)
		synctest.Test(t, func(t *testing.T) {
			cfg, _ := h["cfg"].(obj)
			w := newWorld(cfg, dir, func(e ev) {
				progress.Add(1)
				e["b"] = id
				out.write(e)
			})
			w.quiet(true)
			runSteps(w, list(h["steps"]))
			w.shutdown()
		})
		out.write(obj{"b": id, "e": "end"})
	}
}

type devNull struct{}

func (devNull) Write(b []byte) (int, error) { return len(b), nil }
