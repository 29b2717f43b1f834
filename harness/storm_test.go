package harness

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/klog"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// TestStorm runs the rows of Storm in VERIF_IN: many goroutines use one client at once. It is meant for the race detector, so the
// goroutines record what they observe without synchronising.
func TestStorm(t *testing.T) {
	if os.Getenv("VERIF_IN") == "" {
		t.Skip()
	}
	klog.SetOutput(devNull{})
	setEnv()
	keep := circuitbreak.NewCBSuite(nil)
	keep.ServicePanel()
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	out := &sink{f: f}
	var progress atomic.Int64
	var cur atomic.Value
	cur.Store("")
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > 60*time.Second {
				out.write(obj{"b": cur.Load(), "e": "hang"})
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
	}()
	for _, row := range readLines(os.Getenv("VERIF_IN")) {
		id := fmt.Sprint(row["b"])
		cur.Store(id)
		emit := func(e ev) {
			progress.Add(1)
			e["b"] = id
			out.write(e)
		}
		emit(ev{"e": "row"})
		synctest.Test(t, func(t *testing.T) { stormRow(row, emit) })
		out.write(obj{"b": id, "e": "end"})
	}
}

type storm struct {
	c      *cp
	m      xdsManager
	nds    bool
	k      int
	names  map[string][]string // type -> index -> name to look up
	base   time.Time
	call   *caller
	suites []*suite
	cid    int // guarded by c.mu
	pushes []ev
	hs     []*stormHandler
	hmu    sync.Mutex
}

// stormHandler remembers the resources of the last update.
type stormHandler struct {
	t    string
	last atomic.Pointer[map[string]int]
}

type caller struct {
	route func(a obj) string
	find  func(c string) (string, bool)
}

const period = 30 * time.Second

func (s *storm) now() int { return int(time.Since(s.base) / time.Microsecond) }

// wire is the name of the resource on the wire.
func (s *storm) wire(t string, i int) string {
	if t == "LDS" && i > 0 {
		if s.nds {
			return fmt.Sprintf("10.9.0.%d_80", i)
		}
		return fmt.Sprintf("p%d.ext", i)
	}
	if t == "LDS" {
		return xdsresource.ReservedLdsResourceName
	}
	return fmt.Sprintf("p%d", i)
}

// name is the name to look up.
func (s *storm) name(t string, i int) string { return s.names[t][i] }

// set gives a resource new contents. The lock of the control plane is held.
func (s *storm) set(t string, i int) ev {
	s.cid++
	cid := s.cid
	put := func(t string, o obj) {
		if s.c.res[t] == nil {
			s.c.res[t] = map[string]*anypb.Any{}
		}
		o["c"] = cid
		s.c.res[t][str(o["n"])] = resource(t, o)
	}
	cl := func(c string, rp obj) []any {
		r := obj{"cl": []any{c}}
		if rp == nil {
			// a route to be used: the random choice is one of the things done at once
			r["cl"] = []any{c, c}
		}
		if rp != nil {
			r["rp"] = rp
		}
		return []any{r}
	}
	n := s.wire(t, i)
	switch {
	case t == "LDS" && i == 0:
		put(t, obj{"n": n, "chains": []any{obj{"port": 0, "tok": cid}}})
	case t == "LDS":
		put(t, obj{"n": n})
		put("RDS", obj{"n": fmt.Sprintf("rc-cid%dx", cid), "routes": cl(s.wire("CDS", i), nil)})
	case t == "RDS":
		put(t, obj{"n": n, "routes": cl(fmt.Sprintf("q%d", i), obj{"n": 1 + cid%3, "ptt": 0, "base": -1})})
	case t == "CDS":
		put(t, obj{"n": n, "od": obj{"th": 50 * (cid % 2), "vol": 10}})
		put("EDS", obj{"n": fmt.Sprintf("eds-cid%dx", cid)})
	case t == "EDS":
		put(t, obj{"n": n})
	}
	return ev{"e": "push", "t": t, "n": i, "c": cid, "at": s.now()}
}

// env performs an operation of the control plane.
func (s *storm) env(o obj, l *[]ev) {
	t := str(o["t"])
	switch str(o["k"]) {
	case "push":
		s.c.mu.Lock()
		for _, i := range list(o["ns"]) {
			if t == "LDS" || num(i) > 0 {
				*l = append(*l, s.set(t, num(i)))
			}
		}
		if s.c.cur != nil && s.c.cur.names[t] != "" {
			s.c.answer(s.c.cur, t)
		}
		s.c.mu.Unlock()
	case "bad":
		s.c.mu.Lock()
		s.c.bad[t] = true
		if s.c.cur != nil && s.c.cur.names[t] != "" {
			s.c.answer(s.c.cur, t)
		}
		s.c.bad[t] = false
		s.c.mu.Unlock()
	case "drop":
		s.c.mu.Lock()
		for _, i := range list(o["ns"]) {
			delete(s.c.res[t], s.wire(t, num(i)))
		}
		if s.c.cur != nil && s.c.cur.names[t] != "" {
			s.c.answer(s.c.cur, t)
		}
		s.c.mu.Unlock()
	case "nds":
		s.c.push("NDS")
	case "fail":
		s.c.failStream()
	}
}

func (s *storm) register(t string) {
	h := &stormHandler{t: t}
	s.m.RegisterXDSUpdateHandler(typeKind[t], func(res map[string]xdsresource.Resource) {
		l := make(map[string]int, len(res))
		for n, r := range res {
			_, l[n] = classify(t, n, r, nil)
		}
		h.last.Store(&l)
	})
	s.hmu.Lock()
	s.hs = append(s.hs, h)
	s.hmu.Unlock()
}

// user performs an operation of a user of the client.
func (s *storm) user(o obj, first []*stormHandler) (e ev) {
	e = ev{"e": "op", "k": str(o["k"]), "t0": s.now(), "res": "", "c": -1, "t": "", "n": 0, "seen": -1, "lim": 0}
	defer func() {
		if r := recover(); r != nil {
			e["res"], e["msg"] = "panic", fmt.Sprint(r)+string(debug.Stack())
		}
		e["t1"] = s.now()
	}()
	t := str(o["t"])
	switch str(o["k"]) {
	case "get":
		e["t"], e["n"], e["lim"] = t, num(o["n"]), num(o["ms"])
		ctx := context.Background()
		if ms := num(o["ms"]); ms > 0 {
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond)
			defer cancel()
		}
		v, err := s.m.Get(ctx, typeKind[t], s.name(t, num(o["n"])))
		e["res"], e["c"] = classify(t, s.name(t, num(o["n"])), v, err)
		if o["chk"] == true {
			for _, h := range first {
				if h.t == t {
					e["seen"] = 0
					if p := h.last.Load(); p != nil {
						if c, ok := (*p)[s.name(t, num(o["n"]))]; ok {
							e["seen"] = c
						}
					}
				}
			}
		}
	case "dump":
		s.m.Dump()
	case "reg":
		s.register(t)
	case "suite":
		x := newSuite(t, -1)
		x.serve()
		s.hmu.Lock()
		s.suites = append(s.suites, x)
		s.hmu.Unlock()
	case "call":
		e["n"], e["res"] = num(o["n"]), s.call.route(o)
	case "find":
		e["n"] = num(o["n"])
		a, ok := s.call.find(s.name("CDS", num(o["n"])))
		e["c"], e["res"] = cidIn(a), "err"
		if ok {
			e["res"] = "val"
		}
	}
	return e
}

func stormRow(row obj, emit func(ev)) {
	cfg, _ := row["cfg"].(obj)
	s := &storm{c: newCP(), nds: cfg["nds"] == true, k: num(row["names"])}
	s.base = time.Now()
	s.names = map[string][]string{}
	for _, t := range []string{"LDS", "RDS", "CDS", "EDS"} {
		for i := 0; i <= s.k; i++ {
			n := s.wire(t, i)
			if t == "LDS" && i > 0 {
				n = fmt.Sprintf("p%d.ext", i)
			}
			s.names[t] = append(s.names[t], n)
		}
	}
	var hosts []any
	for i := 1; i <= s.k; i++ {
		hosts = append(hosts, obj{"host": fmt.Sprintf("p%d.ext", i), "ips": []any{fmt.Sprintf("10.9.0.%d", i)}})
	}
	s.c.nds = []*anypb.Any{resource("NDS", obj{"tab": hosts})}
	types := []string{"LDS", "RDS", "CDS", "EDS"}
	all := func() (l []ev) {
		s.c.mu.Lock()
		defer s.c.mu.Unlock()
		for _, t := range types {
			for i := 0; i <= s.k; i++ {
				if i > 0 || t == "LDS" {
					l = append(l, s.set(t, i))
				}
			}
		}
		return l
	}
	for _, e := range all() {
		emit(e)
	}
	m, err := start(s.c, &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "istiod:15010", NDSNotRequired: !s.nds, LDSNotRequired: cfg["lds"] == false,
		FetchXDSTimeout: time.Duration(num(cfg["timeout"])) * time.Millisecond})
	if err != nil {
		emit(ev{"e": "fail", "msg": err.Error()})
		return
	}
	s.m = m
	start := time.Now()
	o := clientOptions(xdssuite.WithMatchRetryMethod(cfg["mm"] == true))
	s.call = &caller{
		route: func(a obj) string {
			e := ev{}
			act(obj{"k": "call", "svc": s.name("LDS", num(a["n"])), "pkg": "pkg", "isvc": "Echo", "method": "Get", "via": a["via"], "md": obj{}, "tp": "ttheader", "tag": ""}, "meta", o, nil, e)
			if str(e["err"]) != "" {
				return "err"
			}
			return str(e["tag"])
		},
		find: func(c string) (string, bool) {
			e := ev{}
			act(obj{"k": "resolve", "c": c}, "meta", o, nil, e)
			for _, x := range list(e["eps"]) {
				return str(x.(obj)["addr"]), e["err"] == false
			}
			return "", false
		},
	}
	s.register("RDS")
	s.register("CDS")
	s.register("LDS")
	s.suites = append(s.suites, newSuite("cb", -1), newSuite("retry", -1), newSuite("limit", -1))
	s.suites[2].serve()
	first := append([]*stormHandler{}, s.hs...)
	synctest.Wait()
	for r, x := range list(row["rounds"]) {
		go1 := make(chan struct{})
		var wg sync.WaitGroup
		ths := list(x)
		logs := make([][]ev, len(ths))
		for i, x := range ths {
			ops := list(x)
			logs[i] = make([]ev, 0, 4*len(ops)+4*s.k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-go1
				for _, x := range ops {
					op := x.(obj)
					switch str(op["k"]) {
					case "nap":
						time.Sleep(time.Duration(num(op["ms"])) * time.Millisecond)
					case "tick":
						d := time.Since(start)
						time.Sleep(d.Truncate(period) + time.Duration(num(op["n"]))*period - d)
					case "push", "bad", "drop", "nds", "fail":
						s.env(op, &logs[i])
					default:
						logs[i] = append(logs[i], s.user(op, first))
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		synctest.Wait()
		close(go1)
		select {
		case <-done:
		case <-time.After(time.Hour):
			emit(ev{"e": "hang"})
			<-done
		}
		synctest.Wait()
		for i, l := range logs {
			for _, e := range l {
				e["r"], e["th"] = r+1, i+1
				emit(e)
			}
		}
	}
	// all is well again: the final contents are seen by everybody.
	time.Sleep(3 * time.Minute)
	synctest.Wait()
	for _, e := range all() {
		emit(e)
	}
	s.c.push(types...)
	synctest.Wait()
	for _, t := range types {
		for i := 0; i <= s.k; i++ {
			if i > 0 || t == "LDS" {
				e := s.user(obj{"k": "get", "t": t, "n": i}, nil)
				e["e"], e["r"], e["th"] = "final", 0, 0
				emit(e)
			}
		}
	}
	for i := 1; i <= s.k; i++ {
		for _, k := range []string{"call", "find"} {
			e := s.user(obj{"k": k, "n": i}, nil)
			e["e"], e["r"], e["th"] = "final", 0, 0
			emit(e)
		}
	}
	synctest.Wait()
	for _, h := range s.hs {
		l := []any{}
		p := h.last.Load()
		for i := 0; i <= s.k; i++ {
			if i == 0 && h.t != "LDS" {
				continue
			}
			c := -1
			if p != nil {
				if x, ok := (*p)[s.name(h.t, i)]; ok {
					c = x
				}
			}
			l = append(l, obj{"n": i, "c": c})
		}
		emit(ev{"e": "handler", "t": h.t, "l": l})
	}
	for _, x := range s.suites {
		d := x.dump()
		d["e"] = "policy"
		emit(d)
		x.close()
	}
	_ = o.RetryContainer.Close()
	stop(s.c, m)
}
