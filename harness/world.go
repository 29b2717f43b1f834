package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

type ev map[string]any

// xdsManager is the part of the manager the harness uses.
type xdsManager interface {
	Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error)
	RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler)
	Dump()
	Close()
}

// world is one run of the real client against the fake control plane.
type world struct {
	mu    sync.Mutex
	emit  func(ev)
	t0    time.Time
	ads   *ads
	m     xdsManager
	ready bool
	err   error
	node  obj // expectations on the node of the requests
	dump  string
	start time.Time

	cancels map[int]context.CancelFunc
	suites  []*suite
	handler int
	closed  bool
	sched   *scheduler
}

func (w *world) log(e ev) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed {
		return
	}
	e["at"] = int(time.Since(w.t0) / time.Microsecond)
	w.emit(e)
}

// expectedID is the node id of the environment set by setEnv.
const expectedID = "sidecar~10.1.2.3~pod-1.default~default.svc.cluster.local"

func setEnv() {
	for k, v := range map[string]string{
		"POD_NAMESPACE": "default", "POD_NAME": "pod-1", "INSTANCE_IP": "10.1.2.3", "KITEX_XDS_DOMAIN": "", "ISTIO_VERSION": "1.16",
		"KITEX_XDS_METAS": `{"LABEL":"x","INSTANCE_IPS":"10.1.2.30"}`,
	} {
		os.Setenv(k, v)
	}
}

func (w *world) nodeOK(n *v3core.Node) bool {
	md := n.GetMetadata().GetFields()
	return n.GetId() == expectedID && md["LABEL"].GetStringValue() == "x"
}

// newWorld starts the client; it returns before the warm-up is finished.
func newWorld(cfg obj, dir string, emit func(ev)) *world {
	w := &world{t0: time.Now(), emit: emit, cancels: map[int]context.CancelFunc{}, dump: filepath.Join(dir, "dump.json")}
	w.ads = &ads{w: w}
	w.sched = newScheduler(w)
	manager.VerifADSClient = func(*manager.XDSServerConfig) manager.ADSClient { return w.ads }
	w.log(ev{"e": "begin"})
	current.use(nil)
	go func() {
		m, err := manager.NewXDSResourceManager(nil, manager.Option{F: func(o *manager.Options) {
			o.DumpPath = w.dump
			o.XDSSvrConfig = &manager.XDSServerConfig{
				SvrName: "istiod", SvrAddr: "istiod:15010",
				NDSNotRequired:  cfg["nds"] == false,
				LDSNotRequired:  cfg["lds"] == false,
				FetchXDSTimeout: time.Duration(num(cfg["timeout"])) * time.Millisecond,
			}
		}})
		w.mu.Lock()
		w.err = err
		if err == nil {
			w.m = m
			current.use(m)
		}
		w.ready = true
		w.start = time.Now()
		w.mu.Unlock()
		w.log(ev{"e": "ready", "ok": err == nil})
	}()
	return w
}

func (w *world) isReady() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.ready
}

func (w *world) mgr() xdsManager {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.m
}

// cidIn returns the content id in cid<id>x, without what synchronises goroutines (as regexp and fmt do).
func cidIn(s string) int {
	i := strings.Index(s, "cid")
	if i < 0 {
		return -1
	}
	n, ok := 0, false
	for _, c := range s[i+3:] {
		if c == 'x' && ok {
			return n
		}
		if c < '0' || c > '9' {
			return -1
		}
		n, ok = 10*n+int(c-'0'), true
	}
	return -1
}

// noHosts is the content id of a route table without virtual hosts: that of its name, r1 to r4.
func noHosts(name string) int {
	if len(name) == 2 && name[0] == 'r' && name[1] >= '1' && name[1] <= '4' {
		return 90000 + int(name[1]-'0')
	}
	return -1
}

func cidOf(r *xdsresource.EndpointsResource) int {
	cid := -1
	for _, l := range r.Localities {
		for _, e := range l.Endpoints {
			cid = cidIn(e.Addr().String())
		}
	}
	return cid
}

// classify returns how a lookup ended and the content id of its value.
func classify(t, name string, v any, err error) (kind string, cid int) {
	if err != nil {
		switch {
		case v == nil:
			return "err", -1
		default:
			return "both", -1
		}
	}
	if v == nil {
		return "neither", -1
	}
	var ok bool
	switch t {
	case "LDS":
		var r *xdsresource.ListenerResource
		if r, ok = v.(*xdsresource.ListenerResource); ok {
			if r == nil {
				return "placeholder", -1
			}
			cid = -1
			for _, f := range r.NetworkFilters {
				if f != nil {
					if c := cidIn(f.RouteConfigName); c >= 0 {
						cid = c
					}
					if r := f.InlineRouteConfig; r != nil && r.ThriftRouteConfig != nil {
						for _, rt := range r.ThriftRouteConfig.Routes {
							for _, wc := range rt.WeightedClusters {
								if c := cidIn(wc.Name); c >= 0 {
									cid = c
								}
							}
						}
					}
				}
			}
		}
	case "RDS":
		var r *xdsresource.RouteConfigResource
		if r, ok = v.(*xdsresource.RouteConfigResource); ok {
			if r == nil {
				return "placeholder", -1
			}
			cid = -1
			if r.HTTPRouteConfig != nil {
				if len(r.HTTPRouteConfig.VirtualHosts) == 0 {
					cid = noHosts(name)
				}
				for _, vh := range r.HTTPRouteConfig.VirtualHosts {
					cid = cidIn(vh.Name)
				}
			}
		}
	case "CDS":
		var r *xdsresource.ClusterResource
		if r, ok = v.(*xdsresource.ClusterResource); ok {
			if r == nil {
				return "placeholder", -1
			}
			cid = cidIn(r.EndpointName)
			if r.InlineEndpoints != nil {
				cid = cidOf(r.InlineEndpoints)
			}
		}
	case "EDS":
		var r *xdsresource.EndpointsResource
		if r, ok = v.(*xdsresource.EndpointsResource); ok {
			if r == nil {
				return "placeholder", -1
			}
			cid = cidOf(r)
		}
	}
	if !ok {
		return "wrong", -1
	}
	return "val", cid
}

// lookup starts a lookup in a goroutine of its own. ctxms < 0: already cancelled; 0: no own deadline.
func (w *world) lookup(id int, t, name string, ctxms int) {
	m := w.mgr()
	if m == nil {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	if ctxms > 0 {
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration(ctxms)*time.Millisecond)
	} else if ctxms < 0 {
		cancel()
	}
	w.mu.Lock()
	w.cancels[id] = cancel
	w.mu.Unlock()
	w.log(ev{"e": "call", "id": id, "t": t, "n": name, "ctx": ctxms})
	go func() {
		defer cancel()
		w.sched.iAm(fmt.Sprint("L", id))
		kind, cid := "panic", -1
		defer func() {
			if r := recover(); r != nil {
				w.log(ev{"e": "ret", "id": id, "k": "panic", "c": -1, "msg": fmt.Sprint(r) + string(debug.Stack())})
				return
			}
			w.log(ev{"e": "ret", "id": id, "k": kind, "c": cid})
		}()
		v, err := m.Get(ctx, typeKind[t], name)
		kind, cid = classify(t, name, v, err)
	}()
}

func (w *world) cancel(id int) {
	w.mu.Lock()
	c := w.cancels[id]
	w.mu.Unlock()
	if c != nil {
		w.log(ev{"e": "cancel", "id": id})
		c()
	}
}

// response queues a response on the current stream.
func (w *world) response(st obj) bool {
	t := str(st["t"])
	resp := &discoveryv3.DiscoveryResponse{TypeUrl: typeURL[t], VersionInfo: str(st["ver"]), Nonce: str(st["nonce"])}
	for _, x := range list(st["res"]) {
		resp.Resources = append(resp.Resources, resource(t, x.(obj)))
	}
	if resp.Resources == nil {
		resp.Resources = []*anypb.Any{}
	}
	w.ads.mu.Lock()
	s := w.ads.cur
	w.ads.mu.Unlock()
	if s == nil {
		return false
	}
	s.mu.Lock()
	dead := s.dead
	s.mu.Unlock()
	if dead {
		return false
	}
	e := ev{"e": "resp", "s": s.id, "t": t, "ver": st["ver"], "nonce": st["nonce"], "res": st["res"]}
	s.in <- item{resp: resp, ev: e}
	return true
}

// failures are the ways a stream ends that do not say anything about the client's authentication.
var failures = []error{
	errStream, io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded,
	status.Err(codes.Unavailable, "connection reset"), status.Err(codes.Canceled, "stream closed"), status.Err(codes.DeadlineExceeded, "too long"),
	status.Err(codes.Internal, "stream terminated by RST_STREAM"), status.Err(codes.Unknown, "push failed"), status.Err(codes.ResourceExhausted, "too many streams"),
}

// deafen makes the sends of the stream fail although it goes on delivering responses.
func (w *world) deafen() {
	w.ads.mu.Lock()
	s := w.ads.cur
	w.ads.mu.Unlock()
	if s == nil {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.dead {
		w.log(ev{"e": "deaf", "s": s.id})
		s.deaf = true
	}
}

func (w *world) failStream(auth bool, kind int) {
	w.ads.mu.Lock()
	s := w.ads.cur
	w.ads.mu.Unlock()
	if s == nil {
		return
	}
	err := failures[kind%len(failures)]
	if auth {
		err = authErr()
	}
	s.failWith(err, ev{"e": "fail", "s": s.id, "auth": auth})
}

func (w *world) setDown(down bool) {
	e := "up"
	if down {
		e = "down"
	}
	w.log(ev{"e": e})
	w.ads.mu.Lock()
	defer w.ads.mu.Unlock()
	w.ads.down = down
}

func (w *world) live() bool {
	w.ads.mu.Lock()
	s := w.ads.cur
	w.ads.mu.Unlock()
	if s == nil {
		return false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return !s.dead
}

// quiet waits until the client is quiescent and records what can be observed then.
func (w *world) quiet(snapshot bool) {
	synctest.Wait()
	e := ev{"e": "quiet"}
	if snapshot {
		if m := w.mgr(); m != nil {
			e["cache"] = w.snapshot(m)
		}
		if len(w.suites) > 0 {
			var l []any
			for _, s := range w.suites {
				l = append(l, s.dump())
			}
			e["pol"] = l
		}
	}
	w.log(e)
}

var dumpNames = map[string]string{"Listener": "LDS", "RouteConfig": "RDS", "Cluster": "CDS", "ClusterLoadAssignment": "EDS"}

// snapshot returns the cached resources by way of the manager's dump.
func (w *world) snapshot(m xdsManager) any {
	os.Remove(w.dump)
	m.Dump()
	b, err := os.ReadFile(w.dump)
	if err != nil {
		return obj{"none": true}
	}
	d := map[string]map[string]json.RawMessage{}
	if err := json.Unmarshal(b, &d); err != nil {
		return obj{"none": true}
	}
	ret := obj{"LDS": []any{}, "RDS": []any{}, "CDS": []any{}, "EDS": []any{}}
	for t, rs := range d {
		n, ok := dumpNames[t]
		if !ok {
			n = t
		}
		l := []any{}
		for name, raw := range rs {
			c := cidIn(string(raw))
			if c < 0 && n == "RDS" {
				c = noHosts(name)
			}
			l = append(l, obj{"n": name, "c": c})
		}
		ret[n] = l
	}
	return ret
}

// advance lets virtual time pass, becoming quiescent after each sweep of the cache.
func (w *world) advance(d time.Duration) {
	end := time.Now().Add(d)
	for {
		now := time.Now()
		if !now.Before(end) {
			return
		}
		step := end.Sub(now)
		w.mu.Lock()
		ready, start := w.ready, w.start
		w.mu.Unlock()
		if ready {
			k := now.Sub(start)/(30*time.Second) + 1
			next := start.Add(k*30*time.Second + time.Millisecond)
			if next.After(now) && next.Before(end) {
				step = next.Sub(now)
			}
		}
		time.Sleep(step)
		w.quiet(true)
	}
}

// register adds an update handler that records what it was given. In slow mode it lets other goroutines run.
func (w *world) register(t string, slow func(int)) {
	m := w.mgr()
	if m == nil {
		return
	}
	w.mu.Lock()
	w.handler++
	id := w.handler
	w.mu.Unlock()
	w.log(ev{"e": "reg", "h": id, "t": t})
	m.RegisterXDSUpdateHandler(typeKind[t], func(res map[string]xdsresource.Resource) {
		l := []any{}
		for n, r := range res {
			k, c := classify(t, n, r, nil)
			l = append(l, obj{"n": n, "c": c, "k": k})
		}
		if slow != nil {
			slow(id)
		}
		w.log(ev{"e": "hdone", "h": id, "t": t, "res": l})
	})
	w.log(ev{"e": "regdone", "h": id})
}

// suite adds a policy consumer.
func (w *world) suite(kind string, port int) {
	if w.mgr() == nil {
		return
	}
	w.log(ev{"e": "suite", "kind": kind, "port": port})
	w.suites = append(w.suites, newSuite(kind, port))
	w.log(ev{"e": "suitedone"})
}

// shutdown ends all goroutines of the client so that the bubble can end.
func (w *world) shutdown() {
	w.mu.Lock()
	w.closed = true
	cs := w.cancels
	w.cancels = map[int]context.CancelFunc{}
	w.mu.Unlock()
	for _, c := range cs {
		c()
	}
	for _, s := range w.suites {
		s.close()
	}
	w.setDown(false)
	// the warm-up cannot be given up, let it succeed.
	for i := 0; i < 20 && !w.isReady(); i++ {
		time.Sleep(time.Minute)
		synctest.Wait()
		w.response(obj{"t": "NDS", "ver": "end", "nonce": "end", "res": []any{obj{"n": "", "tab": []any{}, "c": 0.0}}})
		w.response(obj{"t": "LDS", "ver": "end", "nonce": "end", "res": []any{}})
		synctest.Wait()
	}
	if m := w.mgr(); m != nil {
		func() {
			defer func() { recover() }()
			m.Close()
		}()
	}
	for i := 0; i < 40; i++ {
		w.ads.mu.Lock()
		s := w.ads.cur
		w.ads.mu.Unlock()
		if s != nil {
			s.fail(errStream)
		}
		time.Sleep(time.Minute)
		synctest.Wait()
	}
}
