package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"sync"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/utils"
	"github.com/cloudwego/kitex/server"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// proxy is the manager xdssuite is given once and for all; it forwards to the manager of the current world.
type proxy struct {
	mu sync.Mutex
	m  xdssuite.XDSResourceManager
}

var current = &proxy{}

func (p *proxy) get() xdssuite.XDSResourceManager {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.m
}

func (p *proxy) use(m xdssuite.XDSResourceManager) {
	p.mu.Lock()
	p.m = m
	p.mu.Unlock()
	if !xdssuite.XDSInited() {
		_ = xdssuite.SetXDSResourceManager(p)
	}
}

func (p *proxy) Get(ctx context.Context, t xdsresource.ResourceType, n string) (interface{}, error) {
	m := p.get()
	if m == nil {
		return nil, errors.New("no manager")
	}
	return m.Get(ctx, t, n)
}

func (p *proxy) RegisterXDSUpdateHandler(t xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	if m := p.get(); m != nil {
		m.RegisterXDSUpdateHandler(t, h)
	}
}

// clientOptions applies the client suite as client.WithSuite does.
func clientOptions(opts ...xdssuite.Option) *client.Options {
	o := &client.Options{}
	for _, f := range xdssuite.NewClientSuite(opts...).Options() {
		f.F(o, &utils.Slice{})
	}
	return o
}

// updater is the limiter of a running server.
type updater struct {
	mu   sync.Mutex
	last *limit.Option
	n    int
}

func (u *updater) UpdateLimit(o *limit.Option) bool {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.n++
	c := *o
	u.last = &c
	return true
}

// suite is a policy consumer of a world.
type suite struct {
	kind string
	cb   *circuitbreak.CBSuite
	rc   *retry.Container
	mw   endpoint.Middleware // the circuit breaker calls go through
	lim  *limit.Option
	upd  *updater
}

func newSuite(kind string, port int) *suite {
	s := &suite{kind: kind}
	switch kind {
	case "cb", "retry":
		o := clientOptions(xdssuite.WithServiceCircuitBreak(true))
		s.cb, s.rc = o.CBSuite, o.RetryContainer
		s.mw = func(next endpoint.Endpoint) endpoint.Endpoint { return s.cb.ServiceCBMW()(next) }
	case "cbi":
		// the circuit breaker comes as a middleware of the calls to instances
		o := clientOptions(xdssuite.WithServiceCircuitBreak(false))
		s.rc = o.RetryContainer
		s.mw = func(next endpoint.Endpoint) endpoint.Endpoint {
			for i := len(o.IMWBs) - 1; i >= 0; i-- {
				next = o.IMWBs[i](context.Background())(next)
			}
			return next
		}
	case "limit":
		o := &server.Options{}
		var opts []xdssuite.Option
		if port >= 0 {
			opts = append(opts, xdssuite.WithServicePort(uint32(port)))
		}
		for _, f := range xdssuite.NewServerSuite(opts...).Options() {
			f.F(o, &utils.Slice{})
		}
		s.lim = o.Limit.Limits
	}
	return s
}

// serve starts the server's limiter.
func (s *suite) serve() {
	if s.lim != nil && s.upd == nil {
		s.upd = &updater{}
		if s.lim.UpdateControl != nil {
			s.lim.UpdateControl(s.upd)
		}
	}
}

func (s *suite) close() {
	if s.rc != nil {
		_ = s.rc.Close()
	}
	if s.cb != nil {
		_ = s.cb.Close()
	}
}

// trips is the number of calls to a cluster that are made.
const trips = 120

// trip makes calls to clusters that fail, and returns how many of them are passed on, or are made when
// calls are retried.  It changes the policies that can be dumped, so it comes last.
func (s *suite) trip(clusters []any) []any {
	l := []any{}
	for i, c := range clusters {
		n := 0
		switch s.kind {
		case "cb", "cbi":
			call := s.mw(func(ctx context.Context, req, resp interface{}) error {
				n++
				return errNext
			})
			for j := 0; j < trips; j++ {
				ri := newRI(obj{"svc": fmt.Sprint("svc", j%2), "isvc": "svc", "method": fmt.Sprint("m", j%3), "tag": c})
				func() {
					defer func() { recover() }()
					_ = call(rpcinfo.NewCtxWithRPCInfo(context.Background(), ri), nil, nil)
				}()
			}
		case "retry":
			ri := newRI(obj{"svc": "svc", "isvc": "svc", "method": fmt.Sprint("call", i), "tag": c})
			ctx := retry.PrepareRetryContext(rpcinfo.NewCtxWithRPCInfo(context.Background(), ri))
			_, _, _ = s.rc.WithRetryIfNeeded(ctx, nil, func(context.Context, retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
				n++
				return ri, nil, kerrors.ErrRPCTimeout
			}, ri, nil)
		default:
			continue
		}
		l = append(l, obj{"n": str(c), "c": n})
	}
	return l
}

// qps is -1 for an unlimited value.
func qps(n int) int {
	if n <= 0 || n >= math.MaxInt32 {
		return -1
	}
	return n
}

func jsonObj(v any) obj {
	ret := obj{}
	b, err := json.Marshal(v)
	if err == nil {
		_ = json.Unmarshal(b, &ret)
	}
	return ret
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// milli returns v*1000 rounded to an integer if it is close to one, else -1.
func milli(v any) int {
	f, ok := v.(float64)
	if !ok {
		return -1
	}
	r := math.Round(f * 1000)
	if math.Abs(r-f*1000) > 1e-6 {
		return -1
	}
	return int(r)
}

// dump returns the policies in force.
func (s *suite) dump() obj {
	l := []any{}
	switch s.kind {
	case "cb":
		// circuitbreak.CBSuite.Dump() returns the configurations under cb_config.service_cb (or similar).
		d, _ := s.cb.Dump().(map[string]any)
		for _, sect := range d {
			m, ok := sect.(map[string]any)
			if !ok {
				continue
			}
			for _, x := range m {
				cfgs, ok := x.(map[string]any)
				if !ok {
					continue
				}
				for _, n := range sortedKeys(cfgs) {
					c, ok := cfgs[n].(circuitbreak.CBConfig)
					if !ok {
						continue
					}
					l = append(l, obj{"n": n, "en": c.Enable, "rate": milli(c.ErrRate), "min": int(c.MinSample)})
				}
			}
		}
	case "retry":
		d, _ := s.rc.Dump().(map[string]any)
		for _, n := range sortedKeys(d) {
			if n == "has_code_cfg" || n == "msg" {
				continue
			}
			p := jsonObj(d[n])
			fp, _ := p["failure_retry"].(obj)
			sp, _ := fp["stop_policy"].(obj)
			cb, _ := sp["cb_policy"].(obj)
			bo, _ := fp["backoff_policy"].(obj)
			items, _ := bo["cfg_items"].(obj)
			e := obj{
				"n": n, "en": p["enable"] == true, "kind": "failure", "times": num(sp["max_retry_times"]), "dur": num(sp["max_duration_ms"]),
				"rate": milli(cb["error_rate"]), "bo": str(bo["backoff_type"]), "lo": -1, "hi": -1,
			}
			if fp == nil {
				e["kind"] = "other"
			}
			switch str(bo["backoff_type"]) {
			case "fixed":
				e["lo"] = num(items["fix_ms"])
			case "random":
				e["lo"], e["hi"] = num(items["min_ms"]), num(items["max_ms"])
			}
			l = append(l, e)
		}
	case "limit":
		e := obj{"qps": qps(s.lim.MaxQPS), "conn": qps(s.lim.MaxConnections)}
		if s.upd != nil {
			s.upd.mu.Lock()
			if s.upd.last != nil {
				e["qps"], e["conn"] = qps(s.upd.last.MaxQPS), qps(s.upd.last.MaxConnections)
			}
			s.upd.mu.Unlock()
		}
		l = append(l, e)
	}
	return obj{"kind": s.kind, "p": l}
}
