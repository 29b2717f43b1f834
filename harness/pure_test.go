package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bytedance/gopkg/cloud/metainfo"
	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/discovery"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/klog"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	xds "github.com/kitex-contrib/xds"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// TestPure runs the rows of ConfigGen in VERIF_IN and writes what is observed to VERIF_OUT.
func TestPure(t *testing.T) {
	if os.Getenv("VERIF_IN") == "" {
		t.Skip()
	}
	klog.SetOutput(devNull{})
	setEnv()
	keep := circuitbreak.NewCBSuite(nil)
	keep.ServicePanel()
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	out := &sink{f: f}
	var progress atomic.Int64
	var cur atomic.Value
	cur.Store("")
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > 45*time.Second {
				out.write(obj{"b": cur.Load(), "e": "hang"})
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
	}()
	for _, row := range readLines(os.Getenv("VERIF_IN")) {
		id := fmt.Sprint(row["b"])
		cur.Store(id)
		emit := func(e ev) {
			progress.Add(1)
			e["b"] = id
			out.write(e)
		}
		emit(ev{"e": "row"})
		switch str(row["k"]) {
		case "decode":
			emit(decodeRow(str(row["t"]), cfgResources(row), row))
		case "bytes":
			rs := cfgResources(row)
			if ms := list(row["muts"]); len(rs) > 0 {
				i := num(row["which"]) % len(rs)
				rs[i] = &anypb.Any{TypeUrl: typeURL[str(row["url"])], Value: mutate(rs[i].Value, ms, 0)}
			}
			e := decodeRow(str(row["t"]), rs, obj{})
			e["res"], e["facts"] = []any{}, facts(str(row["t"]), rs)
			emit(e)
		case "world":
			synctest.Test(t, func(t *testing.T) { worldRow(row, emit) })
		case "boot":
			synctest.Test(t, func(t *testing.T) { bootRow(row, emit) })
			setEnv()
		case "init":
			initRow(row, emit)
			setEnv()
		}
		out.write(obj{"b": id, "e": "end"})
	}
}

func cfgResources(row obj) []*anypb.Any {
	rs := []*anypb.Any{}
	for _, x := range list(row["res"]) {
		rs = append(rs, cfgResource(str(row["t"]), x.(obj)))
	}
	return rs
}

/* -------------------------------- decoding ------------------------------- */

type decoder struct{ probes obj }

func (d decoder) match(m xdsresource.RouteMatch) (paths, metas []any) {
	paths, metas = []any{}, []any{}
	for _, p := range strs(d.probes["paths"]) {
		paths = append(paths, m != nil && m.MatchPath(p))
	}
	for _, x := range list(d.probes["metas"]) {
		metas = append(metas, m != nil && m.MatchMeta(strMap(x)))
	}
	return
}

func strMap(x any) map[string]string {
	ret := map[string]string{}
	if o, ok := x.(obj); ok {
		for k, v := range o {
			ret[k] = str(v)
		}
	}
	return ret
}

func us(d time.Duration) int {
	if d%time.Microsecond != 0 {
		return -7
	}
	return int(d / time.Microsecond)
}

func (d decoder) routes(rs []*xdsresource.Route) []any {
	l := []any{}
	for _, r := range rs {
		paths, metas := d.match(r.Match)
		cl := []any{}
		for _, c := range r.WeightedClusters {
			cl = append(cl, obj{"n": c.Name, "w": int(c.Weight)})
		}
		p := r.RetryPolicy
		ms := p.Methods
		if ms == nil {
			ms = []string{}
		}
		rp := obj{"n": p.NumRetries, "ptt": us(p.PerTryTimeout), "pti": us(p.PerTryIdleTimeout), "er": milli(p.CBErrorRate), "methods": ms, "base": -1, "max": -1}
		if b := p.RetryBackOff; b != nil {
			rp["base"], rp["max"] = us(b.BaseInterval), us(b.MaxInterval)
		}
		l = append(l, obj{"paths": paths, "metas": metas, "cl": cl, "to": us(r.Timeout), "rp": rp})
	}
	return l
}

func (d decoder) table(h *xdsresource.HTTPRouteConfig) []any {
	l := []any{}
	for _, v := range h.VirtualHosts {
		l = append(l, obj{"n": v.Name, "routes": d.routes(v.Routes)})
	}
	return l
}

func (d decoder) endpoints(e *xdsresource.EndpointsResource) []any {
	l := []any{}
	for _, loc := range e.Localities {
		eps := []any{}
		for _, e := range loc.Endpoints {
			eps = append(eps, obj{"addr": e.Addr().String(), "w": int(e.Weight())})
		}
		l = append(l, eps)
	}
	return l
}

func decodeRow(t string, rs []*anypb.Any, row obj) (e ev) {
	e = ev{"e": "dec", "panic": false, "err": false, "res": []any{}}
	defer func() {
		if r := recover(); r != nil {
			e["panic"] = true
			e["msg"] = fmt.Sprint(r) + string(debug.Stack())
		}
	}()
	probes, _ := row["probes"].(obj)
	d := decoder{probes}
	l := []any{}
	var err error
	switch t {
	case "LDS":
		var m map[string]*xdsresource.ListenerResource
		m, err = xdsresource.UnmarshalLDS(rs)
		for _, n := range sortedKeys(m) {
			if m[n] == nil {
				continue
			}
			fs := []any{}
			for _, f := range m[n].NetworkFilters {
				o := obj{"k": "http", "rc": f.RouteConfigName, "port": int(f.RoutePort), "max": 0, "fill": 0, "http": []any{}, "thrift": []any{}}
				if f.FilterType == xdsresource.NetworkFilterTypeThrift {
					o["k"] = "thrift"
				}
				if r := f.InlineRouteConfig; r != nil {
					o["max"], o["fill"] = int(r.MaxTokens), int(r.TokensPerFill)
					if r.HTTPRouteConfig != nil {
						o["http"] = []any{d.table(r.HTTPRouteConfig)}
					}
					if r.ThriftRouteConfig != nil {
						o["thrift"] = []any{d.routes(r.ThriftRouteConfig.Routes)}
					}
				}
				fs = append(fs, o)
			}
			l = append(l, obj{"n": n, "filters": fs})
		}
	case "RDS":
		var m map[string]xdsresource.Resource
		m, err = xdsresource.UnmarshalRDS(rs)
		for _, n := range sortedKeys(m) {
			r, ok := m[n].(*xdsresource.RouteConfigResource)
			if !ok || r == nil || r.HTTPRouteConfig == nil {
				l = append(l, obj{"n": n, "bad": true})
				continue
			}
			l = append(l, obj{"n": n, "vhs": d.table(r.HTTPRouteConfig)})
		}
	case "CDS":
		var m map[string]xdsresource.Resource
		m, err = xdsresource.UnmarshalCDS(rs)
		for _, n := range sortedKeys(m) {
			c, ok := m[n].(*xdsresource.ClusterResource)
			if !ok || c == nil {
				l = append(l, obj{"n": n, "bad": true})
				continue
			}
			o := obj{"n": n, "type": "EDS", "lb": "ROUND_ROBIN", "ep": c.EndpointName, "od": obj{"th": -1, "vol": -1}, "inline": []any{}}
			switch c.DiscoveryType {
			case xdsresource.ClusterDiscoveryTypeLogicalDNS:
				o["type"] = "LOGICAL_DNS"
			case xdsresource.ClusterDiscoveryTypeStatic:
				o["type"] = "STATIC"
			}
			if c.LbPolicy == xdsresource.ClusterLbRingHash {
				o["lb"] = "RING_HASH"
			}
			if od := c.OutlierDetection; od != nil {
				o["od"] = obj{"th": int(od.FailurePercentageThreshold), "vol": int(od.FailurePercentageRequestVolume)}
			}
			if c.InlineEDS() != nil {
				o["inline"] = []any{d.endpoints(c.InlineEDS())}
			}
			l = append(l, o)
		}
	case "EDS":
		var m map[string]xdsresource.Resource
		m, err = xdsresource.UnmarshalEDS(rs)
		for _, n := range sortedKeys(m) {
			r, ok := m[n].(*xdsresource.EndpointsResource)
			if !ok {
				l = append(l, obj{"n": n, "bad": true})
				continue
			}
			if r == nil {
				l = append(l, obj{"n": n, "locs": []any{}})
				continue
			}
			l = append(l, obj{"n": n, "locs": d.endpoints(r)})
		}
	case "NDS":
		var m *xdsresource.NDSResource
		m, err = xdsresource.UnmarshalNDS(rs)
		if m != nil {
			for _, h := range sortedKeys(m.NameTable) {
				ips := m.NameTable[h]
				if ips == nil {
					ips = []string{}
				}
				l = append(l, obj{"host": h, "ips": ips})
			}
		}
	}
	e["err"], e["res"] = err != nil, l
	return e
}

// facts are what a reader of the protocol can say about the resources without the decoders.
func facts(t string, rs []*anypb.Any) obj {
	f := obj{"n": len(rs), "url": true, "parse": true, "nested": true, "soft": true, "missing": false, "odd": false}
	table := func(rc *v3route.RouteConfiguration) {
		for _, vh := range rc.GetVirtualHosts() {
			for _, r := range vh.GetRoutes() {
				if r.GetMatch() == nil || r.GetAction() == nil {
					f["missing"] = true
				}
			}
		}
	}
	for _, r := range rs {
		if r.GetTypeUrl() != typeURL[t] {
			f["url"] = false
			continue
		}
		m := cfgMessage(t, obj{})
		proto.Reset(m)
		if proto.Unmarshal(r.GetValue(), m) != nil {
			f["parse"] = false
			continue
		}
		switch v := m.(type) {
		case *v3route.RouteConfiguration:
			table(v)
		case *v3listener.Listener:
			chains := append([]*v3listener.FilterChain{}, v.GetFilterChains()...)
			if v.GetDefaultFilterChain() != nil {
				chains = append(chains, v.GetDefaultFilterChain())
			}
			for _, c := range chains {
				for _, fl := range c.GetFilters() {
					tc := fl.GetTypedConfig()
					switch tc.GetTypeUrl() {
					case xdsresource.ThriftProxyTypeURL:
						tp := &v3thrift.ThriftProxy{}
						if proto.Unmarshal(tc.GetValue(), tp) != nil {
							f["nested"] = false
							continue
						}
						for _, r := range tp.GetRouteConfig().GetRoutes() {
							if r.GetMatch() == nil || r.GetRoute() == nil {
								f["missing"] = true
							}
						}
					case xdsresource.HTTPConnManagerTypeURL:
						h := &v3hcm.HttpConnectionManager{}
						if proto.Unmarshal(tc.GetValue(), h) != nil {
							f["nested"] = false
							continue
						}
						if rds, ok := h.GetRouteSpecifier().(*v3hcm.HttpConnectionManager_Rds); ok && rds.Rds.GetRouteConfigName() == "" {
							f["odd"] = true
						}
						table(h.GetRouteConfig())
						for _, hf := range h.GetHttpFilters() {
							var x proto.Message
							switch hf.GetTypedConfig().GetTypeUrl() {
							case xdsresource.RateLimitTypeURL:
								x = &v3ratelimit.LocalRateLimit{}
							case xdsresource.TypedStructTypeURL:
								x = &udpatypev1.TypedStruct{}
							default:
								continue
							}
							if proto.Unmarshal(hf.GetTypedConfig().GetValue(), x) != nil {
								f["soft"] = false
							}
						}
					}
				}
			}
		}
	}
	return f
}

/* --------------------------------- worlds -------------------------------- */

// start makes the manager of a world; it is the current one of the suites.
func start(c *cp, cfg *manager.XDSServerConfig) (xdsManager, error) {
	manager.VerifADSClient = func(*manager.XDSServerConfig) manager.ADSClient { c.mu.Lock(); c.opened++; c.mu.Unlock(); return c }
	current.use(nil)
	type result struct {
		m   xdsManager
		err error
	}
	ch := make(chan result, 1)
	go func() {
		m, err := manager.NewXDSResourceManager(nil, manager.Option{F: func(o *manager.Options) { o.XDSSvrConfig = cfg; o.DumpPath = os.DevNull }})
		if err != nil {
			// a nil pointer in an interface is not nil.
			if m != nil {
				ch <- result{m, err}
				return
			}
			ch <- result{nil, err}
			return
		}
		ch <- result{m, err}
	}()
	select {
	case r := <-ch:
		if r.err == nil {
			current.use(r.m)
		}
		return r.m, r.err
	case <-time.After(10 * time.Minute):
		return nil, errors.New("initialisation hangs")
	}
}

func stop(c *cp, m xdsManager) {
	if m == nil {
		return
	}
	m.Close()
	for i := 0; i < 30; i++ {
		c.failStream()
		time.Sleep(time.Minute)
		synctest.Wait()
	}
}

func (c *cp) configure(p obj) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for k, t := range map[string]string{"lis": "LDS", "tabs": "RDS", "cls": "CDS", "clas": "EDS"} {
		c.res[t] = map[string]*anypb.Any{}
		for _, x := range list(p[k]) {
			o := x.(obj)
			c.res[t][str(o["n"])] = cfgResource(t, o)
		}
	}
}

func (c *cp) behave(p obj) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.mute, c.bad, c.muts = map[string]bool{}, map[string]bool{}, nil
	for _, t := range strs(p["mute"]) {
		c.mute[t] = true
	}
	for _, t := range strs(p["bad"]) {
		c.bad[t] = true
	}
	c.muts = list(p["muts"])
}

type mdKey struct{}

func worldRow(row obj, emit func(ev)) {
	cfg, _ := row["cfg"].(obj)
	c := newCP()
	phases := list(row["phases"])
	c.configure(phases[0].(obj))
	c.nds = []*anypb.Any{cfgResource("NDS", obj{"tab": row["hosts"]})}
	m, err := start(c, &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "istiod:15010", NDSNotRequired: cfg["nds"] == false, LDSNotRequired: cfg["lds"] == false,
		FetchXDSTimeout: time.Duration(num(cfg["timeout"])) * time.Millisecond})
	if err != nil {
		emit(ev{"e": "fail", "msg": err.Error()})
		return
	}
	opts := []xdssuite.Option{xdssuite.WithMatchRetryMethod(cfg["mm"] == true)}
	if str(cfg["ext"]) == "custom" {
		opts = append(opts, xdssuite.WithRouterMetaExtractor(func(ctx context.Context) map[string]string {
			md, _ := ctx.Value(mdKey{}).(map[string]string)
			return md
		}))
	}
	o := clientOptions(opts...)
	router := xdssuite.NewXDSRouter(opts...)
	for i, x := range phases {
		p := x.(obj)
		if i > 0 {
			c.configure(p)
		}
		c.behave(p)
		synctest.Wait()
		if i > 0 || c.muts != nil {
			c.push("LDS", "RDS", "CDS", "EDS")
		}
		synctest.Wait()
		for j, a := range list(p["acts"]) {
			e := ev{"e": "act", "p": i + 1, "i": j + 1}
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer func() {
					if r := recover(); r != nil {
						e["panic"] = true
						e["msg"] = fmt.Sprint(r) + string(debug.Stack())
					}
				}()
				e["panic"] = false
				act(a.(obj), str(cfg["ext"]), o, router, e)
			}()
			select {
			case <-done:
				emit(e)
			case <-time.After(time.Minute):
				emit(ev{"e": "act", "p": i + 1, "i": j + 1, "hang": true})
				<-done
			}
			synctest.Wait()
		}
	}
	_ = o.RetryContainer.Close()
	stop(c, m)
}

func callCtx(a obj, ext string) context.Context {
	ctx := context.Background()
	md := strMap(a["md"])
	if ext == "custom" {
		return context.WithValue(ctx, mdKey{}, md)
	}
	// metainfo has no empty values.
	for _, k := range sortedKeys(md) {
		ctx = metainfo.WithValue(ctx, k, md[k])
	}
	return ctx
}

func act(a obj, ext string, o *client.Options, router *xdssuite.XDSRouter, e ev) {
	switch str(a["k"]) {
	case "call":
		ri := newRI(a)
		ctx := rpcinfo.NewCtxWithRPCInfo(callCtx(a, ext), ri)
		n, at := 0, ""
		next := func(ctx context.Context, req, resp interface{}) error {
			n++
			at, _ = rpcinfo.GetRPCInfo(ctx).To().Tag(xdssuite.RouterClusterKey)
			if a["nextfail"] == true {
				return errNext
			}
			return nil
		}
		call := o.XDSRouterMiddleware(endpoint.Endpoint(next))
		var err error
		if str(a["via"]) == "retry" {
			_, _, err = o.RetryContainer.WithRetryIfNeeded(ctx, nil, func(ctx context.Context, _ retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
				err := call(ctx, nil, nil)
				return ri, nil, err
			}, ri, nil)
		} else {
			err = call(ctx, nil, nil)
		}
		e["err"] = ""
		if err != nil {
			e["err"] = "other"
			if errors.Is(err, kerrors.ErrRoute) {
				e["err"] = "route"
			}
		}
		tag, ok := ri.To().Tag(xdssuite.RouterClusterKey)
		if !ok {
			tag = ""
		}
		_ = remoteinfo.AsRemoteInfo(ri.To()).SetTag(xdssuite.RouterClusterKey, "?")
		tag2, _ := ri.To().Tag(xdssuite.RouterClusterKey)
		e["next"], e["at"], e["tag"], e["locked"] = n, at, tag, ok && tag2 == tag
		e["to"] = us(ri.Config().RPCTimeout())
		if ri.Config().RPCTimeout() == callTimeout(a) {
			e["to"] = -1
		}
	case "pick":
		counts, errs := map[string]int{}, 0
		ri := newRI(a)
		ctx := callCtx(a, ext)
		for i := 0; i < num(a["times"]); i++ {
			r, err := router.Route(ctx, ri)
			if err != nil {
				errs++
				if errs > 3 {
					// it fails each time: do not wait for what times out.
					break
				}
				continue
			}
			counts[r.ClusterPicked]++
		}
		l := []any{}
		for _, n := range sortedKeys(counts) {
			l = append(l, obj{"n": n, "k": counts[n]})
		}
		e["counts"], e["errs"] = l, errs
	case "resolve":
		to := rpcinfo.NewEndpointInfo("svc", "m", nil, map[string]string{xdssuite.RouterClusterKey: str(a["c"])})
		var r discovery.Resolver = o.Resolver
		if r == nil {
			r = xdssuite.NewXDSResolver()
		}
		desc := r.Target(context.Background(), to)
		res, err := r.Resolve(context.Background(), desc)
		l := []any{}
		for _, in := range res.Instances {
			l = append(l, obj{"addr": in.Address().String(), "w": in.Weight()})
		}
		e["tgt"], e["err"], e["eps"], e["cacheable"], e["key"] = desc, err != nil, l, res.Cacheable, res.CacheKey
	}
}

/* ---------------------------------- boot --------------------------------- */

func setRowEnv(env obj) {
	os.Setenv("POD_NAMESPACE", str(env["ns"]))
	os.Setenv("POD_NAME", str(env["pod"]))
	os.Setenv("INSTANCE_IP", str(env["ip"]))
	os.Setenv("KITEX_XDS_DOMAIN", str(env["dom"]))
	os.Setenv("ISTIO_VERSION", str(env["ver"]))
	switch str(env["raw"]) {
	case "json", "cut":
		var l []string
		for _, x := range list(env["metas"]) {
			m := x.(obj)
			k, _ := json.Marshal(str(m["k"]))
			v := str(m["v"])
			if str(m["t"]) == "s" {
				b, _ := json.Marshal(v)
				v = string(b)
			}
			l = append(l, string(k)+":"+v)
		}
		end := "}"
		if str(env["raw"]) == "cut" { // not JSON either
			end = ",}"
		}
		os.Setenv("KITEX_XDS_METAS", "{"+strings.Join(l, ",")+end)
	case "bad":
		os.Setenv("KITEX_XDS_METAS", "{not json")
	default:
		os.Unsetenv("KITEX_XDS_METAS")
	}
}

func metaList(n *v3core.Node) []any {
	l := []any{}
	fs := n.GetMetadata().GetFields()
	for _, k := range sortedKeys(fs) {
		switch v := fs[k].AsInterface().(type) {
		case string:
			l = append(l, obj{"k": k, "t": "s", "v": v})
		case float64:
			l = append(l, obj{"k": k, "t": "n", "v": fmt.Sprint(v)})
		case bool:
			l = append(l, obj{"k": k, "t": "b", "v": fmt.Sprint(v)})
		default:
			b, _ := json.Marshal(v)
			l = append(l, obj{"k": k, "t": "o", "v": string(b)})
		}
	}
	return l
}

func bootRow(row obj, emit func(ev)) {
	env, _ := row["env"].(obj)
	setRowEnv(env)
	c := newCP()
	nodes, order := map[string]obj{}, []string{}
	c.node = func(n *v3core.Node, t string) {
		o := obj{"id": n.GetId(), "md": metaList(n)}
		b, _ := json.Marshal(o)
		if _, ok := nodes[string(b)]; !ok {
			nodes[string(b)] = o
			order = append(order, string(b))
		}
	}
	set := func(p obj, i int) {
		var lis []any
		for _, n := range strs(p["lis"]) {
			lis = append(lis, obj{"n": n, "chains": []any{obj{"filters": []any{obj{"k": "http", "rds": fmt.Sprintf("%s@%d", n, i)}}}}})
		}
		c.configure(obj{"lis": lis})
		c.mu.Lock()
		c.nds = nil
		for _, t := range list(p["tabs"]) {
			c.nds = append(c.nds, cfgResource("NDS", obj{"tab": t}))
		}
		c.mu.Unlock()
	}
	phases := list(row["phases"])
	set(phases[0].(obj), 1)
	m, err := start(c, &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "istiod:15010", FetchXDSTimeout: 100 * time.Millisecond})
	e := ev{"e": "boot", "err": err != nil, "half": err != nil && m != nil, "streams": c.streams}
	if err != nil {
		emit(e)
		if m != nil {
			stop(c, m)
		}
		return
	}
	emit(e)
	names := strs(row["lookups"])
	for i, p := range phases {
		if i > 0 {
			set(p.(obj), i+1)
			c.push("NDS")
			synctest.Wait()
			c.push("LDS")
			synctest.Wait()
		}
		type got struct {
			n, v string
		}
		ch := make(chan got, len(names))
		for _, n := range names {
			go func() {
				defer func() {
					if r := recover(); r != nil {
						ch <- got{n, "panic"}
					}
				}()
				v, err := m.Get(context.Background(), xdsresource.ListenerType, n)
				if err != nil {
					ch <- got{n, ""}
					return
				}
				l, ok := v.(*xdsresource.ListenerResource)
				if !ok || l == nil || len(l.NetworkFilters) != 1 {
					ch <- got{n, "wrong"}
					return
				}
				ch <- got{n, l.NetworkFilters[0].RouteConfigName}
			}()
		}
		l := []any{}
		for range names {
			g := <-ch
			l = append(l, obj{"n": g.n, "v": g.v})
		}
		sort.Slice(l, func(i, j int) bool { return str(l[i].(obj)["n"]) < str(l[j].(obj)["n"]) })
		emit(ev{"e": "bound", "p": i + 1, "l": l})
	}
	// the node is the same after a rejected response and on another stream.
	c.behave(obj{"bad": []any{"LDS"}})
	c.push("LDS")
	synctest.Wait()
	c.failStream()
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	c.mu.Lock()
	var l []any
	for _, k := range order {
		l = append(l, nodes[k])
	}
	e = ev{"e": "nodes", "l": l, "streams": c.streams, "acks": c.acks, "nacks": c.nacks}
	c.mu.Unlock()
	emit(e)
	stop(c, m)
}

// initRow runs xds.Init several times; it needs a process of its own.
func initRow(row obj, emit func(ev)) {
	for i, x := range list(row["steps"]) {
		st := x.(obj)
		setRowEnv(st["env"].(obj))
		// those that initialise at the same time wait for each other when they have got as far as this.
		n, mode := 1, str(st["mode"])
		if mode == "race" {
			n = 4
		}
		var mu sync.Mutex
		entered, all := 0, make(chan struct{})
		manager.VerifADSClient = func(*manager.XDSServerConfig) manager.ADSClient {
			mu.Lock()
			defer mu.Unlock()
			entered++
			if entered == n {
				close(all)
			}
			c := newCP()
			c.configure(obj{"cls": []any{obj{"n": "c1", "inline": []any{[]any{[]any{obj{"a": fmt.Sprintf("cp%d-%d", i+1, entered), "p": 80.0, "w": 1.0}}}}}}})
			return c
		}
		opt := manager.Option{F: func(o *manager.Options) {
			o.DumpPath = os.DevNull
			o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "istiod:15010", NDSNotRequired: true, LDSNotRequired: true, FetchXDSTimeout: 20 * time.Second}
			if mode == "race" {
				select {
				case <-all:
				case <-time.After(200 * time.Millisecond):
				}
			}
		}}
		who := func() string {
			if !xdssuite.XDSInited() {
				return ""
			}
			r, err := xdssuite.NewXDSResolver().Resolve(context.Background(), "c1")
			if err == nil && len(r.Instances) == 1 {
				return r.Instances[0].Address().String()
			}
			return fmt.Sprint(err)
		}
		var err error
		first := ""
		switch mode {
		case "set":
			// the manager is set by the user.
			m, err2 := manager.NewXDSResourceManager(nil, opt)
			if err = err2; err == nil {
				err = xdssuite.SetXDSResourceManager(m)
			}
		case "race":
			errs := make(chan error, n)
			for j := 0; j < n; j++ {
				go func() { errs <- xds.Init(opt) }()
			}
			err = <-errs
			first = who()
			for j := 1; j < n; j++ {
				if e := <-errs; e != nil {
					err = e
				}
			}
		default:
			err = xds.Init(opt)
		}
		e := ev{"e": "init", "i": i + 1, "err": err != nil, "inited": xdssuite.XDSInited(), "cp": who()}
		e["cp0"] = e["cp"]
		if mode == "race" {
			e["cp0"] = first
		}
		emit(e)
	}
}
