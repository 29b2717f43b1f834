package harness

import (
	"fmt"

	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"time"

	"github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

// The configurations of Config.tla as the control plane encodes them.

func micros(v int) *durationpb.Duration { return durationpb.New(time.Duration(v) * time.Microsecond) }

// opt is nil for a negative value.
func opt(v int) *wrapperspb.UInt32Value {
	if v < 0 {
		return nil
	}
	return u32(uint32(v))
}

func cfgResource(t string, o obj) *anypb.Any { return anyOf(typeURL[t], cfgMessage(t, o)) }

func cfgMessage(t string, o obj) proto.Message {
	switch t {
	case "LDS":
		return cfgListener(o)
	case "RDS":
		return cfgTable(o)
	case "CDS":
		return cfgCluster(o)
	case "EDS":
		return &v3endpoint.ClusterLoadAssignment{ClusterName: str(o["n"]), Endpoints: cfgLocs(list(o["locs"]))}
	case "NDS":
		nt := &istio_networking_nds_v1.NameTable{Table: map[string]*istio_networking_nds_v1.NameTable_NameInfo{}}
		for _, x := range list(o["tab"]) {
			h := x.(obj)
			nt.Table[str(h["host"])] = &istio_networking_nds_v1.NameTable_NameInfo{Ips: strs(h["ips"]), Registry: "Kubernetes"}
		}
		return nt
	}
	panic("type " + t)
}

func cfgListener(o obj) *v3listener.Listener {
	l := &v3listener.Listener{Name: str(o["n"])}
	for _, c := range list(o["chains"]) {
		l.FilterChains = append(l.FilterChains, cfgChain(c.(obj)))
	}
	for _, c := range list(o["dflt"]) {
		l.DefaultFilterChain = cfgChain(c.(obj))
	}
	return l
}

func cfgChain(o obj) *v3listener.FilterChain {
	fc := &v3listener.FilterChain{}
	if p := num(o["port"]); p != 0 {
		fc.FilterChainMatch = &v3listener.FilterChainMatch{DestinationPort: u32(uint32(p)), TransportProtocol: "raw_buffer"}
	} else if num(o["m"]) == 1 {
		fc.FilterChainMatch = &v3listener.FilterChainMatch{TransportProtocol: "tls"}
	}
	for _, x := range list(o["filters"]) {
		f := x.(obj)
		nf := &v3listener.Filter{Name: str(f["k"])}
		switch str(f["k"]) {
		case "http":
			nf.ConfigType = &v3listener.Filter_TypedConfig{TypedConfig: anyOf(xdsresource.HTTPConnManagerTypeURL, cfgHCM(f))}
		case "thrift":
			tp := &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Name: "thrift"}}
			for _, r := range list(f["routes"]) {
				tp.RouteConfig.Routes = append(tp.RouteConfig.Routes, cfgThriftRoute(r.(obj)))
			}
			nf.ConfigType = &v3listener.Filter_TypedConfig{TypedConfig: anyOf(xdsresource.ThriftProxyTypeURL, tp)}
		default:
			nf.ConfigType = &v3listener.Filter_TypedConfig{TypedConfig: &anypb.Any{
				TypeUrl: "type.googleapis.com/envoy.extensions.filters.network.tcp_proxy.v3.TcpProxy", Value: []byte{0x0a, 0x01, 0x78}}}
		}
		fc.Filters = append(fc.Filters, nf)
	}
	return fc
}

func number(n int) *structpb.Value { return structpb.NewNumberValue(float64(n)) }

func cfgHCM(o obj) *v3hcm.HttpConnectionManager {
	m := &v3hcm.HttpConnectionManager{StatPrefix: "x"}
	if l := list(o["inline"]); len(l) > 0 {
		m.RouteSpecifier = &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: cfgTable(l[0].(obj))}
	} else {
		m.RouteSpecifier = &v3hcm.HttpConnectionManager_Rds{Rds: &v3hcm.Rds{RouteConfigName: str(o["rds"])}}
	}
	for _, x := range list(o["hf"]) {
		f := x.(obj)
		hf := &v3hcm.HttpFilter{Name: str(f["k"])}
		typed := func(a *anypb.Any) { hf.ConfigType = &v3hcm.HttpFilter_TypedConfig{TypedConfig: a} }
		ts := func(fields map[string]*structpb.Value) *anypb.Any {
			return anyOf(xdsresource.TypedStructTypeURL, &udpatypev1.TypedStruct{
				TypeUrl: "type.googleapis.com/envoy.extensions.filters.http.local_ratelimit.v3.LocalRateLimit", Value: &structpb.Struct{Fields: fields}})
		}
		switch str(f["k"]) {
		case "rl":
			typed(anyOf(xdsresource.RateLimitTypeURL, &v3ratelimit.LocalRateLimit{StatPrefix: []string{"rl", ""}[num(f["max"])/5%2], TokenBucket: &v3type.TokenBucket{
				MaxTokens: uint32(num(f["max"])), TokensPerFill: u32(uint32(num(f["fill"]))), FillInterval: durationpb.New(time.Second)}}))
		case "rlnone":
			typed(anyOf(xdsresource.RateLimitTypeURL, &v3ratelimit.LocalRateLimit{StatPrefix: "rl"}))
		case "ts":
			typed(ts(map[string]*structpb.Value{"stat_prefix": structpb.NewStringValue("rl"), "token_bucket": structpb.NewStructValue(&structpb.Struct{
				Fields: map[string]*structpb.Value{"max_tokens": number(num(f["max"])), "tokens_per_fill": number(num(f["fill"]))}})}))
		case "tsother":
			typed(ts(map[string]*structpb.Value{"something": structpb.NewStringValue("else")}))
		case "tsnone":
			typed(ts(nil))
		case "discovery":
			hf.ConfigType = &v3hcm.HttpFilter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}
		case "plain":
		default:
			typed(&anypb.Any{TypeUrl: "type.googleapis.com/envoy.extensions.filters.http.router.v3.Router"})
		}
		m.HttpFilters = append(m.HttpFilters, hf)
	}
	return m
}

func cfgTable(o obj) *v3route.RouteConfiguration {
	rc := &v3route.RouteConfiguration{Name: str(o["n"])}
	for _, x := range list(o["vhs"]) {
		v := x.(obj)
		vh := &v3route.VirtualHost{Name: str(v["n"]), Domains: []string{"*"}}
		for _, r := range list(v["routes"]) {
			vh.Routes = append(vh.Routes, cfgRoute(r.(obj)))
		}
		rc.VirtualHosts = append(rc.VirtualHosts, vh)
	}
	return rc
}

func cfgHeaders(l []any) []*v3route.HeaderMatcher {
	var ret []*v3route.HeaderMatcher
	for _, x := range l {
		h := x.(obj)
		sm := &v3matcher.StringMatcher{}
		switch v := str(h["v"]); str(h["k"]) {
		case "exact":
			sm.MatchPattern = &v3matcher.StringMatcher_Exact{Exact: v}
		case "prefix":
			sm.MatchPattern = &v3matcher.StringMatcher_Prefix{Prefix: v}
		case "regex":
			sm.MatchPattern = &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: v}}
		}
		ret = append(ret, &v3route.HeaderMatcher{Name: str(h["h"]), HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: sm}})
	}
	return ret
}

// weights multiplies the weights by the scale of the route, a weight of zero may be absent.
func weights(r obj) (names []string, ws []*wrapperspb.UInt32Value) {
	scale := 1
	if s := num(r["scale"]); s > 0 {
		scale = s
	}
	for i, x := range list(r["cl"]) {
		c := x.(obj)
		names = append(names, str(c["n"]))
		w := u32(uint32(num(c["w"]) * scale))
		if w.Value == 0 && i%2 == 1 {
			w = nil
		}
		ws = append(ws, w)
	}
	return
}

func cfgRoute(o obj) *v3route.Route {
	r := &v3route.Route{Name: "r", Match: &v3route.RouteMatch{Headers: cfgHeaders(list(o["hdrs"]))}}
	p, _ := o["path"].(obj)
	switch v := str(p["v"]); str(p["k"]) {
	case "path":
		r.Match.PathSpecifier = &v3route.RouteMatch_Path{Path: v}
	case "prefix":
		r.Match.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: v}
	case "regex":
		r.Match.PathSpecifier = &v3route.RouteMatch_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: v}}
	}
	if str(o["act"]) == "redirect" {
		r.Action = &v3route.Route_Redirect{Redirect: &v3route.RedirectAction{}}
		return r
	}
	act := &v3route.RouteAction{}
	names, ws := weights(o)
	if str(o["act"]) == "single" {
		act.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: names[0]}
	} else {
		wc := &v3route.WeightedCluster{}
		for i := range names {
			wc.Clusters = append(wc.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: names[i], Weight: ws[i]})
		}
		act.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: wc}
	}
	if to := num(o["to"]); to >= 0 {
		act.Timeout = micros(to)
	}
	if rp, ok := o["rp"].(obj); ok && num(rp["n"]) >= 0 {
		act.RetryPolicy = cfgRetry(rp)
	}
	r.Action = &v3route.Route_Route{Route: act}
	return r
}

func cfgRetry(rp obj) *v3route.RetryPolicy {
	p := retryPolicy(obj{"n": rp["n"], "er": rp["er"], "methods": rp["methods"], "base": -1})
	p.PerTryTimeout = micros(num(rp["ptt"]))
	if v := num(rp["pti"]); v > 0 {
		p.PerTryIdleTimeout = micros(v)
	}
	if v := num(rp["base"]); v >= 0 {
		p.RetryBackOff = &v3route.RetryPolicy_RetryBackOff{BaseInterval: micros(v)}
		if m := num(rp["max"]); m >= 0 {
			p.RetryBackOff.MaxInterval = micros(m)
		}
	}
	// other retriable headers mean nothing, and neither does their order.
	p.RetriableHeaders = append(p.RetriableHeaders, &v3route.HeaderMatcher{Name: "x-other", HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{
		StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: "0.7"}}}})
	permute(p.RetriableHeaders, num(rp["ord"]))
	return p
}

func cfgThriftRoute(o obj) *v3thrift.Route {
	r := &v3thrift.Route{Match: &v3thrift.RouteMatch{Headers: cfgHeaders(list(o["hdrs"]))}, Route: &v3thrift.RouteAction{}}
	if m := str(o["m"]); m != "" || len(list(o["hdrs"]))%2 == 0 {
		r.Match.MatchSpecifier = &v3thrift.RouteMatch_MethodName{MethodName: m}
	}
	names, ws := weights(o)
	if str(o["act"]) == "single" {
		r.Route.ClusterSpecifier = &v3thrift.RouteAction_Cluster{Cluster: names[0]}
	} else {
		wc := &v3thrift.WeightedCluster{}
		for i := range names {
			wc.Clusters = append(wc.Clusters, &v3thrift.WeightedCluster_ClusterWeight{Name: names[i], Weight: ws[i]})
		}
		r.Route.ClusterSpecifier = &v3thrift.RouteAction_WeightedClusters{WeightedClusters: wc}
	}
	return r
}

func cfgLocs(locs []any) []*v3endpoint.LocalityLbEndpoints {
	var ret []*v3endpoint.LocalityLbEndpoints
	for i, x := range locs {
		l := &v3endpoint.LocalityLbEndpoints{Locality: &v3core.Locality{Zone: fmt.Sprint("z", i)}, LoadBalancingWeight: u32(uint32(i + 1)), Priority: uint32(i % 2)}
		for _, y := range list(x) {
			e := y.(obj)
			l.LbEndpoints = append(l.LbEndpoints, &v3endpoint.LbEndpoint{
				HealthStatus:        v3core.HealthStatus(num(e["h"])),
				LoadBalancingWeight: opt(num(e["w"])),
				HostIdentifier:      &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{Address: sockAddr(str(e["a"]), uint32(num(e["p"])))}},
			})
		}
		ret = append(ret, l)
	}
	return ret
}

func cfgCluster(o obj) *v3cluster.Cluster {
	c := &v3cluster.Cluster{Name: str(o["n"])}
	switch str(o["type"]) {
	case "EDS":
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}
	case "LOGICAL_DNS":
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_LOGICAL_DNS}
	case "STATIC":
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_STATIC}
	}
	if str(o["lb"]) == "RING_HASH" {
		c.LbPolicy = v3cluster.Cluster_RING_HASH
	}
	if s := str(o["svc"]); s != "" {
		c.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: s}
	} else if num(o["odx"]) == 1 {
		c.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{}
	}
	if od, _ := o["od"].(obj); num(od["th"]) >= 0 || num(od["vol"]) >= 0 {
		c.OutlierDetection = &v3cluster.OutlierDetection{FailurePercentageThreshold: opt(num(od["th"])), FailurePercentageRequestVolume: opt(num(od["vol"]))}
		if num(o["odx"]) == 1 {
			// what else there is says nothing about percentages.
			c.OutlierDetection.Consecutive_5Xx = u32(3)
			c.OutlierDetection.EnforcingFailurePercentage = u32(44)
			c.OutlierDetection.FailurePercentageMinimumHosts = u32(9)
		}
	}
	if l := list(o["inline"]); len(l) > 0 {
		c.LoadAssignment = &v3endpoint.ClusterLoadAssignment{ClusterName: "inline-" + c.Name, Endpoints: cfgLocs(l[0].([]any))}
	}
	return c
}

// permute puts the elements into the k-th order, 1 is the one they are in.
func permute[T any](l []T, k int) {
	for i := range l {
		j := i
		if k > 0 {
			j = i + (k-1)%(len(l)-i)
			k = (k-1)/(len(l)-i) + 1
		}
		l[i], l[j] = l[j], l[i]
	}
}
