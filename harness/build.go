package harness

import (
	"fmt"
	"time"

	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func anyOf(url string, m proto.Message) *anypb.Any {
	return &anypb.Any{TypeUrl: url, Value: must(proto.MarshalOptions{Deterministic: true}.Marshal(m))}
}

func u32(v uint32) *wrapperspb.UInt32Value { return &wrapperspb.UInt32Value{Value: v} }

func ms(v int) *durationpb.Duration { return durationpb.New(time.Duration(v) * time.Millisecond) }

// accessors of decoded JSON.
type obj = map[string]any

func num(v any) int {
	switch n := v.(type) {
	case float64:
		return int(n)
	case int:
		return n
	}
	return 0
}

func str(v any) string { s, _ := v.(string); return s }

func list(v any) []any { l, _ := v.([]any); return l }

func strs(v any) []string {
	ret := []string{}
	for _, x := range list(v) {
		ret = append(ret, str(x))
	}
	return ret
}

// resource builds one resource of a history from its abstract form {n, c, ...}.
func resource(t string, r obj) *anypb.Any {
	url := typeURL[t]
	name, cid := str(r["n"]), fmt.Sprintf("cid%dx", num(r["c"]))
	switch str(r["bad"]) {
	case "url":
		return &anypb.Any{TypeUrl: xdsresource.SecretTypeURL, Value: nil}
	case "bytes":
		return &anypb.Any{TypeUrl: url, Value: []byte{0x0a, 0xff, 0x01, 0x02}}
	}
	var m proto.Message
	switch t {
	case "LDS":
		m = histListener(name, cid, r)
	case "RDS":
		m = histRoute(name, cid, r)
	case "CDS":
		m = histCluster(name, cid, r)
	case "EDS":
		m = &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: []*v3endpoint.LocalityLbEndpoints{{
			LbEndpoints: []*v3endpoint.LbEndpoint{{
				HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{Address: sockAddr(cid, 8080)}},
			}},
		}}}
	case "NDS":
		nt := &istio_networking_nds_v1.NameTable{Table: map[string]*istio_networking_nds_v1.NameTable_NameInfo{}}
		for _, x := range list(r["tab"]) {
			h := x.(obj)
			nt.Table[str(h["host"])] = &istio_networking_nds_v1.NameTable_NameInfo{Ips: strs(h["ips"])}
		}
		m = nt
	}
	return anyOf(url, m)
}

func sockAddr(host string, port uint32) *v3core.Address {
	return &v3core.Address{Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{
		Address: host, PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: port},
	}}}
}

func histListener(name, cid string, r obj) *v3listener.Listener {
	l := &v3listener.Listener{Name: name}
	chain := func(port int, m *v3hcm.HttpConnectionManager) {
		fc := &v3listener.FilterChain{Filters: []*v3listener.Filter{{
			ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: anyOf(xdsresource.HTTPConnManagerTypeURL, m)},
		}}}
		if port != 0 {
			fc.FilterChainMatch = &v3listener.FilterChainMatch{DestinationPort: u32(uint32(port))}
		}
		l.FilterChains = append(l.FilterChains, fc)
	}
	for i, x := range list(r["chains"]) {
		c := x.(obj)
		rc := fmt.Sprintf("in-%d-%s", i, cid)
		hf := []any{obj{"k": "router"}}
		if tok := num(c["tok"]); tok >= 0 {
			k := "rl"
			if str(c["kd"]) == "ts" {
				k = "ts"
			}
			hf = append(hf, obj{"k": k, "max": 2*tok + 7, "fill": tok})
			if num(c["first"]) == 1 {
				hf[0], hf[1] = hf[1], hf[0]
			}
		}
		f := obj{"k": "http", "rds": rc, "hf": hf}
		switch str(c["kd"]) {
		case "thrift":
			f = obj{"k": "thrift", "routes": []any{obj{"m": "none", "cl": []any{obj{"n": rc, "w": 1}}}}}
		case "rds":
		default:
			f["inline"] = []any{obj{"n": rc}}
		}
		fc := cfgChain(obj{"port": num(c["port"]), "filters": []any{f}})
		if str(c["kd"]) == "dflt" && num(c["port"]) == 0 {
			l.DefaultFilterChain = fc
		} else {
			l.FilterChains = append(l.FilterChains, fc)
		}
	}
	if len(l.FilterChains) == 0 && l.DefaultFilterChain == nil {
		if num(r["c"])%2 == 0 { // and the listener names one of the histories' tables
			chain(0, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_Rds{
				Rds: &v3hcm.Rds{RouteConfigName: fmt.Sprintf("r%d", 1+num(r["c"])/2%4)},
			}})
		}
		chain(0, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_Rds{
			Rds: &v3hcm.Rds{RouteConfigName: "rc-" + cid},
		}})
	}
	if str(r["bad"]) == "nomatch" {
		chain(0, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_RouteConfig{
			RouteConfig: &v3route.RouteConfiguration{Name: "in-" + cid, VirtualHosts: []*v3route.VirtualHost{{Routes: []*v3route.Route{{Name: "r"}}}}},
		}})
	}
	return l
}

func histRoute(name, cid string, r obj) *v3route.RouteConfiguration {
	vh := &v3route.VirtualHost{Name: "vh-" + cid}
	vhs := []*v3route.VirtualHost{vh}
	for _, x := range list(r["routes"]) {
		o := x.(obj)
		switch num(o["vh"]) {
		case 1: // in another virtual host
			vh = &v3route.VirtualHost{Name: fmt.Sprintf("vh%d-%s", len(vhs), cid)}
			vhs = append(vhs, vh)
		case 2: // of the same name
			vh = &v3route.VirtualHost{Name: "vh-" + cid}
			vhs = append(vhs, vh)
		}
		act := &v3route.RouteAction{}
		cls := strs(o["cl"])
		if len(cls) == 1 {
			act.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: cls[0]}
		} else {
			wc := &v3route.WeightedCluster{}
			for i, c := range cls {
				wt := uint32(10)
				if num(o["z"]) == i+1 {
					wt = 0
				}
				wc.Clusters = append(wc.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: c, Weight: u32(wt)})
			}
			act.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: wc}
		}
		if rp, ok := o["rp"].(obj); ok && num(rp["n"]) >= 0 {
			act.RetryPolicy = retryPolicy(rp)
		}
		vh.Routes = append(vh.Routes, &v3route.Route{
			Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
			Action: &v3route.Route_Route{Route: act},
		})
	}
	switch str(r["bad"]) {
	case "nomatch":
		vh.Routes = append(vh.Routes, &v3route.Route{Action: &v3route.Route_Route{Route: &v3route.RouteAction{}}})
	case "noaction":
		vh.Routes = append(vh.Routes, &v3route.Route{Match: &v3route.RouteMatch{}})
	}
	if num(r["novh"]) == 1 {
		vhs = nil
	}
	return &v3route.RouteConfiguration{Name: name, VirtualHosts: vhs}
}

// retryPolicy builds {n, ptt, er (per mille), methods, base, max}; base/max < 0: absent.
func retryPolicy(rp obj) *v3route.RetryPolicy {
	p := &v3route.RetryPolicy{RetryOn: "5xx", NumRetries: u32(uint32(num(rp["n"]))), PerTryTimeout: ms(num(rp["ptt"]))}
	hdr := func(k, v string) {
		p.RetriableHeaders = append(p.RetriableHeaders, &v3route.HeaderMatcher{Name: k,
			HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{
				MatchPattern: &v3matcher.StringMatcher_Exact{Exact: v}}}})
	}
	if er := num(rp["er"]); er > 0 {
		hdr("kitexRetryErrorRate", fmt.Sprintf("%g", float64(er)/1000))
	}
	if ms := strs(rp["methods"]); len(ms) > 0 {
		s := ms[0]
		for _, m := range ms[1:] {
			s += "," + m
		}
		hdr("kitexRetryMethods", s)
	}
	permute(p.RetriableHeaders, num(rp["ord"]))
	if num(rp["base"]) >= 0 {
		p.RetryBackOff = &v3route.RetryPolicy_RetryBackOff{BaseInterval: ms(num(rp["base"]))}
		if num(rp["max"]) >= 0 {
			p.RetryBackOff.MaxInterval = ms(num(rp["max"]))
		}
	}
	return p
}

func histCluster(name, cid string, r obj) *v3cluster.Cluster {
	c := &v3cluster.Cluster{Name: name, EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{ServiceName: "eds-" + cid}}
	if num(r["c"])%2 == 0 && len(name) == 2 && name[0] == 'c' { // the cluster names one of the histories' load assignments
		c.EdsClusterConfig.ServiceName = fmt.Sprintf("e%d", 1+num(r["c"])/2%3)
		c.LoadAssignment = &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: []*v3endpoint.LocalityLbEndpoints{{
			LbEndpoints: []*v3endpoint.LbEndpoint{{
				HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{Address: sockAddr(cid, 8080)}},
			}},
		}}}
	}
	if od, ok := r["od"].(obj); ok && num(od["th"]) >= 0 {
		c.OutlierDetection = &v3cluster.OutlierDetection{}
		if v := num(od["th"]); v > 0 || num(od["z"]) == 1 {
			c.OutlierDetection.FailurePercentageThreshold = u32(uint32(v))
		}
		if v := num(od["vol"]); v > 0 || num(od["z"]) == 1 {
			c.OutlierDetection.FailurePercentageRequestVolume = u32(uint32(v))
		}
	}
	return c
}
