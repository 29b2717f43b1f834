package harness

import (
	"errors"
	"time"

	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/transport"

	"github.com/kitex-contrib/xds/xdssuite"
)

var errNext = errors.New("call failed")

// callTimeout is what the timeout of a call is before it is routed: more or less than that of any route.
func callTimeout(a obj) time.Duration {
	md, _ := a["md"].(obj)
	if l, ok := a["md"].([]any); ok && len(l)%2 == 1 || len(md)%2 == 1 {
		return 333333 * time.Nanosecond
	}
	return 777 * time.Second
}

func newRI(a obj) rpcinfo.RPCInfo {
	to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: str(a["svc"]), Method: str(a["method"]), Tags: map[string]string{}}, str(a["method"]))
	if tag := str(a["tag"]); tag != "" {
		_ = to.SetTag(xdssuite.RouterClusterKey, tag)
	}
	cfg := rpcinfo.NewRPCConfig()
	mc := rpcinfo.AsMutableRPCConfig(cfg)
	_ = mc.SetRPCTimeout(callTimeout(a))
	tp, ok := map[string]transport.Protocol{
		"pure": transport.PurePayload, "framed": transport.Framed, "ttframed": transport.TTHeaderFramed, "http": transport.HTTP,
	}[str(a["tp"])]
	if !ok {
		tp = transport.TTHeader
	}
	if a["grpc"] == true {
		tp = transport.GRPC
	}
	_ = mc.SetTransportProtocol(tp)
	inv := rpcinfo.NewInvocation(str(a["isvc"]), str(a["method"]), str(a["pkg"]))
	return rpcinfo.NewRPCInfo(rpcinfo.NewEndpointInfo("client", "", nil, nil), to, inv, cfg, rpcinfo.NewRPCStats())
}
