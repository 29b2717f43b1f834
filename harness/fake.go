// Package harness drives the real kitex-contrib/xds code for the TLA+ conformance checks.
package harness

import (
	"context"
	"errors"
	"io"
	"sync"

	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	"github.com/cloudwego/kitex/pkg/streaming"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"

	"github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

var errStream = errors.New("stream broken")

var typeName = map[string]string{
	xdsresource.ListenerTypeURL:  "LDS",
	xdsresource.RouteTypeURL:     "RDS",
	xdsresource.ClusterTypeURL:   "CDS",
	xdsresource.EndpointTypeURL:  "EDS",
	xdsresource.NameTableTypeURL: "NDS",
}

var typeURL = map[string]string{
	"LDS": xdsresource.ListenerTypeURL,
	"RDS": xdsresource.RouteTypeURL,
	"CDS": xdsresource.ClusterTypeURL,
	"EDS": xdsresource.EndpointTypeURL,
	"NDS": xdsresource.NameTableTypeURL,
	"UNK": "type.googleapis.com/envoy.service.runtime.v3.Runtime",
	"SEC": xdsresource.SecretTypeURL,
}

var typeKind = map[string]xdsresource.ResourceType{
	"LDS": xdsresource.ListenerType,
	"RDS": xdsresource.RouteConfigType,
	"CDS": xdsresource.ClusterType,
	"EDS": xdsresource.EndpointsType,
	"NDS": xdsresource.NameTableType,
	"UNK": xdsresource.UnknownResource,
	"BIG": xdsresource.ResourceType(99),
}

// ads is the in-memory control plane of one world.
type ads struct {
	w    *world
	mu   sync.Mutex
	down bool
	cur  *stream
	n    int
	// refused counts the streams that could not be opened.
	refused int
	// asked contains the types that have been requested on any stream.
	asked map[string]bool
	// sendGate, if set, is called by each Send before it succeeds, with the stream.
	sendGate func(int)
}

func (a *ads) StreamAggregatedResources(ctx context.Context, _ ...callopt.Option) (aggregateddiscoveryservice.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.down {
		a.w.log(ev{"e": "openfail"})
		a.refused++
		return nil, []error{errors.New("connection refused"), io.EOF, status.Err(codes.Unavailable, "no endpoint"), context.DeadlineExceeded, status.Err(codes.Internal, "no")}[a.refused%5]
	}
	a.n++
	s := &stream{a: a, id: a.n, in: make(chan item, 64), broken: make(chan struct{}), asked: map[string]bool{}, news: make(chan struct{})}
	a.cur = s
	a.w.log(ev{"e": "open", "s": s.id})
	return s, nil
}

func (a *ads) DeltaAggregatedResources(ctx context.Context, _ ...callopt.Option) (aggregateddiscoveryservice.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, errors.New("not implemented")
}

type item struct {
	resp *discoveryv3.DiscoveryResponse
	ev   ev
	err  error
}

type stream struct {
	streaming.Stream
	a      *ads
	id     int
	in     chan item
	mu     sync.Mutex
	dead   bool
	deaf   bool // sends fail
	broken chan struct{}
	err    error
	asked  map[string]bool
	news   chan struct{} // closed and replaced when a type is requested
}

func (s *stream) Context() context.Context { return context.Background() }

func (s *stream) Close() error {
	s.fail(io.EOF)
	return nil
}

func (s *stream) fail(err error) { s.failWith(err, nil) }

func (s *stream) failWith(err error, e ev) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.dead {
		if e != nil {
			s.a.w.log(e)
		}
		s.dead = true
		s.err = err
		close(s.broken)
	}
}

func (s *stream) Send(r *discoveryv3.DiscoveryRequest) error {
	s.a.mu.Lock()
	gate := s.a.sendGate
	s.a.mu.Unlock()
	if gate != nil {
		gate(s.id)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dead || s.deaf {
		if s.err != nil {
			return s.err
		}
		return io.EOF
	}
	t, ok := typeName[r.GetTypeUrl()]
	if !ok {
		t = "?" + r.GetTypeUrl()
	}
	if !s.asked[t] {
		s.asked[t] = true
		close(s.news)
		s.news = make(chan struct{})
	}
	s.a.mu.Lock()
	if s.a.asked == nil {
		s.a.asked = map[string]bool{}
	}
	s.a.asked[t] = true
	s.a.mu.Unlock()
	names := append([]string{}, r.GetResourceNames()...)
	s.a.w.log(ev{
		"e": "req", "s": s.id, "t": t, "names": names, "ver": r.GetVersionInfo(), "nonce": r.GetResponseNonce(),
		"err": r.GetErrorDetail() != nil, "node": s.a.w.nodeOK(r.GetNode()),
	})
	return nil
}

func (s *stream) Recv() (*discoveryv3.DiscoveryResponse, error) {
	// responses the control plane sent before the stream failed are not delivered any more.
	select {
	case <-s.broken:
		return nil, s.recvErr()
	default:
	}
	s.a.w.log(ev{"e": "recv", "s": s.id})
	select {
	case <-s.broken:
		return nil, s.recvErr()
	case it := <-s.in:
		s.awaitAsked(it)
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.dead {
			return nil, s.err
		}
		if it.ev != nil {
			s.a.w.log(it.ev)
		}
		return it.resp, it.err
	}
}

// awaitAsked waits until the type of the response has been requested on this stream, if the client requests it at all:
// a control plane does not answer what is yet to be asked.
func (s *stream) awaitAsked(it item) {
	t := typeName[it.resp.GetTypeUrl()]
	for {
		s.a.mu.Lock()
		ever := s.a.asked[t]
		s.a.mu.Unlock()
		s.mu.Lock()
		ok, news := s.asked[t], s.news
		s.mu.Unlock()
		if !ever || ok {
			return
		}
		select {
		case <-s.broken:
			return
		case <-news:
		}
	}
}

func (s *stream) recvErr() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.err
}

func authErr() error {
	return status.Err(codes.Unauthenticated, "authentication failed")
}

var _ manager.ADSClient = (*ads)(nil)
