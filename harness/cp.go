package harness

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/streaming"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/core/manager"
)

// cp is a control plane that answers the requests with what it is configured with.
type cp struct {
	mu   sync.Mutex
	res  map[string]map[string]*anypb.Any // type -> name -> resource
	nds  []*anypb.Any
	mute map[string]bool
	bad  map[string]bool
	muts []any
	node func(*v3core.Node, string)
	cur  *cpStream
	ver  int
	// counts of streams and of what the client said
	streams, acks, nacks int
	opened               int
}

func newCP() *cp {
	return &cp{res: map[string]map[string]*anypb.Any{}, mute: map[string]bool{}, bad: map[string]bool{}}
}

func (c *cp) StreamAggregatedResources(ctx context.Context, _ ...callopt.Option) (aggregateddiscoveryservice.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.streams++
	s := &cpStream{c: c, in: make(chan *discoveryv3.DiscoveryResponse, 4096), broken: make(chan struct{}), names: map[string]string{}, last: map[string][]string{}}
	c.cur = s
	return s, nil
}

func (c *cp) DeltaAggregatedResources(ctx context.Context, _ ...callopt.Option) (aggregateddiscoveryservice.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, errors.New("not implemented")
}

type cpStream struct {
	streaming.Stream
	c      *cp
	in     chan *discoveryv3.DiscoveryResponse
	broken chan struct{}
	once   sync.Once
	names  map[string]string
	last   map[string][]string
}

func (s *cpStream) Context() context.Context { return context.Background() }
func (s *cpStream) Close() error             { s.fail(); return nil }
func (s *cpStream) fail()                    { s.once.Do(func() { close(s.broken) }) }

func (s *cpStream) Send(r *discoveryv3.DiscoveryRequest) error {
	select {
	case <-s.broken:
		return errStream
	default:
	}
	c := s.c
	c.mu.Lock()
	defer c.mu.Unlock()
	t := typeName[r.GetTypeUrl()]
	if c.node != nil {
		c.node(r.GetNode(), t)
	}
	if r.GetResponseNonce() != "" {
		if r.GetErrorDetail() != nil {
			c.nacks++
		} else {
			c.acks++
		}
	}
	names := append([]string{}, r.GetResourceNames()...)
	sort.Strings(names)
	key := strings.Join(names, "\x00") + "\x01"
	if s.names[t] != key {
		s.names[t], s.last[t] = key, names
		c.answer(s, t)
	}
	return nil
}

// answer sends the configured resources of the type.
func (c *cp) answer(s *cpStream, t string) {
	if c.mute[t] || t == "" {
		return
	}
	c.ver++
	r := &discoveryv3.DiscoveryResponse{TypeUrl: typeURL[t], VersionInfo: fmt.Sprint("v", c.ver), Nonce: fmt.Sprint("n", c.ver), Resources: []*anypb.Any{}}
	switch t {
	case "NDS":
		r.Resources = append(r.Resources, c.nds...)
	case "LDS":
		for _, n := range sortedKeys(c.res[t]) {
			r.Resources = append(r.Resources, c.res[t][n])
		}
	default:
		for _, n := range s.last[t] {
			if a := c.res[t][n]; a != nil {
				r.Resources = append(r.Resources, a)
			}
		}
	}
	if c.muts != nil && t != "NDS" {
		for i := range r.Resources {
			r.Resources[i] = &anypb.Any{TypeUrl: r.Resources[i].TypeUrl, Value: mutate(r.Resources[i].Value, c.muts, i)}
		}
	}
	if c.bad[t] {
		r.Resources = append(r.Resources, &anypb.Any{TypeUrl: typeURL[t], Value: []byte{0x0a, 0xff, 0x01, 0x02}})
	}
	select {
	case s.in <- r:
	default:
	}
}

// push sends the types the client is interested in again.
func (c *cp) push(ts ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range ts {
		if c.cur != nil && c.cur.names[t] != "" {
			c.answer(c.cur, t)
		}
	}
}

func (s *cpStream) Recv() (*discoveryv3.DiscoveryResponse, error) {
	select {
	case <-s.broken:
		return nil, errStream
	case r := <-s.in:
		return r, nil
	}
}

func (c *cp) failStream() {
	c.mu.Lock()
	s := c.cur
	c.mu.Unlock()
	if s != nil {
		s.fail()
	}
}

var _ manager.ADSClient = (*cp)(nil)
