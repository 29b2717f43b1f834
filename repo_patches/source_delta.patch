From 33300f403fdbd55c2f7a163a11b8ab8293922bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 01/22] fix: do not cache a nil listener the control plane did
 not send

handleLDS stored res[n] for the inbound listener (and, without NDS, for every
subscribed listener) even when the response omits it, so a lookup returned a
typed nil *ListenerResource and the router dereferenced it.
---
 core/manager/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c338e34..4bfebbb 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -482,8 +482,8 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 			if lis, ok := res[ln]; ok {
 				filteredRes[n] = lis
 			}
-		} else {
-			filteredRes[n] = res[n]
+		} else if lis, ok := res[n]; ok {
+			filteredRes[n] = lis
 		}
 	}
 	c.mu.RUnlock()
-- 
2.43.0


From c6d8a1edc9704b8f69d29db6a0032ec30668a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 02/22] fix: decode the retry back-off base interval from
 base_interval

---
 core/xdsresource/rds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/xdsresource/rds.go b/core/xdsresource/rds.go
index dd7f71a..0e6c852 100644
--- a/core/xdsresource/rds.go
+++ b/core/xdsresource/rds.go
@@ -214,7 +214,7 @@ func unmarshalRoutes(rs []*v3routepb.Route) ([]*Route, error) {
 				}
 				if backoff := retryPolicy.GetRetryBackOff(); backoff != nil {
 					route.RetryPolicy.RetryBackOff = &RetryBackOff{
-						BaseInterval: backoff.GetMaxInterval().AsDuration(),
+						BaseInterval: backoff.GetBaseInterval().AsDuration(),
 						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
 					}
 				}
-- 
2.43.0


From 5ff2b2af69842b8458d602ec78148f29e11c59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 03/22] fix: look for the local rate limit in every http
 filter, not just the first

---
 core/xdsresource/lds.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 0959008..f9b2581 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -281,7 +281,6 @@ func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionMana
 				return uint32(maxTokens.GetNumberValue()), uint32(tokensPerfill.GetNumberValue()), nil
 			}
 		}
-		return 0, 0, nil
 	}
 	return 0, 0, nil
 }
-- 
2.43.0


From 9415c097e7d93409522eecc5ab7b7612e128e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 04/22] fix: keep the destination port of filter chains with a
 thrift proxy

Without it the chain was taken for one without a port, and the server limiter
let it override the rate limit of the default chain.
---
 core/xdsresource/lds.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index f9b2581..70175cf 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -130,6 +130,7 @@ func unmarshalFilterChain(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error
 				}
 				filters = append(filters, &NetworkFilter{
 					FilterType:        NetworkFilterTypeThrift,
+					RoutePort:         matchPort,
 					InlineRouteConfig: r,
 				})
 			}
-- 
2.43.0


From 461bd6f06603ee22ff98d15764b7016f34e0aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 05/22] fix: pick weighted clusters proportionally to their
 weight

The target is drawn from [0, total): cluster i owns the targets below the sum of
the first i weights. With >= the first cluster got one target too many (so a
cluster of weight zero could be picked), and a total above MaxInt32 was passed to
Int31n as a negative number.
---
 xdssuite/router.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index e6ccd8f..7cc4d0d 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -224,10 +224,10 @@ func pickCluster(route *xdsresource.Route) (string, error) {
 		js, _ := route.MarshalJSON()
 		return "", fmt.Errorf("total weight of route is invalid (<= 0), route: %s", js)
 	}
-	targetWeight := uint32(fastrand.Int31n(int32(totalWeight)))
+	targetWeight := fastrand.Uint32n(totalWeight)
 	for _, wc := range wcs {
 		currWeight += wc.Weight
-		if currWeight >= targetWeight {
+		if currWeight > targetWeight {
 			return wc.Name, nil
 		}
 	}
-- 
2.43.0


From 1e38a14fbe7ebaf8d00dc90f7a053ec77b446597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 06/22] fix: keep every header condition when a route has
 several on one header

The conditions were stored in a map keyed by header name, so only the last of
those on the same header was checked.
---
 core/xdsresource/matcher.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index cbd56ef..1d857d0 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -49,6 +49,18 @@ type Matcher interface {
 	Match(string) bool
 }
 
+// allMatcher holds several conditions on the same key, all of which must hold.
+type allMatcher []Matcher
+
+func (am allMatcher) Match(other string) bool {
+	for _, m := range am {
+		if !m.Match(other) {
+			return false
+		}
+	}
+	return true
+}
+
 type Matchers map[string]Matcher
 
 func (ms Matchers) Match(other map[string]string) bool {
@@ -60,20 +72,32 @@ func (ms Matchers) Match(other map[string]string) bool {
 	return true
 }
 
+// add adds a condition on the key to those it already has.
+func (ms Matchers) add(key string, m Matcher) {
+	switch prev := ms[key].(type) {
+	case nil:
+		ms[key] = m
+	case allMatcher:
+		ms[key] = append(prev, m)
+	default:
+		ms[key] = allMatcher{prev, m}
+	}
+}
+
 // BuildMatchers build matcher set from headers
 func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
-	ms := map[string]Matcher{}
+	ms := Matchers{}
 	for _, header := range headers {
 		switch hm := header.GetHeaderMatchSpecifier().(type) {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
 				if p.Exact != "" {
-					ms[header.Name] = ExactMatcher(p.Exact)
+					ms.add(header.Name, ExactMatcher(p.Exact))
 				}
 			case *v3matcher.StringMatcher_Prefix:
 				if p.Prefix != "" {
-					ms[header.Name] = PrefixMatcher(p.Prefix)
+					ms.add(header.Name, PrefixMatcher(p.Prefix))
 				}
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
@@ -83,9 +107,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
 						continue
 					}
-					ms[header.Name] = &RegexMatcher{
+					ms.add(header.Name, &RegexMatcher{
 						re: re2,
-					}
+					})
 				}
 			}
 		}
-- 
2.43.0


From 2d5530c3a23987fe960c9ef6c188f983faa4f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 07/22] fix: resolving a cluster whose localities have no
 endpoints is an error

---
 xdssuite/resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdssuite/resolver.go b/xdssuite/resolver.go
index 0d73e8f..5e49abc 100644
--- a/xdssuite/resolver.go
+++ b/xdssuite/resolver.go
@@ -96,6 +96,9 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 	for _, locality := range endpoints.Localities {
 		eps = append(eps, locality.Endpoints...)
 	}
+	if len(eps) == 0 {
+		return nil, fmt.Errorf("no endpoints for cluster: %s", desc)
+	}
 	return eps, nil
 }
 
-- 
2.43.0


From 8203c4ee4cd754808e07f9e7ed3789f8112faea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 08/22] fix: decode an empty load assignment to an empty
 resource, not to a nil pointer

---
 core/xdsresource/eds.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/xdsresource/eds.go b/core/xdsresource/eds.go
index 019f5bd..c3f542a 100644
--- a/core/xdsresource/eds.go
+++ b/core/xdsresource/eds.go
@@ -122,6 +122,10 @@ func UnmarshalEDS(rawResources []*anypb.Any) (map[string]Resource, error) {
 			errMap[cla.ClusterName] = err
 			continue
 		}
+		if endpoints == nil {
+			// no nil pointer in the cache: an empty load assignment is a resource without localities.
+			endpoints = &EndpointsResource{}
+		}
 		ret[cla.ClusterName] = endpoints
 	}
 	if len(errMap) == 0 && len(errSlice) == 0 {
-- 
2.43.0


From 43fc3ad5f91e017933317729613bf76da416bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 09/22] fix: check that the call has a destination before
 reading its tag

---
 xdssuite/router.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index 7cc4d0d..5eb07d6 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -44,15 +44,15 @@ func NewXDSRouterMiddleware(opts ...Option) endpoint.Middleware {
 	return func(next endpoint.Endpoint) endpoint.Endpoint {
 		return func(ctx context.Context, request, response interface{}) error {
 			ri := rpcinfo.GetRPCInfo(ctx)
-			_, exist := ri.To().Tag(RouterClusterKey)
-			if exist {
-				return next(ctx, request, response)
-			}
-
 			dest := ri.To()
 			if dest == nil {
 				return kerrors.ErrNoDestService
 			}
+			_, exist := dest.Tag(RouterClusterKey)
+			if exist {
+				return next(ctx, request, response)
+			}
+
 			res, err := router.Route(ctx, ri)
 			if err != nil {
 				return kerrors.ErrRoute.WithCause(err)
-- 
2.43.0


From 073ffc787a1f4fb70524dc8eb0c1cd337ccf174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 10/22] fix: add the pod IP to INSTANCE_IPS unless it is one of
 its elements

A pod IP that is a substring of another one (10.0.0.1 and 10.0.0.11) was taken
as already present.
---
 core/manager/bootstrap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/manager/bootstrap.go b/core/manager/bootstrap.go
index e96fd75..c68c9b3 100644
--- a/core/manager/bootstrap.go
+++ b/core/manager/bootstrap.go
@@ -117,7 +117,7 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 		existips := ips.GetStringValue()
 		if existips == "" {
 			existips = podIP
-		} else if !strings.Contains(existips, podIP) {
+		} else if !containsIP(existips, podIP) {
 			existips = existips + "," + podIP
 		}
 		pbmeta.Fields[IstioMetaInstanceIPs] = &structpb.Value{
@@ -127,6 +127,16 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 	return pbmeta
 }
 
+// containsIP checks if the ip is one of the comma separated ips.
+func containsIP(ips, ip string) bool {
+	for _, s := range strings.Split(ips, ",") {
+		if strings.TrimSpace(s) == ip {
+			return true
+		}
+	}
+	return false
+}
+
 func nodeId(podIP, podName, namespace, nodeDomain string) string {
 	//"sidecar~" + podIP + "~" + podName + "." + namespace + "~" + namespace + ".svc." + domain,
 	return fmt.Sprintf("sidecar~%s~%s.%s~%s.svc.%s", podIP, podName, namespace, namespace, nodeDomain)
-- 
2.43.0


From 0461a11bbf1b23f39259a5e759b1137e5c36c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 11/22] fix: decode every resource of a name table response

Resources after the first one were dropped without being checked.
---
 core/xdsresource/nds.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/xdsresource/nds.go b/core/xdsresource/nds.go
index 008591f..9f442cc 100644
--- a/core/xdsresource/nds.go
+++ b/core/xdsresource/nds.go
@@ -33,17 +33,18 @@ func UnmarshalNDS(rawResources []*anypb.Any) (*NDSResource, error) {
 	if len(rawResources) < 1 {
 		return nil, fmt.Errorf("no NDS resource found in the response")
 	}
-	r := rawResources[0]
-	if r.GetTypeUrl() != NameTableTypeURL {
-		return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
-	}
-	nt := &dnsProto.NameTable{}
-	if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
-		return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
-	}
 	res := make(map[string][]string)
-	for k, v := range nt.Table {
-		res[k] = v.Ips
+	for _, r := range rawResources {
+		if r.GetTypeUrl() != NameTableTypeURL {
+			return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
+		}
+		nt := &dnsProto.NameTable{}
+		if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
+			return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
+		}
+		for k, v := range nt.Table {
+			res[k] = v.GetIps()
+		}
 	}
 
 	return &NDSResource{
-- 
2.43.0


From b1c3ef12df926662d43810b22061fdd736220fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 12/22] fix: ignore the case of the name table's hosts, the
 namespace and the domain

Only the requested host was put in lower case, so a host the control plane lists
with an upper case letter could never be resolved.
---
 core/manager/client.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 4bfebbb..c9484e0 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -89,6 +89,7 @@ func (r *ndsResolver) lookupHost(host string) ([]string, bool) {
 
 // updateResource updates the lookup table based on the NDS response.
 func (r *ndsResolver) updateLookupTable(up map[string][]string) {
+	up = lowerHosts(up)
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	if !r.closed {
@@ -98,6 +99,20 @@ func (r *ndsResolver) updateLookupTable(up map[string][]string) {
 	r.lookupTable = up
 }
 
+// lowerHosts returns the table with its hosts in lower case, as hosts are looked up ignoring case.
+func lowerHosts(table map[string][]string) map[string][]string {
+	ret := make(map[string][]string, len(table))
+	for host, ips := range table {
+		lower := strings.ToLower(host)
+		// the lower case spelling has priority if the table contains several.
+		if _, ok := table[lower]; ok && lower != host {
+			continue
+		}
+		ret[lower] = ips
+	}
+	return ret
+}
+
 // xdsClient communicates with the control plane to perform xds resource discovery.
 // It maintains the connection and all the resources being watched.
 // It processes the responses from the xds server and update the resources to the cache in xdsResourceManager.
@@ -420,7 +435,8 @@ func (c *xdsClient) resolveAddr(host string) string {
 	// 4. service with more than 4 parts, such as dubbo interface org.cloudwego.kitex.samples.api.greetprovider, invoke twice always.
 	// FIXME: format as <serviceName>.<namespace> is not supported.
 	// TODO: if it leads to performance issue, use cache to improve it.
-	fqdn := c.config.tryExpandFQDN(host)
+	// the namespace and the domain may be configured in upper case.
+	fqdn := strings.ToLower(c.config.tryExpandFQDN(host))
 	cip, ok := c.cipResolver.lookupHost(fqdn)
 	if ok && len(cip) > 0 {
 		return cip[0]
-- 
2.43.0


From 035b5e3c9d4e887c72d8d5ed00638cf62ac9c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 13/22] fix: expire cached resources that were never looked up

A resource delivered after its only lookup timed out had no access time, and the
cleaner skipped it forever.
---
 core/manager/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 5581bba..4320d91 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -259,11 +259,14 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 			mt.Version = version
 			mt.UpdateTime = updateTime
 		} else {
-			m.meta[rType][name] = &xdsresource.ResourceMeta{
+			mt := &xdsresource.ResourceMeta{
 				Version:        version,
 				UpdateTime:     updateTime,
 				LastAccessTime: atomic.Value{},
 			}
+			// a resource that is never looked up expires as well.
+			mt.LastAccessTime.Store(updateTime)
+			m.meta[rType][name] = mt
 		}
 	}
 }
-- 
2.43.0


From d170a8353dc7d378256a95ce29b2739837abaf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 14/22] fix: keep the policies of the route tables a partial
 update omits

The handlers were only given the tables in the update, and the retry handler
removes the policies of the clusters it does not see, although the omitted
tables stay in the cache.
---
 core/manager/manager.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 4320d91..a45542e 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -271,6 +271,22 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 	}
 }
 
+// afterUpdate returns the resources of the type that are in force after the update.
+func (m *xdsResourceManager) afterUpdate(rt xdsresource.ResourceType, up map[string]xdsresource.Resource) map[string]xdsresource.Resource {
+	if rt.RequireFullADSResponse() {
+		return up
+	}
+	// the update may include only part of the resources.
+	curr := make(map[string]xdsresource.Resource, len(m.cache[rt])+len(up))
+	for name, res := range m.cache[rt] {
+		curr[name] = res
+	}
+	for name, res := range up {
+		curr[name] = res
+	}
+	return curr
+}
+
 // the routeConfigName
 
 // UpdateResource is invoked by client to update the cache
@@ -281,8 +297,9 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
+		curr := m.afterUpdate(rt, up)
 		for _, handler := range handlers {
-			handler(up)
+			handler(curr)
 		}
 	}
 
-- 
2.43.0


From 7e359dc9946ac9470cb9488dd5ceed5278d1e4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 15/22] fix: do not cache again a resource evicted while a
 response is processed

The subscribed resources were selected before the update took the manager's lock;
the cleaner could evict and unsubscribe one in between, which was then cached
although it was no longer subscribed. The selection is now made under the lock.
---
 core/manager/client.go  | 78 ++++++++++++++++++++++++-----------------
 core/manager/manager.go |  7 ++++
 2 files changed, 52 insertions(+), 33 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c9484e0..9bbd96f 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -486,25 +486,28 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 	// returned listener name is in the format of ${clusterIP}_${port}
 	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
 	// we need to filter the response.
-	c.mu.RLock()
-	filteredRes := make(map[string]xdsresource.Resource)
-	for n := range c.watchedResource[xdsresource.ListenerType] {
-		if c.ndsRequired() && n != xdsresource.ReservedLdsResourceName {
-			ln, err := c.getListenerName(n)
-			if err != nil || ln == "" {
-				klog.Warnf("KITEX: [XDS] get listener name %s failed, err: %v", n, err)
-				continue
-			}
-			if lis, ok := res[ln]; ok {
+	subscribed := func() map[string]xdsresource.Resource {
+		c.mu.RLock()
+		defer c.mu.RUnlock()
+		filteredRes := make(map[string]xdsresource.Resource)
+		for n := range c.watchedResource[xdsresource.ListenerType] {
+			if c.ndsRequired() && n != xdsresource.ReservedLdsResourceName {
+				ln, err := c.getListenerName(n)
+				if err != nil || ln == "" {
+					klog.Warnf("KITEX: [XDS] get listener name %s failed, err: %v", n, err)
+					continue
+				}
+				if lis, ok := res[ln]; ok {
+					filteredRes[n] = lis
+				}
+			} else if lis, ok := res[n]; ok {
 				filteredRes[n] = lis
 			}
-		} else if lis, ok := res[n]; ok {
-			filteredRes[n] = lis
 		}
+		return filteredRes
 	}
-	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
+	c.resourceUpdater.updateSubscribed(xdsresource.ListenerType, subscribed, resp.GetVersionInfo())
 
 	if c.closedInboundInitCh.CompareAndSwap(false, true) {
 		klog.Info("KITEX: [xds] receive inbound init request")
@@ -522,16 +525,19 @@ func (c *xdsClient) handleRDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 
 	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		// only accept the routeConfig that is subscribed
-		if _, ok := c.watchedResource[xdsresource.RouteConfigType][name]; !ok {
-			delete(res, name)
+	subscribed := func() map[string]xdsresource.Resource {
+		c.mu.RLock()
+		defer c.mu.RUnlock()
+		for name := range res {
+			// only accept the routeConfig that is subscribed
+			if _, ok := c.watchedResource[xdsresource.RouteConfigType][name]; !ok {
+				delete(res, name)
+			}
 		}
+		return res
 	}
-	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.RouteConfigType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateSubscribed(xdsresource.RouteConfigType, subscribed, resp.GetVersionInfo())
 	return nil
 }
 
@@ -544,15 +550,18 @@ func (c *xdsClient) handleCDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 
 	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		if _, ok := c.watchedResource[xdsresource.ClusterType][name]; !ok {
-			delete(res, name)
+	subscribed := func() map[string]xdsresource.Resource {
+		c.mu.RLock()
+		defer c.mu.RUnlock()
+		for name := range res {
+			if _, ok := c.watchedResource[xdsresource.ClusterType][name]; !ok {
+				delete(res, name)
+			}
 		}
+		return res
 	}
-	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ClusterType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateSubscribed(xdsresource.ClusterType, subscribed, resp.GetVersionInfo())
 	return nil
 }
 
@@ -565,15 +574,18 @@ func (c *xdsClient) handleEDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 
 	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		if _, ok := c.watchedResource[xdsresource.EndpointsType][name]; !ok {
-			delete(res, name)
+	subscribed := func() map[string]xdsresource.Resource {
+		c.mu.RLock()
+		defer c.mu.RUnlock()
+		for name := range res {
+			if _, ok := c.watchedResource[xdsresource.EndpointsType][name]; !ok {
+				delete(res, name)
+			}
 		}
+		return res
 	}
-	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.EndpointsType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateSubscribed(xdsresource.EndpointsType, subscribed, resp.GetVersionInfo())
 	return nil
 }
 
diff --git a/core/manager/manager.go b/core/manager/manager.go
index a45542e..351d2ea 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -291,9 +291,16 @@ func (m *xdsResourceManager) afterUpdate(rt xdsresource.ResourceType, up map[str
 
 // UpdateResource is invoked by client to update the cache
 func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
+	m.updateSubscribed(rt, func() map[string]xdsresource.Resource { return up }, version)
+}
+
+// updateSubscribed updates the cache with the resources returned by subscribed, which selects those that are
+// subscribed. It is called with the lock held, so that no resource is evicted between the selection and the update.
+func (m *xdsResourceManager) updateSubscribed(rt xdsresource.ResourceType, subscribed func() map[string]xdsresource.Resource, version string) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
+	up := subscribed()
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
-- 
2.43.0


From fd7fb0a34a5727d1fa10744cf5c00ebd4f374f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 16/22] fix: do not lose the update a lookup is waiting for

- the resource may arrive between the cache miss and the registration of the
  notifier: check the cache again under the lock.
- a lookup that times out removed the notifier the other lookups of the same name
  were waiting on: remove it with the last waiter only.
- when the update and the deadline come together select may choose the deadline:
  check the notification before giving up.
- the resource may be removed again before the woken lookup reads the cache, which
  returned neither a value nor an error: return what was delivered.
---
 core/manager/manager.go | 55 ++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 351d2ea..e6cd730 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -56,11 +56,14 @@ type xdsResourceManager struct {
 // notifier is used to notify the resource update along with error
 type notifier struct {
 	ch  chan struct{}
+	res xdsresource.Resource
 	err error
+	// waiters is the number of lookups waiting for the notification, guarded by the lock of the manager.
+	waiters int
 }
 
-func (n *notifier) notify(err error) {
-	n.err = err
+func (n *notifier) notify(res xdsresource.Resource, err error) {
+	n.res, n.err = res, err
 	close(n.ch)
 }
 
@@ -151,6 +154,11 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
+	// the resource may have been updated in the meantime, no further notification would come.
+	if res, ok := m.cache[rType][rName]; ok {
+		m.mu.Unlock()
+		return res, nil
+	}
 	// Setup channel for this resource
 	if _, ok := m.notifierMap[rType]; !ok {
 		m.notifierMap[rType] = make(map[string]*notifier)
@@ -162,6 +170,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		// only send one request for this resource
 		m.client.Watch(rType, rName, false)
 	}
+	nf.waiters++
 	m.mu.Unlock()
 	// Set fetch timeout
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
@@ -169,21 +178,39 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	select {
 	case <-nf.ch:
-		// error in the notifier
-		if nf.err != nil {
-			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
-				xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
+	case <-ctx.Done():
+		if !m.notified(rType, rName, nf) {
+			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
+				xdsresource.ResourceTypeToName[rType], rName)
 		}
-		res, _ = m.getFromCache(rType, rName)
+	}
+	// error in the notifier
+	if nf.err != nil {
+		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
+			xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
+	}
+	if res, ok = m.getFromCache(rType, rName); ok {
 		return res, nil
-	case <-ctx.Done():
-		// remove the notifier if timeout.
-		m.mu.Lock()
+	}
+	// the resource has been removed again since the notification.
+	return nf.res, nil
+}
+
+// notified is called when a lookup stops waiting for the notifier, and reports if it has been notified in the meantime.
+// The notifier is removed with its last waiter, the others are still to be notified.
+func (m *xdsResourceManager) notified(rType xdsresource.ResourceType, rName string, nf *notifier) bool {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	select {
+	case <-nf.ch:
+		return true
+	default:
+	}
+	nf.waiters--
+	if nf.waiters == 0 {
 		delete(m.notifierMap[rType], rName)
-		m.mu.Unlock()
-		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
-			xdsresource.ResourceTypeToName[rType], rName)
 	}
+	return false
 }
 
 // cleaner cleans the expired cache periodically
@@ -319,7 +346,7 @@ func (m *xdsResourceManager) updateSubscribed(rt xdsresource.ResourceType, subsc
 			continue
 		}
 		if nf, exist := m.notifierMap[rt][name]; exist {
-			nf.notify(nil)
+			nf.notify(res, nil)
 			delete(m.notifierMap[rt], name)
 		}
 	}
-- 
2.43.0


From 8f405c123ed1e5c382edf7268e875e05fc82dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 17/22] fix: do not wait for a client that is closed

Once the client stops (the control plane rejects its authentication, or the first
connection fails) nobody reads the request channel: when it was full the next
lookup blocked for ever with the manager's lock held. Likewise a rejection during
the warm-up blocked the initialisation for ever.
---
 core/manager/client.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 9bbd96f..a442e18 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -316,14 +316,22 @@ func (c *xdsClient) ldsRequired() bool {
 func (c *xdsClient) ndsWarmup() {
 	// watch the NameTable when init the xds client
 	c.Watch(xdsresource.NameTableType, "", false)
-	<-c.cipResolver.initRequestCh
+	select {
+	case <-c.cipResolver.initRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] nds, warmup done")
 }
 
 func (c *xdsClient) listenerWarmup() {
 	// watch the Listener when init the xds client, it is used for inbound side.
 	c.Watch(xdsresource.ListenerType, xdsresource.ReservedLdsResourceName, false)
-	<-c.inboundInitRequestCh
+	select {
+	case <-c.inboundInitRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] lds, warmup done")
 }
 
@@ -345,6 +353,8 @@ func (c *xdsClient) run() {
 	as, err := c.connect()
 	if err != nil {
 		klog.Errorf("[XDS] client, failed to connect the xDS Server, error=%s", err.Error())
+		// nobody is going to send the requests.
+		c.close()
 		return
 	}
 
@@ -418,8 +428,11 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 }
 
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel
-	c.reqCh <- req
+	// put the req to the channel, nobody reads it when the client is closed.
+	select {
+	case c.reqCh <- req:
+	case <-c.closeCh:
+	}
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From ff605ce4de124bb6a8cd1deaef991d8656089837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 18/22] fix: do not deadlock when a stream is replaced while
 the request channel is full

A subscriber waits for room in the channel with the client's lock held, and the
sender, which makes the room, waited for that lock.
---
 core/manager/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index a442e18..21d0eee 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -19,6 +19,7 @@ package manager
 import (
 	"context"
 	"fmt"
+	"runtime"
 	"runtime/debug"
 	"strings"
 	"sync"
@@ -415,7 +416,12 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 // reqWhenReconnect construct a new stream and send all the watched resources
 func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	// send new requests for all watched resources when reqWhenReconnect
-	c.mu.Lock()
+	// The holder of the lock may be waiting for room in the request channel, that is for this goroutine to read it.
+	// The requests read here are superseded by the ones below.
+	for !c.mu.TryLock() {
+		clearRequestCh(c.reqCh, len(c.reqCh))
+		runtime.Gosched()
+	}
 	defer c.mu.Unlock()
 	for rType, res := range c.watchedResource {
 		req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res)
-- 
2.43.0


From 5c2996e4f38fad54ed0ce7fe9216c76779c700db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 19/22] fix: do not lose a limit updated while the server
 starts

An update between the first UpdateLimit and the store of the updater was never
pushed to the server's limiter, and the option was written and read without
synchronisation.
---
 xdssuite/limiter.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index c0ec63e..ce9d345 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -18,6 +18,7 @@ package xdssuite
 
 import (
 	"math"
+	"sync"
 	"sync/atomic"
 
 	"github.com/cloudwego/kitex/pkg/klog"
@@ -62,6 +63,8 @@ func getLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
 }
 
 type limiter struct {
+	// mu guards opt, and orders the updates pushed to the updater.
+	mu      sync.Mutex
 	updater atomic.Value
 	opt     *limit.Option
 	port    uint32
@@ -71,6 +74,8 @@ func (l *limiter) updateHandler(changed *limit.Option) {
 	if changed == nil {
 		return
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.opt.MaxConnections = changed.MaxConnections
 	l.opt.MaxQPS = changed.MaxQPS
 	u := l.updater.Load()
@@ -115,11 +120,21 @@ func NewLimiter(opts ...Option) server.Option {
 		port: serverOpt.servicePort,
 	}
 
-	l.opt.UpdateControl = func(u limit.Updater) {
+	updateControl := func(u limit.Updater) {
+		l.mu.Lock()
+		defer l.mu.Unlock()
 		u.UpdateLimit(l.opt)
 		l.updater.Store(u)
 	}
 
 	m.RegisterXDSUpdateHandler(xdsresource.ListenerType, l.listenerUpdater)
-	return server.WithLimit(l.opt)
+
+	// the server reads its option without the lock, so give it a copy.
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	return server.WithLimit(&limit.Option{
+		MaxConnections: l.opt.MaxConnections,
+		MaxQPS:         l.opt.MaxQPS,
+		UpdateControl:  updateControl,
+	})
 }
-- 
2.43.0


From 04430b0d41ce3b2db6b542058934de4395b29f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 20/22] hooks: control plane seam and schedule points behind
 the build tag verif

---
 core/manager/client.go     |  5 +++++
 core/manager/hook.go       | 26 +++++++++++++++++++++++++
 core/manager/hook_verif.go | 40 ++++++++++++++++++++++++++++++++++++++
 core/manager/manager.go    |  7 +++++++
 4 files changed, 78 insertions(+)
 create mode 100644 core/manager/hook.go
 create mode 100644 core/manager/hook_verif.go

diff --git a/core/manager/client.go b/core/manager/client.go
index 21d0eee..ff73b4d 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -45,6 +45,9 @@ type (
 
 // newADSClient constructs a new stream client that communicates with the xds server
 func newADSClient(xdsSvrCfg *XDSServerConfig) (ADSClient, error) {
+	if cli := verifADSClient(xdsSvrCfg); cli != nil {
+		return cli, nil
+	}
 	var opts []client.Option
 	opts = append(opts, client.WithHostPorts(xdsSvrCfg.SvrAddr))
 
@@ -408,6 +411,7 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 	clearRequestCh(c.reqCh, len(c.reqCh))
 	c.mu.Unlock()
 
+	verifPoint("reconnect.reset")
 	// notify others to use the new stream
 	c.streamCh <- as
 	return as, nil
@@ -415,6 +419,7 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 
 // reqWhenReconnect construct a new stream and send all the watched resources
 func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
+	verifPoint("resub")
 	// send new requests for all watched resources when reqWhenReconnect
 	// The holder of the lock may be waiting for room in the request channel, that is for this goroutine to read it.
 	// The requests read here are superseded by the ones below.
diff --git a/core/manager/hook.go b/core/manager/hook.go
new file mode 100644
index 0000000..1e6ff6c
--- /dev/null
+++ b/core/manager/hook.go
@@ -0,0 +1,26 @@
+//go:build !verif
+
+/*
+ * Copyright 2022 CloudWeGo Authors
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+
+package manager
+
+// Hooks of the verification harness, see hook_verif.go. They do nothing in a regular build.
+
+func verifADSClient(*XDSServerConfig) ADSClient { return nil }
+
+func verifPoint(string) {}
diff --git a/core/manager/hook_verif.go b/core/manager/hook_verif.go
new file mode 100644
index 0000000..4befecd
--- /dev/null
+++ b/core/manager/hook_verif.go
@@ -0,0 +1,40 @@
+//go:build verif
+
+/*
+ * Copyright 2022 CloudWeGo Authors
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+
+package manager
+
+var (
+	// VerifADSClient, if set, provides the client of the control plane.
+	VerifADSClient func(*XDSServerConfig) ADSClient
+	// VerifPoint, if set, is called at the points of the code where a schedule can be forced.
+	VerifPoint func(point string)
+)
+
+func verifADSClient(cfg *XDSServerConfig) ADSClient {
+	if VerifADSClient == nil {
+		return nil
+	}
+	return VerifADSClient(cfg)
+}
+
+func verifPoint(point string) {
+	if VerifPoint != nil {
+		VerifPoint(point)
+	}
+}
diff --git a/core/manager/manager.go b/core/manager/manager.go
index e6cd730..187e4d7 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -152,6 +152,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		return res, nil
 	}
 
+	verifPoint("get.miss")
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
 	// the resource may have been updated in the meantime, no further notification would come.
@@ -176,9 +177,12 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
 	defer cancel()
 
+	verifPoint("get.wait")
 	select {
 	case <-nf.ch:
+		verifPoint("get.woken")
 	case <-ctx.Done():
+		verifPoint("get.timeout")
 		if !m.notified(rType, rName, nf) {
 			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
 				xdsresource.ResourceTypeToName[rType], rName)
@@ -221,6 +225,7 @@ func (m *xdsResourceManager) cleaner() {
 	for {
 		select {
 		case <-ticker.C:
+			verifPoint("sweep")
 			m.mu.Lock()
 			for rt := range m.meta {
 				// when the cache is cleared, a remove watch request should be sent to Istiod.
@@ -324,10 +329,12 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 // updateSubscribed updates the cache with the resources returned by subscribed, which selects those that are
 // subscribed. It is called with the lock held, so that no resource is evicted between the selection and the update.
 func (m *xdsResourceManager) updateSubscribed(rt xdsresource.ResourceType, subscribed func() map[string]xdsresource.Resource, version string) {
+	verifPoint("update")
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
 	up := subscribed()
+	verifPoint("update.selected")
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
-- 
2.43.0


From c57dc95d8885f9c766e649f071d95413718f653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 21/22] hooks: gofmt

---
 core/manager/hook.go       | 1 -
 core/manager/hook_verif.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/core/manager/hook.go b/core/manager/hook.go
index 1e6ff6c..255c4b5 100644
--- a/core/manager/hook.go
+++ b/core/manager/hook.go
@@ -16,7 +16,6 @@
  * limitations under the License.
  */
 
-
 package manager
 
 // Hooks of the verification harness, see hook_verif.go. They do nothing in a regular build.
diff --git a/core/manager/hook_verif.go b/core/manager/hook_verif.go
index 4befecd..5493185 100644
--- a/core/manager/hook_verif.go
+++ b/core/manager/hook_verif.go
@@ -16,7 +16,6 @@
  * limitations under the License.
  */
 
-
 package manager
 
 var (
-- 
2.43.0


From b4a78a6761783ce34e4cc9ec2599cca0caa8ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 22/22] fix: bind the listeners again when the name table
 changes

---
 core/manager/client.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index ff73b4d..2028fb6 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -132,6 +132,9 @@ type xdsClient struct {
 	// listenerName (we use fqdn for listener name) to clusterIP.
 	// "kitex-server.default.svc.cluster.local" -> "10.0.0.1"
 	cipResolver *ndsResolver
+	// listeners contains the listeners of the last accepted response, by the names of the control plane.
+	// They are bound again when the name table changes. Only the receiver accesses it.
+	listeners map[string]*xdsresource.ListenerResource
 
 	// versionMap stores the versions of different resource type.
 	versionMap map[xdsresource.ResourceType]string
@@ -507,6 +510,19 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 
+	// update to cache
+	c.listeners = res
+	c.updateListeners(resp.GetVersionInfo())
+
+	if c.closedInboundInitCh.CompareAndSwap(false, true) {
+		klog.Info("KITEX: [xds] receive inbound init request")
+		close(c.inboundInitRequestCh)
+	}
+	return nil
+}
+
+// updateListeners updates the cache with the subscribed ones of the listeners.
+func (c *xdsClient) updateListeners(version string) {
 	// returned listener name is in the format of ${clusterIP}_${port}
 	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
 	// we need to filter the response.
@@ -521,23 +537,16 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 					klog.Warnf("KITEX: [XDS] get listener name %s failed, err: %v", n, err)
 					continue
 				}
-				if lis, ok := res[ln]; ok {
+				if lis, ok := c.listeners[ln]; ok {
 					filteredRes[n] = lis
 				}
-			} else if lis, ok := res[n]; ok {
+			} else if lis, ok := c.listeners[n]; ok {
 				filteredRes[n] = lis
 			}
 		}
 		return filteredRes
 	}
-	// update to cache
-	c.resourceUpdater.updateSubscribed(xdsresource.ListenerType, subscribed, resp.GetVersionInfo())
-
-	if c.closedInboundInitCh.CompareAndSwap(false, true) {
-		klog.Info("KITEX: [xds] receive inbound init request")
-		close(c.inboundInitRequestCh)
-	}
-	return nil
+	c.resourceUpdater.updateSubscribed(xdsresource.ListenerType, subscribed, version)
 }
 
 // handleRDS handles the rds response
@@ -620,6 +629,10 @@ func (c *xdsClient) handleNDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 	c.cipResolver.updateLookupTable(nt.NameTable)
+	// the hosts may designate other listeners now.
+	if c.ndsRequired() && c.listeners != nil {
+		c.updateListeners(c.version(xdsresource.ListenerType))
+	}
 	return err
 }
 
-- 
2.43.0

