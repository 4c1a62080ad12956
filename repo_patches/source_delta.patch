From a12f65b575cecadc512173b670015782d1d5e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:11 +0000
Subject: [PATCH 01/49] fix: build the ring under the membership lock

Two concurrent Upsert/Remove calls could install their rings in the
opposite order of their commits, leaving ownership out of step with the
member list.
---
 internal/cluster/membership.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 65fcc1f..6fcd4b5 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -62,12 +62,7 @@ func (m *Membership) Upsert(n *Node) {
 	n.LastSeen = time.Now()
 	m.nodes[n.ID] = n
 
-	nodes := make([]*Node, 0, len(m.nodes))
-	for _, v := range m.nodes { // exclude dead nodes from ring ownership
-		if v.State != NodeDead {
-			nodes = append(nodes, v)
-		}
-	}
+	m.rebuildRingLocked()
 
 	version := m.ver.Next()
 	observers := m.observers
@@ -75,7 +70,6 @@ func (m *Membership) Upsert(n *Node) {
 	state := n.State
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	notify(observers, id, state, version)
 }
 
@@ -114,18 +108,12 @@ func (m *Membership) Remove(id NodeID) bool {
 
 	delete(m.nodes, id)
 
-	nodes := make([]*Node, 0, len(m.nodes))
-	for _, v := range m.nodes { // exclude dead nodes
-		if v.State != NodeDead {
-			nodes = append(nodes, v)
-		}
-	}
+	m.rebuildRingLocked()
 
 	version := m.ver.Next()
 	observers := m.observers
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	// State NodeDead represents "removed from membership" for
 	// observer purposes; the node is gone from the map and will
 	// not appear in any subsequent List() call.
@@ -240,6 +228,22 @@ func (m *Membership) Refute(id NodeID) bool {
 	return true
 }
 
+// rebuildRingLocked rebuilds the ring from the current non-dead members.
+// Must be called with m.mu held for writing: building after releasing the
+// lock would let two concurrent mutations install their rings in the
+// opposite order of their commits, leaving ownership permanently out of
+// step with the member list.
+func (m *Membership) rebuildRingLocked() {
+	nodes := make([]*Node, 0, len(m.nodes))
+	for _, v := range m.nodes { // exclude dead nodes from ring ownership
+		if v.State != NodeDead {
+			nodes = append(nodes, v)
+		}
+	}
+
+	m.ring.Build(nodes)
+}
+
 // notify invokes each observer in registration order with the
 // resolved state and version. Pulled out so the call sites read
 // "mutate, unlock, notify" uniformly without inline loops.
-- 
2.43.0


From cd19923119e19ad1014e177635b555c40821c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:11 +0000
Subject: [PATCH 02/49] fix: rebuild the ring when a member dies or revives
 through Mark or Refute

---
 internal/cluster/membership.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 6fcd4b5..f5086f9 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -171,11 +171,17 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 		return true
 	}
 
+	deadChanged := (n.State == NodeDead) != (state == NodeDead)
+
 	n.Incarnation++
 
 	n.State = state
 	n.LastSeen = time.Now()
 
+	if deadChanged { // dead nodes own nothing; a revived one owns again
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -213,11 +219,17 @@ func (m *Membership) Refute(id NodeID) bool {
 		return false
 	}
 
+	wasDead := n.State == NodeDead
+
 	n.Incarnation++
 
 	n.State = NodeAlive
 	n.LastSeen = time.Now()
 
+	if wasDead { // back among the owners
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
-- 
2.43.0


From 89427d67b96b66caea17ad91a4f6e2a363b0cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 03/49] fix: deliver events of concurrent publishers in version
 order

---
 internal/eventbus/bus.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/eventbus/bus.go b/internal/eventbus/bus.go
index 1f2429b..8ae7c88 100644
--- a/internal/eventbus/bus.go
+++ b/internal/eventbus/bus.go
@@ -127,11 +127,12 @@ func (b *Bus) Subscribe(ctx context.Context) (<-chan Event, func()) {
 // SWIM heartbeat goroutine drives publishes and must keep ticking
 // at its configured interval regardless of consumer health.
 func (b *Bus) Publish(evt Event) uint64 {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	b.mu.Lock()
+	defer b.mu.Unlock()
 
-	// Stamp the event under the read lock so version is
-	// monotonic across concurrent publishers.
+	// Stamp and deliver the event under the exclusive lock: a
+	// shared lock would let two publishers reach a subscriber in
+	// the opposite order of their versions.
 	version := b.version.Add(1)
 
 	evt.Version = version
-- 
2.43.0


From 1c6421e4ce08e6ad25b3bc4cbc14d0bc56cb4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 04/49] fix: decode JSON into the caller's target, not a local
 copy of it

Unmarshalling into *any succeeded without storing anything, and a
non-pointer target was silently ignored.
---
 internal/libs/serializer/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/libs/serializer/json.go b/internal/libs/serializer/json.go
index c14aec8..4d8f6a7 100644
--- a/internal/libs/serializer/json.go
+++ b/internal/libs/serializer/json.go
@@ -29,7 +29,7 @@ func (*DefaultJSONSerializer) Marshal(v any) ([]byte, error) { // receiver omitt
 // @param data
 // @param v.
 func (*DefaultJSONSerializer) Unmarshal(data []byte, v any) error { // receiver omitted (unused)
-	err := json.Unmarshal(data, &v)
+	err := json.Unmarshal(data, v)
 	if err != nil {
 		return ewrap.Wrap(err, "failed to unmarshal json")
 	}
-- 
2.43.0


From e64bbf81e07bf73c2e176c162fb220ba9579ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 05/49] fix: median of large samples overflowed int64

---
 pkg/stats/histogramcollector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index ee5270e..cdafd3d 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -282,7 +282,8 @@ func medianOf(sorted []int64) float64 {
 		return float64(sorted[n/2])
 	}
 
-	return float64(sorted[n/2-1]+sorted[n/2]) / 2
+	// halve before adding: the sum of two int64 samples may overflow
+	return float64(sorted[n/2-1])/2 + float64(sorted[n/2])/2
 }
 
 // percentileOf returns the pth percentile of a sorted slice using
-- 
2.43.0


From 0ab07165f108a1c2900c15499bb431209ec2e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 06/49] fix: compute the window variance around the window's
 own mean

Using the lifetime mean reported a large variance for a window of equal
samples once older, different samples had left it.
---
 pkg/stats/histogramcollector.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index cdafd3d..6532490 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -189,7 +189,7 @@ func (c *HistogramStatsCollector) GetStats() Stats {
 			Values:   sorted,
 			Count:    int(count),
 			Sum:      sum,
-			Variance: varianceOf(sorted, mean),
+			Variance: varianceOf(sorted, meanOf(sorted)),
 		}
 
 		return true
@@ -309,6 +309,21 @@ func percentileOf(sorted []int64, percentile float64) float64 {
 	return float64(sorted[idx])
 }
 
+// meanOf returns the mean of a sample window. Empty slice returns 0.
+func meanOf(values []int64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
+
+	var acc float64
+
+	for _, value := range values {
+		acc += float64(value)
+	}
+
+	return acc / float64(len(values))
+}
+
 // varianceOf returns the population variance of values around mean.
 func varianceOf(values []int64, mean float64) float64 {
 	if len(values) == 0 {
-- 
2.43.0


From d6ccb4dcd2948899991eb756066914581af56b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:28 +0000
Subject: [PATCH 07/49] fix: auth options dropped the caller's HTTP transport
 and timeout

WithBearerAuth/WithBasicAuth always sent through http.DefaultTransport,
losing the transport (mTLS, custom dialer), cookie jar and redirect
policy of a preceding WithHTTPClient; WithOIDCClientCredentials lost its
timeout, and stacked a second auth layer over a previous auth option.
---
 pkg/client/client.go  | 87 +++++++++++++++++++++++++------------------
 pkg/client/options.go | 27 +++++++-------
 2 files changed, 65 insertions(+), 49 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 0527ef7..16eda7c 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -322,45 +322,68 @@ func (c *Client) Can(ctx context.Context, capability string) (bool, error) {
 
 // --- internal helpers used by options.go ---
 
-// bearerAuthTransport returns a RoundTripper that injects the
-// given bearer token on every request.
-func bearerAuthTransport(token string) http.RoundTripper {
-	return bearerLikeAuthTransport("Bearer " + token)
+// headerAuthTransport sends every request through base with a fixed
+// Authorization header. Used by both bearer and Basic auth — both
+// share the "set one header on every request" shape.
+type headerAuthTransport struct {
+	base   http.RoundTripper
+	header string
 }
 
-// bearerLikeAuthTransport returns a RoundTripper that injects the
-// given Authorization header value on every request. Used by both
-// bearer and Basic auth — both share the "set one header on every
-// request" shape.
-func bearerLikeAuthTransport(headerValue string) http.RoundTripper {
-	return roundTripperFunc(func(req *http.Request) (*http.Response, error) {
-		// Clone before mutating so the caller's copy stays clean.
-		cloned := req.Clone(req.Context())
-		cloned.Header.Set("Authorization", headerValue)
+func (t *headerAuthTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	// Clone before mutating so the caller's copy stays clean.
+	cloned := req.Clone(req.Context())
+	cloned.Header.Set("Authorization", t.header)
 
-		base := http.DefaultTransport
+	base := t.base
+	if base == nil {
+		base = http.DefaultTransport
+	}
 
-		resp, err := base.RoundTrip(cloned)
-		if err != nil {
-			return nil, fmt.Errorf("client transport: %w", err)
-		}
+	resp, err := base.RoundTrip(cloned)
+	if err != nil {
+		return nil, fmt.Errorf("client transport: %w", err)
+	}
 
-		return resp, nil
-	})
+	return resp, nil
 }
 
-// httpClientWithAuth wraps the existing http.Client with an
-// authentication transport. The original client's Timeout is
-// preserved.
-func httpClientWithAuth(base *http.Client, authTransport http.RoundTripper) *http.Client {
-	out := &http.Client{Transport: authTransport}
-	if base != nil {
-		out.Timeout = base.Timeout
-	}
+// oidcTransport marks the oauth2 layer installed by
+// WithOIDCClientCredentials, so a later auth option can replace it
+// (and only it, never a transport the caller supplied).
+type oidcTransport struct {
+	*oauth2.Transport
+}
+
+// httpClientWithAuth returns a copy of base that authenticates every
+// request with the given Authorization header. The original client's
+// Transport, Timeout, redirect policy and cookie jar are preserved.
+func httpClientWithAuth(base *http.Client, headerValue string) *http.Client {
+	out := httpClientWithoutAuth(base)
+	out.Transport = &headerAuthTransport{base: out.Transport, header: headerValue}
 
 	return out
 }
 
+// httpClientWithoutAuth returns a copy of base whose Transport is
+// stripped of the auth layer a previous option installed, if any.
+func httpClientWithoutAuth(base *http.Client) *http.Client {
+	if base == nil {
+		return &http.Client{}
+	}
+
+	out := *base
+
+	switch transport := out.Transport.(type) {
+	case *headerAuthTransport:
+		out.Transport = transport.base
+	case *oidcTransport:
+		out.Transport = transport.Base
+	}
+
+	return &out
+}
+
 // contextWithBaseHTTP returns a context carrying base as the
 // oauth2.HTTPClient value. Used so oauth2.NewClient's TokenSource
 // uses our base transport (custom timeout, custom mTLS Transport)
@@ -373,14 +396,6 @@ func contextWithBaseHTTP(base *http.Client) context.Context {
 	return context.WithValue(context.Background(), oauth2.HTTPClient, base)
 }
 
-// roundTripperFunc is the function-as-RoundTripper adapter the
-// stdlib should ship but doesn't.
-type roundTripperFunc func(*http.Request) (*http.Response, error)
-
-func (f roundTripperFunc) RoundTrip(req *http.Request) (*http.Response, error) {
-	return f(req)
-}
-
 // decodeEnvelopeValue returns the raw bytes from an itemEnvelope.
 // The server always emits base64 in the envelope, but we tolerate
 // the (currently-unused) raw encoding for forward-compatibility.
diff --git a/pkg/client/options.go b/pkg/client/options.go
index 53a6d4f..fa86ea6 100644
--- a/pkg/client/options.go
+++ b/pkg/client/options.go
@@ -48,7 +48,7 @@ func WithBearerAuth(token string) Option {
 			return errBearerEmpty
 		}
 
-		c.http = httpClientWithAuth(c.http, bearerAuthTransport(token))
+		c.http = httpClientWithAuth(c.http, "Bearer "+token)
 
 		return nil
 	}
@@ -72,7 +72,7 @@ func WithBasicAuth(username, password string) Option {
 
 		encoded := base64.StdEncoding.EncodeToString([]byte(username + ":" + password))
 
-		c.http = httpClientWithAuth(c.http, bearerLikeAuthTransport("Basic "+encoded))
+		c.http = httpClientWithAuth(c.http, "Basic "+encoded)
 
 		return nil
 	}
@@ -97,16 +97,11 @@ func WithOIDCClientCredentials(cfg clientcredentials.Config) Option {
 			return errOIDCEmpty
 		}
 
-		// oauth2.NewClient returns an *http.Client whose Transport
-		// auto-injects Authorization: Bearer <token> and handles
-		// refresh transparently. Pass the existing Transport as
-		// the base so any prior WithHTTPClient (e.g. mTLS) is
-		// preserved.
-		base := c.http
-		if base == nil {
-			base = http.DefaultClient
-		}
-
+		// oauth2.Transport auto-injects Authorization: Bearer <token>
+		// and handles refresh transparently. Build on the existing
+		// client so any prior WithHTTPClient (mTLS, timeout, ...)
+		// is preserved.
+		base := httpClientWithoutAuth(c.http)
 		baseCtx := contextWithBaseHTTP(base)
 
 		// Wrap the underlying TokenSource so rotations log via the
@@ -116,7 +111,13 @@ func WithOIDCClientCredentials(cfg clientcredentials.Config) Option {
 		// rotation time, not capture time.
 		source := newLoggingTokenSource(cfg.TokenSource(baseCtx), c)
 
-		c.http = oauth2.NewClient(baseCtx, source)
+		authed := *base
+		authed.Transport = &oidcTransport{&oauth2.Transport{
+			Base:   base.Transport,
+			Source: oauth2.ReuseTokenSource(nil, source),
+		}}
+
+		c.http = &authed
 
 		return nil
 	}
-- 
2.43.0


From 86cfb4060d3060362573e6181357d9343ac6d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:28 +0000
Subject: [PATCH 08/49] fix: concurrent Close calls on a client could panic

---
 pkg/client/client.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 16eda7c..fb84dc6 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -58,6 +58,7 @@ type Client struct {
 	refreshInterval time.Duration
 	refreshStopCh   chan struct{}
 	refreshDoneCh   chan struct{}
+	closeOnce       sync.Once
 
 	logger *slog.Logger
 }
@@ -127,12 +128,7 @@ func (c *Client) Endpoints() []string {
 // should cancel via their request context if needed.
 func (c *Client) Close() error {
 	if c.refreshStopCh != nil {
-		select {
-		case <-c.refreshStopCh:
-			// already closed
-		default:
-			close(c.refreshStopCh)
-		}
+		c.closeOnce.Do(func() { close(c.refreshStopCh) })
 
 		if c.refreshDoneCh != nil {
 			<-c.refreshDoneCh
-- 
2.43.0


From 9c2bd6dd4d252c94f55880eb4d6b27c05179a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:28 +0000
Subject: [PATCH 09/49] fix: a batch TTL below one millisecond meant no expiry

---
 pkg/client/batch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index 6608de2..aea23c2 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -147,7 +147,9 @@ func (c *Client) BatchSet(ctx context.Context, items []BatchSetItem) ([]BatchPut
 			ValueEncoding: "base64",
 		}
 		if it.TTL > 0 {
-			wire.TTLMs = it.TTL.Milliseconds()
+			// a positive TTL below the wire's resolution must not
+			// turn into 0, which means "never expires"
+			wire.TTLMs = max(it.TTL.Milliseconds(), 1)
 		}
 
 		body.Items = append(body.Items, wire)
-- 
2.43.0


From 9ca9e8774225dae5b78ae7085496e0458cdc3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 10/49] fix: CLOCK lost a new key and refused to evict when
 every key had a second chance left

---
 pkg/eviction/clock.go | 105 +++++++++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 47 deletions(-)

diff --git a/pkg/eviction/clock.go b/pkg/eviction/clock.go
index f36a135..16277ae 100644
--- a/pkg/eviction/clock.go
+++ b/pkg/eviction/clock.go
@@ -41,33 +41,15 @@ func (c *ClockAlgorithm) Evict() (string, bool) {
 		return "", false
 	}
 
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // empty slot, advance
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		if item.AccessCount > 0 { // give second chance
-			item.AccessCount--
-
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		// evict
-		evictedKey := item.Key
-		delete(c.keys, evictedKey)
-		c.itemPoolManager.Put(item)
-
-		c.items[c.hand] = nil
-
-		return evictedKey, true
+	victim, ok := c.sweep()
+	if !ok {
+		return "", false
 	}
 
-	return "", false
+	evictedKey := victim.Key
+	c.itemPoolManager.Put(victim)
+
+	return evictedKey, true
 }
 
 // Set sets the item with the given key and value in the cache.
@@ -164,37 +146,66 @@ func (c *ClockAlgorithm) tryInsertInFreeSlot(key string, value any) bool {
 }
 
 func (c *ClockAlgorithm) evictAndInsert(key string, value any) {
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // skip empty
-			c.advanceHand()
+	victim, ok := c.sweep()
+	if !ok {
+		return
+	}
 
-			continue
-		}
+	c.itemPoolManager.Put(victim)
 
-		if item.AccessCount > 0 { // second chance
-			item.AccessCount--
+	newItem := c.itemPoolManager.Get()
 
-			c.advanceHand()
+	newItem.Key = key
+	newItem.Value = value
+	newItem.AccessCount = 1
+	c.items[c.hand] = newItem
+	c.keys[key] = c.hand
+	c.advanceHand()
+}
 
-			continue
-		}
+// sweep moves the hand to the first item without a remaining second chance,
+// taking one chance from every item it passes, and removes that item from its
+// slot. It reports false only when the clock is empty.
+func (c *ClockAlgorithm) sweep() (*cache.Item, bool) {
+	if len(c.keys) == 0 {
+		return nil, false
+	}
 
-		delete(c.keys, item.Key)
-		c.itemPoolManager.Put(item)
+	for {
+		for range c.capacity {
+			item := c.items[c.hand]
 
-		c.items[c.hand] = nil
+			switch {
+			case item == nil: // empty slot
+			case item.AccessCount > 0: // give second chance
+				item.AccessCount--
+			default:
+				delete(c.keys, item.Key)
 
-		newItem := c.itemPoolManager.Get()
+				c.items[c.hand] = nil
 
-		newItem.Key = key
-		newItem.Value = value
-		newItem.AccessCount = 1
-		c.items[c.hand] = newItem
-		c.keys[key] = c.hand
-		c.advanceHand()
+				return item, true
+			}
 
-		return
+			c.advanceHand()
+		}
+
+		// Every item had a chance left: take the rounds nobody survives
+		// to be evicted in at once, rather than one by one.
+		c.skipRounds()
+	}
+}
+
+// skipRounds takes from every item as many chances as the poorest one has.
+func (c *ClockAlgorithm) skipRounds() {
+	rounds := ^uint32(0)
+
+	for _, idx := range c.keys {
+		rounds = min(rounds, c.items[idx].AccessCount)
+	}
+
+	for _, idx := range c.keys {
+		c.items[idx].AccessCount -= rounds
 	}
 }
 
-- 
2.43.0


From c1649185bb3b6a216bcf75e1f8d36693fa47e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 11/49] fix: ARC exceeded its capacity, evicted without need
 and refused to evict while keys were resident

---
 pkg/eviction/arc.go | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/pkg/eviction/arc.go b/pkg/eviction/arc.go
index 74f2f32..39aaa9f 100644
--- a/pkg/eviction/arc.go
+++ b/pkg/eviction/arc.go
@@ -277,7 +277,7 @@ func (a *ARC) Evict() (string, bool) {
 // replace evicts one resident from T1 or T2 and places its key into B1 or B2.
 // Returns the evicted resident key (if any).
 func (a *ARC) replace(x string) string {
-	fromT1 := a.t1.len > 0 && ((x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p))
+	fromT1 := a.t1.len > 0 && (a.t2.len == 0 || (x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p))
 	if fromT1 {
 		if tail := a.t1.removeTail(); tail != nil {
 			delete(a.t1Idx, tail.key)
@@ -285,6 +285,7 @@ func (a *ARC) replace(x string) string {
 
 			a.b1Idx[tail.key] = a.b1.head
 			a.length--
+			a.trimGhosts()
 
 			return tail.key
 		}
@@ -295,6 +296,7 @@ func (a *ARC) replace(x string) string {
 
 			a.b2Idx[tail.key] = a.b2.head
 			a.length--
+			a.trimGhosts()
 
 			return tail.key
 		}
@@ -338,11 +340,13 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = a.capacity
 		}
 
-		a.replace(key)
-
 		a.b1.remove(ghost)
 		delete(a.b1Idx, key)
 
+		if a.length >= a.capacity {
+			a.replace("")
+		}
+
 		node := &arcNode{key: key, value: value}
 		a.t2.pushFront(node)
 
@@ -360,10 +364,14 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = 0
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
-		a.b2.remove(ghost)
-		delete(a.b2Idx, key)
+		if a.b2Idx[key] == ghost {
+			a.b2.remove(ghost)
+			delete(a.b2Idx, key)
+		}
 
 		node := &arcNode{key: key, value: value}
 		a.t2.pushFront(node)
@@ -408,6 +416,8 @@ func (a *ARC) trimForHistoryLimit() {
 			delete(a.b1Idx, tail.key)
 		}
 
+		a.replace("")
+
 		return
 	}
 
@@ -432,6 +442,28 @@ func (a *ARC) trimForTotalLimit() {
 	a.replace("")
 }
 
+// trimGhosts keeps the history bounded when keys are evicted from a cache
+// that is not full: |T1| + |B1| <= c and all lists together <= 2c.
+func (a *ARC) trimGhosts() {
+	for a.t1.len+a.b1.len > a.capacity {
+		tail := a.b1.removeTail()
+		if tail == nil {
+			break
+		}
+
+		delete(a.b1Idx, tail.key)
+	}
+
+	for a.t1.len+a.t2.len+a.b1.len+a.b2.len > 2*a.capacity {
+		tail := a.b2.removeTail()
+		if tail == nil {
+			break
+		}
+
+		delete(a.b2Idx, tail.key)
+	}
+}
+
 func arcIntMax(a, b int) int {
 	if a > b {
 		return a
-- 
2.43.0


From 15c0f4e356da8d53fa536acfbe1ff951f9724cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 12/49] fix: keep the memory allocation exact across
 overwrites, rejected writes and repeated removals

Set and GetOrSet never released the size of the item they replaced (and
counted it against maxCacheSize), rejected writes released the size of an
already recycled item, and Remove released a key's size once per mention
and per concurrent caller.
---
 hypercache.go           |   8 +++
 hypercache_io.go        | 123 ++++++++++++++++++++++++++++++----------
 pkg/backend/inmemory.go |  27 +++++++++
 pkg/cache/v2/cmap.go    |  38 +++++++++++++
 4 files changed, 166 insertions(+), 30 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 2102240..558ed0b 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -88,6 +88,14 @@ type touchBackend interface {
 	Touch(ctx context.Context, key string) bool
 }
 
+// sizedBackend is the optional interface a backend implements when it can
+// report the size of the items its writes and removals displace, which keeps
+// the memory accounting exact.
+type sizedBackend interface {
+	Replace(ctx context.Context, item *cache.Item) (int64, error)
+	RemoveIf(ctx context.Context, key string, cond func(*cache.Item) bool) (int64, bool)
+}
+
 // NewInMemoryWithDefaults initializes a new HyperCache with the default configuration.
 // The default configuration is:
 //   - The eviction interval is set to 10 minutes.
diff --git a/hypercache_io.go b/hypercache_io.go
index 320ec44..053bfce 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -31,21 +31,9 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 		return err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-
-		return sentinel.ErrCacheFull
-	}
-
-	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	// Insert the item into the cache, unless it would exceed the maxCacheSize
+	err = hyperCache.insert(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return err
 	}
 
@@ -61,6 +49,50 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 	return nil
 }
 
+// insert hands item to the backend and charges its size to the memory
+// allocation, net of the item it replaces. Items that would push the
+// allocation over maxCacheSize are refused.
+func (hyperCache *HyperCache[T]) insert(ctx context.Context, item *cache.Item) error {
+	size := item.Size // a backend may recycle an item it rejects
+
+	total := hyperCache.memoryAllocation.Add(size)
+	if hyperCache.maxCacheSize > 0 && total > hyperCache.maxCacheSize {
+		// The item being replaced makes room for its successor.
+		if old, ok := hyperCache.backend.Get(ctx, item.Key); ok {
+			total -= old.Size
+		}
+
+		if total > hyperCache.maxCacheSize {
+			hyperCache.memoryAllocation.Add(-size)
+			hyperCache.itemPoolManager.Put(item)
+
+			return sentinel.ErrCacheFull
+		}
+	}
+
+	var (
+		displaced int64
+		err       error
+	)
+
+	if sized, ok := hyperCache.backend.(sizedBackend); ok {
+		displaced, err = sized.Replace(ctx, item)
+	} else {
+		err = hyperCache.backend.Set(ctx, item)
+	}
+
+	if err != nil {
+		hyperCache.memoryAllocation.Add(-size)
+		hyperCache.itemPoolManager.Put(item)
+
+		return err
+	}
+
+	hyperCache.memoryAllocation.Add(-displaced)
+
+	return nil
+}
+
 // Get retrieves the item with the given key from the cache returning the value and a boolean indicating if the item was found.
 func (hyperCache *HyperCache[T]) Get(ctx context.Context, key string) (any, bool) {
 	item, ok := hyperCache.backend.Get(ctx, key)
@@ -142,22 +174,9 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
-		return nil, sentinel.ErrCacheFull
-	}
-
-	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	// Insert the item into the cache, unless it would exceed the maxCacheSize
+	err = hyperCache.insert(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return nil, err
 	}
 
@@ -264,6 +283,18 @@ func (hyperCache *HyperCache[T]) setItemSize(item *cache.Item) error {
 
 // Remove removes items with the given key from the cache. If an item is not found, it does nothing.
 func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) error {
+	// Backends that report what they removed keep the accounting exact.
+	if sized, ok := hyperCache.backend.(sizedBackend); ok {
+		for _, key := range keys {
+			_, err := hyperCache.removeIf(ctx, sized, key, nil)
+			if err != nil {
+				return err
+			}
+		}
+
+		return nil
+	}
+
 	// Remove the item from the eviction algorithm
 	// and update the memory allocation
 	for _, key := range keys {
@@ -283,6 +314,27 @@ func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) err
 	return nil
 }
 
+// removeIf removes key if cond holds for its item (a nil cond always holds),
+// releases the size of the removed item, and reports whether there was one.
+func (hyperCache *HyperCache[T]) removeIf(
+	ctx context.Context,
+	sized sizedBackend,
+	key string,
+	cond func(*cache.Item) bool,
+) (bool, error) {
+	if ctx.Err() != nil {
+		return false, sentinel.ErrTimeoutOrCanceled
+	}
+
+	size, removed := sized.RemoveIf(ctx, key, cond)
+	if removed {
+		hyperCache.memoryAllocation.Add(-size)
+		hyperCache.evictionAlgorithm.Delete(key)
+	}
+
+	return removed, nil
+}
+
 // Clear removes all items from the cache.
 func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 	var (
@@ -290,12 +342,23 @@ func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 		err   error
 	)
 
-	// get all expired items
+	// get all items
 	items, err = hyperCache.backend.List(ctx)
 	if err != nil {
 		return err
 	}
 
+	if sized, ok := hyperCache.backend.(sizedBackend); ok {
+		for _, item := range items {
+			_, err = hyperCache.removeIf(ctx, sized, item.Key, nil)
+			if err != nil {
+				return err
+			}
+		}
+
+		return nil
+	}
+
 	// clear the cacheBackend
 	err = hyperCache.backend.Clear(ctx)
 	if err != nil {
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index ac448bf..ec5a26c 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -84,6 +84,33 @@ func (cacheBackend *InMemory) Set(_ context.Context, item *cache.Item) error {
 	return nil
 }
 
+// Replace adds an Item to the cache like Set and returns the size of the
+// item it displaced (0 when the key was absent).
+func (cacheBackend *InMemory) Replace(_ context.Context, item *cache.Item) (int64, error) {
+	err := item.Valid()
+	if err != nil {
+		return 0, err
+	}
+
+	old, existed := cacheBackend.items.Swap(item.Key, item)
+	if !existed {
+		return 0, nil
+	}
+
+	return old.Size, nil
+}
+
+// RemoveIf removes the item with the given key if cond holds for it (a nil
+// cond always holds) and returns the size of the removed item.
+func (cacheBackend *InMemory) RemoveIf(_ context.Context, key string, cond func(*cache.Item) bool) (int64, bool) {
+	item, ok := cacheBackend.items.PopIf(key, cond)
+	if !ok {
+		return 0, false
+	}
+
+	return item.Size, true
+}
+
 // List returns a list of all items in the cache filtered and ordered by the given options.
 func (cacheBackend *InMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item, error) {
 	var err error
diff --git a/pkg/cache/v2/cmap.go b/pkg/cache/v2/cmap.go
index e7d96a4..f7f26d2 100644
--- a/pkg/cache/v2/cmap.go
+++ b/pkg/cache/v2/cmap.go
@@ -100,6 +100,24 @@ func (cm *ConcurrentMap) Set(key string, value *Item) {
 	shard.Unlock()
 }
 
+// Swap sets the given value under the specified key and returns the value
+// it displaced, if any.
+func (cm *ConcurrentMap) Swap(key string, value *Item) (*Item, bool) {
+	shard := cm.GetShard(key)
+
+	shard.Lock()
+	defer shard.Unlock()
+
+	old, existed := shard.items[key]
+	if !existed {
+		shard.count.Add(1)
+	}
+
+	shard.items[key] = value
+
+	return old, existed
+}
+
 // Get retrieves an element from map under given key.
 func (cm *ConcurrentMap) Get(key string) (*Item, bool) {
 	// Get shard
@@ -182,6 +200,26 @@ func (cm *ConcurrentMap) Pop(key string) (*Item, bool) {
 	return item, ok
 }
 
+// PopIf removes the element under the given key and returns it, provided
+// cond holds for it (a nil cond always holds). The check and the removal
+// are one step: no write can slip in between.
+func (cm *ConcurrentMap) PopIf(key string, cond func(*Item) bool) (*Item, bool) {
+	shard := cm.GetShard(key)
+
+	shard.Lock()
+	defer shard.Unlock()
+
+	item, ok := shard.items[key]
+	if !ok || (cond != nil && !cond(item)) {
+		return nil, false
+	}
+
+	delete(shard.items, key)
+	shard.count.Add(-1)
+
+	return item, true
+}
+
 // All returns an iter.Seq2 that yields every (key, *Item) pair across all
 // shards. Each shard is walked under its own RLock, released before moving
 // to the next shard — concurrent writers to a different shard are not
-- 
2.43.0


From 7f19cdff28b6bc15be7fc84485cad16af3eb20d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 13/49] fix: enforce the capacity for items the eviction
 algorithm does not track

The algorithm's own capacity is maxEvictionCount split across shards, so it
silently forgets items; those could never be evicted and the cache stayed
over a lowered capacity (always, when created without one). Capacity 0 means
no limit, yet eviction runs emptied such a cache. SetCapacity gave up after
one run or when the caller's context ended.
---
 hypercache.go           |   1 +
 hypercache_eviction.go  | 176 ++++++++++++++++++++++++++++------------
 pkg/backend/inmemory.go |   9 +-
 pkg/backend/options.go  |   2 +-
 4 files changed, 129 insertions(+), 59 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 558ed0b..9079cd8 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -60,6 +60,7 @@ type HyperCache[T backend.IBackendConstrain] struct {
 	evictCh                    chan bool           // manual eviction trigger
 	evictionAlgorithmName      string              // name of eviction algorithm
 	evictionAlgorithm          eviction.IAlgorithm // eviction algorithm impl
+	evictionRunMu              sync.Mutex          // serializes eviction runs
 	evictionShardCount         int                 // number of eviction-algo shards (default 32; <=1 disables sharding)
 	expirationInterval         time.Duration       // interval for expiration loop
 	evictionInterval           time.Duration       // interval for eviction loop
diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 91dd8ce..a0f09a0 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/hyp3rd/sectools/pkg/converters"
 
+	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/pkg/backend"
 	"github.com/hyp3rd/hypercache/pkg/eviction"
 )
@@ -92,64 +93,127 @@ func (hyperCache *HyperCache[T]) startEvictionRoutine(ctx context.Context) {
 	}()
 }
 
+// overCapacity reports whether the backend holds more items than its capacity
+// (0 = no limit).
+func (hyperCache *HyperCache[T]) overCapacity(ctx context.Context) bool {
+	capacity := hyperCache.backend.Capacity()
+
+	return capacity > 0 && hyperCache.backend.Count(ctx) > capacity
+}
+
+// evictExcess evicts items while the backend is over capacity, at most limit
+// of them (0 = no limit). The eviction algorithm picks the victims; items it
+// does not track (its own capacity is bounded by maxEvictionCount and split
+// across shards) go last, least recently accessed first.
+func (hyperCache *HyperCache[T]) evictExcess(ctx context.Context, limit uint) (uint, error) {
+	var evicted uint
+
+	for hyperCache.overCapacity(ctx) && (limit == 0 || evicted < limit) {
+		// Each eviction algorithm provides its own internal mutex; no
+		// outer lock needed. The Evict() -> remove window below is
+		// already non-atomic by design (other workers may insert items
+		// between the two calls); a wider lock would not change that.
+		key, ok := hyperCache.evictionAlgorithm.Evict()
+		if !ok {
+			break
+		}
+
+		removed, err := hyperCache.evictKey(ctx, key)
+		if err != nil {
+			return evicted, err
+		}
+
+		if removed {
+			evicted++
+		}
+	}
+
+	if _, ok := hyperCache.backend.(sizedBackend); !ok || !hyperCache.overCapacity(ctx) || (limit != 0 && evicted >= limit) {
+		return evicted, nil
+	}
+
+	items, err := hyperCache.backend.List(ctx, backend.WithSortBy(constants.SortByLastAccess.String()))
+	if err != nil {
+		return evicted, err
+	}
+
+	for _, item := range items {
+		if !hyperCache.overCapacity(ctx) || (limit != 0 && evicted >= limit) {
+			break
+		}
+
+		removed, err := hyperCache.evictKey(ctx, item.Key)
+		if err != nil {
+			return evicted, err
+		}
+
+		if removed {
+			evicted++
+		}
+	}
+
+	return evicted, nil
+}
+
+// evictKey removes an eviction victim and reports whether it was still there.
+func (hyperCache *HyperCache[T]) evictKey(ctx context.Context, key string) (bool, error) {
+	if sized, ok := hyperCache.backend.(sizedBackend); ok {
+		return hyperCache.removeIf(ctx, sized, key, nil)
+	}
+
+	return true, hyperCache.Remove(ctx, key)
+}
+
 // evictionLoop runs in a worker goroutine and evicts items until the backend is at or below capacity,
 // or the configured maxEvictionCount is reached. The eviction policy is determined by the configured
 // algorithm.
 func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 	// Enqueue the eviction loop in the worker pool to avoid blocking the main goroutine if the eviction loop is slow
 	hyperCache.workerPool.Enqueue(func() error {
-		hyperCache.StatsCollector.Incr("eviction_loop_count", 1)
+		_, err := hyperCache.evictionRun(ctx)
 
-		start := time.Now()
-
-		defer hyperCache.StatsCollector.Timing("eviction_loop_duration", time.Now().UnixNano())
+		return err
+	})
+}
 
-		var evictedCount uint
+// evictionRun is one eviction run; runs do not overlap, so that two of them
+// cannot evict for the same excess. It returns how many items it evicted.
+func (hyperCache *HyperCache[T]) evictionRun(ctx context.Context) (uint, error) {
+	hyperCache.evictionRunMu.Lock()
+	defer hyperCache.evictionRunMu.Unlock()
 
-		for hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-			if hyperCache.maxEvictionCount == evictedCount {
-				break
-			}
+	hyperCache.StatsCollector.Incr("eviction_loop_count", 1)
 
-			// Each eviction algorithm provides its own internal mutex; no
-			// outer lock needed. The Evict() -> Remove() window below is
-			// already non-atomic by design (other workers may insert items
-			// between the two calls); a wider lock would not change that.
-			key, ok := hyperCache.evictionAlgorithm.Evict()
-			if !ok {
-				// no more items to evict
-				break
-			}
+	start := time.Now()
 
-			// remove the item from the cache
-			err := hyperCache.Remove(ctx, key)
-			if err != nil {
-				return err
-			}
+	defer hyperCache.StatsCollector.Timing("eviction_loop_duration", time.Now().UnixNano())
 
-			evictedCount++
+	evictedCount, err := hyperCache.evictExcess(ctx, hyperCache.maxEvictionCount)
+	for range evictedCount {
+		hyperCache.StatsCollector.Incr("item_evicted_count", 1)
+	}
 
-			hyperCache.StatsCollector.Incr("item_evicted_count", 1)
-		}
+	if err != nil {
+		return evictedCount, err
+	}
 
-		itemCount, err := converters.ToInt64(hyperCache.backend.Count(ctx))
-		if err != nil {
-			return err
-		}
+	itemCount, err := converters.ToInt64(hyperCache.backend.Count(ctx))
+	if err != nil {
+		return evictedCount, err
+	}
 
-		hyperCache.StatsCollector.Gauge("item_count", itemCount)
+	hyperCache.StatsCollector.Gauge("item_count", itemCount)
 
-		evictedCount64, err := converters.ToInt64(evictedCount)
-		if err != nil {
-			return err
-		}
+	evictedCount64, err := converters.ToInt64(evictedCount)
+	if err != nil {
+		return evictedCount, err
+	}
 
-		hyperCache.StatsCollector.Gauge("evicted_item_count", evictedCount64)
+	hyperCache.StatsCollector.Gauge("evicted_item_count", evictedCount64)
 
-		hyperCache.logEvictionTick(evictedCount, itemCount, time.Since(start))
+	hyperCache.logEvictionTick(evictedCount, itemCount, time.Since(start))
 
-		return nil
-	})
+	return evictedCount, nil
 }
 
 // logEvictionTick emits a single-line tick log so operators can grep
@@ -175,21 +239,12 @@ func (hyperCache *HyperCache[T]) logEvictionTick(evicted uint, remaining int64,
 	)
 }
 
-// evictItem is a helper function that removes an item from the cache and returns the key of the evicted item.
+// evictItem is a helper function that evicts one item when the cache is over capacity.
 // If no item can be evicted, it returns a false.
-func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) (string, bool) {
-	key, ok := hyperCache.evictionAlgorithm.Evict()
-	if !ok {
-		// no more items to evict
-		return "", false
-	}
+func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) bool {
+	evicted, err := hyperCache.evictExcess(ctx, 1)
 
-	err := hyperCache.Remove(ctx, key)
-	if err != nil {
-		return "", false
-	}
-
-	return key, true
+	return err == nil && evicted > 0
 }
 
 // SetCapacity sets the capacity of the cache. If the new capacity is smaller than the current number of items in the cache,
@@ -201,8 +256,21 @@ func (hyperCache *HyperCache[T]) SetCapacity(ctx context.Context, capacity int)
 	hyperCache.shouldEvict.Swap(hyperCache.evictionInterval == 0 && hyperCache.backend.Capacity() > 0)
 
 	// if the cache size is greater than the new capacity, evict items
-	if hyperCache.backend.Count(ctx) > hyperCache.Capacity() {
-		hyperCache.evictionLoop(ctx)
+	if hyperCache.overCapacity(ctx) {
+		// The excess goes in as many runs as maxEvictionCount makes it take,
+		// even if the caller's context ends first.
+		ctx = context.WithoutCancel(ctx)
+
+		hyperCache.workerPool.Enqueue(func() error {
+			for hyperCache.overCapacity(ctx) {
+				evicted, err := hyperCache.evictionRun(ctx)
+				if err != nil || evicted == 0 {
+					return err
+				}
+			}
+
+			return nil
+		})
 	}
 }
 
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index ec5a26c..9cc66be 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"context"
+	"sync/atomic"
 
 	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/sentinel"
@@ -14,7 +15,7 @@ import (
 type InMemory struct {
 	items           cache.ConcurrentMap    // map to store the items in the cache
 	itemPoolManager *cache.ItemPoolManager // item pool manager to manage the item pool
-	capacity        int                    // capacity of the cache, limits the number of items that can be stored in the cache
+	capacity        atomic.Int64           // capacity of the cache, limits the number of items that can be stored in the cache
 }
 
 // NewInMemory creates a new in-memory cache with the given options.
@@ -27,7 +28,7 @@ func NewInMemory(opts ...Option[InMemory]) (IBackend[InMemory], error) {
 	ApplyOptions(backendInstance, opts...)
 
 	// Check if the `capacity` is valid
-	if backendInstance.capacity < 0 {
+	if backendInstance.capacity.Load() < 0 {
 		return nil, sentinel.ErrInvalidCapacity
 	}
 
@@ -40,12 +41,12 @@ func (cacheBackend *InMemory) SetCapacity(capacity int) {
 		return
 	}
 
-	cacheBackend.capacity = capacity
+	cacheBackend.capacity.Store(int64(capacity))
 }
 
 // Capacity returns the capacity of the cacheBackend.
 func (cacheBackend *InMemory) Capacity() int {
-	return cacheBackend.capacity
+	return int(cacheBackend.capacity.Load())
 }
 
 // Count returns the number of items in the cache.
diff --git a/pkg/backend/options.go b/pkg/backend/options.go
index 1c36e25..4c16c5c 100644
--- a/pkg/backend/options.go
+++ b/pkg/backend/options.go
@@ -14,7 +14,7 @@ type iConfigurableBackend interface {
 
 // setCapacity sets the `Capacity` field of the `InMemory` backend.
 func (inm *InMemory) setBackendCapacity(capacity int) {
-	inm.capacity = capacity
+	inm.capacity.Store(int64(capacity))
 }
 
 // setCapacity sets the `Capacity` field of the `Redis` backend.
-- 
2.43.0


From 3a6d60463834711e8fd6492e37a6bc4b5a5d2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 14/49] fix: on-demand expiration could stop for good, and
 sweeps removed values written after the expired ones

Draining the trigger channel after clearing the pending flag swallowed a
concurrent trigger while leaving the flag set, which suppressed every later
one. The sweep removed listed keys unconditionally, so a value written (or an
item accessed) between the listing and the removal was lost; with a backend
whose List ignores filters (DistMemory) it removed live items outright.
---
 hypercache_expiration.go | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index bb2e342..2ec7570 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -46,19 +46,11 @@ func (hyperCache *HyperCache[T]) handleExpirationSelect(ctx context.Context, tic
 		// scheduled expiration
 		hyperCache.expirationLoop(ctx)
 	case <-hyperCache.expirationTriggerCh:
-		// manual/coalesced trigger
-		hyperCache.expirationLoop(ctx)
+		// manual/coalesced trigger. Clear the pending flag before sweeping:
+		// a trigger arriving from here on may concern an item this sweep
+		// has already passed, so it must queue another one.
 		hyperCache.expirationSignalPending.Store(false)
-
-		// drain any queued triggers quickly
-		for draining := true; draining; {
-			select {
-			case <-hyperCache.expirationTriggerCh:
-				// keep draining
-			default:
-				draining = false
-			}
-		}
+		hyperCache.expirationLoop(ctx)
 
 	case <-hyperCache.evictCh:
 		// manual eviction trigger
@@ -109,7 +101,7 @@ func (hyperCache *HyperCache[T]) execTriggerExpiration() {
 	case hyperCache.expirationTriggerCh <- true:
 		hyperCache.lastExpirationTrigger.Store(time.Now().UnixNano())
 	default:
-		// channel full; keep pending flag set and record metric
+		// channel full: a sweep is already queued; record metric
 		hyperCache.StatsCollector.Incr(constants.StatIncr, 1)
 	}
 }
@@ -141,13 +133,17 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		// iterate all expired items and remove them
 		for _, item := range items {
-			expiredCount++
-
-			err := hyperCache.Remove(ctx, item.Key)
+			removed, err := hyperCache.removeExpired(ctx, item.Key)
 			if err != nil {
 				return err
 			}
 
+			if !removed { // written or accessed again since it was listed
+				continue
+			}
+
+			expiredCount++
+
 			hyperCache.itemPoolManager.Put(item)
 			hyperCache.StatsCollector.Incr("item_expired_count", 1)
 		}
@@ -178,5 +174,19 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 	})
 }
 
+// removeExpired removes key unless its item is (again) a live one, and
+// reports whether it did.
+func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, key string) (bool, error) {
+	if sized, ok := hyperCache.backend.(sizedBackend); ok {
+		return hyperCache.removeIf(ctx, sized, key, (*cache.Item).Expired)
+	}
+
+	if current, ok := hyperCache.backend.Get(ctx, key); ok && !current.Expired() {
+		return false, nil
+	}
+
+	return true, hyperCache.Remove(ctx, key)
+}
+
 // TriggerExpiration exposes a manual expiration trigger (debounced/coalesced internally).
 func (hyperCache *HyperCache[T]) TriggerExpiration() { hyperCache.execTriggerExpiration() }
-- 
2.43.0


From 7438c8e954641797b7b5773dc5b02597277e5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 15/49] fix: DistMemory.List ignored its filters

---
 pkg/backend/dist_memory.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0030471..eef1c35 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -27,6 +27,7 @@ import (
 	"go.opentelemetry.io/otel/trace/noop"
 
 	"github.com/hyp3rd/hypercache/internal/cluster"
+	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/eventbus"
 	"github.com/hyp3rd/hypercache/internal/sentinel"
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
@@ -1114,8 +1115,8 @@ func (dm *DistMemory) Set(ctx context.Context, item *cache.Item) error {
 
 // --- Consistency helper methods. ---
 
-// List aggregates items (no ordering, then filters applied per interface contract not yet integrated; kept simple);.
-func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, error) {
+// List aggregates the locally held items, then applies the filters in order.
+func (dm *DistMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item, error) {
 	items := make([]*cache.Item, 0, listPrealloc)
 	for _, s := range dm.shards {
 		for _, it := range s.items.All() {
@@ -1125,6 +1126,15 @@ func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, erro
 		}
 	}
 
+	var err error
+
+	for _, filter := range filters {
+		items, err = filter.ApplyFilter(constants.DistMemoryBackend, items)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	return items, nil
 }
 
-- 
2.43.0


From 7f14e374478572a5bbbc5a4a5c245453eef8aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:24 +0000
Subject: [PATCH 16/49] fix: a failing job could stall the worker pool, and
 resizes or concurrent shutdowns deadlock, panic or return early

---
 pool.go | 136 +++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 85 insertions(+), 51 deletions(-)

diff --git a/pool.go b/pool.go
index 9b225f6..8ddc531 100644
--- a/pool.go
+++ b/pool.go
@@ -14,29 +14,30 @@ type JobFunc func() error
 // graceful cache shutdown where background loops (expiration, eviction) may
 // still attempt to enqueue work after Stop() has begun.
 type WorkerPool struct {
-	// shutdownMu protects the closed flag and serializes Shutdown vs Enqueue
-	// so Shutdown cannot close pool.jobs while an Enqueue is mid-send.
-	// Enqueue takes RLock (concurrent senders allowed); Shutdown takes Lock.
-	shutdownMu sync.RWMutex
-	closed     bool
+	// mu protects the closed flag and the numbers of workers. A job is counted
+	// in wg under mu before it is sent, and Shutdown waits for wg before it
+	// closes the channels, so no send can hit a closed channel.
+	mu      sync.Mutex
+	closed  bool
+	workers int // configured number of workers
+	live    int // running workers, above the configured number until some retire
 
-	workers   int
 	jobs      chan JobFunc
 	wg        sync.WaitGroup
-	quit      chan struct{}
+	quit      chan struct{} // wakes an idle worker to retire
+	done      chan struct{} // closed once Shutdown has drained the pool
 	errorChan chan error
 }
 
 // NewWorkerPool creates a new worker pool with the given number of workers.
 func NewWorkerPool(workers int) *WorkerPool {
 	pool := &WorkerPool{
-		workers: workers,
-		jobs:    make(chan JobFunc, workers),
-		// buffer quit to allow multiple resize signals without blocking immediately
-		quit:      make(chan struct{}, workers),
+		jobs:      make(chan JobFunc, workers),
+		quit:      make(chan struct{}, 1),
+		done:      make(chan struct{}),
 		errorChan: make(chan error, workers),
 	}
-	pool.start()
+	pool.Resize(workers)
 
 	return pool
 }
@@ -44,43 +45,47 @@ func NewWorkerPool(workers int) *WorkerPool {
 // Enqueue adds a job to the worker pool. If the pool has been shut down,
 // the job is silently dropped (see WorkerPool docstring).
 func (pool *WorkerPool) Enqueue(job JobFunc) {
-	pool.shutdownMu.RLock()
-	defer pool.shutdownMu.RUnlock()
+	pool.mu.Lock()
 
 	if pool.closed {
+		pool.mu.Unlock()
+
 		return
 	}
 
 	pool.wg.Add(1)
+	pool.mu.Unlock()
 
 	pool.jobs <- job
 }
 
 // Shutdown shuts down the worker pool. It waits for all enqueued jobs to
-// finish before returning. Idempotent — repeat calls are no-ops.
+// finish before returning. Idempotent — repeat calls only wait.
 func (pool *WorkerPool) Shutdown() {
-	pool.shutdownMu.Lock()
+	pool.mu.Lock()
 
 	if pool.closed {
-		pool.shutdownMu.Unlock()
+		pool.mu.Unlock()
+		<-pool.done
 
 		return
 	}
 
 	pool.closed = true
-	// Close jobs while holding the write lock so no Enqueue can race the close.
-	close(pool.jobs)
-	pool.shutdownMu.Unlock()
 
-	// Wait for all enqueued jobs to complete
+	// Someone has to run the jobs accepted before a resize to zero.
+	pool.setWorkers(max(pool.workers, 1))
+	pool.mu.Unlock()
+
+	// Wait for all enqueued jobs to complete; nothing is sent after that
 	pool.wg.Wait()
-	// Now signal any lingering workers to exit select loop
-	close(pool.quit)
-	// It's now safe to close the error channel (no more sends after wg completes)
+	close(pool.jobs)
 	close(pool.errorChan)
+	close(pool.done)
 }
 
 // Errors returns a channel that can be used to receive errors from the worker pool.
+// Errors that find it full are dropped: reading it is optional.
 func (pool *WorkerPool) Errors() <-chan error {
 	return pool.errorChan
 }
@@ -91,37 +96,59 @@ func (pool *WorkerPool) Resize(newSize int) {
 		return
 	}
 
-	diff := newSize - pool.workers
-	if diff == 0 {
-		return
+	pool.mu.Lock()
+	defer pool.mu.Unlock()
+
+	if !pool.closed {
+		pool.setWorkers(newSize)
 	}
+}
 
-	pool.workers = newSize
+// setWorkers starts the workers missing to the given number, or has the excess
+// ones retire once they are idle. The caller holds pool.mu.
+func (pool *WorkerPool) setWorkers(workers int) {
+	pool.workers = workers
 
-	if diff > 0 {
-		// Increase the number of workers
-		for range diff {
-			go pool.worker()
-		}
-	} else {
-		// Decrease the number of workers
-		// Send only the number of quit signals needed to remove workers
-		for range -diff {
-			pool.quit <- struct{}{}
-		}
+	for pool.live < workers {
+		pool.live++
+
+		go pool.worker()
 	}
+
+	pool.wakeExcess()
 }
 
-// start starts the worker pool.
-func (pool *WorkerPool) start() {
-	for range pool.workers {
-		go pool.worker()
+// wakeExcess has an idle worker check whether it is in excess. The caller
+// holds pool.mu.
+func (pool *WorkerPool) wakeExcess() {
+	if pool.live <= pool.workers {
+		return
+	}
+
+	select {
+	case pool.quit <- struct{}{}:
+	default: // a wake-up is pending already
+	}
+}
+
+// retire reports whether the calling worker is in excess and has to end.
+func (pool *WorkerPool) retire() bool {
+	pool.mu.Lock()
+	defer pool.mu.Unlock()
+
+	if pool.live <= pool.workers {
+		return false
 	}
+
+	pool.live--
+	pool.wakeExcess()
+
+	return true
 }
 
 // worker is the main loop executed by each worker goroutine.
 func (pool *WorkerPool) worker() {
-	for {
+	for !pool.retire() {
 		select {
 		case job, ok := <-pool.jobs:
 			if !ok {
@@ -129,15 +156,22 @@ func (pool *WorkerPool) worker() {
 				return
 			}
 
-			err := job()
-			if err != nil {
-				pool.errorChan <- err
-			}
-
-			pool.wg.Done()
+			pool.run(job)
 
 		case <-pool.quit:
-			return
+		}
+	}
+}
+
+// run executes one job and reports its error if there is room for it.
+func (pool *WorkerPool) run(job JobFunc) {
+	defer pool.wg.Done()
+
+	err := job()
+	if err != nil {
+		select {
+		case pool.errorChan <- err:
+		default:
 		}
 	}
 }
-- 
2.43.0


From 0691046b7fd32b05b4dae05f01db0bac125f45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:58 +0000
Subject: [PATCH 17/49] fix: listing sorted by size was refused

---
 pkg/backend/filters.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/backend/filters.go b/pkg/backend/filters.go
index 269a1a1..ce6261f 100644
--- a/pkg/backend/filters.go
+++ b/pkg/backend/filters.go
@@ -67,6 +67,14 @@ func (f sortByFilter) ApplyFilter(_ string, items []*cache.Item) ([]*cache.Item,
 			},
 		}
 
+	case constants.SortBySize.String():
+		sorter = &itemSorter{
+			items: items,
+			less: func(i, j *cache.Item) bool {
+				return i.Size < j.Size
+			},
+		}
+
 	case constants.SortByLastAccess.String():
 		sorter = &itemSorter{
 			items: items,
-- 
2.43.0


From 0d9d3193272e6a0a5bd255d004c7a5a3339eb07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 18/49] fix: order replicated writes and deletes by version on
 every node

Forwarded writes kept version 0, replicas stored whatever arrived last,
deletes were versioned independently by each replica, a forwarded write
ignored its quorum, tombstones were an unsynchronised map that a later
write did not clear, and anti-entropy took any key a peer did not hold for
a delete. The primary now versions every write and delete, replicas compare
before they store, and tombstones travel with the digest.
---
 pkg/backend/dist_chaos.go          |   9 +
 pkg/backend/dist_http_server.go    |  39 ++-
 pkg/backend/dist_http_transport.go |  62 ++++-
 pkg/backend/dist_http_types.go     |   2 +
 pkg/backend/dist_memory.go         | 375 +++++++++++++++--------------
 pkg/backend/dist_transport.go      |  14 +-
 pkg/backend/dist_versioning.go     | 290 ++++++++++++++++++++++
 7 files changed, 603 insertions(+), 188 deletions(-)
 create mode 100644 pkg/backend/dist_versioning.go

diff --git a/pkg/backend/dist_chaos.go b/pkg/backend/dist_chaos.go
index 892aaea..a6dae82 100644
--- a/pkg/backend/dist_chaos.go
+++ b/pkg/backend/dist_chaos.go
@@ -256,6 +256,15 @@ func (t *chaosTransport) ForwardRemove(ctx context.Context, nodeID, key string,
 	return t.inner.ForwardRemove(ctx, nodeID, key, replicate)
 }
 
+func (t *chaosTransport) forwardTombstone(ctx context.Context, nodeID, key string, ts tombstone) error {
+	err := t.applyFault()
+	if err != nil {
+		return err
+	}
+
+	return forwardTombstone(ctx, t.inner, nodeID, key, ts)
+}
+
 func (t *chaosTransport) Health(ctx context.Context, nodeID string) error {
 	err := t.applyFault()
 	if err != nil {
diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 35005a9..db0e10d 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -9,6 +9,7 @@ import (
 	"net"
 	"net/http"
 	"strconv"
+	"strings"
 	"sync/atomic"
 	"time"
 
@@ -389,9 +390,31 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	// Forwarded arrival from a peer: ownership guard fires if this
 	// node disagrees with the sender's view about K's owners.
-	dm.applyForwardedSet(s.ctx, it, req.Replicate)
+	return writeApplyResult(fctx, dm.applyForwardedSet(s.ctx, it, req.Replicate))
+}
+
+// writeApplyResult answers a forwarded set or delete: 200 when it took
+// effect, 409 with the version held here when that is newer, 421 when this
+// node is not the key's owner, 503 when the write missed its quorum.
+func writeApplyResult(fctx fiber.Ctx, err error) error {
+	if err == nil {
+		return fctx.JSON(httpSetResponse{})
+	}
+
+	resp := httpSetResponse{Error: err.Error()}
+	status := fiber.StatusInternalServerError
+
+	switch version, stale := staleVersion(err); {
+	case stale:
+		status, resp.Version = fiber.StatusConflict, version
+	case errors.Is(err, sentinel.ErrNotOwner):
+		status = fiber.StatusMisdirectedRequest
+	case errors.Is(err, sentinel.ErrQuorumFailed):
+		status = fiber.StatusServiceUnavailable
+	default:
+	}
 
-	return fctx.JSON(httpSetResponse{})
+	return fctx.Status(status).JSON(resp)
 }
 
 func (s *distHTTPServer) registerSet(dm *DistMemory) {
@@ -442,6 +465,17 @@ func (s *distHTTPServer) handleRemove(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: "invalid replicate"})
 	}
 
+	if rawVersion := fctx.Query("version"); rawVersion != "" { // a replicated delete, versioned by its coordinator
+		version, versionErr := strconv.ParseUint(rawVersion, 10, 64)
+		if versionErr != nil {
+			return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: "invalid version"})
+		}
+
+		origin := strings.Clone(fctx.Query("origin"))
+
+		return writeApplyResult(fctx, dm.adoptTombstone(key, tombstone{version: version, origin: origin, at: time.Now()}))
+	}
+
 	dm.applyRemove(s.ctx, key, replicate)
 
 	return fctx.SendStatus(fiber.StatusOK)
@@ -552,6 +586,7 @@ func (s *distHTTPServer) registerMerkle(dm *DistMemory) {
 			"root":        tree.Root,
 			"leaf_hashes": tree.LeafHashes,
 			"chunk_size":  tree.ChunkSize,
+			"tombstones":  tree.Tombstones,
 		})
 	}))
 
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index bc1c1e8..93d4775 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -203,12 +203,32 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 			return ewrap.Wrap(rerr, "read error body")
 		}
 
-		return ewrap.Newf("forward set status %d body %s", resp.StatusCode, string(errBody))
+		return applyResultError("set", resp.StatusCode, errBody)
 	}
 
 	return nil
 }
 
+// applyResultError maps the answer of writeApplyResult back to the error
+// the receiver reported.
+func applyResultError(op string, status int, body []byte) error {
+	var resp httpSetResponse
+
+	if json.Unmarshal(body, &resp) == nil {
+		switch {
+		case status == http.StatusConflict:
+			return &staleVersionError{version: resp.Version}
+		case status == http.StatusMisdirectedRequest:
+			return sentinel.ErrNotOwner
+		case status == http.StatusServiceUnavailable && resp.Error == sentinel.ErrQuorumFailed.Error():
+			return sentinel.ErrQuorumFailed
+		default:
+		}
+	}
+
+	return ewrap.Newf("forward %s status %d body %s", op, status, string(body))
+}
+
 // ForwardGet fetches a single item from a remote node.
 func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string) (*cache.Item, bool, error) {
 	// prefer canonical endpoint
@@ -298,11 +318,26 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 
 // ForwardRemove propagates a delete operation to a remote node.
 func (t *DistHTTPTransport) ForwardRemove(ctx context.Context, nodeID, key string, replicate bool) error {
-	// prefer canonical endpoint
-	hreq, err := t.newNodeRequest(ctx, http.MethodDelete, nodeID, "/internal/del", url.Values{
+	return t.sendRemove(ctx, nodeID, url.Values{
 		"key":       {key},
 		"replicate": {strconv.FormatBool(replicate)},
-	}, nil)
+	})
+}
+
+// forwardTombstone replicates a delete with its version. A peer that does
+// not know the version parameters treats it as a plain replica delete.
+func (t *DistHTTPTransport) forwardTombstone(ctx context.Context, nodeID, key string, ts tombstone) error {
+	return t.sendRemove(ctx, nodeID, url.Values{
+		"key":       {key},
+		"replicate": {"false"},
+		"version":   {strconv.FormatUint(ts.version, 10)},
+		"origin":    {ts.origin},
+	})
+}
+
+func (t *DistHTTPTransport) sendRemove(ctx context.Context, nodeID string, query url.Values) error {
+	// prefer canonical endpoint
+	hreq, err := t.newNodeRequest(ctx, http.MethodDelete, nodeID, "/internal/del", query, nil)
 	if err != nil {
 		return ewrap.Wrap(err, errMsgNewRequest)
 	}
@@ -312,14 +347,20 @@ func (t *DistHTTPTransport) ForwardRemove(ctx context.Context, nodeID, key strin
 		return err
 	}
 
-	defer drainBody(t.limitedBody(resp))
+	body := t.limitedBody(resp)
+	defer drainBody(body)
 
 	if resp.StatusCode == http.StatusNotFound {
 		return sentinel.ErrBackendNotFound
 	}
 
 	if resp.StatusCode >= statusThreshold {
-		return ewrap.Newf("forward remove status %d", resp.StatusCode)
+		errBody, rerr := io.ReadAll(body)
+		if rerr != nil {
+			return ewrap.Wrap(rerr, "read error body")
+		}
+
+		return applyResultError("remove", resp.StatusCode, errBody)
 	}
 
 	return nil
@@ -453,6 +494,8 @@ func (t *DistHTTPTransport) FetchMerkle(ctx context.Context, nodeID string) (*Me
 		Root       []byte   `json:"root"`
 		LeafHashes [][]byte `json:"leaf_hashes"`
 		ChunkSize  int      `json:"chunk_size"`
+
+		Tombstones []MerkleTombstone `json:"tombstones"`
 	}
 
 	err = readAndUnmarshal(respBody, &body)
@@ -460,7 +503,12 @@ func (t *DistHTTPTransport) FetchMerkle(ctx context.Context, nodeID string) (*Me
 		return nil, err
 	}
 
-	return &MerkleTree{Root: body.Root, LeafHashes: body.LeafHashes, ChunkSize: body.ChunkSize}, nil
+	return &MerkleTree{
+		Root:       body.Root,
+		LeafHashes: body.LeafHashes,
+		ChunkSize:  body.ChunkSize,
+		Tombstones: body.Tombstones,
+	}, nil
 }
 
 // ListKeys returns keys held on a remote node, optionally filtered
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 69968c3..4a94a8d 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -16,6 +16,8 @@ type httpSetRequest struct { // shared with server & transport
 
 type httpSetResponse struct {
 	Error string `json:"error,omitempty"`
+	// Version is the version the receiver holds, on 409 Conflict.
+	Version uint64 `json:"version,omitempty"`
 }
 
 type httpGetResponse struct {
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index eef1c35..ae5f97a 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -172,9 +172,6 @@ type DistMemory struct {
 	autoSyncBackoffFactor    atomic.Int64 // current multiplier; >=1 when adaptive enabled
 	autoSyncCleanTicks       atomic.Int64 // cumulative clean ticks (whole-cycle, not per-peer)
 
-	// tombstone version source when no prior item exists (monotonic per process)
-	tombVersionCounter atomic.Uint64
-
 	// tombstone retention / compaction
 	tombstoneTTL      time.Duration
 	tombstoneSweepInt time.Duration
@@ -366,6 +363,7 @@ func (dm *DistMemory) LifecycleContext() context.Context { return dm.lifeCtx }
 
 type distShard struct {
 	items             cache.ConcurrentMap
+	stateMu           sync.Mutex                  // orders versioned changes of items and tombs, guards tombs
 	tombs             map[string]tombstone        // per-key tombstones
 	originalPrimary   map[string]cluster.NodeID   // recorded primary owner at first insert
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
@@ -492,6 +490,17 @@ type MerkleTree struct { // minimal representation
 	LeafHashes [][]byte // ordered leaf hashes
 	Root       []byte
 	ChunkSize  int
+	// Tombstones lists the deletes the tree covers. Leaf hashes alone cannot
+	// tell a deleted key from one the node never held.
+	Tombstones []MerkleTombstone
+}
+
+// MerkleTombstone is a delete as exchanged by anti-entropy.
+type MerkleTombstone struct {
+	Key       string    `json:"key"`
+	Version   uint64    `json:"version"`
+	Origin    string    `json:"origin"`
+	DeletedAt time.Time `json:"deleted_at"`
 }
 
 // BuildMerkleTree constructs a Merkle tree snapshot of local data (best-effort, locks each shard briefly).
@@ -501,29 +510,33 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 		chunkSize = defaultMerkleChunkSize
 	}
 
-	entries := dm.merkleEntries()
+	entries := dm.sortedMerkleEntries()
 	if len(entries) == 0 {
 		return &MerkleTree{ChunkSize: chunkSize}
 	}
 
-	slices.SortFunc(entries, func(a, b merkleKV) int {
-		return strings.Compare(a.k, b.k)
-	})
-
 	hasher := sha256.New()
 	buf := make([]byte, merkleVersionBytes)
 	leaves := make([][]byte, 0, (len(entries)+chunkSize-1)/chunkSize)
 
+	var tombstones []MerkleTombstone
+
 	for i := 0; i < len(entries); i += chunkSize {
 		end := min(i+chunkSize, len(entries))
 
 		hasher.Reset()
 
 		for _, e := range entries[i:end] {
-			_, _ = hasher.Write([]byte(e.k))
-			encodeUint64BigEndian(buf, e.v)
-
-			_, _ = hasher.Write(buf)
+			hashMerkleEntry(hasher, buf, e)
+
+			if e.tomb != nil {
+				tombstones = append(tombstones, MerkleTombstone{
+					Key:       e.k,
+					Version:   e.v,
+					Origin:    e.tomb.origin,
+					DeletedAt: e.tomb.at,
+				})
+			}
 		}
 
 		leaves = append(leaves, append([]byte(nil), hasher.Sum(nil)...))
@@ -531,13 +544,39 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 
 	root := foldMerkle(leaves, hasher)
 
-	return &MerkleTree{LeafHashes: leaves, Root: append([]byte(nil), root...), ChunkSize: chunkSize}
+	return &MerkleTree{
+		LeafHashes: leaves,
+		Root:       append([]byte(nil), root...),
+		ChunkSize:  chunkSize,
+		Tombstones: tombstones,
+	}
+}
+
+// hashMerkleEntry adds one entry to a leaf hash. The key is length-prefixed
+// so that no two entry lists encode to the same bytes, and a delete does
+// not hash like a live item of the same version.
+func hashMerkleEntry(hasher hash.Hash, buf []byte, e merkleKV) {
+	encodeUint64BigEndian(buf, uint64(len(e.k)))
+
+	_, _ = hasher.Write(buf)
+	_, _ = hasher.Write([]byte(e.k))
+
+	encodeUint64BigEndian(buf, e.v)
+
+	_, _ = hasher.Write(buf)
+
+	if e.tomb != nil {
+		_, _ = hasher.Write([]byte{1})
+	} else {
+		_, _ = hasher.Write([]byte{0})
+	}
 }
 
 // merkleKV is an internal pair used during tree construction & sync.
 type merkleKV struct {
-	k string
-	v uint64
+	k    string
+	v    uint64
+	tomb *tombstone // set for a delete
 }
 
 // DiffLeafRanges compares two trees and returns indexes of differing leaf chunks.
@@ -1203,6 +1242,12 @@ func (dm *DistMemory) DebugInject(it *cache.Item) {
 	}
 
 	sh := dm.shardFor(it.Key)
+
+	dm.observeVersion(it.Version)
+
+	sh.stateMu.Lock()
+	defer sh.stateMu.Unlock()
+
 	// test helper: injecting a concrete item implies intent to resurrect; clear any tombstone so normal version comparison applies
 	delete(sh.tombs, it.Key)
 	sh.items.Set(it.Key, it)
@@ -1750,42 +1795,57 @@ func (dm *DistMemory) sortedMerkleEntries() []merkleKV {
 	return entries
 }
 
-// resolveMissingKeys enumerates remote-only keys using in-process or HTTP listing.
+// resolveMissingKeys returns the keys the remote holds and this node has
+// neither an item nor a tombstone for, at most listKeysMax of them.
 func (dm *DistMemory) resolveMissingKeys(ctx context.Context, nodeID string, entries []merkleKV) map[string]struct{} {
-	missing := dm.enumerateRemoteOnlyKeys(nodeID, entries)
-	if len(missing) != 0 {
-		return missing
-	}
+	missing := make(map[string]struct{})
 
-	httpT, ok := dm.loadTransport().(*DistHTTPTransport)
-	if !ok {
+	transport := dm.loadTransport()
+	if transport == nil {
 		return missing
 	}
 
-	keys, kerr := httpT.ListKeys(ctx, nodeID, "")
-	if kerr != nil || len(keys) == 0 {
+	keys, err := transport.ListKeys(ctx, nodeID, "")
+	if err != nil {
+		dm.logger.Debug("merkle sync key listing failed", slog.String("peer_id", nodeID), slog.Any("err", err))
+
 		return missing
 	}
 
-	if dm.listKeysMax > 0 && len(keys) > dm.listKeysMax { // cap enforcement
-		keys = keys[:dm.listKeysMax]
+	known := make(map[string]struct{}, len(entries))
+	for _, e := range entries {
+		known[e.k] = struct{}{}
 	}
 
-	mset := make(map[string]struct{}, len(keys))
-	for _, k := range keys { // populate
-		mset[k] = struct{}{}
-	}
+	for _, k := range keys {
+		if dm.listKeysMax > 0 && len(missing) >= dm.listKeysMax { // cap enforcement
+			break
+		}
 
-	for _, e := range entries { // remove existing
-		delete(mset, e.k)
+		if _, ok := known[k]; !ok {
+			missing[k] = struct{}{}
+		}
 	}
 
-	// track number of remote-only keys discovered via fallback
-	if len(mset) > 0 {
-		dm.metrics.merkleKeysPulled.Add(int64(len(mset)))
+	return missing
+}
+
+// adoptRemoteTombstones applies the deletes a peer reported, skipping those
+// past this node's tombstone retention. It returns how many took effect.
+func (dm *DistMemory) adoptRemoteTombstones(tombstones []MerkleTombstone) int {
+	adopted := 0
+
+	for _, mt := range tombstones {
+		if dm.tombstoneTTL > 0 && time.Since(mt.DeletedAt) >= dm.tombstoneTTL {
+			continue
+		}
+
+		if dm.mergeTombstone(mt.Key, tombstone{version: mt.Version, origin: mt.Origin, at: mt.DeletedAt}) {
+			adopted++
+		}
 	}
 
-	return mset
+	return adopted
 }
 
 // applyMerkleDiffs fetches and adopts keys for differing Merkle chunks.
@@ -1839,37 +1899,6 @@ func (dm *DistMemory) storeTransport(t DistTransport) {
 	dm.transport.Store(&distTransportSlot{t: t})
 }
 
-// enumerateRemoteOnlyKeys returns keys present only on the remote side (best-effort, in-process only).
-func (dm *DistMemory) enumerateRemoteOnlyKeys(nodeID string, local []merkleKV) map[string]struct{} {
-	missing := make(map[string]struct{})
-
-	ip, ok := dm.loadTransport().(*InProcessTransport)
-	if !ok {
-		return missing
-	}
-
-	remote, ok := ip.backends[nodeID]
-	if !ok {
-		return missing
-	}
-
-	for _, shard := range remote.shards {
-		if shard == nil {
-			continue
-		}
-
-		for k := range shard.items.All() {
-			missing[k] = struct{}{}
-		}
-	}
-
-	for _, e := range local { // remove any that we already have
-		delete(missing, e.k)
-	}
-
-	return missing
-}
-
 // fetchAndAdopt pulls a key from a remote node and adopts it if it's newer or absent locally.
 func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	transport := dm.loadTransport()
@@ -1882,38 +1911,11 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 		return
 	}
 
-	sh := dm.shardFor(key)
-
-	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
-		if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
-			return
-		}
-
-		if cur, okLocal := sh.items.Get(key); okLocal { // create tombstone advancing version
-			sh.items.Remove(key)
-
-			nextVer := cur.Version + 1
-
-			sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
-			dm.metrics.tombstonesActive.Store(dm.countTombstones())
-		}
-
+	if !ok { // a delete reaches us as a tombstone, a key the remote simply does not hold is no delete
 		return
 	}
 
-	if tomb, hasTomb := sh.tombs[key]; hasTomb {
-		// If tombstone version newer or equal, do not resurrect
-		if tomb.version >= it.Version {
-			return
-		}
-
-		// remote has newer version; clear tombstone (key resurrected intentionally)
-		delete(sh.tombs, key)
-		dm.metrics.tombstonesActive.Store(dm.countTombstones())
-	}
-
-	if cur, okLocal := sh.items.Get(key); !okLocal || it.Version > cur.Version {
-		dm.applySet(ctx, it, false)
+	if dm.applySet(ctx, it, false) == nil {
 		dm.metrics.merkleKeysPulled.Add(1)
 	}
 }
@@ -1927,13 +1929,17 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 			continue
 		}
 
+		shard.stateMu.Lock()
+
 		for k, it := range shard.items.All() {
 			entries = append(entries, merkleKV{k: k, v: it.Version})
 		}
 
 		for k, ts := range shard.tombs { // include tombstones
-			entries = append(entries, merkleKV{k: k, v: ts.version})
+			entries = append(entries, merkleKV{k: k, v: ts.version, tomb: &ts})
 		}
+
+		shard.stateMu.Unlock()
 	}
 
 	return entries
@@ -1984,6 +1990,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 			continue
 		}
 
+		sh.stateMu.Lock()
+
 		for k, ts := range sh.tombs {
 			if now.Sub(ts.at) >= dm.tombstoneTTL {
 				delete(sh.tombs, k)
@@ -1991,6 +1999,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 				purged++
 			}
 		}
+
+		sh.stateMu.Unlock()
 	}
 
 	return purged
@@ -2005,7 +2015,11 @@ func (dm *DistMemory) countTombstones() int64 {
 			continue
 		}
 
+		sh.stateMu.Lock()
+
 		total += int64(len(sh.tombs))
+
+		sh.stateMu.Unlock()
 	}
 
 	return total
@@ -2384,7 +2398,7 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// replicate=false; the new primary's own rebalance/replica-diff
 	// scan re-fans-out to its replicas eventually.
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
-	if migrationErr != nil {
+	if _, stale := staleVersion(migrationErr); migrationErr != nil && !stale {
 		dm.logger.Info(
 			"rebalance migration forward failed; queued for hint replay",
 			slog.String("key", item.Key),
@@ -2733,9 +2747,9 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 	// read repair: if we're an owner but local missing, replicate
 	if dm.ownsKeyInternal(key) {
 		if _, ok2 := dm.shardFor(key).items.Get(key); !ok2 {
-			cloned := *it
-			dm.applySet(ctx, &cloned, false)
-			dm.metrics.readRepair.Add(1)
+			if dm.applySet(ctx, it, false) == nil {
+				dm.metrics.readRepair.Add(1)
+			}
 		}
 	}
 
@@ -2854,14 +2868,18 @@ func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid c
 	return it, true
 }
 
-// replicateTo sends writes to replicas (best-effort) returning ack count.
-func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replicas []cluster.NodeID) int {
+// replicateTo sends writes to replicas (best-effort). Any transport error
+// counts as unreachable: the caller queues a hint for the replica, and the
+// hint TTL bounds total retry time, so a target that's permanently gone
+// still drains rather than ballooning.
+func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replicas []cluster.NodeID) fanoutResult {
+	var res fanoutResult
+
 	transport := dm.loadTransport()
 	if transport == nil {
-		return 0
+		return res
 	}
 
-	acks := 0
 	for _, oid := range replicas {
 		if oid == dm.localNode.ID {
 			continue
@@ -2874,20 +2892,22 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 		// replication.
 		err := dm.replicateSetWithSpan(ctx, transport, oid, item)
 		if err == nil {
-			acks++
+			res.acks++
+
+			continue
+		}
+
+		if newer, refused := staleVersion(err); refused {
+			res.refused++
+			res.newest = max(res.newest, newer)
 
 			continue
 		}
 
-		// Queue a hint for ANY transport error — pre-Phase-B this was
-		// gated on ErrBackendNotFound only, so transient HTTP failures
-		// (timeout, 5xx, connection reset) silently dropped replicas.
-		// The hint TTL bounds total retry time, so a target that's
-		// permanently gone still drains rather than ballooning.
-		dm.queueHint(string(oid), item, hintSourceReplication)
+		res.failed = append(res.failed, oid)
 	}
 
-	return acks
+	return res
 }
 
 // getWithConsistencyParallel performs parallel owner fan-out until quorum/all reached.
@@ -3150,7 +3170,7 @@ func (dm *DistMemory) processHint(ctx context.Context, nodeID string, entry hint
 	}
 
 	err := transport.ForwardSet(ctx, nodeID, entry.item, false)
-	if err == nil {
+	if _, stale := staleVersion(err); err == nil || stale { // a peer with something newer needs it no more
 		dm.metrics.hintedReplayed.Add(1)
 
 		if entry.source == hintSourceMigration {
@@ -3267,6 +3287,7 @@ func (dm *DistMemory) syncWithStatus(ctx context.Context, nodeID string) (bool,
 	dm.metrics.merkleDiffNanos.Store(diffDur.Nanoseconds())
 
 	missing := dm.resolveMissingKeys(ctx, nodeID, entries)
+	deleted := dm.adoptRemoteTombstones(remoteTree.Tombstones)
 
 	dm.applyMerkleDiffs(ctx, nodeID, entries, diffs, localTree.ChunkSize)
 
@@ -3274,7 +3295,7 @@ func (dm *DistMemory) syncWithStatus(ctx context.Context, nodeID string) (bool,
 		dm.fetchAndAdopt(ctx, nodeID, k)
 	}
 
-	if len(diffs) == 0 && len(missing) == 0 {
+	if len(diffs) == 0 && len(missing) == 0 && deleted == 0 {
 		return true, nil
 	}
 
@@ -3612,9 +3633,9 @@ func (dm *DistMemory) repairReplicas(ctx context.Context, key string, chosen *ca
 func (dm *DistMemory) repairLocalReplica(ctx context.Context, key string, chosen *cache.Item) { // separated to reduce cyclomatic complexity
 	localIt, ok := dm.shardFor(key).items.Get(key)
 	if !ok || localIt.Version < chosen.Version || (localIt.Version == chosen.Version && localIt.Origin > chosen.Origin) {
-		cloned := *chosen
-		dm.applySet(ctx, &cloned, false)
-		dm.metrics.readRepair.Add(1)
+		if dm.applySet(ctx, chosen, false) == nil {
+			dm.metrics.readRepair.Add(1)
+		}
 	}
 }
 
@@ -3676,11 +3697,22 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 
 	dm.metrics.forwardSet.Add(1)
 
-	errFwd := transport.ForwardSet(ctx, string(owners[0]), item, true)
+	// The primary versions the write; a version left over from an earlier
+	// read of the item must not travel with it.
+	unversioned := *item
+
+	unversioned.Version = 0
+	unversioned.Origin = ""
+
+	errFwd := transport.ForwardSet(ctx, string(owners[0]), &unversioned, true)
 	if errFwd == nil {
 		return false, nil
 	}
 
+	if errors.Is(errFwd, sentinel.ErrQuorumFailed) { // the primary ran the write and could not complete it
+		return false, errFwd
+	}
+
 	// Primary unreachable for any reason — try to promote to a replica
 	// owner. The local node must be in owners[1:] AND still recognize
 	// itself as an owner (defensive against a stale ring snapshot
@@ -3871,15 +3903,9 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		promoted = true
 	}
 
-	// primary path: assign version & timestamp
-	item.Version = dm.versionCounter.Add(1)
-	item.Origin = string(dm.localNode.ID)
-	item.LastUpdated = time.Now()
-	dm.applySet(ctx, item, false)
-
 	// When we promoted, the original primary is unreachable but still
 	// a listed owner. Pass the full owners list (not owners[1:]) so
-	// replicateTo's existing failure-path queues a hint for the dead
+	// the fan-out's failure path queues a hint for the dead
 	// primary — its post-restart convergence is bounded by hint-replay
 	// (~200ms by default) rather than waiting for the next merkle tick.
 	// replicateTo already skips the local node, so adding owners[0]
@@ -3889,7 +3915,7 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		replicas = owners
 	}
 
-	acks := 1 + dm.replicateTo(ctx, item, replicas)
+	acks := dm.coordinateSet(ctx, item, replicas)
 	dm.metrics.writeAcks.Add(int64(acks))
 
 	span.SetAttributes(attribute.Int("dist.acks", acks))
@@ -4488,25 +4514,38 @@ func (dm *DistMemory) setupOTelMetrics() {
 // re-fanned-back → stuck again" loop on a 5-node cluster, even
 // though MembershipVersion was stable (views were merely diverged,
 // not actively churning).
-func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) {
+//
+// An unversioned write with replicate set is one the sender routed to us
+// as the primary: we coordinate it. Everything else arrives with the
+// version its coordinator gave it.
+func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) error {
 	if dm.ring != nil && !dm.ownsKeyInternal(item.Key) {
 		dm.metrics.writeApplyRefused.Add(1)
 
-		return
+		if replicate { // nobody else would take the write: let the sender try elsewhere
+			return sentinel.ErrNotOwner
+		}
+
+		return nil
 	}
 
-	dm.applySet(ctx, item, replicate)
+	if replicate && item.Version == 0 && dm.ring != nil {
+		return dm.coordinateForwardedSet(ctx, item)
+	}
+
+	return dm.applySet(ctx, item, replicate)
 }
 
 // applySet stores item locally and optionally replicates to other owners.
 // replicate indicates whether replication fan-out should occur (false for replica writes).
+// A write older than what is stored is refused with a *staleVersionError.
 //
 // Callers that receive a forwarded write from a peer (transport-side
 // arrivals) MUST go through `applyForwardedSet` instead so the
 // ownership guard fires; direct callers (primary write, migration,
 // merkle pull, read-repair) bypass the guard because they've already
 // verified ownership or explicitly want to plant regardless.
-func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) {
+func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) error {
 	sh := dm.shardFor(item.Key)
 
 	// Clone the key STRING data (not just the Item struct) before
@@ -4527,28 +4566,30 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	cloned := *item
 
 	cloned.Key = stableKey
-	sh.items.Set(stableKey, &cloned)
+
+	err := dm.adoptItem(&cloned)
+	if err != nil {
+		return err
+	}
 
 	if !replicate || dm.ring == nil {
-		return
+		return nil
 	}
 
 	owners := dm.ring.Lookup(item.Key)
 	transport := dm.loadTransport()
 
 	if len(owners) <= 1 || transport == nil {
-		return
+		return nil
 	}
 
 	dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
 
-	for _, oid := range owners[1:] { // skip primary
-		if oid == dm.localNode.ID {
-			continue
-		}
-
-		_ = dm.replicateSetWithSpan(ctx, transport, oid, item)
+	for _, oid := range dm.replicateTo(ctx, &cloned, owners[1:]).failed { // skip primary
+		dm.queueHint(string(oid), &cloned, hintSourceReplication)
 	}
+
+	return nil
 }
 
 // replicateSetWithSpan opens a child span around a single replica
@@ -4618,61 +4659,43 @@ func (dm *DistMemory) recordOriginalPrimary(sh *distShard, key string) {
 
 // applyRemove deletes locally and optionally fan-outs removal to replicas.
 func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate bool) {
-	sh := dm.shardFor(key)
-	// capture version from existing item (if any) and increment for tombstone
-	var nextVer uint64
-
-	if it, ok := sh.items.Get(key); ok && it != nil {
-		ci := it // already *cache.Item (ConcurrentMap stores *cache.Item)
-
-		nextVer = ci.Version + 1
-	}
-
-	if nextVer == 0 { // no prior item seen; allocate monotonic tomb version
-		nextVer = dm.tombVersionCounter.Add(1)
-	}
-
-	sh.items.Remove(key)
-
-	sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
-	dm.metrics.tombstonesActive.Store(dm.countTombstones())
-
-	transport := dm.loadTransport()
-	if !replicate || dm.ring == nil || transport == nil {
-		return
-	}
-
-	owners := dm.ring.Lookup(key)
-	if len(owners) <= 1 {
-		return
-	}
+	var replicas []cluster.NodeID
 
-	dm.metrics.replicaFanoutRemove.Add(int64(len(owners) - 1))
+	if replicate {
+		owners := dm.lookupOwners(key)
+		if len(owners) > 1 && dm.loadTransport() != nil {
+			replicas = owners
 
-	for _, oid := range owners[1:] {
-		if oid == dm.localNode.ID {
-			continue
+			dm.metrics.replicaFanoutRemove.Add(int64(len(owners) - 1))
 		}
-
-		dm.replicateRemoveWithSpan(ctx, transport, oid, key)
 	}
+
+	dm.coordinateRemove(ctx, key, replicas)
 }
 
 // replicateRemoveWithSpan mirrors replicateSetWithSpan for tombstone
 // fan-out — keeps the trace tree symmetric so a Set followed by a
 // Remove has the same shape under tracing.
-func (dm *DistMemory) replicateRemoveWithSpan(ctx context.Context, transport DistTransport, oid cluster.NodeID, key string) {
+func (dm *DistMemory) replicateRemoveWithSpan(
+	ctx context.Context,
+	transport DistTransport,
+	oid cluster.NodeID,
+	key string,
+	ts tombstone,
+) error {
 	ctx, span := dm.tracer.Start(
 		ctx, "dist.replicate.remove",
 		trace.WithAttributes(attribute.String("peer.id", string(oid))),
 	)
 	defer span.End()
 
-	err := transport.ForwardRemove(ctx, string(oid), key, false)
+	err := forwardTombstone(ctx, transport, string(oid), key, ts)
 	if err != nil {
 		span.RecordError(err)
 		span.SetStatus(codes.Error, err.Error())
 	}
+
+	return err
 }
 
 // runHeartbeatTick runs one heartbeat iteration (best-effort).
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index 535267c..ec2a939 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -151,9 +151,7 @@ func (t *InProcessTransport) ForwardSet(ctx context.Context, nodeID string, item
 	// Forwarded arrival: ownership guard fires if the receiver's
 	// ring view says this node isn't an owner of the key. Stops
 	// divergent-view senders from planting stuck keys.
-	b.applyForwardedSet(ctx, item, replicate)
-
-	return nil
+	return b.applyForwardedSet(ctx, item, replicate)
 }
 
 // ForwardGet forwards a get operation to the specified backend node.
@@ -183,6 +181,16 @@ func (t *InProcessTransport) ForwardRemove(ctx context.Context, nodeID, key stri
 	return nil
 }
 
+// forwardTombstone delivers a versioned delete.
+func (t *InProcessTransport) forwardTombstone(_ context.Context, nodeID, key string, ts tombstone) error {
+	b, ok := t.lookup(nodeID)
+	if !ok {
+		return sentinel.ErrBackendNotFound
+	}
+
+	return b.adoptTombstone(key, ts)
+}
+
 // Health probes a backend.
 func (t *InProcessTransport) Health(_ context.Context, nodeID string) error {
 	if _, ok := t.lookup(nodeID); !ok {
diff --git a/pkg/backend/dist_versioning.go b/pkg/backend/dist_versioning.go
new file mode 100644
index 0000000..124794f
--- /dev/null
+++ b/pkg/backend/dist_versioning.go
@@ -0,0 +1,290 @@
+package backend
+
+import (
+	"context"
+	"errors"
+	"fmt"
+	"reflect"
+	"strings"
+	"time"
+
+	"github.com/hyp3rd/hypercache/internal/cluster"
+	"github.com/hyp3rd/hypercache/internal/sentinel"
+	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
+)
+
+// maxVersionAttempts bounds how often a coordinator re-versions a write or
+// a delete after replicas reported a newer version it did not know of.
+const maxVersionAttempts = 3
+
+// staleVersionError reports that a replica refused a write or a delete
+// because the state it holds for the key is newer. It carries the version
+// of that state so the coordinator can move past it.
+type staleVersionError struct {
+	version uint64
+}
+
+// Error implements error.
+func (e *staleVersionError) Error() string {
+	return fmt.Sprintf("stale version: replica holds version %d", e.version)
+}
+
+// staleVersion returns the version carried by a staleVersionError in err's
+// chain, if there is one.
+func staleVersion(err error) (uint64, bool) {
+	var stale *staleVersionError
+
+	if errors.As(err, &stale) {
+		return stale.version, true
+	}
+
+	return 0, false
+}
+
+// tombstoneForwarder is implemented by transports that can replicate a
+// delete together with its version. A transport without it falls back to
+// ForwardRemove, where the receiver versions the delete itself.
+type tombstoneForwarder interface {
+	forwardTombstone(ctx context.Context, nodeID, key string, ts tombstone) error
+}
+
+// forwardTombstone replicates a versioned delete over transport.
+func forwardTombstone(ctx context.Context, transport DistTransport, nodeID, key string, ts tombstone) error {
+	if fwd, ok := transport.(tombstoneForwarder); ok {
+		return fwd.forwardTombstone(ctx, nodeID, key, ts)
+	}
+
+	return transport.ForwardRemove(ctx, nodeID, key, false)
+}
+
+// observeVersion advances the local version clock to at least version, so
+// that versions allocated here are newer than everything stored here.
+func (dm *DistMemory) observeVersion(version uint64) {
+	for {
+		cur := dm.versionCounter.Load()
+		if cur >= version || dm.versionCounter.CompareAndSwap(cur, version) {
+			return
+		}
+	}
+}
+
+// adoptItem stores item unless the key's current state is newer: a higher
+// version, the same version from a lexicographically smaller origin, or a
+// delete at or above the item's version. Redelivery of what is already
+// stored is a no-op. A refusal is a *staleVersionError.
+func (dm *DistMemory) adoptItem(item *cache.Item) error {
+	sh := dm.shardFor(item.Key)
+
+	dm.observeVersion(item.Version)
+
+	sh.stateMu.Lock()
+	defer sh.stateMu.Unlock()
+
+	ts, deleted := sh.tombs[item.Key]
+	if deleted && ts.version >= item.Version {
+		return &staleVersionError{version: ts.version}
+	}
+
+	cur, ok := sh.items.GetCopy(item.Key)
+	if ok {
+		if cur.Version == item.Version && cur.Origin == item.Origin {
+			if reflect.DeepEqual(cur.Value, item.Value) {
+				return nil
+			}
+
+			return &staleVersionError{version: cur.Version}
+		}
+
+		if cur.Version > item.Version || (cur.Version == item.Version && cur.Origin < item.Origin) {
+			return &staleVersionError{version: cur.Version}
+		}
+	}
+
+	if deleted {
+		delete(sh.tombs, item.Key)
+	}
+
+	sh.items.Set(item.Key, item)
+
+	return nil
+}
+
+// adoptTombstone records a delete unless the key's current state is newer
+// than it. A refusal is a *staleVersionError.
+func (dm *DistMemory) adoptTombstone(key string, ts tombstone) error {
+	sh := dm.shardFor(key)
+
+	dm.observeVersion(ts.version)
+
+	err := sh.adoptTombstone(key, ts)
+	if err != nil {
+		return err
+	}
+
+	dm.metrics.tombstonesActive.Store(dm.countTombstones())
+
+	return nil
+}
+
+func (sh *distShard) adoptTombstone(key string, ts tombstone) error {
+	sh.stateMu.Lock()
+	defer sh.stateMu.Unlock()
+
+	cur, ok := sh.items.GetCopy(key)
+	if ok && cur.Version > ts.version {
+		return &staleVersionError{version: cur.Version}
+	}
+
+	prev, deleted := sh.tombs[key]
+	if deleted && prev.version > ts.version {
+		return &staleVersionError{version: prev.version}
+	}
+
+	// The key may be backed by a pooled request buffer; see applySet.
+	sh.items.Remove(key)
+	sh.tombs[strings.Clone(key)] = ts
+
+	return nil
+}
+
+// mergeTombstone adopts a delete learned from a peer and reports whether it
+// was news: an equal one leaves the local record, and its age, alone.
+func (dm *DistMemory) mergeTombstone(key string, ts tombstone) bool {
+	if dm.holdsTombstone(key, ts) {
+		return false
+	}
+
+	return dm.adoptTombstone(key, ts) == nil
+}
+
+// holdsVersion reports whether item is still what is stored locally for its key.
+func (dm *DistMemory) holdsVersion(item *cache.Item) bool {
+	cur, ok := dm.shardFor(item.Key).items.GetCopy(item.Key)
+
+	return ok && cur.Version == item.Version && cur.Origin == item.Origin
+}
+
+// holdsTombstone reports whether ts is still what is recorded locally for key.
+func (dm *DistMemory) holdsTombstone(key string, ts tombstone) bool {
+	sh := dm.shardFor(key)
+
+	sh.stateMu.Lock()
+	defer sh.stateMu.Unlock()
+
+	cur, ok := sh.tombs[key]
+
+	return ok && cur.version == ts.version && cur.origin == ts.origin
+}
+
+// fanoutResult is the outcome of replicating one write.
+type fanoutResult struct {
+	acks    int              // replicas that stored it
+	refused int              // replicas that hold something newer
+	newest  uint64           // newest version reported by a refusal
+	failed  []cluster.NodeID // replicas that could not be reached
+}
+
+// coordinateSet runs a write as the key's coordinator: it versions item,
+// stores it, replicates it to replicas and returns the number of owners
+// that hold it (or something newer), queueing a hint for every replica
+// that could not be reached. A replica holding a version this node did not
+// know of - it restarted, or was promoted while lagging - refuses the
+// write; the write is then repeated above that version.
+func (dm *DistMemory) coordinateSet(ctx context.Context, item *cache.Item, replicas []cluster.NodeID) int {
+	var res fanoutResult
+
+	for range maxVersionAttempts {
+		item.Version = dm.versionCounter.Add(1)
+		item.Origin = string(dm.localNode.ID)
+		item.LastUpdated = time.Now()
+
+		// A refusal here means a concurrent newer write already replaced
+		// this one, which is the order their versions give them.
+		_ = dm.applySet(ctx, item, false)
+
+		res = dm.replicateTo(ctx, item, replicas)
+		if res.refused == 0 {
+			break
+		}
+
+		if !dm.holdsVersion(item) { // replaced meanwhile: the replicas hold what replaced it
+			res.acks += res.refused
+
+			break
+		}
+
+		dm.observeVersion(res.newest)
+	}
+
+	for _, oid := range res.failed {
+		dm.queueHint(string(oid), item, hintSourceReplication)
+	}
+
+	return 1 + res.acks
+}
+
+// coordinateForwardedSet is coordinateSet for a write another node forwarded
+// to this one as the key's primary.
+func (dm *DistMemory) coordinateForwardedSet(ctx context.Context, item *cache.Item) error {
+	owners := dm.lookupOwners(item.Key)
+	versioned := *item
+
+	if len(owners) > 1 {
+		dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
+	}
+
+	acks := dm.coordinateSet(ctx, &versioned, owners)
+	dm.metrics.writeAcks.Add(int64(acks))
+
+	if acks < dm.requiredAcks(len(owners), dm.writeConsistency) {
+		dm.metrics.writeQuorumFailures.Add(1)
+
+		return sentinel.ErrQuorumFailed
+	}
+
+	return nil
+}
+
+// coordinateRemove runs a delete as the key's coordinator, with the same
+// versioning rules as coordinateSet.
+func (dm *DistMemory) coordinateRemove(ctx context.Context, key string, replicas []cluster.NodeID) {
+	for range maxVersionAttempts {
+		ts := tombstone{version: dm.versionCounter.Add(1), origin: string(dm.localNode.ID), at: time.Now()}
+
+		err := dm.adoptTombstone(key, ts)
+		if err != nil { // replaced by a concurrent newer write or delete
+			return
+		}
+
+		newest := dm.replicateTombstone(ctx, key, ts, replicas)
+		if newest == 0 || !dm.holdsTombstone(key, ts) {
+			return
+		}
+
+		dm.observeVersion(newest)
+	}
+}
+
+// replicateTombstone sends a delete to replicas (best-effort) and returns
+// the newest version a replica refused it for, or 0.
+func (dm *DistMemory) replicateTombstone(ctx context.Context, key string, ts tombstone, replicas []cluster.NodeID) uint64 {
+	transport := dm.loadTransport()
+	if transport == nil {
+		return 0
+	}
+
+	var newest uint64
+
+	for _, oid := range replicas {
+		if oid == dm.localNode.ID {
+			continue
+		}
+
+		version, refused := staleVersion(dm.replicateRemoveWithSpan(ctx, transport, oid, key, ts))
+		if refused {
+			newest = max(newest, version)
+		}
+	}
+
+	return newest
+}
-- 
2.43.0


From 0fde4d434e88dd4557a4bf79f2a9859d38419ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 19/49] fix: hints dropped from a full per-node queue went
 uncounted, and the queue totals drifted when the global cap then refused the
 new one

---
 pkg/backend/dist_memory.go | 47 ++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index ae5f97a..881ac4b 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1310,7 +1310,7 @@ type distMetrics struct {
 	hintedQueued                 atomic.Int64 // hints queued (both sources)
 	hintedReplayed               atomic.Int64 // hints successfully replayed
 	hintedExpired                atomic.Int64 // hints expired before delivery
-	hintedDropped                atomic.Int64 // Deprecated: no longer bumped — processHint retains on any error; OTel-registered for stability
+	hintedDropped                atomic.Int64 // hints dropped from a full per-node queue to make room for a newer one
 	hintedGlobalDropped          atomic.Int64 // hints dropped due to global caps (count/bytes)
 	hintedBytes                  atomic.Int64 // approximate total bytes currently queued (best-effort)
 	migrationHintQueued          atomic.Int64 // subset of hintedQueued: rebalance migration source only
@@ -2979,9 +2979,10 @@ func (dm *DistMemory) getWithConsistencyParallel(
 }
 
 // --- Hinted handoff implementation ---.
-func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) { // reduced complexity
+// queueHint remembers a write nodeID missed and reports whether it was queued.
+func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) bool { // reduced complexity
 	if dm.hintTTL <= 0 {
-		return
+		return false
 	}
 
 	size := dm.approxHintSize(item)
@@ -2994,15 +2995,19 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 
 	queue := dm.hints[nodeID]
 
-	if dm.hintMaxPerNode > 0 && len(queue) >= dm.hintMaxPerNode { // drop oldest
-		dropped := queue[0]
+	// A full per-node queue makes room by dropping its oldest entry, but only
+	// for a hint the global caps then admit.
+	var evicted *hintedEntry
 
-		queue = queue[1:]
+	total, totalBytes := dm.hintTotal, dm.hintBytes
 
-		dm.adjustHintAccounting(-1, -dropped.size)
+	if dm.hintMaxPerNode > 0 && len(queue) >= dm.hintMaxPerNode {
+		evicted = &queue[0]
+		total--
+		totalBytes -= evicted.size
 	}
 
-	if (dm.hintMaxTotal > 0 && dm.hintTotal >= dm.hintMaxTotal) || (dm.hintMaxBytes > 0 && dm.hintBytes+size > dm.hintMaxBytes) {
+	if (dm.hintMaxTotal > 0 && total >= dm.hintMaxTotal) || (dm.hintMaxBytes > 0 && totalBytes+size > dm.hintMaxBytes) {
 		dm.hintsMu.Unlock()
 		dm.metrics.hintedGlobalDropped.Add(1)
 
@@ -3010,11 +3015,25 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 			dm.metrics.migrationHintDropped.Add(1)
 		}
 
-		return
+		return false
+	}
+
+	if evicted != nil {
+		dm.metrics.hintedDropped.Add(1)
+
+		if evicted.source == hintSourceMigration {
+			dm.metrics.migrationHintDropped.Add(1)
+		}
+
+		dm.adjustHintAccounting(-1, -evicted.size)
+
+		queue = queue[1:]
 	}
 
 	cloned := *item
 
+	cloned.Key = strings.Clone(item.Key) // may be backed by a pooled request buffer; see applySet
+
 	now := time.Now()
 
 	queue = append(queue, hintedEntry{
@@ -3027,18 +3046,16 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 	dm.hints[nodeID] = queue
 	dm.adjustHintAccounting(1, size)
 
-	// Snapshot under the lock — pre-Phase-B this read happened after
-	// Unlock and raced with adjustHintAccounting in the replay loop.
-	bytesNow := dm.hintBytes
-
+	dm.metrics.hintedBytes.Store(dm.hintBytes)
 	dm.hintsMu.Unlock()
 
 	dm.metrics.hintedQueued.Add(1)
-	dm.metrics.hintedBytes.Store(bytesNow)
 
 	if source == hintSourceMigration {
 		dm.metrics.migrationHintQueued.Add(1)
 	}
+
+	return true
 }
 
 // approxHintSize estimates the size of a hinted item for global caps.
@@ -4181,7 +4198,7 @@ var distMetricSpecs = []distMetricSpec{
 	},
 	{
 		name: "dist.hinted.dropped", unit: unitHint, counter: true,
-		desc: "Hints dropped after replay error (non-recoverable)",
+		desc: "Hints dropped from a full per-node queue",
 		get:  func(m DistMetrics) int64 { return m.HintedDropped },
 	},
 	{
-- 
2.43.0


From 540cba222437e6106f2f5ce412c06ddc281600cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:26 +0000
Subject: [PATCH 20/49] fix: rebalancing dropped keys that were never handed
 over and gave up on owners it had not reached

---
 pkg/backend/dist_memory.go | 119 +++++++++++++++++++++++++------------
 1 file changed, 82 insertions(+), 37 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 881ac4b..bafc16a 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -370,7 +370,8 @@ type distShard struct {
 	originalOwners    map[string][]cluster.NodeID // recorded full owner set at first insert (for replica diff)
 	originalOwnersMu  sync.RWMutex                // guards originalOwners
 	removedAt         map[string]time.Time        // when we first observed we are no longer an owner (for grace shedding)
-	removedAtMu       sync.Mutex                  // guards removedAt
+	handedOver        map[string]uint64           // version a current owner confirmed for a key we no longer own
+	removedAtMu       sync.Mutex                  // guards removedAt and handedOver
 }
 
 // DistMemoryOption configures DistMemory backend.
@@ -2139,6 +2140,8 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 		return true
 	}
 
+	sh.forgetRemoval(it.Key) // ownership may have returned during the grace period
+
 	if dm.ring == nil || sh.originalPrimary == nil { // nothing else to compare
 		return false
 	}
@@ -2162,8 +2165,9 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 	return prevPrimary == dm.localNode.ID && curPrimary != dm.localNode.ID
 }
 
-// replicateNewReplicas scans for keys where this node is still primary but new replica owners were added since first observation.
-// It forwards the current item to newly added replicas (best-effort) and updates originalOwners snapshot.
+// replicateNewReplicas scans for keys where new owners were added since first observation and this node is the most
+// senior owner that held the key before them. It forwards the current item to the new owners (best-effort) and updates
+// the originalOwners snapshot with those that received it.
 func (dm *DistMemory) replicateNewReplicas(ctx context.Context) {
 	if dm.ring == nil || dm.loadTransport() == nil {
 		return
@@ -2202,7 +2206,7 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 		it := &snapshot[i]
 
 		owners := dm.ring.Lookup(it.Key)
-		if len(owners) == 0 || owners[0] != dm.localNode.ID {
+		if !slices.Contains(owners, dm.localNode.ID) {
 			dm.maybeRecordRemoval(sh, it.Key)
 
 			continue
@@ -2212,13 +2216,15 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 			continue
 		} // baseline created
 
-		newRepls := dm.computeNewReplicas(sh, it.Key, owners)
-		if len(newRepls) == 0 {
+		settled, added := sh.diffOwners(it.Key, owners)
+		if len(settled) > 0 && settled[0] != dm.localNode.ID { // a more senior holder brings the new owners up
 			continue
 		}
 
-		processed = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
-		dm.setOwnerBaseline(sh, it.Key, owners)
+		var delivered []cluster.NodeID
+
+		delivered, processed = dm.sendReplicaDiff(ctx, it, added, processed, limit)
+		dm.setOwnerBaseline(sh, it.Key, append(settled, delivered...))
 	}
 
 	return processed
@@ -2248,45 +2254,53 @@ func (*DistMemory) ensureOwnerBaseline(sh *distShard, key string, owners []clust
 	return false
 }
 
-func (*DistMemory) computeNewReplicas(sh *distShard, key string, owners []cluster.NodeID) []cluster.NodeID {
+// diffOwners splits the current owners of key into those already in its
+// baseline and those added since.
+func (sh *distShard) diffOwners(key string, owners []cluster.NodeID) ([]cluster.NodeID, []cluster.NodeID) {
 	sh.originalOwnersMu.RLock()
 
 	prev := sh.originalOwners[key]
 	sh.originalOwnersMu.RUnlock()
 
-	prevSet := make(map[cluster.NodeID]struct{}, len(prev))
-	for _, p := range prev {
-		prevSet[p] = struct{}{}
-	}
-
-	var out []cluster.NodeID
+	var settled, added []cluster.NodeID
 
-	for _, o := range owners[1:] {
-		if _, ok := prevSet[o]; !ok {
-			out = append(out, o)
+	for _, o := range owners {
+		if slices.Contains(prev, o) {
+			settled = append(settled, o)
+		} else {
+			added = append(added, o)
 		}
 	}
 
-	return out
+	return settled, added
 }
 
+// sendReplicaDiff forwards it to newly added owners, up to the tick's limit,
+// and returns those that now hold it together with the running total.
 func (dm *DistMemory) sendReplicaDiff(
 	ctx context.Context,
 	it *cache.Item,
 	repls []cluster.NodeID,
 	processed, limit int,
-) int {
+) ([]cluster.NodeID, int) {
+	var delivered []cluster.NodeID
+
 	transport := dm.loadTransport()
 	if transport == nil {
-		return processed
+		return delivered, processed
 	}
 
 	for _, rid := range repls {
 		if rid == dm.localNode.ID {
+			delivered = append(delivered, rid)
+
 			continue
 		}
 
-		_ = transport.ForwardSet(ctx, string(rid), it, false)
+		err := transport.ForwardSet(ctx, string(rid), it, false)
+		if _, stale := staleVersion(err); err == nil || stale {
+			delivered = append(delivered, rid)
+		}
 
 		dm.metrics.replicaFanoutSet.Add(1)
 		dm.metrics.rebalancedKeys.Add(1)
@@ -2296,20 +2310,17 @@ func (dm *DistMemory) sendReplicaDiff(
 		if limit > 0 && processed >= limit {
 			dm.metrics.rebalanceReplicaDiffThrottle.Add(1)
 
-			return processed
+			return delivered, processed
 		}
 	}
 
-	return processed
+	return delivered, processed
 }
 
 func (*DistMemory) setOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
 	sh.originalOwnersMu.Lock()
 
-	cp := make([]cluster.NodeID, len(owners))
-	copy(cp, owners)
-
-	sh.originalOwners[key] = cp
+	sh.originalOwners[key] = slices.Clone(owners)
 	sh.originalOwnersMu.Unlock()
 }
 
@@ -2406,7 +2417,14 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 			slog.Any("err", migrationErr),
 		)
 
-		dm.queueHint(string(owners[0]), item, hintSourceMigration)
+		if !errors.Is(migrationErr, sentinel.ErrNotOwner) { // a refusal will not improve by repeating it as a hint
+			dm.queueHint(string(owners[0]), item, hintSourceMigration)
+		}
+
+		// Not handed over: keep the local copy and the recorded primary, so
+		// the next tick tries again. The hint alone is no safe home for the
+		// only copy - it expires, and the queue is bounded.
+		return
 	}
 
 	// Update originalPrimary so a future primary-shift comparison
@@ -2439,13 +2457,31 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 				sh.removedAt[item.Key] = time.Now()
 			}
 
+			sh.handedOver[item.Key] = item.Version
 			sh.removedAtMu.Unlock()
 		} else {
-			sh.items.Remove(item.Key)
+			dm.releaseLocal(sh, item.Key, item.Version)
 		}
 	}
 }
 
+// releaseLocal drops the local copy of a key this node handed over at
+// version and does not own, unless it changed since.
+func (dm *DistMemory) releaseLocal(sh *distShard, key string, version uint64) {
+	sh.items.PopIf(key, func(cur *cache.Item) bool {
+		return cur.Version == version && !dm.ownsKeyInternal(key)
+	})
+}
+
+// forgetRemoval clears what is recorded about a key losing its ownership here.
+func (sh *distShard) forgetRemoval(key string) {
+	sh.removedAtMu.Lock()
+	defer sh.removedAtMu.Unlock()
+
+	delete(sh.removedAt, key)
+	delete(sh.handedOver, key)
+}
+
 // shedRemovedKeys deletes keys for which this node is no longer an owner after grace period.
 // Best-effort: we iterate shards, check removal timestamps, and remove local copy if grace elapsed.
 func (dm *DistMemory) shedRemovedKeys() {
@@ -2470,21 +2506,21 @@ func (dm *DistMemory) shedShard(sh *distShard, now time.Time) {
 
 	sh.removedAtMu.Lock()
 
-	var dels []string
+	dels := make(map[string]uint64)
 
 	for k, at := range sh.removedAt {
-		if now.Sub(at) >= grace {
-			dels = append(dels, k)
+		version, handed := sh.handedOver[k]
+		if handed && now.Sub(at) >= grace { // never before a current owner has it
+			dels[k] = version
 			delete(sh.removedAt, k)
+			delete(sh.handedOver, k)
 		}
 	}
 
 	sh.removedAtMu.Unlock()
 
-	for _, k := range dels {
-		if !dm.ownsKeyInternal(k) {
-			sh.items.Remove(k)
-		}
+	for k, version := range dels {
+		dm.releaseLocal(sh, k, version)
 	}
 }
 
@@ -2540,6 +2576,7 @@ func (dm *DistMemory) ensureShardConfig() {
 				originalPrimary: make(map[string]cluster.NodeID),
 				originalOwners:  make(map[string][]cluster.NodeID),
 				removedAt:       make(map[string]time.Time),
+				handedOver:      make(map[string]uint64),
 			})
 	}
 }
@@ -2995,6 +3032,14 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 
 	queue := dm.hints[nodeID]
 
+	if source == hintSourceMigration && slices.ContainsFunc(queue, func(e hintedEntry) bool {
+		return e.item.Key == item.Key && e.item.Version == item.Version && e.item.Origin == item.Origin
+	}) { // migrations repeat until handed over; one hint is enough
+		dm.hintsMu.Unlock()
+
+		return true
+	}
+
 	// A full per-node queue makes room by dropping its oldest entry, but only
 	// for a hint the global caps then admit.
 	var evicted *hintedEntry
-- 
2.43.0


From de33778624ce64a2383f90bf74a7105447168d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 21/49] fix: quorum reads did not count owners that answered
 not found, and ignored deletes

An acknowledged quorum write held by part of the reachable quorum was
reported absent, because only hits counted as answers. A miss is an answer;
it carries the delete's version, if there was one, so that a stale copy
does not bring a deleted key back.
---
 pkg/backend/dist_http_server.go    |   6 +-
 pkg/backend/dist_http_transport.go |  16 ++---
 pkg/backend/dist_memory.go         | 107 ++++++-----------------------
 pkg/backend/dist_transport.go      |  10 +--
 pkg/backend/dist_versioning.go     |  87 +++++++++++++++++++++++
 5 files changed, 120 insertions(+), 106 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index db0e10d..a265102 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -438,11 +438,9 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusNotFound).JSON(fiber.Map{constants.ErrorLabel: "not owner"})
 	}
 
-	if it, ok := dm.shardFor(key).items.Get(key); ok {
-		return fctx.JSON(httpGetResponse{Found: true, Item: it})
-	}
+	it, found := dm.localState(key)
 
-	return fctx.JSON(httpGetResponse{Found: false})
+	return fctx.JSON(httpGetResponse{Found: found, Item: it})
 }
 
 func (s *distHTTPServer) registerGet(dm *DistMemory) {
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 93d4775..d83a63c 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -260,11 +260,7 @@ func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string)
 		return nil, false, derr
 	}
 
-	if !found {
-		return nil, false, nil
-	}
-
-	return item, true, nil
+	return item, found, nil
 }
 
 func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
@@ -284,10 +280,6 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		}
 	}
 
-	if !found {
-		return nil, false, nil
-	}
-
 	if ib, ok := raw["item"]; ok && len(ib) > 0 {
 		var mirror struct {
 			Key        string          `json:"key"`
@@ -310,7 +302,11 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
 			LastAccess:  time.Now(),
-		}, true, nil
+		}, found, nil
+	}
+
+	if !found {
+		return nil, false, nil
 	}
 
 	return &cache.Item{}, true, nil
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index bafc16a..2a89f26 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2796,53 +2796,19 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 // getWithConsistency performs quorum/all reads.
 func (dm *DistMemory) getWithConsistency(ctx context.Context, key string, owners []cluster.NodeID) (*cache.Item, bool) {
 	needed := dm.requiredAcks(len(owners), dm.readConsistency)
-	acks := 0
 
-	var chosen *cache.Item
+	var q quorumRead
 
 	// gather results sequentially until quorum reached, tracking stale owners
-	staleOwners := dm.collectQuorum(ctx, key, owners, needed, &chosen, &acks)
-	if acks < needed || chosen == nil {
-		return nil, false
-	}
-
-	dm.repairStaleOwners(ctx, key, chosen, staleOwners)
-	dm.repairReplicas(ctx, key, chosen, owners)
-
-	return chosen, true
-}
-
-// collectQuorum iterates owners, updates chosen item and acks, returns owners needing repair.
-func (dm *DistMemory) collectQuorum(
-	ctx context.Context,
-	key string,
-	owners []cluster.NodeID,
-	needed int,
-	chosen **cache.Item,
-	acks *int,
-) []cluster.NodeID {
-	stale := make([]cluster.NodeID, 0, len(owners))
 	for idx, oid := range owners {
-		it, ok := dm.fetchOwner(ctx, key, idx, oid)
-		if !ok {
-			continue
-		}
-
-		prev := *chosen
-
-		*chosen = dm.chooseNewer(*chosen, it)
-		*acks++
-
-		if prev != nil && *chosen != prev {
-			stale = append(stale, oid)
-		}
+		dm.collect(&q, oid, dm.fetchOwner(ctx, key, idx, oid))
 
-		if *acks >= needed && *chosen != nil { // early break
+		if q.acks >= needed { // early break
 			break
 		}
 	}
 
-	return stale
+	return dm.finishQuorumRead(ctx, key, owners, needed, &q)
 }
 
 // repairStaleOwners issues best-effort targeted repairs for owners identified as stale.
@@ -2870,39 +2836,33 @@ func (dm *DistMemory) repairStaleOwners(
 	}
 }
 
-// fetchOwner attempts to fetch item from given owner (local or remote) updating metrics.
-func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid cluster.NodeID) (*cache.Item, bool) {
+// fetchOwner asks the given owner (local or remote) for key, updating metrics.
+func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid cluster.NodeID) ownerReply {
 	if oid == dm.localNode.ID { // local
-		if it, ok := dm.shardFor(key).items.GetCopy(key); ok {
-			return it, true
-		}
+		it, ok := dm.localState(key)
 
-		return nil, false
+		return ownerReply{item: it, found: ok, reached: true}
 	}
 
 	transport := dm.loadTransport()
 	if transport == nil {
-		return nil, false
+		return ownerReply{}
 	}
 
 	it, ok, err := transport.ForwardGet(ctx, string(oid), key)
-	if errors.Is(err, sentinel.ErrBackendNotFound) { // promotion
-		if idx == 0 {
+	if err != nil {
+		if idx == 0 && errors.Is(err, sentinel.ErrBackendNotFound) { // promotion
 			dm.metrics.readPrimaryPromote.Add(1)
 		}
 
-		return nil, false
-	}
-
-	if !ok {
-		return nil, false
+		return ownerReply{}
 	}
 
-	if idx > 0 { // earlier owner skipped
+	if ok && idx > 0 { // earlier owner skipped
 		dm.metrics.readPrimaryPromote.Add(1)
 	}
 
-	return it, true
+	return ownerReply{item: it, found: ok, reached: true}
 }
 
 // replicateTo sends writes to replicas (best-effort). Any transport error
@@ -2957,8 +2917,7 @@ func (dm *DistMemory) getWithConsistencyParallel(
 
 	type res struct {
 		owner cluster.NodeID
-		it    *cache.Item
-		ok    bool
+		reply ownerReply
 	}
 
 	ch := make(chan res, len(owners))
@@ -2969,50 +2928,24 @@ func (dm *DistMemory) getWithConsistencyParallel(
 	for idx, oid := range owners { // launch all with proper capture (Go <1.22 style)
 		idxLocal, oidLocal := idx, oid
 		go func(i int, o cluster.NodeID) {
-			it, ok := dm.fetchOwner(ctxFetch, key, i, o)
-			ch <- res{owner: o, it: it, ok: ok}
+			ch <- res{owner: o, reply: dm.fetchOwner(ctxFetch, key, i, o)}
 		}(idxLocal, oidLocal)
 	}
 
-	acks := 0
-
-	var chosen *cache.Item
-
-	staleOwners := make([]cluster.NodeID, 0, len(owners))
+	var q quorumRead
 
 	for range owners {
 		resp := <-ch
-		if !resp.ok {
-			continue
-		}
-
-		prev := chosen
-
-		chosen = dm.chooseNewer(chosen, resp.it)
-		acks++
-
-		if prev != nil && chosen != prev { // newer version found, mark new owner for targeted check (mirrors sequential path semantics)
-			staleOwners = append(staleOwners, resp.owner)
-		}
+		dm.collect(&q, resp.owner, resp.reply)
 
-		if acks >= needed && chosen != nil { // early satisfied
+		if q.acks >= needed { // early satisfied
 			cancel()
 
 			break
 		}
 	}
 
-	if acks < needed || chosen == nil {
-		return nil, false
-	}
-
-	// targeted repairs for owners involved in version advancement (best-effort)
-	dm.repairStaleOwners(ctx, key, chosen, staleOwners)
-
-	// full repair across all owners to ensure convergence
-	dm.repairReplicas(ctx, key, chosen, owners)
-
-	return chosen, true
+	return dm.finishQuorumRead(ctx, key, owners, needed, &q)
 }
 
 // --- Hinted handoff implementation ---.
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index ec2a939..5d94f09 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -13,6 +13,9 @@ import (
 // DistTransport defines forwarding operations needed by DistMemory.
 type DistTransport interface {
 	ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error
+	// ForwardGet reads a key from a node. A node that does not have it
+	// answers found=false and a nil error; the item then is nil, or carries
+	// just the version and origin of the key's delete.
 	ForwardGet(ctx context.Context, nodeID, key string) (*cache.Item, bool, error)
 	ForwardRemove(ctx context.Context, nodeID, key string, replicate bool) error
 	Health(ctx context.Context, nodeID string) error
@@ -161,12 +164,9 @@ func (t *InProcessTransport) ForwardGet(_ context.Context, nodeID, key string) (
 		return nil, false, sentinel.ErrBackendNotFound
 	}
 
-	it, ok2 := b.shardFor(key).items.GetCopy(key)
-	if !ok2 {
-		return nil, false, nil
-	}
+	it, found := b.localState(key)
 
-	return it, true, nil
+	return it, found, nil
 }
 
 // ForwardRemove forwards a remove operation.
diff --git a/pkg/backend/dist_versioning.go b/pkg/backend/dist_versioning.go
index 124794f..c40c359 100644
--- a/pkg/backend/dist_versioning.go
+++ b/pkg/backend/dist_versioning.go
@@ -176,6 +176,93 @@ func (dm *DistMemory) holdsTombstone(key string, ts tombstone) bool {
 	return ok && cur.version == ts.version && cur.origin == ts.origin
 }
 
+// localState returns the item stored for key. Without one it returns, not
+// found, the version and origin of the key's delete if there was any, as
+// DistTransport.ForwardGet does.
+func (dm *DistMemory) localState(key string) (*cache.Item, bool) {
+	sh := dm.shardFor(key)
+
+	sh.stateMu.Lock()
+	defer sh.stateMu.Unlock()
+
+	it, ok := sh.items.GetCopy(key)
+	if ok {
+		return it, true
+	}
+
+	if ts, deleted := sh.tombs[key]; deleted {
+		return &cache.Item{Key: key, Version: ts.version, Origin: ts.origin}, false
+	}
+
+	return nil, false
+}
+
+// ownerReply is one owner's answer to a read.
+type ownerReply struct {
+	item    *cache.Item // without found: the key's delete, if known
+	found   bool
+	reached bool // false: no answer, the owner does not count towards the quorum
+}
+
+// quorumRead accumulates the answers of a key's owners.
+type quorumRead struct {
+	acks    int
+	chosen  *cache.Item
+	deleted uint64           // newest delete reported
+	stale   []cluster.NodeID // owners whose answer moved the choice
+}
+
+// collect adds one owner's reply. "Not found" is an answer like any other:
+// the write being looked for may be on the remaining members of its quorum.
+func (dm *DistMemory) collect(q *quorumRead, owner cluster.NodeID, reply ownerReply) {
+	if !reply.reached {
+		return
+	}
+
+	q.acks++
+
+	if !reply.found {
+		if reply.item != nil {
+			q.deleted = max(q.deleted, reply.item.Version)
+		}
+
+		return
+	}
+
+	prev := q.chosen
+	q.chosen = dm.chooseNewer(q.chosen, reply.item)
+
+	if prev != nil && q.chosen != prev {
+		q.stale = append(q.stale, owner)
+	}
+}
+
+// finishQuorumRead decides a read from the collected answers and repairs the
+// owners that lag behind.
+func (dm *DistMemory) finishQuorumRead(
+	ctx context.Context,
+	key string,
+	owners []cluster.NodeID,
+	needed int,
+	q *quorumRead,
+) (*cache.Item, bool) {
+	if q.acks < needed || q.chosen == nil {
+		return nil, false
+	}
+
+	if q.deleted > 0 && q.deleted >= q.chosen.Version { // deleted since
+		return nil, false
+	}
+
+	// targeted repairs for owners involved in version advancement (best-effort)
+	dm.repairStaleOwners(ctx, key, q.chosen, q.stale)
+
+	// full repair across all owners to ensure convergence
+	dm.repairReplicas(ctx, key, q.chosen, owners)
+
+	return q.chosen, true
+}
+
 // fanoutResult is the outcome of replicating one write.
 type fanoutResult struct {
 	acks    int              // replicas that stored it
-- 
2.43.0


From 6eb637e63a741076da291f6b34df8af6ae278e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 22/49] fix: anti-entropy never reconciled items of equal
 version from different origins

Digests covered key and version only, so replicas that disagreed on a tied
version looked identical and stayed divergent. A delete at the version
already recorded is not news either.
---
 pkg/backend/dist_memory.go     | 24 ++++++++++++++----------
 pkg/backend/dist_versioning.go |  8 +++++++-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 2a89f26..277b005 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -553,14 +553,17 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 	}
 }
 
-// hashMerkleEntry adds one entry to a leaf hash. The key is length-prefixed
-// so that no two entry lists encode to the same bytes, and a delete does
-// not hash like a live item of the same version.
+// hashMerkleEntry adds one entry to a leaf hash. Key and origin are
+// length-prefixed so that no two entry lists encode to the same bytes, and a
+// delete does not hash like a live item of the same version. The origin is
+// part of an item's version: it decides between equal ones.
 func hashMerkleEntry(hasher hash.Hash, buf []byte, e merkleKV) {
-	encodeUint64BigEndian(buf, uint64(len(e.k)))
+	for _, s := range []string{e.k, e.origin} {
+		encodeUint64BigEndian(buf, uint64(len(s)))
 
-	_, _ = hasher.Write(buf)
-	_, _ = hasher.Write([]byte(e.k))
+		_, _ = hasher.Write(buf)
+		_, _ = hasher.Write([]byte(s))
+	}
 
 	encodeUint64BigEndian(buf, e.v)
 
@@ -575,9 +578,10 @@ func hashMerkleEntry(hasher hash.Hash, buf []byte, e merkleKV) {
 
 // merkleKV is an internal pair used during tree construction & sync.
 type merkleKV struct {
-	k    string
-	v    uint64
-	tomb *tombstone // set for a delete
+	k      string
+	v      uint64
+	origin string     // of a live item
+	tomb   *tombstone // set for a delete
 }
 
 // DiffLeafRanges compares two trees and returns indexes of differing leaf chunks.
@@ -1933,7 +1937,7 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 		shard.stateMu.Lock()
 
 		for k, it := range shard.items.All() {
-			entries = append(entries, merkleKV{k: k, v: it.Version})
+			entries = append(entries, merkleKV{k: k, v: it.Version, origin: it.Origin})
 		}
 
 		for k, ts := range shard.tombs { // include tombstones
diff --git a/pkg/backend/dist_versioning.go b/pkg/backend/dist_versioning.go
index c40c359..8561ce3 100644
--- a/pkg/backend/dist_versioning.go
+++ b/pkg/backend/dist_versioning.go
@@ -150,7 +150,13 @@ func (sh *distShard) adoptTombstone(key string, ts tombstone) error {
 // mergeTombstone adopts a delete learned from a peer and reports whether it
 // was news: an equal one leaves the local record, and its age, alone.
 func (dm *DistMemory) mergeTombstone(key string, ts tombstone) bool {
-	if dm.holdsTombstone(key, ts) {
+	sh := dm.shardFor(key)
+
+	sh.stateMu.Lock()
+	cur, known := sh.tombs[key]
+	sh.stateMu.Unlock()
+
+	if known && cur.version >= ts.version {
 		return false
 	}
 
-- 
2.43.0


From 5944f9bd851254bcd1bde5b2cb71c47dda2f6f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 23/49] fix: periodic synchronisation with a peer cap spent its
 turns on the node itself and could starve peers

---
 pkg/backend/dist_memory.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 277b005..9644506 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -160,6 +160,7 @@ type DistMemory struct {
 	autoSyncInterval         time.Duration
 	autoSyncStopCh           chan struct{}
 	autoSyncPeersPerInterval int // limit number of peers synced per tick (0=all)
+	autoSyncTurn             atomic.Uint64
 
 	lastAutoSyncDuration atomic.Int64 // nanoseconds of last full loop
 	lastAutoSyncError    atomic.Value // error string or nil
@@ -3338,20 +3339,10 @@ func (dm *DistMemory) runAutoSyncTick(ctx context.Context) bool {
 
 	var lastErr error
 
-	members := dm.membership.List()
-	limit := dm.autoSyncPeersPerInterval
 	synced := 0
 	dirty := false
 
-	for _, member := range members {
-		if member == nil || string(member.ID) == dm.nodeID { // skip self
-			continue
-		}
-
-		if limit > 0 && synced >= limit {
-			break
-		}
-
+	for _, member := range dm.nextAutoSyncPeers() {
 		clean, err := dm.syncWithStatus(ctx, string(member.ID))
 		if err != nil { // capture last error only; treat as dirty so we don't back off through outages
 			lastErr = err
@@ -3376,6 +3367,26 @@ func (dm *DistMemory) runAutoSyncTick(ctx context.Context) bool {
 	return synced > 0 && !dirty
 }
 
+// nextAutoSyncPeers returns the members to sync with in this cycle. With a
+// peer cap, successive cycles take turns through the members, so that each
+// is reached.
+func (dm *DistMemory) nextAutoSyncPeers() []*cluster.Node {
+	peers := slices.DeleteFunc(dm.membership.List(), func(n *cluster.Node) bool {
+		return n == nil || n.ID == dm.localNode.ID // skip self
+	})
+
+	limit := dm.autoSyncPeersPerInterval
+	if limit <= 0 || limit >= len(peers) {
+		return peers
+	}
+
+	slices.SortFunc(peers, func(a, b *cluster.Node) int { return strings.Compare(string(a.ID), string(b.ID)) })
+
+	start := (dm.autoSyncTurn.Add(uint64(limit)) - uint64(limit)) % uint64(len(peers))
+
+	return slices.Concat(peers[start:], peers[:start])[:limit]
+}
+
 // updateAutoSyncBackoff advances the backoff factor based on tick outcome.
 // Clean tick: double up to the cap. Dirty tick: snap back to 1×. No-op
 // when adaptive backoff is disabled (autoSyncMaxBackoffFactor <= 1).
-- 
2.43.0


From 0e2f0273d4adeca774c05090bf0276cb0d2b55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:03 +0000
Subject: [PATCH 24/49] fix: rebalancing left out owners that came back, failed
 before or joined one by one, and lost deletes

---
 pkg/backend/dist_memory.go     | 144 ++++++++++++++++++++++++++++-----
 pkg/backend/dist_versioning.go |   9 +++
 2 files changed, 134 insertions(+), 19 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 9644506..e9b916d 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -369,7 +369,8 @@ type distShard struct {
 	originalPrimary   map[string]cluster.NodeID   // recorded primary owner at first insert
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
 	originalOwners    map[string][]cluster.NodeID // recorded full owner set at first insert (for replica diff)
-	originalOwnersMu  sync.RWMutex                // guards originalOwners
+	broughtUp         map[string][]cluster.NodeID // added owners already served while others of the key are still to come
+	originalOwnersMu  sync.RWMutex                // guards originalOwners and broughtUp
 	removedAt         map[string]time.Time        // when we first observed we are no longer an owner (for grace shedding)
 	handedOver        map[string]uint64           // version a current owner confirmed for a key we no longer own
 	removedAtMu       sync.Mutex                  // guards removedAt and handedOver
@@ -2092,6 +2093,8 @@ func (dm *DistMemory) runRebalanceTick(ctx context.Context) {
 		dm.migrateItems(ctx, candidates)
 	}
 
+	dm.migrateTombstones(ctx)
+
 	// After migration attempts, replicate to any new replicas introduced for keys where we remain primary.
 	dm.replicateNewReplicas(ctx)
 
@@ -2172,7 +2175,7 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 
 // replicateNewReplicas scans for keys where new owners were added since first observation and this node is the most
 // senior owner that held the key before them. It forwards the current item to the new owners (best-effort) and updates
-// the originalOwners snapshot with those that received it.
+// the originalOwners snapshot once all of them received it.
 func (dm *DistMemory) replicateNewReplicas(ctx context.Context) {
 	if dm.ring == nil || dm.loadTransport() == nil {
 		return
@@ -2187,9 +2190,6 @@ func (dm *DistMemory) replicateNewReplicas(ctx context.Context) {
 		}
 
 		processed = dm.replDiffShard(ctx, sh, processed, limit)
-		if limit > 0 && processed >= limit {
-			return
-		}
 	}
 }
 
@@ -2204,10 +2204,6 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 	}
 
 	for i := range snapshot {
-		if limit > 0 && processed >= limit {
-			return processed
-		}
-
 		it := &snapshot[i]
 
 		owners := dm.ring.Lookup(it.Key)
@@ -2226,10 +2222,14 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 			continue
 		}
 
+		if limit > 0 && processed >= limit {
+			continue
+		}
+
 		var delivered []cluster.NodeID
 
 		delivered, processed = dm.sendReplicaDiff(ctx, it, added, processed, limit)
-		dm.setOwnerBaseline(sh, it.Key, append(settled, delivered...))
+		sh.recordBroughtUp(it.Key, owners, delivered)
 	}
 
 	return processed
@@ -2259,27 +2259,57 @@ func (*DistMemory) ensureOwnerBaseline(sh *distShard, key string, owners []clust
 	return false
 }
 
-// diffOwners splits the current owners of key into those already in its
-// baseline and those added since.
+// diffOwners returns the current owners of key that are in its baseline, and
+// those added since that this node has not served yet. An owner that lost the
+// key leaves the baseline: it has dropped its copy when it becomes one again.
 func (sh *distShard) diffOwners(key string, owners []cluster.NodeID) ([]cluster.NodeID, []cluster.NodeID) {
-	sh.originalOwnersMu.RLock()
+	former := func(o cluster.NodeID) bool { return !slices.Contains(owners, o) }
 
-	prev := sh.originalOwners[key]
-	sh.originalOwnersMu.RUnlock()
+	sh.originalOwnersMu.Lock()
+	defer sh.originalOwnersMu.Unlock()
+
+	sh.originalOwners[key] = slices.DeleteFunc(sh.originalOwners[key], former)
+
+	if served, ok := sh.broughtUp[key]; ok {
+		sh.broughtUp[key] = slices.DeleteFunc(served, former)
+	}
 
 	var settled, added []cluster.NodeID
 
 	for _, o := range owners {
-		if slices.Contains(prev, o) {
+		switch {
+		case slices.Contains(sh.originalOwners[key], o):
 			settled = append(settled, o)
-		} else {
+		case !slices.Contains(sh.broughtUp[key], o):
 			added = append(added, o)
+		default:
 		}
 	}
 
 	return settled, added
 }
 
+// recordBroughtUp notes that delivered now hold key. The baseline moves on
+// only once no owner is left to serve: who is senior must not change, to a
+// node that does not know of the remaining ones, half way through.
+func (sh *distShard) recordBroughtUp(key string, owners, delivered []cluster.NodeID) {
+	sh.originalOwnersMu.Lock()
+	defer sh.originalOwnersMu.Unlock()
+
+	served := append(sh.broughtUp[key], delivered...)
+
+	for _, o := range owners {
+		if !slices.Contains(sh.originalOwners[key], o) && !slices.Contains(served, o) {
+			sh.broughtUp[key] = served
+
+			return
+		}
+	}
+
+	sh.originalOwners[key] = slices.Clone(owners)
+	delete(sh.broughtUp, key)
+}
+
 // sendReplicaDiff forwards it to newly added owners, up to the tick's limit,
 // and returns those that now hold it together with the running total.
 func (dm *DistMemory) sendReplicaDiff(
@@ -2428,7 +2458,14 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 
 		// Not handed over: keep the local copy and the recorded primary, so
 		// the next tick tries again. The hint alone is no safe home for the
-		// only copy - it expires, and the queue is bounded.
+		// only copy - it expires, and the queue is bounded. Nor is an earlier
+		// owner that took it, and may have left since.
+		sh := dm.shardFor(item.Key)
+
+		sh.removedAtMu.Lock()
+		delete(sh.handedOver, item.Key)
+		sh.removedAtMu.Unlock()
+
 		return
 	}
 
@@ -2470,6 +2507,51 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	}
 }
 
+// migrateTombstones hands the deletes of keys this node no longer owns to
+// their owners. Without them an owner could version a later write below the
+// delete, and lose it to a node that knows of both.
+func (dm *DistMemory) migrateTombstones(ctx context.Context) {
+	transport, ok := dm.loadTransport().(tombstoneForwarder)
+	if !ok {
+		return
+	}
+
+	for _, sh := range dm.shards {
+		if sh == nil {
+			continue
+		}
+
+		for key, ts := range sh.tombstones() {
+			if dm.ownsKeyInternal(key) || !dm.forwardToOwners(ctx, transport, key, ts) {
+				continue
+			}
+
+			sh.stateMu.Lock()
+
+			if sh.tombs[key] == ts {
+				delete(sh.tombs, key)
+			}
+
+			sh.stateMu.Unlock()
+		}
+	}
+}
+
+// forwardToOwners reports whether all owners of key know of the delete ts, or
+// of something newer.
+func (dm *DistMemory) forwardToOwners(ctx context.Context, transport tombstoneForwarder, key string, ts tombstone) bool {
+	owners := dm.lookupOwners(key)
+
+	for _, oid := range owners {
+		err := transport.forwardTombstone(ctx, string(oid), key, ts)
+		if _, stale := staleVersion(err); err != nil && !stale {
+			return false
+		}
+	}
+
+	return len(owners) > 0
+}
+
 // releaseLocal drops the local copy of a key this node handed over at
 // version and does not own, unless it changed since.
 func (dm *DistMemory) releaseLocal(sh *distShard, key string, version uint64) {
@@ -2580,6 +2662,7 @@ func (dm *DistMemory) ensureShardConfig() {
 				tombs:           make(map[string]tombstone),
 				originalPrimary: make(map[string]cluster.NodeID),
 				originalOwners:  make(map[string][]cluster.NodeID),
+				broughtUp:       make(map[string][]cluster.NodeID),
 				removedAt:       make(map[string]time.Time),
 				handedOver:      make(map[string]uint64),
 			})
@@ -4571,6 +4654,10 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	// reads cloned.Key sees the stable value.
 	stableKey := strings.Clone(item.Key)
 
+	if !sh.items.Has(stableKey) { // what was recorded of an earlier item under the key is out of date
+		sh.forgetOwners(stableKey)
+	}
+
 	dm.recordOriginalPrimary(sh, stableKey)
 
 	cloned := *item
@@ -4595,10 +4682,17 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 
 	dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
 
-	for _, oid := range dm.replicateTo(ctx, &cloned, owners[1:]).failed { // skip primary
+	failed := dm.replicateTo(ctx, &cloned, owners[1:]).failed // skip primary
+	for _, oid := range failed {
 		dm.queueHint(string(oid), &cloned, hintSourceReplication)
 	}
 
+	if len(failed) > 0 { // still to be brought up by the replica diff
+		dm.setOwnerBaseline(sh, stableKey, slices.DeleteFunc(slices.Clone(owners), func(oid cluster.NodeID) bool {
+			return slices.Contains(failed, oid)
+		}))
+	}
+
 	return nil
 }
 
@@ -4624,6 +4718,18 @@ func (dm *DistMemory) replicateSetWithSpan(ctx context.Context, transport DistTr
 	return err
 }
 
+// forgetOwners clears the owners recorded for key.
+func (sh *distShard) forgetOwners(key string) {
+	sh.originalPrimaryMu.Lock()
+	delete(sh.originalPrimary, key)
+	sh.originalPrimaryMu.Unlock()
+
+	sh.originalOwnersMu.Lock()
+	delete(sh.originalOwners, key)
+	delete(sh.broughtUp, key)
+	sh.originalOwnersMu.Unlock()
+}
+
 // recordOriginalPrimary stores first-seen primary owner for key.
 func (dm *DistMemory) recordOriginalPrimary(sh *distShard, key string) {
 	if sh == nil || sh.originalPrimary == nil || dm.ring == nil {
diff --git a/pkg/backend/dist_versioning.go b/pkg/backend/dist_versioning.go
index 8561ce3..a78a833 100644
--- a/pkg/backend/dist_versioning.go
+++ b/pkg/backend/dist_versioning.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"maps"
 	"reflect"
 	"strings"
 	"time"
@@ -147,6 +148,14 @@ func (sh *distShard) adoptTombstone(key string, ts tombstone) error {
 	return nil
 }
 
+// tombstones returns a snapshot of the shard's deletes.
+func (sh *distShard) tombstones() map[string]tombstone {
+	sh.stateMu.Lock()
+	defer sh.stateMu.Unlock()
+
+	return maps.Clone(sh.tombs)
+}
+
 // mergeTombstone adopts a delete learned from a peer and reports whether it
 // was news: an equal one leaves the local record, and its age, alone.
 func (dm *DistMemory) mergeTombstone(key string, ts tombstone) bool {
-- 
2.43.0


From 6d553d70d3f541da218e2aa4b90c01c057cfd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 25/49] fix: a key listing with room for every key was marked
 truncated

---
 pkg/backend/dist_keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/backend/dist_keys.go b/pkg/backend/dist_keys.go
index 1653c25..0f7053d 100644
--- a/pkg/backend/dist_keys.go
+++ b/pkg/backend/dist_keys.go
@@ -108,6 +108,10 @@ func (a *listKeysAccumulator) tryAdd(keys []string) {
 	defer a.mu.Unlock()
 
 	for _, k := range keys {
+		if _, listed := a.dedup[k]; listed {
+			continue
+		}
+
 		if len(a.dedup) >= a.maxKeys {
 			a.truncated = true
 
-- 
2.43.0


From 2c6bb82e654ad738b0c2359244a90e402fbd1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 26/49] fix: the HTTP transport multiplied or dropped
 time-to-lives

---
 pkg/backend/dist_http_transport.go | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index d83a63c..c4f0bf8 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -152,12 +152,23 @@ const (
 	errMsgDoRequest  = "do request"
 )
 
+// wireMilliseconds rounds a time-to-live up to the wire's resolution: one below
+// a millisecond must not become none.
+func wireMilliseconds(d time.Duration) int64 {
+	ms := d.Milliseconds()
+	if d > time.Duration(ms)*time.Millisecond {
+		ms++
+	}
+
+	return ms
+}
+
 // ForwardSet sends a Set/Replicate request to a remote node.
 func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error {
 	reqBody := httpSetRequest{
 		Key:        item.Key,
 		Value:      item.Value,
-		Expiration: item.Expiration.Milliseconds(),
+		Expiration: wireMilliseconds(item.Expiration),
 		Version:    item.Version,
 		Origin:     item.Origin,
 		Replicate:  replicate,
@@ -297,7 +308,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		return &cache.Item{
 			Key:         mirror.Key,
 			Value:       mirror.Value,
-			Expiration:  time.Duration(mirror.Expiration) * time.Millisecond,
+			Expiration:  time.Duration(mirror.Expiration), // the server encodes the item as it is
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
@@ -537,19 +548,17 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 			return all, nil
 		}
 
-		// Truncated pages return next_cursor == current cursor.
-		// Without bumping limit, we'd loop forever — but ListKeys
-		// never sets a limit (it asks for the full shard each time),
-		// so server-side truncation cannot occur on this path.
-		// Defensive: break if cursor doesn't advance.
-		if page.NextCursor == cursor {
-			break
+		// Truncated pages return next_cursor == current cursor, but
+		// ListKeys never sets a limit (it asks for the full shard each
+		// time), so server-side truncation cannot occur on this path.
+		// Guard against a buggy server rather than loop forever.
+		index, err := strconv.Atoi(page.NextCursor)
+		if err != nil || index <= next {
+			return nil, ewrap.Newf("list keys: unexpected cursor %q", page.NextCursor)
 		}
 
-		cursor = page.NextCursor
+		next, cursor = index, page.NextCursor
 	}
-
-	return all, nil
 }
 
 // listKeysPage is the per-page fetch for ListKeys; broken out so the
-- 
2.43.0


From 05c426caa2ce36a3925c172582a047c8b6fd2558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 27/49] fix: the HTTP transport listed the keys of at most 1024
 shards

---
 pkg/backend/dist_http_transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index c4f0bf8..17b7f48 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -534,9 +534,9 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		cursor string
 	)
 
-	const safetyLimit = 1024 // upper bound to prevent infinite loop on a buggy server
+	next := 0 // cursors are shard indexes, and only ever increase
 
-	for range safetyLimit {
+	for {
 		page, err := t.listKeysPage(ctx, nodeID, cursor, pattern)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3a47a23445bb53463b87bfe9199f8d1c7c23bbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:00 +0000
Subject: [PATCH 28/49] fix: refutations lost to accusations more than one
 incarnation ahead, and concurrent gossip could regress a member

---
 internal/cluster/membership.go | 48 ++++++++++++++++++++++++++++++++--
 pkg/backend/dist_memory.go     | 44 +++++++------------------------
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index f5086f9..9861af0 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -73,6 +73,36 @@ func (m *Membership) Upsert(n *Node) {
 	notify(observers, id, state, version)
 }
 
+// Merge applies gossiped information about a node: it is taken over when
+// the node is unknown or the information carries a higher incarnation than
+// the one held, and ignored otherwise. Comparing and storing happen under
+// one lock, so concurrent reports cannot replace newer information by older.
+// Returns true if the information was taken over.
+func (m *Membership) Merge(n *Node) bool {
+	m.mu.Lock()
+
+	if cur, ok := m.nodes[n.ID]; ok && n.Incarnation <= cur.Incarnation {
+		m.mu.Unlock()
+
+		return false
+	}
+
+	n.LastSeen = time.Now()
+	m.nodes[n.ID] = n
+
+	m.rebuildRingLocked()
+
+	version := m.ver.Next()
+	observers := m.observers
+	id := n.ID
+	state := n.State
+	m.mu.Unlock()
+
+	notify(observers, id, state, version)
+
+	return true
+}
+
 // List returns current nodes snapshot.
 func (m *Membership) List() []*Node {
 	m.mu.RLock()
@@ -209,11 +239,21 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 // NodeAlive; the typical caller already knows the local node is
 // alive but the explicit assignment guards against odd states the
 // local view might be holding.
-func (m *Membership) Refute(id NodeID) bool {
+func (m *Membership) Refute(id NodeID) bool { return m.refute(id, nil) }
+
+// RefuteClaim refutes a claim made at incarnation `claim`: the node's
+// incarnation rises above the claim's, however far ahead the claim is —
+// observers advance a peer's incarnation on their own state transitions,
+// so an accusation is often several steps above the accused node's view.
+// A claim below the node's incarnation is stale and ignored. Returns true
+// if the node exists and the claim was refuted.
+func (m *Membership) RefuteClaim(id NodeID, claim uint64) bool { return m.refute(id, &claim) }
+
+func (m *Membership) refute(id NodeID, claim *uint64) bool {
 	m.mu.Lock()
 
 	n, ok := m.nodes[id]
-	if !ok {
+	if !ok || (claim != nil && *claim < n.Incarnation) {
 		m.mu.Unlock()
 
 		return false
@@ -221,6 +261,10 @@ func (m *Membership) Refute(id NodeID) bool {
 
 	wasDead := n.State == NodeDead
 
+	if claim != nil {
+		n.Incarnation = *claim
+	}
+
 	n.Incarnation++
 
 	n.State = NodeAlive
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index e9b916d..da80e46 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3572,7 +3572,7 @@ func (dm *DistMemory) runGossipTick() {
 	// transport's Gossip method, which routes via HTTP for the
 	// auto-created DistHTTPTransport.
 	if ip, ok := transport.(*InProcessTransport); ok {
-		if remote, ok2 := ip.backends[string(target.ID)]; ok2 {
+		if remote, ok2 := ip.lookup(string(target.ID)); ok2 {
 			remote.acceptGossip(snapshot)
 		}
 
@@ -3601,40 +3601,18 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 			continue
 		}
 
-		existing := false
-		for _, cur := range dm.membership.List() {
-			if cur.ID == node.ID {
-				existing = true
-
-				if node.Incarnation > cur.Incarnation {
-					dm.membership.Upsert(&cluster.Node{
-						ID:          node.ID,
-						Address:     node.Address,
-						State:       node.State,
-						Incarnation: node.Incarnation,
-						LastSeen:    time.Now(),
-					})
-				}
-
-				break
-			}
-		}
-
-		if !existing {
-			dm.membership.Upsert(&cluster.Node{
-				ID:          node.ID,
-				Address:     node.Address,
-				State:       node.State,
-				Incarnation: node.Incarnation,
-				LastSeen:    time.Now(),
-			})
-		}
+		dm.membership.Merge(&cluster.Node{
+			ID:          node.ID,
+			Address:     node.Address,
+			State:       node.State,
+			Incarnation: node.Incarnation,
+		})
 	}
 }
 
 // refuteIfSuspected handles the SWIM self-refute path: when a peer
-// gossips that THIS node is Suspect or Dead at incarnation N, bump
-// our local incarnation to N+1 and re-upsert ourselves as Alive.
+// gossips that THIS node is Suspect or Dead at incarnation N, raise
+// our local incarnation above N and mark ourselves Alive.
 // Higher-incarnation-wins propagation in `acceptGossip` ensures the
 // next gossip tick disseminates the refutation cluster-wide.
 //
@@ -3654,12 +3632,10 @@ func (dm *DistMemory) refuteIfSuspected(claim *cluster.Node) {
 
 	// Only refute when the peer's claim is at >= our incarnation;
 	// older claims are stale and ignored.
-	if claim.Incarnation < dm.localNode.Incarnation {
+	if !dm.membership.RefuteClaim(dm.localNode.ID, claim.Incarnation) {
 		return
 	}
 
-	dm.membership.Refute(dm.localNode.ID)
-
 	dm.logger.Info(
 		"self-refuted suspect/dead claim from peer",
 		slog.Uint64("claim_incarnation", claim.Incarnation),
-- 
2.43.0


From 9e9bf47ae4a05983cf2722865d57ed946448d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:50 +0000
Subject: [PATCH 29/49] fix: the failure detector removed members it had not
 asked, and gossip kept removed ones coming back

---
 pkg/backend/dist_memory.go | 154 +++++++++++++++++++++++++++----------
 1 file changed, 114 insertions(+), 40 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index da80e46..ed59ba6 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -116,6 +116,11 @@ type DistMemory struct {
 	// heartbeat sampling (Phase 2)
 	hbSampleSize int // number of random peers to probe each tick (0=probe all)
 
+	// peers the failure detector removed, while stale gossip about them may
+	// still be around (see pruneDead)
+	prunedMu sync.Mutex
+	pruned   map[cluster.NodeID]prunedPeer
+
 	// indirectProbeK is the number of relay peers asked to probe a
 	// target when the direct probe fails. SWIM-style filter for
 	// caller-side network blips: the target is only marked suspect if
@@ -3589,6 +3594,23 @@ func (dm *DistMemory) runGossipTick() {
 	}
 }
 
+// barred reports whether the entry is stale news of a recently pruned peer.
+// Must be called with prunedMu held.
+func (dm *DistMemory) barred(node *cluster.Node) bool {
+	p, ok := dm.pruned[node.ID]
+	if !ok {
+		return false
+	}
+
+	if time.Now().After(p.until) {
+		delete(dm.pruned, node.ID)
+
+		return false
+	}
+
+	return node.Incarnation <= p.incarnation
+}
+
 func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 	if dm.membership == nil {
 		return
@@ -3601,12 +3623,18 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 			continue
 		}
 
-		dm.membership.Merge(&cluster.Node{
-			ID:          node.ID,
-			Address:     node.Address,
-			State:       node.State,
-			Incarnation: node.Incarnation,
-		})
+		dm.prunedMu.Lock()
+
+		if !dm.barred(node) {
+			dm.membership.Merge(&cluster.Node{
+				ID:          node.ID,
+				Address:     node.Address,
+				State:       node.State,
+				Incarnation: node.Incarnation,
+			})
+		}
+
+		dm.prunedMu.Unlock()
 	}
 }
 
@@ -4829,37 +4857,15 @@ func (dm *DistMemory) runHeartbeatTick(ctx context.Context) { //nolint:revive
 	}
 }
 
-// evaluateLiveness applies timeout-based transitions then performs a probe.
+// evaluateLiveness probes the node and applies the resulting transition:
+// an answer (direct or through a relay) makes it alive, silence makes an
+// alive node suspect and prunes one that has been suspect for hbDeadAfter.
+//
+// The probe comes first: how long ago the node was last seen also depends on
+// how often this node got round to asking (peer sampling, rounds stretched by
+// probes timing out against other peers), so elapsed time alone must not
+// condemn a node that would answer.
 func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node *cluster.Node) {
-	elapsed := now.Sub(node.LastSeen)
-
-	if dm.hbDeadAfter > 0 && elapsed > dm.hbDeadAfter { // prune dead
-		if dm.membership.Remove(node.ID) {
-			dm.metrics.nodesRemoved.Add(1)
-			dm.metrics.nodesDead.Add(1)
-
-			dm.logger.Warn(
-				"peer pruned (dead)",
-				slog.String("peer_id", string(node.ID)),
-				slog.String("peer_addr", node.Address),
-				slog.Duration("elapsed_since_seen", elapsed),
-			)
-		}
-
-		return
-	}
-
-	if dm.hbSuspectAfter > 0 && elapsed > dm.hbSuspectAfter && node.State == cluster.NodeAlive { // suspect
-		dm.membership.Mark(node.ID, cluster.NodeSuspect)
-		dm.metrics.nodesSuspect.Add(1)
-
-		dm.logger.Info(
-			"peer marked suspect (timeout)",
-			slog.String("peer_id", string(node.ID)),
-			slog.Duration("elapsed_since_seen", elapsed),
-		)
-	}
-
 	transport := dm.loadTransport()
 	if transport == nil {
 		return
@@ -4872,7 +4878,7 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 
 	if err != nil {
 		dm.metrics.heartbeatFailure.Add(1)
-		dm.handleProbeFailure(ctx, transport, node, err)
+		dm.handleProbeFailure(ctx, transport, now, node, err)
 
 		return
 	}
@@ -4886,9 +4892,16 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 // a direct-probe failure: when indirect probes are enabled and any
 // relay confirms the target is reachable, the direct failure is
 // dismissed as caller-side. Otherwise the target is escalated to
-// suspect. Extracted from evaluateLiveness to keep that function under
-// the function-length lint cap.
-func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTransport, node *cluster.Node, directErr error) {
+// suspect, or pruned when it has been suspect for too long. Extracted
+// from evaluateLiveness to keep that function under the
+// function-length lint cap.
+func (dm *DistMemory) handleProbeFailure(
+	ctx context.Context,
+	transport DistTransport,
+	now time.Time,
+	node *cluster.Node,
+	directErr error,
+) {
 	if dm.indirectProbeK > 0 && dm.indirectProbeReachable(ctx, transport, node.ID) {
 		dm.metrics.indirectProbeRefuted.Add(1)
 
@@ -4904,13 +4917,30 @@ func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTran
 		return
 	}
 
+	elapsed := now.Sub(node.LastSeen)
+
 	if node.State != cluster.NodeAlive {
+		if dm.hbDeadAfter > 0 && elapsed > dm.hbDeadAfter {
+			dm.pruneDead(node, elapsed)
+		}
+
 		return
 	}
 
 	dm.membership.Mark(node.ID, cluster.NodeSuspect)
 	dm.metrics.nodesSuspect.Add(1)
 
+	if dm.hbSuspectAfter > 0 && elapsed > dm.hbSuspectAfter {
+		dm.logger.Info(
+			"peer marked suspect (timeout)",
+			slog.String("peer_id", string(node.ID)),
+			slog.Duration("elapsed_since_seen", elapsed),
+			slog.Any("err", directErr),
+		)
+
+		return
+	}
+
 	dm.logger.Info(
 		"peer marked suspect (probe failed)",
 		slog.String("peer_id", string(node.ID)),
@@ -4918,6 +4948,50 @@ func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTran
 	)
 }
 
+// prunedPeer remembers at which incarnation a peer was pruned.
+type prunedPeer struct {
+	incarnation uint64
+	until       time.Time
+}
+
+// pruneDead removes a peer that stopped answering from the membership.
+// It stays barred for a while from coming back through gossip: peers prune it
+// at slightly different times, and those still listing it would reintroduce
+// it to the others, in turns and for ever. Information newer than what was
+// held when pruning (a higher incarnation) is accepted at once; a restarted
+// node that counts from one again is accepted when the time is over.
+func (dm *DistMemory) pruneDead(node *cluster.Node, elapsed time.Duration) {
+	dm.prunedMu.Lock()
+
+	removed := dm.membership.Remove(node.ID)
+	if removed {
+		if dm.pruned == nil {
+			dm.pruned = map[cluster.NodeID]prunedPeer{}
+		}
+
+		dm.pruned[node.ID] = prunedPeer{
+			incarnation: node.Incarnation,
+			until:       time.Now().Add(dm.hbDeadAfter + 2*dm.hbInterval),
+		}
+	}
+
+	dm.prunedMu.Unlock()
+
+	if !removed {
+		return
+	}
+
+	dm.metrics.nodesRemoved.Add(1)
+	dm.metrics.nodesDead.Add(1)
+
+	dm.logger.Warn(
+		"peer pruned (dead)",
+		slog.String("peer_id", string(node.ID)),
+		slog.String("peer_addr", node.Address),
+		slog.Duration("elapsed_since_seen", elapsed),
+	)
+}
+
 // indirectProbeReachable runs up to indirectProbeK indirect probes
 // against `targetID` via random alive peers. Returns true the moment
 // any relay reports the target reachable — the caller's direct probe
-- 
2.43.0


From 2ff24eb307a32ccdb0f53ef2cb0584f5d6cfc4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 30/49] fix: concurrent writers could leave the cache above its
 capacity

---
 hypercache_eviction.go | 44 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index a0f09a0..b9c7c7a 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -128,27 +128,31 @@ func (hyperCache *HyperCache[T]) evictExcess(ctx context.Context, limit uint) (u
 		}
 	}
 
-	if _, ok := hyperCache.backend.(sizedBackend); !ok || !hyperCache.overCapacity(ctx) || (limit != 0 && evicted >= limit) {
+	if _, ok := hyperCache.backend.(sizedBackend); !ok {
 		return evicted, nil
 	}
 
-	items, err := hyperCache.backend.List(ctx, backend.WithSortBy(constants.SortByLastAccess.String()))
-	if err != nil {
-		return evicted, err
-	}
-
-	for _, item := range items {
-		if !hyperCache.overCapacity(ctx) || (limit != 0 && evicted >= limit) {
-			break
-		}
-
-		removed, err := hyperCache.evictKey(ctx, item.Key)
+	// Concurrent writers may replace the listed items before it is their turn,
+	// so the excess is over only once a check says so.
+	for hyperCache.overCapacity(ctx) && (limit == 0 || evicted < limit) {
+		items, err := hyperCache.backend.List(ctx, backend.WithSortBy(constants.SortByLastAccess.String()))
 		if err != nil {
 			return evicted, err
 		}
 
-		if removed {
-			evicted++
+		for _, item := range items {
+			if !hyperCache.overCapacity(ctx) || (limit != 0 && evicted >= limit) {
+				break
+			}
+
+			removed, err := hyperCache.evictKey(ctx, item.Key)
+			if err != nil {
+				return evicted, err
+			}
+
+			if removed {
+				evicted++
+			}
 		}
 	}
 
@@ -239,10 +243,18 @@ func (hyperCache *HyperCache[T]) logEvictionTick(evicted uint, remaining int64,
 	)
 }
 
-// evictItem is a helper function that evicts one item when the cache is over capacity.
+// evictItem is a helper function that evicts an item when the cache is over capacity.
 // If no item can be evicted, it returns a false.
 func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) bool {
-	evicted, err := hyperCache.evictExcess(ctx, 1)
+	limit := uint(1)
+
+	// A count taken while others write may miss an item, whose writer then
+	// leaves without evicting: the last writer to leave has to evict for all.
+	if _, ok := hyperCache.backend.(sizedBackend); ok {
+		limit = 0
+	}
+
+	evicted, err := hyperCache.evictExcess(ctx, limit)
 
 	return err == nil && evicted > 0
 }
-- 
2.43.0


From 2b37e07c8b7cf7b7ff7fb544eec0cd1bf59958df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:01 +0000
Subject: [PATCH 31/49] fix: queued read repairs could be lost or raced with at
 shutdown

---
 pkg/backend/dist_memory.go      |  5 +--
 pkg/backend/dist_read_repair.go | 55 ++++++++++++++++++++++++++-------
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index ed59ba6..86e0c27 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1547,8 +1547,6 @@ func (dm *DistMemory) Stop(ctx context.Context) error {
 		// stop() blocks until the flusher goroutine emits its final
 		// flushAll and exits.
 		dm.repairQueue.stop()
-
-		dm.repairQueue = nil
 	}
 
 	// Unregister the OTel metric callback before tearing down the HTTP
@@ -3759,8 +3757,7 @@ func (dm *DistMemory) repairRemoteReplica(
 		return
 	}
 
-	if dm.repairQueue != nil {
-		dm.repairQueue.enqueue(ctx, oid, chosen)
+	if dm.repairQueue != nil && dm.repairQueue.enqueue(ctx, oid, chosen) {
 		dm.metrics.readRepair.Add(1)
 
 		return
diff --git a/pkg/backend/dist_read_repair.go b/pkg/backend/dist_read_repair.go
index 8643f46..6a43ebf 100644
--- a/pkg/backend/dist_read_repair.go
+++ b/pkg/backend/dist_read_repair.go
@@ -36,6 +36,8 @@ type repairQueue struct {
 
 	mu      sync.Mutex
 	entries map[cluster.NodeID]map[string]*cache.Item
+	closed  bool           // the final flush has begun: nothing may be queued any more
+	batches sync.WaitGroup // size-triggered flushes in flight
 
 	transport func() DistTransport
 	metrics   *distMetrics
@@ -75,7 +77,7 @@ func (q *repairQueue) start(ctx context.Context) {
 }
 
 // stop signals shutdown, waits for the flusher to drain remaining
-// entries, then returns. Safe to call multiple times — repeated
+// entries and for the batches already on their way, then returns. Safe to call multiple times — repeated
 // closes on stopCh are guarded by the channel's already-closed
 // state via a select.
 func (q *repairQueue) stop() {
@@ -87,6 +89,8 @@ func (q *repairQueue) stop() {
 	}
 
 	<-q.doneCh
+
+	q.batches.Wait()
 }
 
 // enqueue records a pending repair for (peer, item.Key). If a
@@ -102,13 +106,21 @@ func (q *repairQueue) stop() {
 // values from the caller without being cancelled when the request
 // scope ends (this is fire-and-forget by design — the read path
 // has already returned by the time the flush completes).
-func (q *repairQueue) enqueue(ctx context.Context, peer cluster.NodeID, item *cache.Item) {
+//
+// Returns false when the queue has shut down and takes no more entries.
+func (q *repairQueue) enqueue(ctx context.Context, peer cluster.NodeID, item *cache.Item) bool {
 	if item == nil {
-		return
+		return true
 	}
 
 	q.mu.Lock()
 
+	if q.closed {
+		q.mu.Unlock()
+
+		return false
+	}
+
 	peerEntries := q.entries[peer]
 	if peerEntries == nil {
 		peerEntries = map[string]*cache.Item{}
@@ -121,7 +133,7 @@ func (q *repairQueue) enqueue(ctx context.Context, peer cluster.NodeID, item *ca
 		q.metrics.readRepairCoalesced.Add(1)
 		q.mu.Unlock()
 
-		return
+		return true
 	}
 
 	if found {
@@ -135,21 +147,32 @@ func (q *repairQueue) enqueue(ctx context.Context, peer cluster.NodeID, item *ca
 	peerEntries[item.Key] = &cloned
 
 	shouldFlush := len(peerEntries) >= q.maxBatchSize
+	if shouldFlush { // still under the lock: stop waits for every batch begun before closing
+		q.batches.Add(1)
+	}
+
 	q.mu.Unlock()
 
 	if shouldFlush {
 		flushCtx := context.WithoutCancel(ctx)
 
-		go q.flushPeer(flushCtx, peer)
+		go func() {
+			defer q.batches.Done()
+
+			q.flushPeer(flushCtx, peer)
+		}()
 	}
+
+	return true
 }
 
 // run is the flusher goroutine body. Ticks on interval, flushes
 // everything; on stopCh signal, does one final flushAll, then
-// closes doneCh so stop() can return. Shutdown flushes use
+// closes doneCh so stop() can return. Flushes use
 // context.WithoutCancel so the drain dispatches even when the
-// parent ctx is already Done — losing queued repairs on a clean
-// stop would defeat the drain guarantee.
+// parent ctx is already Done, or becomes so in the middle of a
+// flush — losing queued repairs on a clean stop would defeat the
+// drain guarantee.
 func (q *repairQueue) run(ctx context.Context) {
 	defer close(q.doneCh)
 
@@ -159,21 +182,31 @@ func (q *repairQueue) run(ctx context.Context) {
 	for {
 		select {
 		case <-ctx.Done():
-			q.flushAll(context.WithoutCancel(ctx))
+			q.finish(context.WithoutCancel(ctx))
 
 			return
 
 		case <-q.stopCh:
-			q.flushAll(context.WithoutCancel(ctx))
+			q.finish(context.WithoutCancel(ctx))
 
 			return
 
 		case <-ticker.C:
-			q.flushAll(ctx)
+			q.flushAll(context.WithoutCancel(ctx))
 		}
 	}
 }
 
+// finish closes the queue to new entries and flushes what it holds.
+func (q *repairQueue) finish(ctx context.Context) {
+	q.mu.Lock()
+
+	q.closed = true
+	q.mu.Unlock()
+
+	q.flushAll(ctx)
+}
+
 // flushAll drains every peer's pending entries. Used by the
 // ticker path and by stop(). Per-peer flushes run sequentially
 // here; per-peer parallelism happens INSIDE flushPeer via errgroup.
-- 
2.43.0


From 7cff253deb808d127a5dd5e97545b22005c4ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:26 +0000
Subject: [PATCH 32/49] fix: the capacity of a distributed node was read and
 changed without synchronisation

---
 pkg/backend/dist_memory.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 86e0c27..950b089 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -60,7 +60,7 @@ var errNoTransport = ewrap.New("no transport")
 type DistMemory struct {
 	shards     []*distShard
 	shardCount int
-	capacity   int // logical global capacity (0 = unlimited). Not strictly enforced yet.
+	capacity   atomic.Int64 // logical global capacity (0 = unlimited). Not strictly enforced yet.
 	localNode  *cluster.Node
 	membership *cluster.Membership
 	ring       *cluster.Ring
@@ -644,7 +644,7 @@ func (dm *DistMemory) SyncWith(ctx context.Context, nodeID string) error {
 
 // WithDistCapacity sets logical capacity (not strictly enforced yet).
 func WithDistCapacity(capacity int) DistMemoryOption {
-	return func(dm *DistMemory) { dm.capacity = capacity }
+	return func(dm *DistMemory) { dm.capacity.Store(int64(capacity)) }
 }
 
 // WithDistMembership injects an existing membership and (optionally) a local node for multi-node tests.
@@ -1090,12 +1090,12 @@ func distOptionsFromMinimal(mc struct {
 // helper methods relocated after exported methods for lint ordering.
 
 // Capacity returns logical capacity.
-func (dm *DistMemory) Capacity() int { return dm.capacity }
+func (dm *DistMemory) Capacity() int { return int(dm.capacity.Load()) }
 
 // SetCapacity sets logical capacity.
 func (dm *DistMemory) SetCapacity(capacity int) {
 	if capacity >= 0 {
-		dm.capacity = capacity
+		dm.capacity.Store(int64(capacity))
 	}
 }
 
-- 
2.43.0


From 74b2a9f1a4823aa01f211675eff783fb134627e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:26 +0000
Subject: [PATCH 33/49] fix: failed constructions leaked workers, and Stop left
 the distributed backend running, raced with itself and failed when repeated

---
 hypercache.go                   | 55 +++++++++++++++++++++++++++------
 management_http.go              | 15 ++++++++-
 pkg/backend/dist_http_server.go |  8 ++++-
 3 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 9079cd8..ecda179 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -9,6 +9,7 @@ package hypercache
 
 import (
 	"context"
+	"errors"
 	"log/slog"
 	"sync"
 	"sync/atomic"
@@ -69,6 +70,7 @@ type HyperCache[T backend.IBackendConstrain] struct {
 	maxCacheSize               int64               // hard memory limit (MB), 0 = unlimited
 	memoryAllocation           atomic.Int64        // current memory usage (bytes)
 	once                       sync.Once           // ensures background loops start once
+	stopMu                     sync.Mutex          // serializes Stop calls
 	statsCollectorName         string              // configured stats collector name
 	// StatsCollector to collect cache statistics
 	StatsCollector stats.ICollector
@@ -97,6 +99,12 @@ type sizedBackend interface {
 	RemoveIf(ctx context.Context, key string, cond func(*cache.Item) bool) (int64, bool)
 }
 
+// stoppableBackend is the optional interface a backend implements when it has
+// background work to end.
+type stoppableBackend interface {
+	Stop(ctx context.Context) error
+}
+
 // NewInMemoryWithDefaults initializes a new HyperCache with the default configuration.
 // The default configuration is:
 //   - The eviction interval is set to 10 minutes.
@@ -163,18 +171,24 @@ func New[T backend.IBackendConstrain](ctx context.Context, bm *BackendManager, c
 	// Initialize eviction algorithm
 	err = initEvictionAlgorithm(hyperCache)
 	if err != nil {
+		hyperCache.abandon(ctx)
+
 		return hyperCache, err
 	}
 
 	// Stats collector
 	err = configureStats(hyperCache)
 	if err != nil {
+		hyperCache.abandon(ctx)
+
 		return hyperCache, err
 	}
 
 	// Capacity check (fatal)
 	err = checkCapacity(hyperCache)
 	if err != nil {
+		hyperCache.abandon(ctx)
+
 		return nil, err
 	}
 
@@ -193,10 +207,24 @@ func New[T backend.IBackendConstrain](ctx context.Context, bm *BackendManager, c
 	return hyperCache, nil
 }
 
+// abandon releases what New has started so far when it fails: the worker pool
+// and the backend's own background work.
+func (hyperCache *HyperCache[T]) abandon(ctx context.Context) {
+	err := hyperCache.Stop(context.WithoutCancel(ctx))
+	if err != nil {
+		hyperCache.logger.Warn("stop after failed construction", slog.Any("err", err))
+	}
+}
+
 // Stop signals background loops to stop, shuts down the worker pool, and
-// closes any optional management HTTP server. The shutdown is bounded by
-// shutdownTimeout to keep tests responsive.
+// closes any optional management HTTP server and a backend with background
+// work of its own (DistMemory). The shutdown of the servers is bounded by
+// shutdownTimeout to keep tests responsive. Stop may be called repeatedly and
+// concurrently.
 func (hyperCache *HyperCache[T]) Stop(ctx context.Context) error {
+	hyperCache.stopMu.Lock()
+	defer hyperCache.stopMu.Unlock()
+
 	// Best-effort stop signal for listeners that still rely on stop channel.
 	select {
 	case hyperCache.stop <- true:
@@ -212,18 +240,25 @@ func (hyperCache *HyperCache[T]) Stop(ctx context.Context) error {
 	hyperCache.once = sync.Once{}
 	hyperCache.workerPool.Shutdown()
 
+	var mgmtErr, backendErr error
+
 	if hyperCache.mgmtHTTP != nil {
-		ctx, cancel := context.WithTimeout(ctx, shutdownTimeout)
-		defer cancel()
+		mgmtErr = stopWithin(ctx, hyperCache.mgmtHTTP.Shutdown)
+	}
 
-		err := hyperCache.mgmtHTTP.Shutdown(ctx)
-		if err != nil {
-			// Handle error
-			return err
-		}
+	if stopper, ok := any(hyperCache.backend).(stoppableBackend); ok {
+		backendErr = stopWithin(ctx, stopper.Stop)
 	}
 
-	return nil
+	return errors.Join(mgmtErr, backendErr)
+}
+
+// stopWithin calls stop with a context bounded by shutdownTimeout.
+func stopWithin(ctx context.Context, stop func(context.Context) error) error {
+	ctx, cancel := context.WithTimeout(ctx, shutdownTimeout)
+	defer cancel()
+
+	return stop(ctx)
 }
 
 // Capacity returns the capacity of the cache.
diff --git a/management_http.go b/management_http.go
index d0bb7b7..7265514 100644
--- a/management_http.go
+++ b/management_http.go
@@ -3,6 +3,7 @@ package hypercache
 import (
 	"bufio"
 	"context"
+	"errors"
 	"fmt"
 	"net"
 	"sync/atomic"
@@ -243,6 +244,8 @@ func (s *ManagementHTTPServer) Start(ctx context.Context, hc managementCache) er
 
 	ln, err := lc.Listen(ctx, "tcp", s.addr)
 	if err != nil {
+		s.lifeCancel()
+
 		return ewrap.Wrap(err, "mgmt listen")
 	}
 
@@ -288,7 +291,17 @@ func (s *ManagementHTTPServer) Shutdown(ctx context.Context) error {
 		s.lifeCancel()
 	}
 
-	return s.app.ShutdownWithContext(ctx)
+	err := s.app.ShutdownWithContext(ctx)
+
+	// The serve goroutine may not have handed the listener to the app yet, in
+	// which case the shutdown did not know about it. Closing it twice is harmless.
+	_ = s.ln.Close() //nolint:errcheck // already closed by the shutdown, usually
+
+	if errors.Is(err, net.ErrClosed) { // shut down before
+		return nil
+	}
+
+	return err
 }
 
 // mountRoutes.
diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index a265102..fa3a076 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -765,5 +765,11 @@ func (s *distHTTPServer) stop(ctx context.Context) error {
 	// the previous `go func() { ch <- s.app.Shutdown() }()` pattern which
 	// leaked the shutdown goroutine when our ctx fired before fiber
 	// finished draining.
-	return s.app.ShutdownWithContext(ctx)
+	err := s.app.ShutdownWithContext(ctx)
+
+	// The serve goroutine may not have handed the listener to the app yet, in
+	// which case the shutdown did not know about it. Closing it twice is harmless.
+	_ = s.ln.Close() //nolint:errcheck // already closed by the shutdown, usually
+
+	return err
 }
-- 
2.43.0


From 2e85a67b75c1693bf9b1f683ed309963b13ceae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 34/49] fix: Redis stores ignored the TLS configuration and
 dial timeout, sending credentials in plaintext

---
 pkg/backend/redis/store.go        | 9 ---------
 pkg/backend/rediscluster/store.go | 8 +-------
 2 files changed, 1 insertion(+), 16 deletions(-)

diff --git a/pkg/backend/redis/store.go b/pkg/backend/redis/store.go
index 5a43ff9..54907f3 100644
--- a/pkg/backend/redis/store.go
+++ b/pkg/backend/redis/store.go
@@ -1,8 +1,6 @@
 package redis
 
 import (
-	"context"
-	"net"
 	"strings"
 
 	"github.com/hyp3rd/ewrap"
@@ -21,13 +19,6 @@ type Store struct {
 func New(opts ...Option) (*Store, error) {
 	// Setup redis client
 	opt := &redis.Options{
-		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
-			dialer := &net.Dialer{
-				Timeout: constants.RedisDialTimeout,
-			}
-
-			return dialer.DialContext(ctx, network, addr)
-		},
 		DB:           0,
 		MaxRetries:   constants.RedisClientMaxRetries,
 		DialTimeout:  constants.RedisDialTimeout,
diff --git a/pkg/backend/rediscluster/store.go b/pkg/backend/rediscluster/store.go
index be05d27..7802d21 100644
--- a/pkg/backend/rediscluster/store.go
+++ b/pkg/backend/rediscluster/store.go
@@ -1,8 +1,6 @@
 package rediscluster
 
 import (
-	"context"
-	"net"
 	"strings"
 
 	"github.com/hyp3rd/ewrap"
@@ -19,12 +17,8 @@ type Store struct {
 // New creates a redis cluster store instance with given options.
 func New(opts ...Option) (*Store, error) {
 	opt := &redis.ClusterOptions{
-		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
-			dialer := &net.Dialer{Timeout: constants.RedisDialTimeout}
-
-			return dialer.DialContext(ctx, network, addr)
-		},
 		MaxRetries:   constants.RedisClientMaxRetries,
+		DialTimeout:  constants.RedisDialTimeout,
 		ReadTimeout:  constants.RedisClientReadTimeout,
 		WriteTimeout: constants.RedisClientWriteTimeout,
 		PoolSize:     constants.RedisClientPoolSize,
-- 
2.43.0


From d02cfb0f1b7c1e44f4fd8948c5ca6280d468ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 35/49] fix: NewDistMemoryWithConfig never applied the
 configuration it was given

---
 pkg/backend/dist_memory.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 950b089..7ca05d3 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -10,6 +10,7 @@ import (
 	"hash/fnv"
 	"log/slog"
 	"math/big"
+	"reflect"
 	"slices"
 	"strconv"
 	"strings"
@@ -1014,14 +1015,17 @@ func NewDistMemoryWithConfig(ctx context.Context, cfg any, opts ...DistMemoryOpt
 		HintMaxPerNode   int
 	}
 
-	var mc minimalConfig
+	var derived []DistMemoryOption
 
-	if asserted, ok := cfg.(minimalConfig); ok { // best-effort copy
-		mc = asserted
+	// The fields match when the struct (or the struct pointed to) converts to the mirror.
+	value := reflect.Indirect(reflect.ValueOf(cfg))
+	if value.IsValid() && value.CanConvert(reflect.TypeFor[minimalConfig]()) {
+		mc, ok := value.Convert(reflect.TypeFor[minimalConfig]()).Interface().(minimalConfig)
+		if ok { // best-effort copy
+			derived = distOptionsFromMinimal(mc)
+		}
 	}
 
-	derived := distOptionsFromMinimal(mc)
-
 	all := make([]DistMemoryOption, 0, len(derived)+len(opts))
 
 	all = append(all, derived...)
-- 
2.43.0


From 583953d6b5ff1af3461136e37875d951241f3530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 36/49] fix: Redis backends reported successful removals as
 errors, kept old expirations, counted their index, and could not write to a
 cluster

- Remove and Clear returned a non-nil error on success (a nil *ewrap.Error in an error)
- Count included the set of keys, so a cache evicted one item early
- overwriting an item without expiration kept the old one; fractions of a second were cut off
- without a serializer option every write failed: the default one is disabled
- an invalid filter followed by another one went unreported
- an item under the name of the set of keys destroyed the set, and removing that name emptied the cache
- cluster: transactions across slots always failed, and Clear reached one master only
- the capacity was read and changed without synchronisation
- keys that are not valid UTF-8 came back altered
---
 pkg/backend/options.go       |   4 +-
 pkg/backend/redis.go         |  34 ++++++++----
 pkg/backend/redis_cluster.go |  79 ++++++++++++++++++++++-----
 pkg/backend/redis_common.go  | 103 ++++++++++++++++++++++-------------
 4 files changed, 155 insertions(+), 65 deletions(-)

diff --git a/pkg/backend/options.go b/pkg/backend/options.go
index 4c16c5c..770a2d9 100644
--- a/pkg/backend/options.go
+++ b/pkg/backend/options.go
@@ -19,12 +19,12 @@ func (inm *InMemory) setBackendCapacity(capacity int) {
 
 // setCapacity sets the `Capacity` field of the `Redis` backend.
 func (rb *Redis) setBackendCapacity(capacity int) {
-	rb.capacity = capacity
+	rb.capacity.Store(int64(capacity))
 }
 
 // setCapacity sets the `Capacity` field of the `RedisCluster` backend.
 func (rc *RedisCluster) setBackendCapacity(capacity int) {
-	rc.capacity = capacity
+	rc.capacity.Store(int64(capacity))
 }
 
 // Option is a function type that can be used to configure the `HyperCache` struct.
diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index 81dd9b5..8a6d0c7 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -3,6 +3,7 @@ package backend
 import (
 	"context"
 	"errors"
+	"sync/atomic"
 	"time"
 
 	"github.com/hyp3rd/ewrap"
@@ -22,7 +23,7 @@ const (
 // Redis is a cache backend that stores the items in a redis implementation.
 type Redis struct {
 	rdb             *redis.Client          // redis client to interact with the redis server
-	capacity        int                    // capacity of the cache, limits the number of items that can be stored in the cache
+	capacity        atomic.Int64           // capacity of the cache, limits the number of items that can be stored in the cache
 	itemPoolManager *cache.ItemPoolManager // itemPoolManager is used to manage the item pool for memory efficiency
 	keysSetName     string                 // keysSetName is the name of the set that holds the keys of the items in the cache
 	Serializer      serializer.ISerializer // Serializer is the serializer used to serialize the items before storing them in the cache
@@ -42,7 +43,7 @@ func NewRedis(redisOptions ...Option[Redis]) (IBackend[Redis], error) {
 	}
 
 	// Check if the `capacity` is valid
-	if rb.capacity < 0 {
+	if rb.Capacity() < 0 {
 		return nil, sentinel.ErrInvalidCapacity
 	}
 
@@ -55,8 +56,8 @@ func NewRedis(redisOptions ...Option[Redis]) (IBackend[Redis], error) {
 	if rb.Serializer == nil {
 		var err error
 
-		// Set a the serializer to default to `msgpack`
-		rb.Serializer, err = serializer.New("msgpack")
+		// The serializer defaults to JSON
+		rb.Serializer, err = serializer.New("default")
 		if err != nil {
 			return nil, err
 		}
@@ -72,22 +73,29 @@ func (cacheBackend *Redis) SetCapacity(capacity int) {
 		return
 	}
 
-	cacheBackend.capacity = capacity
+	cacheBackend.capacity.Store(int64(capacity))
 }
 
 // Capacity returns the maximum number of items that can be stored in the cache.
 func (cacheBackend *Redis) Capacity() int {
-	return cacheBackend.capacity
+	return int(cacheBackend.capacity.Load())
 }
 
-// Count returns the number of items in the cache.
+// Count returns the number of items in the cache: the keys of the database but the set of keys.
 func (cacheBackend *Redis) Count(ctx context.Context) int {
-	count, err := cacheBackend.rdb.DBSize(ctx).Result()
+	var size, index *redis.IntCmd
+
+	_, err := cacheBackend.rdb.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+		size = pipe.DBSize(ctx)
+		index = pipe.Exists(ctx, cacheBackend.keysSetName)
+
+		return nil
+	})
 	if err != nil {
 		return 0
 	}
 
-	return int(count)
+	return int(size.Val() - index.Val())
 }
 
 // Get retrieves the Item with the given key from the cacheBackend. If the item is not found, it returns nil.
@@ -123,6 +131,7 @@ func (cacheBackend *Redis) Get(ctx context.Context, key string) (*cache.Item, bo
 
 	// Clone into a new heap object to avoid returning a pooled pointer
 	out := *pooled
+	out.Key = key
 	cacheBackend.itemPoolManager.Put(pooled)
 
 	return &out, true
@@ -145,7 +154,10 @@ func (cacheBackend *Redis) Remove(ctx context.Context, keys ...string) error {
 
 // Clear removes all items from the cache.
 func (cacheBackend *Redis) Clear(ctx context.Context) error {
-	_, err := cacheBackend.rdb.FlushDB(ctx).Result()
+	err := cacheBackend.rdb.FlushDB(ctx).Err()
+	if err != nil {
+		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(maxRetries, retriesDelay))
+	}
 
-	return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(maxRetries, retriesDelay))
+	return nil
 }
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index b720814..ef628de 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -3,6 +3,7 @@ package backend
 import (
 	"context"
 	"errors"
+	"sync/atomic"
 	"time"
 
 	"github.com/hyp3rd/ewrap"
@@ -23,7 +24,7 @@ const (
 // It mirrors the single-node Redis backend semantics but uses go-redis ClusterClient.
 type RedisCluster struct {
 	rdb             *redis.ClusterClient // redis cluster client
-	capacity        int                  // capacity of the cache
+	capacity        atomic.Int64         // capacity of the cache
 	itemPoolManager *cache.ItemPoolManager
 	keysSetName     string
 	Serializer      serializer.ISerializer
@@ -39,7 +40,7 @@ func NewRedisCluster(redisOptions ...Option[RedisCluster]) (IBackend[RedisCluste
 		return nil, sentinel.ErrNilClient
 	}
 
-	if rc.capacity < 0 {
+	if rc.Capacity() < 0 {
 		return nil, sentinel.ErrInvalidCapacity
 	}
 
@@ -50,7 +51,7 @@ func NewRedisCluster(redisOptions ...Option[RedisCluster]) (IBackend[RedisCluste
 	if rc.Serializer == nil {
 		var err error
 
-		rc.Serializer, err = serializer.New("msgpack")
+		rc.Serializer, err = serializer.New("default")
 		if err != nil {
 			return nil, err
 		}
@@ -65,22 +66,27 @@ func (cacheBackend *RedisCluster) SetCapacity(capacity int) {
 		return
 	}
 
-	cacheBackend.capacity = capacity
+	cacheBackend.capacity.Store(int64(capacity))
 }
 
 // Capacity returns the capacity of the cluster backend.
 func (cacheBackend *RedisCluster) Capacity() int {
-	return cacheBackend.capacity
+	return int(cacheBackend.capacity.Load())
 }
 
-// Count returns the number of keys stored.
+// Count returns the number of items stored: the keys of the database but the set of keys.
 func (cacheBackend *RedisCluster) Count(ctx context.Context) int {
-	count, err := cacheBackend.rdb.DBSize(ctx).Result()
+	size, err := cacheBackend.rdb.DBSize(ctx).Result()
 	if err != nil {
 		return 0
 	}
 
-	return int(count)
+	index, err := cacheBackend.rdb.Exists(ctx, cacheBackend.keysSetName).Result()
+	if err != nil {
+		return 0
+	}
+
+	return int(max(size-index, 0))
 }
 
 // Get retrieves an item by key.
@@ -107,14 +113,36 @@ func (cacheBackend *RedisCluster) Get(ctx context.Context, key string) (*cache.I
 	}
 
 	out := *pooled
+	out.Key = key
 	cacheBackend.itemPoolManager.Put(pooled)
 
 	return &out, true
 }
 
-// Set stores an item in the cluster.
+// Set stores an item in the cluster. The item and the set of keys are usually in different
+// slots, which no transaction can span: the item is stored first and then tracked, and Remove
+// goes the other way, so that in any interleaving of the two no item is left untracked.
 func (cacheBackend *RedisCluster) Set(ctx context.Context, item *cache.Item) error {
-	return redisSet(ctx, cacheBackend.rdb, cacheBackend.keysSetName, item, cacheBackend.Serializer)
+	data, err := redisEncode(cacheBackend.keysSetName, item, cacheBackend.Serializer)
+	if err != nil {
+		return err
+	}
+
+	_, err = cacheBackend.rdb.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+		redisStoreItem(ctx, pipe, item, data)
+
+		return nil
+	})
+	if err != nil {
+		return ewrap.Wrap(err, "failed to execute redis pipeline")
+	}
+
+	err = cacheBackend.rdb.SAdd(ctx, cacheBackend.keysSetName, item.Key).Err()
+	if err != nil {
+		return ewrap.Wrap(err, "failed to track the key in redis")
+	}
+
+	return nil
 }
 
 // List returns items matching optional filters.
@@ -124,12 +152,35 @@ func (cacheBackend *RedisCluster) List(ctx context.Context, filters ...IFilter)
 
 // Remove deletes the specified keys.
 func (cacheBackend *RedisCluster) Remove(ctx context.Context, keys ...string) error {
-	return redisRemove(ctx, cacheBackend.rdb, cacheBackend.keysSetName, keys...)
+	keys = redisRemovable(cacheBackend.keysSetName, keys)
+	if len(keys) == 0 {
+		return nil
+	}
+
+	err := cacheBackend.rdb.SRem(ctx, cacheBackend.keysSetName, keys).Err()
+	if err != nil {
+		return ewrap.Wrap(err, "removing keys from set")
+	}
+
+	// One by one: the keys are in different slots.
+	for _, key := range keys {
+		err = cacheBackend.rdb.Del(ctx, key).Err()
+		if err != nil {
+			return ewrap.Wrap(err, "removing keys")
+		}
+	}
+
+	return nil
 }
 
-// Clear flushes the database.
+// Clear flushes the database on every master.
 func (cacheBackend *RedisCluster) Clear(ctx context.Context) error {
-	_, err := cacheBackend.rdb.FlushDB(ctx).Result()
+	err := cacheBackend.rdb.ForEachMaster(ctx, func(ctx context.Context, master *redis.Client) error {
+		return master.FlushDB(ctx).Err()
+	})
+	if err != nil {
+		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
+	}
 
-	return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
+	return nil
 }
diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index d48a3f9..4c4f771 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -2,59 +2,76 @@ package backend
 
 import (
 	"context"
+	"slices"
+	"time"
 
 	"github.com/hyp3rd/ewrap"
 	"github.com/redis/go-redis/v9"
 
 	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/libs/serializer"
+	"github.com/hyp3rd/hypercache/internal/sentinel"
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
 // redisCmd abstracts the subset of go-redis client API we need.
 type redisCmd interface {
-	TxPipeline() redis.Pipeliner
+	TxPipelined(ctx context.Context, fn func(redis.Pipeliner) error) ([]redis.Cmder, error)
 	Pipelined(ctx context.Context, fn func(redis.Pipeliner) error) ([]redis.Cmder, error)
 	SMembers(ctx context.Context, key string) *redis.StringSliceCmd
 }
 
-func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *cache.Item, ser serializer.ISerializer) error {
-	pipe := client.TxPipeline()
+// redisStoreItem queues the commands that store a serialized item under its key.
+// Redis keeps expirations in milliseconds: a fraction is rounded up, so that an item
+// never expires early. Overwriting a hash keeps its expiration, which therefore has
+// to be removed for an item that does not expire.
+func redisStoreItem(ctx context.Context, pipe redis.Pipeliner, item *cache.Item, data []byte) {
+	pipe.HSet(
+		ctx,
+		item.Key,
+		map[string]any{
+			"data":       data,
+			"expiration": item.Expiration.String(),
+		},
+	)
+
+	if item.Expiration > 0 {
+		millis := (item.Expiration-1)/time.Millisecond + 1
 
-	// Validate item
+		pipe.PExpire(ctx, item.Key, millis*time.Millisecond)
+	} else {
+		pipe.Persist(ctx, item.Key)
+	}
+}
+
+// redisEncode validates and serializes an item. The name of the set of keys is refused
+// as a key: storing an item there would make the set unusable.
+func redisEncode(keysSetName string, item *cache.Item, ser serializer.ISerializer) ([]byte, error) {
 	err := item.Valid()
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	// Serialize item
-	data, err := ser.Marshal(item)
-	if err != nil {
-		return err
+	if item.Key == keysSetName {
+		return nil, ewrap.Wrap(sentinel.ErrInvalidKey, "the key is the name of the keys set")
 	}
 
-	expiration := item.Expiration.String()
+	return ser.Marshal(item)
+}
 
-	err = pipe.HSet(
-		ctx,
-		item.Key,
-		map[string]any{
-			"data":       data,
-			"expiration": expiration,
-		},
-	).Err()
+func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *cache.Item, ser serializer.ISerializer) error {
+	data, err := redisEncode(keysSetName, item, ser)
 	if err != nil {
-		return ewrap.Wrap(err, "failed to set item in redis")
+		return err
 	}
 
-	// Track key and TTL
-	pipe.SAdd(ctx, keysSetName, item.Key)
+	_, err = client.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+		redisStoreItem(ctx, pipe, item, data)
+		// Track the key
+		pipe.SAdd(ctx, keysSetName, item.Key)
 
-	if item.Expiration > 0 {
-		pipe.Expire(ctx, item.Key, item.Expiration)
-	}
-
-	_, err = pipe.Exec(ctx)
+		return nil
+	})
 	if err != nil {
 		return ewrap.Wrap(err, "failed to execute redis pipeline")
 	}
@@ -92,7 +109,7 @@ func redisList(
 
 	items := make([]*cache.Item, 0, len(keys))
 
-	for _, cmd := range cmds {
+	for i, cmd := range cmds {
 		command, ok := cmd.(*redis.MapStringStringCmd)
 		if !ok {
 			continue
@@ -109,6 +126,7 @@ func redisList(
 		err = ser.Unmarshal([]byte(data["data"]), pooled)
 		if err == nil {
 			out := *pooled
+			out.Key = keys[i]
 
 			items = append(items, &out)
 		}
@@ -119,26 +137,35 @@ func redisList(
 	if len(filters) > 0 {
 		for _, filter := range filters {
 			items, err = filter.ApplyFilter(constants.RedisBackend, items)
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
-	return items, err
+	return items, nil
 }
 
-func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys ...string) error {
-	pipe := client.TxPipeline()
+// redisRemovable returns the keys that can hold an item: the set of keys itself is not one.
+func redisRemovable(keysSetName string, keys []string) []string {
+	return slices.DeleteFunc(slices.Clone(keys), func(key string) bool { return key == keysSetName })
+}
 
-	_, err := pipe.SRem(ctx, keysSetName, keys).Result()
-	if err != nil {
-		return ewrap.Wrap(err, "removing keys from set")
+func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys ...string) error {
+	keys = redisRemovable(keysSetName, keys)
+	if len(keys) == 0 {
+		return nil
 	}
 
-	_, err = pipe.Del(ctx, keys...).Result()
+	_, err := client.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+		pipe.SRem(ctx, keysSetName, keys)
+		pipe.Del(ctx, keys...)
+
+		return nil
+	})
 	if err != nil {
-		return ewrap.Wrap(err, "removing keys")
+		return ewrap.Wrap(err, "executing pipeline")
 	}
 
-	_, err = pipe.Exec(ctx)
-
-	return ewrap.Wrap(err, "executing pipeline")
+	return nil
 }
-- 
2.43.0


From 32c0e1dbee7cbfdab57d2602183cd47bc626e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:59 +0000
Subject: [PATCH 37/49] fix: seeds given without an ID stayed in the membership
 as ghosts of the real nodes, doubling them on the ring

---
 pkg/backend/dist_memory.go | 43 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 7ca05d3..b86d67c 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3625,6 +3625,10 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 			continue
 		}
 
+		if dm.isSeedPlaceholder(node) {
+			continue // the member at this address is known by its own ID
+		}
+
 		dm.prunedMu.Lock()
 
 		if !dm.barred(node) {
@@ -3634,12 +3638,51 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 				State:       node.State,
 				Incarnation: node.Incarnation,
 			})
+			dm.dropSeedPlaceholder(node)
 		}
 
 		dm.prunedMu.Unlock()
 	}
 }
 
+// isSeedPlaceholder reports whether the entry stands for a seed given without
+// an ID (see parseSeedSpec) whose own ID is known by now.
+func (dm *DistMemory) isSeedPlaceholder(node *cluster.Node) bool {
+	if node.ID != cluster.NewNode("", node.Address).ID {
+		return false
+	}
+
+	if node.Address == dm.localNode.Address {
+		return true
+	}
+
+	for _, known := range dm.membership.List() {
+		if known.Address == node.Address && known.ID != node.ID {
+			return true
+		}
+	}
+
+	return false
+}
+
+// dropSeedPlaceholder removes the entry under which a seed given without an
+// ID was held, now that the node at its address announced its ID. Keeping it
+// would place the same process on the ring twice.
+func (dm *DistMemory) dropSeedPlaceholder(node *cluster.Node) {
+	placeholder := cluster.NewNode("", node.Address).ID
+	if placeholder == node.ID {
+		return
+	}
+
+	for _, known := range dm.membership.List() {
+		if known.ID == placeholder && known.Address == node.Address {
+			dm.membership.Remove(placeholder)
+
+			return
+		}
+	}
+}
+
 // refuteIfSuspected handles the SWIM self-refute path: when a peer
 // gossips that THIS node is Suspect or Dead at incarnation N, raise
 // our local incarnation above N and mark ourselves Alive.
-- 
2.43.0


From 9f26fba1957b1bf05694b7dbe9824c74f0a11648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:59 +0000
Subject: [PATCH 38/49] fix: copies sent over the HTTP transport started their
 time-to-live again

---
 hypercache_io.go                   |  6 ++++--
 pkg/backend/dist_http_server.go    | 22 ++++++++++++--------
 pkg/backend/dist_http_transport.go | 32 +++++++++++++++++++++--------
 pkg/backend/dist_http_types.go     | 33 ++++++++++++++++++++++++++++++
 4 files changed, 73 insertions(+), 20 deletions(-)

diff --git a/hypercache_io.go b/hypercache_io.go
index 053bfce..99eb24d 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -231,8 +231,10 @@ func (hyperCache *HyperCache[T]) touchItem(ctx context.Context, key string, item
 		return
 	}
 
-	if toucher, ok := hyperCache.backend.(touchBackend); ok {
-		toucher.Touch(ctx, key)
+	// an item the backend does not hold here (it was fetched from another node)
+	// is not kept alive by this access, so it must not look as if it were
+	if toucher, ok := hyperCache.backend.(touchBackend); ok && !toucher.Touch(ctx, key) {
+		return
 	}
 
 	item.Touch()
diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index fa3a076..1df40f1 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -378,15 +378,14 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: unmarshalErr.Error()})
 	}
 
-	it := &cache.Item{ // LastUpdated set to now for replicated writes
-		Key:         req.Key,
-		Value:       req.Value,
-		Expiration:  time.Duration(req.Expiration) * time.Millisecond,
-		Version:     req.Version,
-		Origin:      req.Origin,
-		LastUpdated: time.Now(),
-		LastAccess:  time.Now(),
+	it := &cache.Item{
+		Key:        req.Key,
+		Value:      req.Value,
+		Expiration: time.Duration(req.Expiration) * time.Millisecond,
+		Version:    req.Version,
+		Origin:     req.Origin,
 	}
+	req.apply(it)
 
 	// Forwarded arrival from a peer: ownership guard fires if this
 	// node disagrees with the sender's view about K's owners.
@@ -440,7 +439,12 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	it, found := dm.localState(key)
 
-	return fctx.JSON(httpGetResponse{Found: found, Item: it})
+	resp := httpGetResponse{Found: found, Item: it}
+	if it != nil {
+		resp.httpItemAge = itemAge(it)
+	}
+
+	return fctx.JSON(resp)
 }
 
 func (s *distHTTPServer) registerGet(dm *DistMemory) {
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 17b7f48..fce3881 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -172,6 +172,8 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		Version:    item.Version,
 		Origin:     item.Origin,
 		Replicate:  replicate,
+
+		httpItemAge: itemAge(item),
 	}
 
 	payloadBytes, err := json.Marshal(&reqBody)
@@ -291,6 +293,17 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		}
 	}
 
+	var age httpItemAge
+
+	for name, into := range map[string]*int64{"accessed_ms_ago": &age.AccessedMs, "updated_ms_ago": &age.UpdatedMs} {
+		if ab, ok := raw[name]; ok {
+			err := json.Unmarshal(ab, into)
+			if err != nil {
+				return nil, false, ewrap.Wrap(err, "unmarshal "+name)
+			}
+		}
+	}
+
 	if ib, ok := raw["item"]; ok && len(ib) > 0 {
 		var mirror struct {
 			Key        string          `json:"key"`
@@ -305,15 +318,16 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			return nil, false, ewrap.Wrap(err, "unmarshal mirror")
 		}
 
-		return &cache.Item{
-			Key:         mirror.Key,
-			Value:       mirror.Value,
-			Expiration:  time.Duration(mirror.Expiration), // the server encodes the item as it is
-			Version:     mirror.Version,
-			Origin:      mirror.Origin,
-			LastUpdated: time.Now(),
-			LastAccess:  time.Now(),
-		}, found, nil
+		item := &cache.Item{
+			Key:        mirror.Key,
+			Value:      mirror.Value,
+			Expiration: time.Duration(mirror.Expiration), // the server encodes the item as it is
+			Version:    mirror.Version,
+			Origin:     mirror.Origin,
+		}
+		age.apply(item)
+
+		return item, found, nil
 	}
 
 	if !found {
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 4a94a8d..33ac40b 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -1,6 +1,8 @@
 package backend
 
 import (
+	"time"
+
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
@@ -12,6 +14,36 @@ type httpSetRequest struct { // shared with server & transport
 	Version    uint64 `json:"version"`
 	Origin     string `json:"origin"`
 	Replicate  bool   `json:"replicate"`
+	httpItemAge
+}
+
+// httpItemAge says how long before it was sent an item was last accessed and
+// last updated. Ages instead of timestamps keep the copy's lifetime that of
+// the original whatever the two nodes' clocks say.
+type httpItemAge struct {
+	AccessedMs int64 `json:"accessed_ms_ago,omitempty"`
+	UpdatedMs  int64 `json:"updated_ms_ago,omitempty"`
+}
+
+// itemAge measures the age of item.
+func itemAge(item *cache.Item) httpItemAge {
+	ms := func(at time.Time) int64 {
+		if at.IsZero() {
+			return 0
+		}
+
+		return max(time.Since(at).Milliseconds(), 0)
+	}
+
+	return httpItemAge{AccessedMs: ms(item.LastAccess), UpdatedMs: ms(item.LastUpdated)}
+}
+
+// apply sets the times of a received copy of the item.
+func (a httpItemAge) apply(item *cache.Item) {
+	now := time.Now()
+
+	item.LastAccess = now.Add(-time.Duration(max(a.AccessedMs, 0)) * time.Millisecond)
+	item.LastUpdated = now.Add(-time.Duration(max(a.UpdatedMs, 0)) * time.Millisecond)
 }
 
 type httpSetResponse struct {
@@ -24,4 +56,5 @@ type httpGetResponse struct {
 	Found bool        `json:"found"`
 	Item  *cache.Item `json:"item,omitempty"`
 	Error string      `json:"error,omitempty"`
+	httpItemAge
 }
-- 
2.43.0


From 2e98b2b38b277a86c1d88d6d93ecf4b460031077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:59 +0000
Subject: [PATCH 39/49] fix: the single-key REST routes took percent-escapes as
 part of the key

---
 cmd/hypercache-server/main.go | 53 ++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 57a3d91..ece1e79 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -26,6 +26,7 @@ import (
 	"log/slog"
 	"net"
 	"net/http"
+	"net/url"
 	"os"
 	"os/signal"
 	"strconv"
@@ -679,6 +680,24 @@ const (
 	listKeysHardMax      = 50000
 )
 
+// pathKey returns the key named by the request path: percent-escapes are
+// decoded, so that a key is the same here and in the batch endpoints, and the
+// string is detached from fiber's pooled request buffers because the cache
+// retains it. It answers the request and returns false when there is no such
+// key.
+func pathKey(c fiber.Ctx) (string, bool, error) {
+	key, err := url.PathUnescape(c.Params("key"))
+	if err != nil {
+		return "", false, jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "invalid key in path: "+err.Error())
+	}
+
+	if key == "" {
+		return "", false, jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	}
+
+	return strings.Clone(key), true, nil
+}
+
 // handlePut implements PUT /v1/cache/:key.
 // Body is the raw value (any content type). Optional ?ttl=<dur>
 // applies a relative expiration; empty/absent means no expiration.
@@ -687,9 +706,9 @@ const (
 // owners list is the operator's visibility into where the value
 // actually landed across the cluster.
 func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, ok, err := pathKey(c)
+	if !ok {
+		return err
 	}
 
 	ttl := time.Duration(0)
@@ -708,7 +727,7 @@ func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
 	value := make([]byte, len(body))
 	copy(value, body) // detach from fiber's pooled body buffer
 
-	err := nodeCtx.hc.Set(c.Context(), key, value, ttl)
+	err = nodeCtx.hc.Set(c.Context(), key, value, ttl)
 	if err != nil {
 		return classifyAndRespond(c, err)
 	}
@@ -875,9 +894,9 @@ func setItemHeaders(c fiber.Ctx, key string, it *cache.Item, nodeCtx *nodeContex
 // owners, etc. Lets API clients fetch metadata in one round-trip
 // instead of GET + HEAD.
 func handleGet(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, ok, err := pathKey(c)
+	if !ok {
+		return err
 	}
 
 	it, ok := nodeCtx.hc.GetWithInfo(c.Context(), key)
@@ -1174,9 +1193,9 @@ func classifyErrCode(err error) string {
 // without paying the value-transfer cost. Useful for
 // cache-revalidation flows and conditional logic.
 func handleHead(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return c.SendStatus(fiber.StatusBadRequest)
+	key, ok, err := pathKey(c)
+	if !ok {
+		return err
 	}
 
 	it, ok := nodeCtx.hc.GetWithInfo(c.Context(), key)
@@ -1285,14 +1304,14 @@ func decodeBase64Bytes(s string) ([]byte, bool) {
 // supposed to live — useful for follow-up retries against a
 // peer.
 func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, ok, err := pathKey(c)
+	if !ok {
+		return err
 	}
 
 	owners := nodeCtx.hc.ClusterOwners(key)
 
-	err := nodeCtx.hc.Remove(c.Context(), key)
+	err = nodeCtx.hc.Remove(c.Context(), key)
 	if err != nil {
 		return classifyAndRespond(c, err)
 	}
@@ -1310,9 +1329,9 @@ func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
 // the owners array even when the key has never been written, since
 // the ring is deterministic from the key + membership.
 func handleOwners(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, ok, err := pathKey(c)
+	if !ok {
+		return err
 	}
 
 	return c.JSON(ownersResponse{
-- 
2.43.0


From f581db09fc5c54401134650df695199ccf2b54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:59 +0000
Subject: [PATCH 40/49] fix: the REST API reported invalid keys and
 time-to-lives as internal errors and let large batch TTLs overflow

---
 cmd/hypercache-server/main.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index ece1e79..d34e542 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -24,6 +24,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"math"
 	"net"
 	"net/http"
 	"net/url"
@@ -618,11 +619,21 @@ func classifyAndRespond(c fiber.Ctx, err error) error {
 		return jsonErr(c, fiber.StatusServiceUnavailable, codeDraining, "node is draining; redirect to a peer")
 	case errors.Is(err, sentinel.ErrNotOwner):
 		return jsonErr(c, fiber.StatusServiceUnavailable, codeInternal, "no ring owners for key (cluster initializing?)")
+	case isInvalidItem(err):
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	default:
 		return jsonErr(c, fiber.StatusInternalServerError, codeInternal, err.Error())
 	}
 }
 
+// isInvalidItem reports whether err says that the caller's key, value or
+// TTL can never be stored, which is the caller's mistake and not ours.
+func isInvalidItem(err error) bool {
+	return errors.Is(err, sentinel.ErrInvalidKey) ||
+		errors.Is(err, sentinel.ErrNilValue) ||
+		errors.Is(err, sentinel.ErrInvalidExpiration)
+}
+
 // putResponse documents the JSON shape returned on a successful PUT.
 // Owners + Node let the operator immediately see where the value
 // landed in the ring — invaluable when debugging cluster topology
@@ -1093,6 +1104,10 @@ func applyBatchPutItem(ctx context.Context, nodeCtx *nodeContext, item batchPutI
 		return batchPutResult{Key: item.Key, Stored: false, Error: decodeErr.Error(), Code: codeBadRequest}
 	}
 
+	if item.TTLMs > math.MaxInt64/int64(time.Millisecond) || item.TTLMs < 0 {
+		return batchPutResult{Key: item.Key, Stored: false, Error: "invalid ttl_ms: out of range", Code: codeBadRequest}
+	}
+
 	ttl := time.Duration(item.TTLMs) * time.Millisecond
 
 	setErr := nodeCtx.hc.Set(ctx, item.Key, value, ttl)
@@ -1180,6 +1195,8 @@ func classifyErrCode(err error) string {
 		return codeDraining
 	case errors.Is(err, sentinel.ErrNotOwner):
 		return codeInternal
+	case isInvalidItem(err):
+		return codeBadRequest
 	default:
 		return codeInternal
 	}
-- 
2.43.0


From e8ae31d24c777bc75d42dc170dffa5c59a7314ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:30 +0000
Subject: [PATCH 41/49] fix: a server with only OIDC configured, or an auth
 file without identities, let anonymous requests through with every scope

---
 cmd/hypercache-server/main.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index d34e542..fe3e48e 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -1615,13 +1615,22 @@ func run() int {
 
 	slog.SetDefault(logger)
 
-	// Preserve the pre-v2 zero-config dev posture: when neither
-	// HYPERCACHE_AUTH_CONFIG nor HYPERCACHE_AUTH_TOKEN is set, the
-	// loader returns the zero Policy, and we explicitly opt into
-	// AllowAnonymous mode here with a loud warning. Without this,
-	// every protected route would 401 — every existing
-	// `docker run hypercache` would break on upgrade.
-	if !cfg.AuthPolicy.IsConfigured() {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	if !attachOIDCVerifier(ctx, &cfg, logger) {
+		return 1
+	}
+
+	// Preserve the pre-v2 zero-config dev posture: when none of
+	// HYPERCACHE_AUTH_CONFIG, HYPERCACHE_AUTH_TOKEN and
+	// HYPERCACHE_OIDC_ISSUER is set, the loader returns the zero
+	// Policy, and we explicitly opt into AllowAnonymous mode here
+	// with a loud warning. Without this, every protected route would
+	// 401 — every existing `docker run hypercache` would break on
+	// upgrade. Setting any of them turns authentication on, whether
+	// or not the config file happens to list an identity.
+	if !cfg.AuthPolicy.IsConfigured() && os.Getenv(httpauth.EnvAuthConfig) == "" {
 		logger.Warn(
 			"hypercache-server running with no client API auth configured; set " +
 				httpauth.EnvAuthConfig + " or " + httpauth.EnvAuthToken + " for production",
@@ -1630,13 +1639,6 @@ func run() int {
 		cfg.AuthPolicy.AllowAnonymous = true
 	}
 
-	ctx, cancel := context.WithCancel(context.Background())
-	defer cancel()
-
-	if !attachOIDCVerifier(ctx, &cfg, logger) {
-		return 1
-	}
-
 	logger.Info(
 		"hypercache-server starting",
 		slog.String("api_addr", cfg.APIAddr),
-- 
2.43.0


From 93063e5d3186885a30172e84324b54759de55412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:32 +0000
Subject: [PATCH 42/49] fix: rejected credentials, unknown routes and oversized
 bodies were answered without the documented error shape

---
 cmd/hypercache-server/main.go      | 39 +++++++++++++++++++++++++++---
 cmd/hypercache-server/openapi.yaml |  4 +--
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index fe3e48e..5db64cf 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -413,10 +413,12 @@ type errorResponse struct {
 // API error codes — kept as string constants for stable identity in
 // machine-readable consumers (alerting rules, client SDKs).
 const (
-	codeBadRequest = "BAD_REQUEST"
-	codeNotFound   = "NOT_FOUND"
-	codeDraining   = "DRAINING"
-	codeInternal   = "INTERNAL"
+	codeBadRequest   = "BAD_REQUEST"
+	codeNotFound     = "NOT_FOUND"
+	codeDraining     = "DRAINING"
+	codeInternal     = "INTERNAL"
+	codeUnauthorized = "UNAUTHORIZED"
+	codeForbidden    = "FORBIDDEN"
 )
 
 // TLS-config sentinel errors returned by buildAPITLSConfig. Wrapped
@@ -509,6 +511,7 @@ func runClientAPI(
 		ReadTimeout:  clientAPIReadTimeout,
 		WriteTimeout: clientAPIWriteTimeout,
 		IdleTimeout:  clientAPIIdleTimeout,
+		ErrorHandler: respondError,
 	})
 
 	registerClientRoutes(app, cfg.AuthPolicy, &nodeContext{hc: hc, nodeID: cfg.NodeID})
@@ -609,6 +612,34 @@ func jsonErr(c fiber.Ctx, status int, code, msg string) error {
 	return c.Status(status).JSON(errorResponse{Error: msg, Code: code})
 }
 
+// respondError renders the errors that never reach a handler of ours —
+// rejected credentials, unknown routes, bodies over the limit — in the
+// same shape as the ones that do.
+func respondError(c fiber.Ctx, err error) error {
+	status := fiber.StatusInternalServerError
+
+	var fiberErr *fiber.Error
+	if errors.As(err, &fiberErr) {
+		status = fiberErr.Code
+	}
+
+	code := codeBadRequest
+
+	switch {
+	case status == fiber.StatusUnauthorized:
+		code = codeUnauthorized
+	case status == fiber.StatusForbidden:
+		code = codeForbidden
+	case status == fiber.StatusNotFound:
+		code = codeNotFound
+	case status >= fiber.StatusInternalServerError:
+		code = codeInternal
+	default:
+	}
+
+	return jsonErr(c, status, code, err.Error())
+}
+
 // classifyAndRespond maps a service-level error to the right HTTP
 // status + code. Keeps the per-handler error-handling tight and
 // guarantees that adding a new sentinel anywhere in the stack only
diff --git a/cmd/hypercache-server/openapi.yaml b/cmd/hypercache-server/openapi.yaml
index a725e9c..c08cb8d 100644
--- a/cmd/hypercache-server/openapi.yaml
+++ b/cmd/hypercache-server/openapi.yaml
@@ -21,7 +21,7 @@ info:
 
     **Errors.** Every 4xx/5xx response carries the `ErrorResponse`
     shape with stable `code` strings (`BAD_REQUEST`, `NOT_FOUND`,
-    `DRAINING`, `INTERNAL`, `UNAUTHORIZED`).
+    `DRAINING`, `INTERNAL`, `UNAUTHORIZED`, `FORBIDDEN`).
   license:
     name: LicenseRef-Hyperd
     url: https://github.com/hyp3rd/hypercache/blob/main/LICENSE
@@ -563,7 +563,7 @@ components:
           description: Human-readable message.
         code:
           type: string
-          enum: [ BAD_REQUEST, NOT_FOUND, DRAINING, INTERNAL, UNAUTHORIZED ]
+          enum: [ BAD_REQUEST, NOT_FOUND, DRAINING, INTERNAL, UNAUTHORIZED, FORBIDDEN ]
           description: Stable machine-readable code.
 
     PutResponse:
-- 
2.43.0


From 879ed32a13da343abc801371229cc6122e7dfb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 43/49] fix: a client CA configured without a server
 certificate was ignored and the API served in plaintext

---
 cmd/hypercache-server/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 5db64cf..f5d5537 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -567,7 +567,7 @@ func runWrappedListener(app *fiber.App, ln net.Listener, logger *slog.Logger) {
 // silently fall through to plaintext when the operator clearly
 // asked for TLS but typo'd one of the paths.
 func buildAPITLSConfig(cfg envConfig) (*tls.Config, error) {
-	if cfg.APITLSCert == "" && cfg.APITLSKey == "" {
+	if cfg.APITLSCert == "" && cfg.APITLSKey == "" && cfg.APITLSCA == "" {
 		return nil, nil //nolint:nilnil // documented "no TLS" sentinel
 	}
 
-- 
2.43.0


From 003c50adf7140447af8d53a228fc10e83b35bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:01 +0000
Subject: [PATCH 44/49] fix: a client API address that could not be bound left
 the server running without its API

---
 cmd/hypercache-server/main.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index f5d5537..75d0517 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -521,15 +521,16 @@ func runClientAPI(
 		return nil, fmt.Errorf("build client API TLS config: %w", err)
 	}
 
-	if tlsCfg == nil {
-		go runPlaintextListener(app, cfg.APIAddr, logger)
+	var ln net.Listener
 
-		return app, nil
+	if tlsCfg == nil {
+		ln, err = net.Listen(fiber.NetworkTCP4, cfg.APIAddr)
+	} else {
+		ln, err = tls.Listen("tcp", cfg.APIAddr, tlsCfg)
 	}
 
-	ln, err := tls.Listen("tcp", cfg.APIAddr, tlsCfg)
 	if err != nil {
-		return nil, fmt.Errorf("client API tls listen %s: %w", cfg.APIAddr, err)
+		return nil, fmt.Errorf("client API listen %s: %w", cfg.APIAddr, err)
 	}
 
 	go runWrappedListener(app, ln, logger)
@@ -537,18 +538,10 @@ func runClientAPI(
 	return app, nil
 }
 
-// runPlaintextListener serves on the bare addr — the standard
-// non-TLS path that shipped pre-v2.
-func runPlaintextListener(app *fiber.App, addr string, logger *slog.Logger) {
-	err := app.Listen(addr)
-	if err != nil && !errors.Is(err, http.ErrServerClosed) {
-		logger.Error("client API listener exited", slog.Any("err", err))
-	}
-}
-
-// runWrappedListener serves on a pre-built net.Listener (used by
-// the TLS path so the tls.Config — including ClientAuth and
-// ClientCAs — is fully under our control).
+// runWrappedListener serves on a pre-built net.Listener, so that an
+// address that cannot be bound fails startup, and so that the TLS
+// path's tls.Config — including ClientAuth and ClientCAs — is fully
+// under our control.
 func runWrappedListener(app *fiber.App, ln net.Listener, logger *slog.Logger) {
 	err := app.Listener(ln)
 	if err != nil && !errors.Is(err, http.ErrServerClosed) {
-- 
2.43.0


From 52d09592630970ea47cd7187fc3db43df9ee00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:26 +0000
Subject: [PATCH 45/49] fix: waiting for an OIDC token ends with the call's
 context or timeout

---
 pkg/client/client.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index fb84dc6..1c67aa9 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -351,6 +351,49 @@ type oidcTransport struct {
 	*oauth2.Transport
 }
 
+// RoundTrip authorizes req with a token from the source. Fetching one may
+// mean a request to the identity provider, which the oauth2 package runs
+// without req's context; waiting for it ends with that context all the same.
+func (t *oidcTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	type fetched struct {
+		token *oauth2.Token
+		err   error
+	}
+
+	done := make(chan fetched, 1)
+
+	go func() {
+		token, err := t.Source.Token()
+
+		done <- fetched{token, err}
+	}()
+
+	var got fetched
+
+	select {
+	case got = <-done:
+	case <-req.Context().Done():
+		got.err = req.Context().Err()
+	}
+
+	if got.err != nil {
+		if req.Body != nil {
+			_ = req.Body.Close()
+		}
+
+		return nil, got.err
+	}
+
+	authed := &oauth2.Transport{Base: t.Base, Source: oauth2.StaticTokenSource(got.token)}
+
+	resp, err := authed.RoundTrip(req)
+	if err != nil {
+		return nil, fmt.Errorf("client transport: %w", err)
+	}
+
+	return resp, nil
+}
+
 // httpClientWithAuth returns a copy of base that authenticates every
 // request with the given Authorization header. The original client's
 // Transport, Timeout, redirect policy and cookie jar are preserved.
-- 
2.43.0


From a4b750aa17a98147a4a564e8f3b55097be7d4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 46/49] fix: a client whose topology view had no reachable
 endpoint never turned back to its seeds

---
 pkg/client/topology.go  | 21 +++++++++++++++++----
 pkg/client/transport.go | 12 +++++++++++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/pkg/client/topology.go b/pkg/client/topology.go
index 951273a..a072df9 100644
--- a/pkg/client/topology.go
+++ b/pkg/client/topology.go
@@ -3,10 +3,12 @@ package client
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"log/slog"
 	"net/http"
 	"net/url"
+	"slices"
 	"strings"
 	"time"
 )
@@ -62,7 +64,7 @@ func (c *Client) topologyRefreshLoop() {
 
 // RefreshTopology synchronously pulls /cluster/members from one of
 // the currently-known endpoints (random pick, fail over to seeds
-// if the working view is empty) and updates the client's endpoint
+// if the working view is empty or unreachable) and updates the client's endpoint
 // view in place. Returns the error from the underlying call when
 // every attempt failed; the in-memory view is left unchanged on
 // failure so the next call can fall back to the same endpoints.
@@ -71,9 +73,20 @@ func (c *Client) topologyRefreshLoop() {
 // known node join). The background loop calls this on its own
 // tick; manual callers usually don't need to.
 func (c *Client) RefreshTopology(ctx context.Context) error {
-	resp, err := c.do(ctx, http.MethodGet, "/cluster/members", nil, map[string]string{
-		"Accept": contentTypeJSON,
-	})
+	headers := map[string]string{"Accept": contentTypeJSON}
+
+	resp, err := c.do(ctx, http.MethodGet, "/cluster/members", nil, headers)
+	if errors.Is(err, ErrAllEndpointsFailed) && ctx.Err() == nil {
+		// No endpoint of the view is reachable: the seeds outside it are
+		// the recovery anchor, without them the client would be stranded.
+		view := c.currentEndpoints()
+		others := slices.DeleteFunc(slices.Clone(c.seeds), func(seed string) bool { return slices.Contains(view, seed) })
+
+		if len(others) > 0 {
+			resp, err = c.doVia(ctx, others, http.MethodGet, "/cluster/members", nil, headers)
+		}
+	}
+
 	if err != nil {
 		return fmt.Errorf("fetch /cluster/members: %w", err)
 	}
diff --git a/pkg/client/transport.go b/pkg/client/transport.go
index b34c7fe..db17fe5 100644
--- a/pkg/client/transport.go
+++ b/pkg/client/transport.go
@@ -100,7 +100,17 @@ func (c *Client) do(
 	body io.Reader,
 	headers map[string]string,
 ) (*http.Response, error) {
-	endpoints := c.currentEndpoints()
+	return c.doVia(ctx, c.currentEndpoints(), method, path, body, headers)
+}
+
+// doVia is do against the given endpoints.
+func (c *Client) doVia(
+	ctx context.Context,
+	endpoints []string,
+	method, path string,
+	body io.Reader,
+	headers map[string]string,
+) (*http.Response, error) {
 	if len(endpoints) == 0 {
 		return nil, ErrNoEndpoints
 	}
-- 
2.43.0


From d5e62e3d9a5f7e7512fbae8269ea4cae2279a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:39 +0000
Subject: [PATCH 47/49] fix: a ConsistencyOne read served the outdated copy a
 node still held of a key it no longer owned

---
 pkg/backend/dist_memory.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index b86d67c..409f539 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3990,9 +3990,12 @@ func (dm *DistMemory) ownsKeyInternal(key string) bool {
 // wrapper to a literal `defer span.End()`, avoids named returns, and
 // still lets the wrapper set `cache.hit` after the impl returns.
 func (dm *DistMemory) getImpl(ctx context.Context, key string) (*cache.Item, bool) {
+	local, held := (*cache.Item)(nil), false
+
 	if dm.readConsistency == ConsistencyOne { // fast local path
-		if it, ok := dm.shardFor(key).items.GetCopy(key); ok {
-			return it, true
+		local, held = dm.shardFor(key).items.GetCopy(key)
+		if held && dm.ownsKeyInternal(key) {
+			return local, true
 		}
 	}
 
@@ -4002,7 +4005,11 @@ func (dm *DistMemory) getImpl(ctx context.Context, key string) (*cache.Item, boo
 	}
 
 	if dm.readConsistency == ConsistencyOne {
-		return dm.getOne(ctx, key, owners)
+		if it, ok := dm.getOne(ctx, key, owners); ok || !held {
+			return it, ok
+		}
+
+		return dm.leftover(ctx, local, owners)
 	}
 
 	if dm.parallelReads {
@@ -4012,6 +4019,27 @@ func (dm *DistMemory) getImpl(ctx context.Context, key string) (*cache.Item, boo
 	return dm.getWithConsistency(ctx, key, owners)
 }
 
+// leftover decides a read that found local, a copy this node still holds of a
+// key it no longer owns, and nothing at the owners: it stands until the owners
+// have taken it over, unless one of them knows the key was deleted since.
+func (dm *DistMemory) leftover(ctx context.Context, local *cache.Item, owners []cluster.NodeID) (*cache.Item, bool) {
+	var q quorumRead
+
+	for idx, oid := range owners {
+		dm.collect(&q, oid, dm.fetchOwner(ctx, local.Key, idx, oid))
+	}
+
+	if q.chosen != nil { // handed over meanwhile
+		return q.chosen, true
+	}
+
+	if q.deleted >= local.Version && q.deleted > 0 {
+		return nil, false
+	}
+
+	return local, true
+}
+
 // setImpl is the business logic for Set. Takes the active span as a
 // param so it can attach owners.count / acks attributes mid-flight;
 // returns the operation error for the wrapper to record on the span.
-- 
2.43.0


From cc21143c015e3546dda28ba7a102212b8678e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:12 +0000
Subject: [PATCH 48/49] fix: a copy refused by a receiver that was no owner for
 a moment counted as delivered, and the owner stayed without it

---
 pkg/backend/dist_memory.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 409f539..53d0191 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2084,12 +2084,18 @@ func (dm *DistMemory) rebalanceLoop(ctx context.Context, stopCh <-chan struct{})
 	}
 }
 
+// membershipVersion returns the version of the membership, 0 without one.
+func (dm *DistMemory) membershipVersion() uint64 {
+	if dm.membership == nil {
+		return 0
+	}
+
+	return dm.membership.Version()
+}
+
 // runRebalanceTick performs a lightweight ownership diff and migrates keys best-effort.
 func (dm *DistMemory) runRebalanceTick(ctx context.Context) {
-	mv := uint64(0)
-	if dm.membership != nil {
-		mv = dm.membership.Version()
-	}
+	mv := dm.membershipVersion()
 
 	// Always perform a scan so that throttled prior ticks or new key inserts
 	// can be migrated even if membership version hasn't advanced.
@@ -2212,6 +2218,7 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 
 	for i := range snapshot {
 		it := &snapshot[i]
+		version := dm.membershipVersion()
 
 		owners := dm.ring.Lookup(it.Key)
 		if !slices.Contains(owners, dm.localNode.ID) {
@@ -2236,7 +2243,12 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 		var delivered []cluster.NodeID
 
 		delivered, processed = dm.sendReplicaDiff(ctx, it, added, processed, limit)
-		sh.recordBroughtUp(it.Key, owners, delivered)
+
+		// A receiver silently refuses what reaches it while it is no owner: an
+		// answer from across a membership change tells nothing.
+		if dm.membershipVersion() == version {
+			sh.recordBroughtUp(it.Key, owners, delivered)
+		}
 	}
 
 	return processed
@@ -4749,6 +4761,7 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 		return nil
 	}
 
+	version := dm.membershipVersion()
 	owners := dm.ring.Lookup(item.Key)
 	transport := dm.loadTransport()
 
@@ -4763,6 +4776,10 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 		dm.queueHint(string(oid), &cloned, hintSourceReplication)
 	}
 
+	if dm.membershipVersion() != version { // some may have refused it as no owners meanwhile
+		failed = slices.DeleteFunc(slices.Clone(owners), func(oid cluster.NodeID) bool { return oid == dm.localNode.ID })
+	}
+
 	if len(failed) > 0 { // still to be brought up by the replica diff
 		dm.setOwnerBaseline(sh, stableKey, slices.DeleteFunc(slices.Clone(owners), func(oid cluster.NodeID) bool {
 			return slices.Contains(failed, oid)
-- 
2.43.0


From 27479ae6134665ae61d0a2da89cdc4c49c2723f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:43 +0000
Subject: [PATCH 49/49] fix: the JSON serializer took a NUL byte for the end of
 its input and read what came before it

---
 internal/libs/serializer/json.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/libs/serializer/json.go b/internal/libs/serializer/json.go
index 4d8f6a7..61f560f 100644
--- a/internal/libs/serializer/json.go
+++ b/internal/libs/serializer/json.go
@@ -7,6 +7,8 @@
 package serializer
 
 import (
+	stdjson "encoding/json"
+
 	"github.com/goccy/go-json"
 	"github.com/hyp3rd/ewrap"
 )
@@ -25,10 +27,17 @@ func (*DefaultJSONSerializer) Marshal(v any) ([]byte, error) { // receiver omitt
 	return data, nil
 }
 
-// Unmarshal deserializes the given byte slice into the given value.
+// Unmarshal deserializes the given byte slice into the given value. Data that is
+// not one valid JSON text is refused: goccy/go-json takes a NUL byte for the end of
+// its input and would decode what comes before it (`12\x0045` as 12), and accepts
+// numbers and strings JSON does not allow.
 // @param data
 // @param v.
 func (*DefaultJSONSerializer) Unmarshal(data []byte, v any) error { // receiver omitted (unused)
+	if !stdjson.Valid(data) {
+		return ewrap.New("failed to unmarshal json: not a valid JSON text")
+	}
+
 	err := json.Unmarshal(data, v)
 	if err != nil {
 		return ewrap.Wrap(err, "failed to unmarshal json")
-- 
2.43.0

