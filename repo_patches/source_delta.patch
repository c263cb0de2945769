From e2afb6301d4c625a52c63859ef169303039a2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 01/35] fix: acknowledge the dequeued URL when acquiring the
 semaphore fails

The worker left without acknowledging the URL it had dequeued, so that
Run waited for the queue forever once its context was canceled while a
worker waited for a slot.
---
 engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine.go b/engine.go
index eda6204..c519795 100644
--- a/engine.go
+++ b/engine.go
@@ -229,6 +229,7 @@ func (eng *Engine) run(ctx context.Context) error {
 
 		if eng.sema != nil {
 			if err := eng.sema.Acquire(ctx, 1); err != nil {
+				eng.queue.Done(ctx, url)
 				return err
 			}
 		}
-- 
2.43.0


From 434c1fdb6fd3b1bf0ed65e95766863d68df99edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 02/35] fix: stop all workers when processing a URL fails

Every worker had an error group of its own, so a failure canceled only
the URLs of the worker that had started them: the others kept crawling,
forever if the site has no end, and a worker that was waiting for the
queue reported the failure only after that. A worker stopped by the
cancellation of Run's context now also reports it instead of nil.
---
 engine.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/engine.go b/engine.go
index c519795..d1a5893 100644
--- a/engine.go
+++ b/engine.go
@@ -146,7 +146,7 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 	for i := 0; i < eng.workers; i++ {
 		eg.Go(func() error {
 			defer eng.queue.Close(ctx)
-			return eng.run(subctx)
+			return eng.run(subctx, eg)
 		})
 	}
 
@@ -214,14 +214,15 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 //
 // The worker is in charge of fetching a url from
 // the queue, creating a page and then calling the scraper.
-func (eng *Engine) run(ctx context.Context) error {
-	eg, subctx := errgroup.WithContext(ctx)
+//
+// All workers share the group, the first error that occurs
+// cancels ctx and therefore stops all of them.
+func (eng *Engine) run(ctx context.Context, eg *errgroup.Group) error {
 	for {
 		url, err := eng.queue.Dequeue(ctx)
 
-		if errors.Is(err, io.EOF) ||
-			errors.Is(err, context.Canceled) {
-			return eg.Wait()
+		if errors.Is(err, io.EOF) {
+			return nil
 		}
 		if err != nil {
 			return err
@@ -238,7 +239,7 @@ func (eng *Engine) run(ctx context.Context) error {
 			if eng.sema != nil {
 				defer eng.sema.Release(1)
 			}
-			return eng.process(subctx, url)
+			return eng.process(ctx, url)
 		})
 	}
 }
-- 
2.43.0


From 45a5efed7cf4281609d0a980ac8d7c0db1c7a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 03/35] fix: retry temporary client errors

The fetcher wraps the error of the client before it looks whether it is
temporary, and looked only at the outermost error: temporary network
errors were never retried.
---
 fetcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index fc56b88..863f01c 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -2,6 +2,7 @@ package ant
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -287,6 +288,6 @@ func (f *Fetcher) maxBackoff() time.Duration {
 
 // IsTemporary returns true if the error is temporary.
 func isTemporary(err error) bool {
-	t, ok := err.(interface{ Temporary() bool })
-	return ok && t.Temporary()
+	var t interface{ Temporary() bool }
+	return errors.As(err, &t) && t.Temporary()
 }
-- 
2.43.0


From 063d395540e13f32cf72ad6e85c697f4c98a9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 04/35] fix: space concurrent requests to a host by its crawl
 delay

---
 internal/robots/cache.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index a379cd0..66c8b18 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"net/http"
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/segmentio/agecache"
@@ -65,6 +66,8 @@ func (h *Host) test(path, ua string) bool {
 type Cache struct {
 	lru    *agecache.Cache
 	client *http.Client
+	mu     sync.Mutex
+	last   map[string]time.Time
 }
 
 // NewCache returns a new cache with the client and cache capacity.
@@ -75,7 +78,11 @@ func NewCache(c *http.Client, capacity int) *Cache {
 		ExpirationType:     agecache.PassiveExpration,
 		ExpirationInterval: 1 * time.Minute,
 	})
-	return &Cache{lru: lru, client: c}
+	return &Cache{
+		lru:    lru,
+		client: c,
+		last:   make(map[string]time.Time),
+	}
 }
 
 // Allowed returns true if the request is allowed.
@@ -110,7 +117,8 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 // Wait blocks until the given request can be sent.
 //
 // Some robots.txt define a crawl delay for all or some of the useragents.
-// The method will block until the request can go through.
+// The method will block until the request can go through, concurrent
+// requests to the same host are spaced by its delay.
 func (c *Cache) Wait(ctx context.Context, req Request) error {
 	var ua = req.userAgent()
 
@@ -121,7 +129,7 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 
 	if g, ok := host.find(ua); ok {
 		if d := g.CrawlDelay; d > 0 {
-			t := time.NewTimer(d)
+			t := time.NewTimer(c.reserve(req.URL.Host, d))
 			defer t.Stop()
 			select {
 			case <-ctx.Done():
@@ -135,6 +143,25 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 	return nil
 }
 
+// Reserve reserves the next request to the host with the given delay.
+//
+// The method returns the duration to wait, which is at least
+// the delay and ends at least the delay after the previous reservation.
+func (c *Cache) reserve(host string, d time.Duration) time.Duration {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	now := time.Now()
+	at := now.Add(d)
+
+	if next := c.last[host].Add(d); next.After(at) {
+		at = next
+	}
+
+	c.last[host] = at
+	return at.Sub(now)
+}
+
 // Lookup returns a host from url.
 //
 // Note that there's a logical race, the method may send multiple requests
-- 
2.43.0


From c37ce892b98bedd6ba606b1a2c92750daa86a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 05/35] fix: keep normalized paths absolute and strip default
 ports of IPv6 hosts

---
 internal/normalize/url.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index aef861b..f73ad8a 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -35,6 +35,7 @@ func URL(u *url.URL) *url.URL {
 	u.Scheme = strings.ToLower(u.Scheme)
 	u.Host = hostname(u)
 	u.Path = pathname(u)
+	u.RawPath = ""
 	u.RawQuery = query(u.RawQuery)
 	u.ForceQuery = false
 	u.Fragment = ""
@@ -45,7 +46,7 @@ func URL(u *url.URL) *url.URL {
 func hostname(u *url.URL) string {
 	var host = strings.ToLower(u.Host)
 
-	if j := strings.IndexByte(host, ':'); j != -1 {
+	if j := strings.LastIndexByte(host, ':'); j != -1 {
 		switch port := host[j+1:]; {
 		case u.Scheme == "http" && port == "80":
 			return host[:j]
@@ -59,13 +60,7 @@ func hostname(u *url.URL) string {
 
 // Pathname normalizes the pathname.
 func pathname(u *url.URL) string {
-	switch u.Path {
-	case "", "/":
-		return "/"
-	default:
-		parts := strings.Split(u.Path, "/")
-		return path.Join(parts...)
-	}
+	return path.Clean("/" + u.Path)
 }
 
 // Query sorts the given query.
-- 
2.43.0


From 9a7c0113d19ae656441e560668719ea2d19ee39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 06/35] fix: count unacknowledged URLs instead of reusing a
 wait group

---
 queue.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/queue.go b/queue.go
index 01d3a91..a437aeb 100644
--- a/queue.go
+++ b/queue.go
@@ -53,7 +53,7 @@ type memoryQueue struct {
 	pending URLs
 	cond    *sync.Cond
 	stopped bool
-	wg      *sync.WaitGroup
+	unacked int
 }
 
 // MemoryQueue returns a new memory queue.
@@ -62,7 +62,6 @@ func MemoryQueue(size int) Queue {
 		pending: make(URLs, 0, size),
 		cond:    sync.NewCond(&sync.RWMutex{}),
 		stopped: false,
-		wg:      &sync.WaitGroup{},
 	}
 }
 
@@ -84,7 +83,7 @@ func (mq *memoryQueue) Enqueue(ctx context.Context, urls URLs) error {
 	}
 
 	mq.pending = append(mq.pending, urls...)
-	mq.wg.Add(len(urls))
+	mq.unacked += len(urls)
 	mq.cond.Broadcast()
 
 	return nil
@@ -113,13 +112,24 @@ func (mq *memoryQueue) Dequeue(ctx context.Context) (*URL, error) {
 
 // Done implementation.
 func (mq *memoryQueue) Done(_ context.Context, _ *URL) error {
-	mq.wg.Done()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	if mq.unacked--; mq.unacked == 0 {
+		mq.cond.Broadcast()
+	}
+
 	return nil
 }
 
 // Wait implementation.
 func (mq *memoryQueue) Wait() {
-	mq.wg.Wait()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	for mq.unacked > 0 {
+		mq.cond.Wait()
+	}
 }
 
 // Close implementation.
@@ -127,11 +137,8 @@ func (mq *memoryQueue) Close(_ context.Context) error {
 	mq.cond.L.Lock()
 	defer mq.cond.L.Unlock()
 
-	for range mq.pending {
-		mq.wg.Done()
-	}
-
 	mq.stopped = true
+	mq.unacked -= len(mq.pending)
 	mq.pending = mq.pending[:0]
 	mq.cond.Broadcast()
 	return nil
-- 
2.43.0


From 5cb9cc3a030db4faffb546f47e99c94ded2875ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 07/35] fix: make the bloom filter de-duplicator safe for
 concurrent use

---
 dedupe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedupe.go b/dedupe.go
index 738bcb4..ed463ec 100644
--- a/dedupe.go
+++ b/dedupe.go
@@ -57,6 +57,7 @@ func (d *deduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 
 // Dedupebf implements a bloom filter deduper.
 type dedupebf struct {
+	mu     sync.Mutex
 	filter *bloom.BloomFilter
 }
 
@@ -77,6 +78,9 @@ func DedupeBF(k, m uint) Deduper {
 func (d *dedupebf) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 	var ret = make(URLs, 0, len(urls))
 
+	d.mu.Lock()
+	defer d.mu.Unlock()
+
 	for _, u := range urls {
 		v := []byte(u.String())
 		if !d.filter.Test(v) {
-- 
2.43.0


From aa22687fea29d516e87f03f9b460a2def779007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 08/35] fix: read the body of failing robots.txt responses

---
 internal/robots/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index 66c8b18..ecdea39 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -7,6 +7,7 @@ package robots
 import (
 	"context"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"sync"
@@ -184,6 +185,7 @@ func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
 	defer resp.Body.Close()
 
 	if resp.StatusCode >= 400 {
+		io.Copy(io.Discard, resp.Body)
 		s := &Host{}
 		c.lru.Set(url.Host, s)
 		return s, nil
-- 
2.43.0


From 0362af2ba7c8716491d1b33464fc3a8872497489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 09/35] fix: honor all Cache-Control header lines

---
 antcache/directives.go | 2 +-
 antcache/utils.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 10192f5..5d2a8b1 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -12,7 +12,7 @@ type directives map[string]string
 
 // DirectivesFrom returns directives from h.
 func directivesFrom(h http.Header) directives {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 	var d directives
 
 	for _, item := range split(c, ",") {
diff --git a/antcache/utils.go b/antcache/utils.go
index 3f340d3..0a4821e 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -52,7 +52,7 @@ func matches(req *http.Request, resp *http.Response) bool {
 
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 
 	for _, v := range split(c, ",") {
 		if v == "no-store" {
-- 
2.43.0


From bb763b395a7bac5b4df567a3df2a0b10c9a7a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 10/35] fix: keep the body of a validated response and discard
 the answer

---
 antcache/httpcache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index dc68224..4727a94 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -240,6 +240,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
+			c.discard(newresp)
 			return resp, nil
 		}
 		return newresp, nil
@@ -248,7 +249,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// A 304 (Not Modified) response status code indicates that the
 	// stored response can be updated and reused; see Section 4.3.4.
 	if newresp.StatusCode == 304 {
-		c.discard(resp)
+		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		c.store(key, resp)
 		return resp, nil
-- 
2.43.0


From d27b43d149f4841d801a872f95a8c1f32e310781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 11/35] fix: a request max-age must not extend the lifetime of
 a response

---
 antcache/rfc7234.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 6d0ffb8..3a05888 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -111,15 +111,19 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	if d, ok := date(resp.Header); ok {
 		var age = time.Since(d)
 		var lifetime time.Duration
+		var explicit bool
 
 		if maxage, ok := resd.duration("max-age"); ok {
-			lifetime = maxage
+			lifetime, explicit = maxage, true
 		} else if exp, ok := expires(resp.Header); ok {
-			lifetime = exp.Sub(d)
+			lifetime, explicit = exp.Sub(d), true
 		}
 
+		// the request may only lower an explicit lifetime.
 		if maxage, ok := reqd.duration("max-age"); ok {
-			lifetime = maxage
+			if !explicit || maxage < lifetime {
+				lifetime = maxage
+			}
 		}
 
 		if minfresh, ok := reqd.duration("min-fresh"); ok {
-- 
2.43.0


From adf68fa48adb940b66a41ed29991101920766084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 12/35] fix: aggressive cache honors the no-cache directive of
 requests

---
 antcache/aggressive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/antcache/aggressive.go b/antcache/aggressive.go
index 253e076..a1c6b8e 100644
--- a/antcache/aggressive.go
+++ b/antcache/aggressive.go
@@ -67,6 +67,11 @@ func (a aggressive) store(resp *http.Response) bool {
 
 // Fresh implementation.
 func (a aggressive) fresh(resp *http.Response) freshness {
+	// The "no-cache" directive bypasses the cache.
+	if req := resp.Request; req != nil && directivesFrom(req.Header).has("no-cache") {
+		return transparent
+	}
+
 	if date, ok := date(resp.Header); ok {
 		if time.Since(date) < a.lifetime() {
 			return fresh
-- 
2.43.0


From b631144521fa64b84a7f2b021094acf1cb60611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 13/35] fix: store only responses whose body was completely
 read

---
 antcache/cachereader.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 69a47cd..401bde7 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -19,6 +19,8 @@ type cachereader struct {
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
+	eof   bool
+	err   error
 	once  sync.Once
 	ctx   context.Context
 	store func(ctx context.Context, key uint64, v []byte) error
@@ -29,14 +31,37 @@ func (cr *cachereader) Read(p []byte) (n int, err error) {
 	if n, err = cr.rc.Read(p); n > 0 {
 		cr.buf.Write(p[:n])
 	}
+	switch {
+	case err == io.EOF:
+		cr.eof = true
+	case err != nil:
+		cr.err = err
+	}
 	return n, err
 }
 
+// Complete returns true if the whole body was read.
+func (cr *cachereader) complete() bool {
+	if cr.err != nil {
+		return false
+	}
+	return cr.eof ||
+		cr.rc == http.NoBody ||
+		cr.resp.Request.Method == "HEAD" ||
+		cr.resp.ContentLength == int64(cr.buf.Len())
+}
+
 // Close implementation.
+//
+// The response is stored only if its body was completely read.
 func (cr *cachereader) Close() error {
 	cerr := cr.rc.Close()
 
 	cr.once.Do(func() {
+		if !cr.complete() {
+			return
+		}
+
 		resp := *cr.resp
 
 		r := bytes.NewReader(cr.buf.Bytes())
-- 
2.43.0


From 04d6795383650811a1991f01c5bf7b86608baf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 14/35] fix: return the answer to a validation instead of
 requesting again

---
 antcache/httpcache.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 4727a94..4c11d29 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -259,16 +259,11 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// none of the stored responses nominated in the conditional request
 	// is suitable.  Instead, the cache MUST use the full response to
 	// satisfy the request and MAY replace the stored response(s).
+	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.discard(resp)
 		c.store(key, newresp)
-		return newresp, nil
 	}
-
-	// Verification failed, cleanup and close the response readers.
-	c.discard(newresp)
-	c.discard(resp)
-	return nil, nil
+	return newresp, nil
 }
 
 // Store stores the given response.
-- 
2.43.0


From d252f612f2cc59175dd1c2420611ca9b186cd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 15/35] fix: do not renew a response that must not be stored

---
 antcache/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 4c11d29..1021b2c 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -251,7 +251,9 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode == 304 {
 		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
-		c.store(key, resp)
+		if c.strategy.store(resp) {
+			c.store(key, resp)
+		}
 		return resp, nil
 	}
 
-- 
2.43.0


From 00e11424c3fb5b68d3ba502591d5bfdb781c434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 16/35] fix: set X-From-Cache only on responses from the cache

---
 antcache/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 1021b2c..f750e7f 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -151,7 +151,6 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 		return nil, err
 	}
 	if resp != nil {
-		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
 
@@ -199,6 +198,7 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 
 	switch c.strategy.fresh(resp) {
 	case fresh:
+		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 
 	case stale:
@@ -241,6 +241,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
 			c.discard(newresp)
+			resp.Header.Set("X-From-Cache", "1")
 			return resp, nil
 		}
 		return newresp, nil
@@ -254,6 +255,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 		if c.strategy.store(resp) {
 			c.store(key, resp)
 		}
+		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
 
-- 
2.43.0


From 7dbbf1e2d9e93901b00cc4beeb67539a94c59ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 17/35] fix: store the headers of a response as they were
 received

---
 antcache/cachereader.go | 2 ++
 antcache/httpcache.go   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 401bde7..0487e6e 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -16,6 +16,7 @@ import (
 // a response when it is closed.
 type cachereader struct {
 	resp  *http.Response
+	hdr   http.Header
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
@@ -63,6 +64,7 @@ func (cr *cachereader) Close() error {
 		}
 
 		resp := *cr.resp
+		resp.Header = cr.hdr
 
 		r := bytes.NewReader(cr.buf.Bytes())
 		resp.Body = io.NopCloser(r)
diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index f750e7f..83ff0e2 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -281,6 +281,7 @@ func (c *Cache) store(key uint64, resp *http.Response) {
 
 	resp.Body = &cachereader{
 		resp:  resp,
+		hdr:   resp.Header.Clone(),
 		key:   key,
 		rc:    rc,
 		ctx:   resp.Request.Context(),
-- 
2.43.0


From a40378ceca1347434d71dc4e11ca2437881da3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:36 +0000
Subject: [PATCH 18/35] fix: limit the seconds of cache directives to avoid
 overflow

---
 antcache/directives.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/antcache/directives.go b/antcache/directives.go
index 5d2a8b1..e08b5c0 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -36,12 +36,20 @@ func (d directives) has(name string) bool {
 	return ok
 }
 
+// MaxSeconds is the largest value of a directive, in seconds.
+//
+// https://tools.ietf.org/html/rfc7234#section-1.2.1
+const maxSeconds = 1 << 31
+
 // Duration parses directive duration by name.
 //
 // Ok is true if the directive exists and has a positive duration.
 func (d directives) duration(name string) (td time.Duration, ok bool) {
 	if v, has := d[name]; has {
 		n, err := strconv.ParseInt(v, 10, 64)
+		if n > maxSeconds {
+			n = maxSeconds
+		}
 		td, ok = (time.Duration(n) * time.Second), err == nil
 	}
 	return
-- 
2.43.0


From b7e77f500e7be9b7abf45579464e8f38c423d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 19/35] fix: reuse responses only for the header values they
 vary by

---
 antcache/httpcache.go | 17 +++++++++++------
 antcache/utils.go     | 44 ++++++++++++++++++++++++++++++++++++-------
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 83ff0e2..6ca3c8e 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -160,7 +160,7 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if c.strategy.store(resp) {
-		c.store(key, resp)
+		c.store(key, req, resp)
 	}
 
 	return resp, nil
@@ -196,7 +196,10 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
 	}
 
-	switch c.strategy.fresh(resp) {
+	f := c.strategy.fresh(resp)
+	unsetvaried(resp.Header)
+
+	switch f {
 	case fresh:
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
@@ -253,7 +256,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		if c.strategy.store(resp) {
-			c.store(key, resp)
+			c.store(key, resp.Request, resp)
 		}
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
@@ -265,7 +268,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// satisfy the request and MAY replace the stored response(s).
 	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.store(key, newresp)
+		c.store(key, resp.Request, newresp)
 	}
 	return newresp, nil
 }
@@ -276,12 +279,14 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 // that will write the response to the storage when it is closed.
 //
 // If the response body is not closed, the response is never stored in the cache.
-func (c *Cache) store(key uint64, resp *http.Response) {
+func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	rc := resp.Body
+	hdr := resp.Header.Clone()
+	setvaried(hdr, req)
 
 	resp.Body = &cachereader{
 		resp:  resp,
-		hdr:   resp.Header.Clone(),
+		hdr:   hdr,
 		key:   key,
 		rc:    rc,
 		ctx:   resp.Request.Context(),
diff --git a/antcache/utils.go b/antcache/utils.go
index 0a4821e..38d29c4 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -33,20 +33,50 @@ func keyof(req *http.Request) uint64 {
 	))
 }
 
+// Varied is the prefix of the header fields that keep the
+// values of the selecting request headers of a stored response.
+const varied = "X-Antcache-Varied-"
+
+// Setvaried adds the values of the request headers that
+// are nominated by the Vary header of h to h.
+func setvaried(h http.Header, req *http.Request) {
+	unsetvaried(h)
+	for _, key := range varies(h) {
+		if v, ok := req.Header[key]; ok {
+			h[varied+key] = v
+		}
+	}
+}
+
+// Unsetvaried removes the headers added by setvaried.
+func unsetvaried(h http.Header) {
+	for key := range h {
+		if strings.HasPrefix(key, varied) {
+			delete(h, key)
+		}
+	}
+}
+
+// Varies returns the canonical header names in the Vary header of h.
+func varies(h http.Header) (ret []string) {
+	for _, key := range split(strings.Join(h.Values("Vary"), ","), ",") {
+		ret = append(ret, http.CanonicalHeaderKey(key))
+	}
+	return
+}
+
 // Matches ensures that the given request and response match.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.1
 func matches(req *http.Request, resp *http.Response) bool {
-	var vary = req.Header.Get("Vary")
+	for _, key := range append(varies(resp.Header), varies(req.Header)...) {
+		a := strings.Join(req.Header[key], ",")
+		b := strings.Join(resp.Header[varied+key], ",")
 
-	for _, h := range split(vary, ",") {
-		if key := http.CanonicalHeaderKey(h); key != "" {
-			if req.Header.Get(key) != resp.Header.Get(key) {
-				return false
-			}
+		if key == "*" || a != b {
+			return false
 		}
 	}
-
 	return true
 }
 
-- 
2.43.0


From a0b882026854a2b2fde29992db03c86ad0a83260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 20/35] fix: load empty compressed values as empty, not as
 missing

---
 antcache/disk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index d2646e8..5657e80 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -435,7 +435,7 @@ func (d *Diskstore) Load(_ context.Context, key uint64) (v []byte, err error) {
 	}
 
 	if v != nil && d.compress {
-		if v, err = snappy.Decode(nil, v); err != nil {
+		if v, err = snappy.Decode([]byte{}, v); err != nil {
 			err = fmt.Errorf(
 				"antcache: compress is on but snappy can't decode %s/%d - %w",
 				d.path,
-- 
2.43.0


From 5094581213e978e3cf80895c79ec87d1a5288c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 21/35] fix: end the warmup when the directory cannot be read

---
 antcache/disk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 5657e80..18ae7f3 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -255,7 +255,10 @@ func (d *Diskstore) warmup() {
 	for {
 		names, err := d.dir.Readdirnames(5)
 
-		if errors.Is(err, io.EOF) {
+		if err != nil {
+			if !errors.Is(err, io.EOF) {
+				log.Printf("antcache: disk read %s - %s", d.path, err)
+			}
 			break
 		}
 
-- 
2.43.0


From 9eee0d6706c2d6a955530adb8940c8d0d204814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 22/35] fix: ignore files that are not entries when the disk
 warms up

---
 antcache/disk.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 18ae7f3..8483479 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -270,7 +270,7 @@ func (d *Diskstore) warmup() {
 			}
 
 			n, err := strconv.ParseUint(name, 10, 64)
-			if err != nil {
+			if err != nil || name != strconv.FormatUint(n, 10) {
 				log.Printf("antcache: disk cache invalid entry - %s", name)
 				continue
 			}
@@ -281,6 +281,11 @@ func (d *Diskstore) warmup() {
 				continue
 			}
 
+			if !stat.Mode().IsRegular() {
+				log.Printf("antcache: disk cache invalid entry - %s", name)
+				continue
+			}
+
 			files = append(files, file{
 				key:   n,
 				path:  path,
-- 
2.43.0


From ca9b5326bbf26328f9c04b4e59a65d5684bc37e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 23/35] fix: sweep the oldest files until the disk fits its
 size

---
 antcache/disk.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 8483479..43415ba 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -340,6 +340,7 @@ func (d *Diskstore) sweep() (int, error) {
 	var now = d.now()
 	var removed int
 	var remove []file
+	var keep []file
 	var sum int64
 
 	sort.Slice(files, func(i, j int) bool {
@@ -349,18 +350,20 @@ func (d *Diskstore) sweep() (int, error) {
 	})
 
 	for _, f := range files {
-		if d.maxage > 0 {
-			if now.Sub(f.mtime) > d.maxage {
-				remove = append(remove, f)
-			}
+		if d.maxage > 0 && now.Sub(f.mtime) > d.maxage {
+			remove = append(remove, f)
+			continue
 		}
+		sum += f.size
+		keep = append(keep, f)
+	}
 
-		if d.maxsize > 0 {
-			if sum += f.size; sum > d.maxsize {
-				remove = append(remove, f)
-				sum -= f.size
-			}
+	for _, f := range keep {
+		if d.maxsize <= 0 || sum <= d.maxsize {
+			break
 		}
+		remove = append(remove, f)
+		sum -= f.size
 	}
 
 	d.readymu.Lock()
-- 
2.43.0


From c971caccfb56153f4a2ac75a800dc7fc5da873cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 24/35] fix: sweep must not remove a file that a store has just
 replaced

---
 antcache/disk.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 43415ba..2a06c01 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -336,13 +336,20 @@ func (d *Diskstore) sweeper() {
 
 // Sweep sweeps the directory.
 func (d *Diskstore) sweep() (int, error) {
-	var files = d.files()
+	var files []file
 	var now = d.now()
 	var removed int
 	var remove []file
 	var keep []file
 	var sum int64
 
+	d.readymu.Lock()
+	defer d.readymu.Unlock()
+
+	for _, f := range d.ready {
+		files = append(files, f)
+	}
+
 	sort.Slice(files, func(i, j int) bool {
 		a := files[i].mtime
 		b := files[j].mtime
@@ -366,9 +373,6 @@ func (d *Diskstore) sweep() (int, error) {
 		sum -= f.size
 	}
 
-	d.readymu.Lock()
-	defer d.readymu.Unlock()
-
 	for _, f := range remove {
 		if _, ok := d.ready[f.key]; ok {
 			if err := os.Remove(f.path); err != nil {
@@ -473,15 +477,11 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)
 	}
 
+	d.readymu.Lock()
 	if err := os.Rename(f.Name(), newpath); err != nil {
+		d.readymu.Unlock()
 		return fmt.Errorf("antcache: disk rename - %w", err)
 	}
-
-	if err := d.dir.Sync(); err != nil {
-		return fmt.Errorf("antcache: disk fsync - %w", err)
-	}
-
-	d.readymu.Lock()
 	d.ready[key] = file{
 		key:   key,
 		path:  newpath,
@@ -490,6 +490,10 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 	}
 	d.readymu.Unlock()
 
+	if err := d.dir.Sync(); err != nil {
+		return fmt.Errorf("antcache: disk fsync - %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1a450804455431d9e350b85339c21a8a9221df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 25/35] fix: warmup must not add a file that was swept
 meanwhile

---
 antcache/disk.go | 53 ++++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 2a06c01..68b3fe0 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -245,7 +245,7 @@ func (d *Diskstore) Wait(ctx context.Context) error {
 //
 // The method logs if any errors occur.
 func (d *Diskstore) warmup() {
-	var files []file
+	var found int
 
 	defer func() {
 		close(d.warm)
@@ -275,35 +275,48 @@ func (d *Diskstore) warmup() {
 				continue
 			}
 
-			stat, err := os.Stat(path)
-			if err != nil {
+			if err := d.addfound(n, path); err != nil {
 				log.Printf("antcache: disk stat %s - %s", path, err)
 				continue
 			}
 
-			if !stat.Mode().IsRegular() {
-				log.Printf("antcache: disk cache invalid entry - %s", name)
-				continue
-			}
-
-			files = append(files, file{
-				key:   n,
-				path:  path,
-				size:  stat.Size(),
-				mtime: stat.ModTime(),
-			})
+			found++
 		}
 	}
 
+	d.debugf("found %d cached pages", found)
+}
+
+// Addfound adds a file that the warmup has found, unless its key
+// was stored meanwhile.
+//
+// The lock is held while the file is looked at, otherwise it may be
+// stored and swept before it is added.
+func (d *Diskstore) addfound(key uint64, path string) error {
 	d.readymu.Lock()
-	for _, f := range files {
-		if _, ok := d.ready[f.key]; !ok {
-			d.ready[f.key] = f
-		}
+	defer d.readymu.Unlock()
+
+	if _, ok := d.ready[key]; ok {
+		return nil
+	}
+
+	stat, err := os.Stat(path)
+	if err != nil {
+		return err
 	}
-	d.readymu.Unlock()
 
-	d.debugf("found %d cached pages", len(files))
+	if !stat.Mode().IsRegular() {
+		return fmt.Errorf("not a regular file")
+	}
+
+	d.ready[key] = file{
+		key:   key,
+		path:  path,
+		size:  stat.Size(),
+		mtime: stat.ModTime(),
+	}
+
+	return nil
 }
 
 // Sweeper sweeps the directory.
-- 
2.43.0


From b320317faee9cc6af36c1b6f95173e8065c7df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 26/35] fix: scan nested structs inside the element of their
 selector

---
 internal/scan/struct.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 093dbb9..2f9f80f 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -17,7 +17,8 @@ type field struct {
 
 // StructScanner implements a struct scanner.
 type structScanner struct {
-	fields []field
+	selector cascadia.Selector
+	fields   []field
 }
 
 // Struct returns a scanfunc for a struct or an error.
@@ -75,11 +76,18 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		return nil, fmt.Errorf("scan: struct %v has no css tags", t)
 	}
 
-	return (structScanner{fields}).scan, nil
+	return (structScanner{opts.Selector, fields}).scan, nil
 }
 
 // Scan implements a scan func.
 func (ss structScanner) scan(dst reflect.Value, src *html.Node) error {
+	if ss.selector != nil {
+		if src = ss.selector.MatchFirst(src); src == nil {
+			dst.Set(reflect.Zero(dst.Type()))
+			return nil
+		}
+	}
+
 	for _, f := range ss.fields {
 		v := dst.FieldByIndex(f.index)
 		if err := f.scan(v, src); err != nil {
-- 
2.43.0


From e8694d04f0a2ea44d5922bfaeee7e95e4ffbd67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:50 +0000
Subject: [PATCH 27/35] fix: return an error for slices without a selector

---
 internal/scan/slice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index ae02771..9e12e0c 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -1,6 +1,7 @@
 package scan
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/andybalholm/cascadia"
@@ -18,6 +19,10 @@ type sliceScanner struct {
 func Slice(opts Options, t reflect.Type) (ScanFunc, error) {
 	var eltype = t.Elem()
 
+	if opts.Selector == nil {
+		return nil, fmt.Errorf("scan: cannot scan into %s without a selector", t)
+	}
+
 	f, err := ScannerOf(eltype, Options{
 		Selector: nil,
 		Attr:     opts.Attr,
-- 
2.43.0


From 2a9800ab7a7ae4c221005ae6ab22c55a1217f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 28/35] fix: reset slices when nothing matches their selector

---
 internal/scan/slice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index 9e12e0c..8260b33 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -43,6 +43,7 @@ func (ss sliceScanner) scan(dst reflect.Value, src *html.Node) error {
 	var nodes = ss.selector.MatchAll(src)
 
 	if len(nodes) == 0 {
+		dst.Set(reflect.Zero(ss.sliceType))
 		return nil
 	}
 
-- 
2.43.0


From 2a875f22abc125e0891496f893f72906426f183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 29/35] fix: skip links that have no host

---
 page.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/page.go b/page.go
index 3974753..39e62ed 100644
--- a/page.go
+++ b/page.go
@@ -128,6 +128,10 @@ func (p *Page) resolve(selector string) URLs {
 				u = p.URL.ResolveReference(u)
 			}
 
+			if u.Hostname() == "" {
+				continue
+			}
+
 			switch u.Scheme {
 			case "https", "http":
 				ret = append(ret, u)
-- 
2.43.0


From 0b6828cdca7b0129f75c2452c429fd6ba42cadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 30/35] fix: JSON scraper rejects types that are not structs

---
 json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json.go b/json.go
index e2577c9..22e8627 100644
--- a/json.go
+++ b/json.go
@@ -52,6 +52,10 @@ type jsonscraper struct {
 func (j *jsonscraper) Scrape(ctx context.Context, p *Page) (URLs, error) {
 	var v = reflect.New(j.typ)
 
+	if j.typ.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("ant: json cannot scrape into %s, not a struct", j.typ)
+	}
+
 	if err := p.Scan(v.Interface()); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 68ef02ff627304354e35cb3717d040d74425d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 31/35] fix: close the debugger connection when a CDP request
 cannot be set up

init() leaves its connection open when a step after the dial fails; the
target then goes back to the pool with the connection attached.
---
 antcdp/transport.go | 8 ++++----
 antcdp/tx.go        | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/antcdp/transport.go b/antcdp/transport.go
index edc59c6..b96e55f 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -34,14 +34,14 @@ func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
 		target:  target,
 	}
 
-	if err := tx.init(ctx); err != nil {
-		return nil, err
-	}
-
 	defer func() {
 		err = multierror.Append(err, tx.close())
 	}()
 
+	if err := tx.init(ctx); err != nil {
+		return nil, err
+	}
+
 	resp, err := tx.do(ctx)
 	if err != nil {
 		return nil, err
diff --git a/antcdp/tx.go b/antcdp/tx.go
index 34f948f..9528d5d 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -294,6 +294,10 @@ func (tx *tx) setCookies(ctx context.Context) error {
 
 // Close closes the transaction.
 func (tx *tx) close() (err error) {
+	if tx.conn == nil {
+		return nil
+	}
+
 	var closers = [...]io.Closer{
 		tx.conn,
 		tx.events.req,
-- 
2.43.0


From e739e3bb03a38e4928a561dfc6fded913c91a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 32/35] fix: CDP client hangs on pages that request other
 resources

wait() counts the requests of all resources, but only document responses
of the page's frame are taken off. Any request of a stylesheet, script or
inner frame that is read before the document's response makes it wait
until the request is canceled.
---
 antcdp/tx.go | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 9528d5d..f24cf4a 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -27,7 +27,6 @@ type tx struct {
 	conn    *rpcc.Conn
 	client  *cdp.Client
 	events  struct {
-		req   network.RequestWillBeSentClient
 		res   network.ResponseReceivedClient
 		ready page.DOMContentEventFiredClient
 	}
@@ -62,11 +61,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	reqc, err := tx.client.Network.RequestWillBeSent(ctx)
-	if err != nil {
-		return err
-	}
-
 	resc, err := tx.client.Network.ResponseReceived(ctx)
 	if err != nil {
 		return err
@@ -77,7 +71,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	tx.events.req = reqc
 	tx.events.res = resc
 	tx.events.ready = ready
 	return nil
@@ -115,21 +108,15 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	return tx.resp, nil
 }
 
-// Wait waits for the network requests to load.
+// Wait waits for the response of the navigated document.
+//
+// Redirects don't have a response event of their own, the
+// requests of other resources may never get a response.
 func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
-	var ids = make(map[network.RequestID]struct{})
-	var reqc = tx.events.req
 	var resc = tx.events.res
 
 	for {
 		select {
-		case <-reqc.Ready():
-			event, err := reqc.Recv()
-			if err != nil {
-				return fmt.Errorf("antcdp: request recv - %w", err)
-			}
-			ids[event.RequestID] = struct{}{}
-
 		case <-resc.Ready():
 			event, err := resc.Recv()
 			if err != nil {
@@ -147,10 +134,7 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 				return fmt.Errorf("antcdp: merge response - %w", err)
 			}
 
-			delete(ids, event.RequestID)
-			if len(ids) == 0 {
-				return nil
-			}
+			return nil
 
 		case <-ctx.Done():
 			return ctx.Err()
@@ -300,7 +284,6 @@ func (tx *tx) close() (err error) {
 
 	var closers = [...]io.Closer{
 		tx.conn,
-		tx.events.req,
 		tx.events.res,
 		tx.events.ready,
 	}
-- 
2.43.0


From 95fc93b0fb27a41cc5af1e9b1a5b8a4f5c95ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 33/35] fix: close CDP targets that are not used again

A target whose request failed may still be navigating: used again, the
response and events of the old document are taken for the new one. Targets
that do not fit in the pool were dropped without closing them.
---
 antcdp/targets.go   | 19 +++++++++++++++++--
 antcdp/transport.go | 26 +++++++++++++-------------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/antcdp/targets.go b/antcdp/targets.go
index 3fcb334..eace9f6 100644
--- a/antcdp/targets.go
+++ b/antcdp/targets.go
@@ -3,10 +3,14 @@ package antcdp
 import (
 	"context"
 	"fmt"
+	"time"
 
 	"github.com/mafredri/cdp/devtool"
 )
 
+// CloseTimeout is the time limit for closing a target.
+const closeTimeout = 10 * time.Second
+
 // Targets represents a pool of targets.
 type targets struct {
 	client  *devtool.DevTools
@@ -45,10 +49,21 @@ func (t *targets) acquire(ctx context.Context) (*devtool.Target, error) {
 }
 
 // Release releases the given target.
-func (t *targets) release(target *devtool.Target) error {
+//
+// If there are enough idle targets, the target is removed.
+func (t *targets) release(target *devtool.Target) {
 	select {
 	case t.targets <- target:
 	default:
+		t.remove(target)
 	}
-	return nil
+}
+
+// Remove closes the given target, without waiting for it.
+func (t *targets) remove(target *devtool.Target) {
+	go func() {
+		ctx, cancel := context.WithTimeout(context.Background(), closeTimeout)
+		defer cancel()
+		t.client.Close(ctx, target)
+	}()
 }
diff --git a/antcdp/transport.go b/antcdp/transport.go
index b96e55f..f0159c7 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -2,8 +2,6 @@ package antcdp
 
 import (
 	"net/http"
-
-	"github.com/hashicorp/go-multierror"
 )
 
 // Transport implements a CDP request transport.
@@ -20,32 +18,34 @@ type transport struct {
 }
 
 // Roundtrip performs a roundtrip.
-func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
+func (t *transport) roundtrip(req *http.Request) (resp *http.Response, err error) {
 	var ctx = req.Context()
 
 	target, err := t.pool.acquire(ctx)
 	if err != nil {
 		return nil, err
 	}
-	defer t.pool.release(target)
+
+	// The state of the target is not known after a failure,
+	// its navigation may still be going on.
+	defer func() {
+		if err != nil {
+			t.pool.remove(target)
+		} else {
+			t.pool.release(target)
+		}
+	}()
 
 	tx := &tx{
 		request: req,
 		target:  target,
 	}
 
-	defer func() {
-		err = multierror.Append(err, tx.close())
-	}()
+	defer tx.close()
 
 	if err := tx.init(ctx); err != nil {
 		return nil, err
 	}
 
-	resp, err := tx.do(ctx)
-	if err != nil {
-		return nil, err
-	}
-
-	return resp, nil
+	return tx.do(ctx)
 }
-- 
2.43.0


From 60df838616a2b44f00beb7495ca116838ebc52b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 34/35] fix: CDP client hangs when only the fragment of the URL
 differs

The browser does not load a document when it is navigated to another
fragment of the current one, load it again.
---
 antcdp/tx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index f24cf4a..a727430 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -89,6 +89,14 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 		return nil, fmt.Errorf("antcdp: navigate - %s", *errmsg)
 	}
 
+	// The target is already at the document, there is nothing
+	// to wait for unless it is loaded again.
+	if reply.LoaderID == nil {
+		if err := tx.client.Page.Reload(ctx, nil); err != nil {
+			return nil, fmt.Errorf("antcdp: reload - %w", err)
+		}
+	}
+
 	if err := tx.wait(ctx, *reply); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e3428262c4155db1f9278dcce6afb51dfa9ef404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 35/35] fix: robots.txt rules are matched against the path
 without its query

---
 internal/robots/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index ecdea39..f5de37b 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -106,6 +106,9 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 	if len(path) > 0 && path[0] != '/' {
 		path = "/" + path
 	}
+	if req.URL.RawQuery != "" {
+		path += "?" + req.URL.RawQuery
+	}
 
 	host, err := c.lookup(ctx, req.URL)
 	if err != nil {
-- 
2.43.0

