#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

# ---------------------------------------------------------------- crawl engine
p("C01", "No URL is visited twice in a crawl",
  "In one crawl using the default (exact) de-duplicator, a URL is visited at most once, where two spellings with the same normal form are the same URL. However often, from however many pages and at whatever moments it is discovered, exactly one fetch is started for it and its page reaches the scraper at most once (retries of a failed request belong to the one fetch).",
  ["schedules", "inputs", "configurations"],
  "every link graph, every spelling of a link, every number of workers and concurrency limit, every interleaving of discoveries",
  "engine_test.go crawls one five-page static site with one worker and one schedule; no test discovers one URL from two pages at the same time or in two spellings.",
  ["engine.go", "dedupe.go", "internal/normalize/url.go"],
  [("normalize then dedupe before queueing", "Engine.enqueue"), ("atomic test-and-set of seen URLs", "deduper.Dedupe")],
  ["Client.Do calls", "Scraper.Scrape calls"], [dict(name="seen", meaning="URLs ever admitted", where="dedupe.go")])
p("C02", "A crawl that succeeds has visited everything reachable",
  "When Run returns nil, every start URL and every URL any scrape returned that the matcher accepts (and robots.txt allows, unless impolite) has been fetched, every page fetched (all but 404 answers) has been handed to the scraper, and the URLs it returned have been treated in the same way. No URL is lost, whatever the number of workers, the concurrency limit, and the order in which fetches and scrapes finish.",
  ["schedules", "inputs", "configurations"],
  "every link graph, page status assignment, worker count, concurrency limit, and interleaving",
  "The engine tests compare visited paths on one static five-page site on one schedule; losing a URL needs a particular interleaving of Done, Enqueue and Wait.",
  ["engine.go", "queue.go", "dedupe.go"],
  [("acknowledge only after follow-up URLs are queued", "Engine.process"), ("outstanding-URL count", "memoryQueue.wg")],
  ["Client.Do calls", "Scraper.Scrape calls", "Run's result"])
p("C03", "Run always returns and leaves no work behind",
  "Provided the user's components return when called, Run returns once no URL is left to process, once processing a URL has failed, or once its context is cancelled; it never blocks forever, for any number of workers, any concurrency limit and any moment of failure or cancellation. When it has returned nothing it started is still running: no component is called after that.",
  ["schedules", "fault_sequences", "configurations"],
  "every worker count and concurrency limit, every moment of cancellation, every position of a failing fetch, scrape, limiter, robots lookup, de-duplication or enqueue",
  "One test cancels before Run starts and one injects one scraper error, both with one worker on a finite site; a lost acknowledgement or wake-up needs a cancellation at a particular point.",
  ["engine.go", "queue.go"],
  [("acknowledge every dequeued URL", "Engine.process / Engine.run"), ("close on worker exit", "Engine.Run"), ("broadcast on close", "memoryQueue.Close")],
  ["Run returning", "component calls after Run returned"])
p("C04", "The first failure stops the crawl and is reported",
  "If processing a URL fails (robots lookup, limiter, fetch, scraper or de-duplicator error), Run returns a non-nil error that wraps such a failure, never nil and never only the cancellation or end-of-queue error it caused elsewhere. From then on the crawl stops on all workers: the context handed to components is cancelled, no newly discovered URL is processed, and the URLs a failing scrape returned are not followed. If the caller cancels the context and work is left undone because of it, Run returns an error that wraps the context's error. Without failure or cancellation Run returns nil.",
  ["schedules", "fault_sequences", "configurations"],
  "every failing component, position in the crawl, worker count, concurrency limit and interleaving with other URLs in flight",
  "Tests inject one error with one worker and check only that some error is returned; what other workers do after the failure and which error wins is never observed.",
  ["engine.go"],
  [("error group shared by all URLs", "Engine.Run / Engine.run")],
  ["Run's result", "context state at component calls"])
p("C05", "Never more URLs in process than the concurrency limit",
  "With Concurrency = n > 0, at no moment are more than n URLs in process across all workers, a URL being in process from the first component call made for it (robots lookup, limiter, fetch) until it is acknowledged to the queue.",
  ["schedules", "configurations", "fault_sequences"],
  "every worker count and limit, every interleaving, including failures and cancellation",
  "Tests run Concurrency 1 with one worker and never measure the number of URLs in process.",
  ["engine.go"], [("weighted semaphore around process", "Engine.run")],
  ["component calls", "Queue.Done"])
p("C06", "Only accepted http(s) URLs enter the crawl",
  "No URL that the configured matcher rejects is ever queued or fetched; the matcher judges the normalized URL. A start URL that does not parse or is not absolute http or https makes Run and Enqueue return an error, and then no URL of that call is queued or fetched.",
  ["inputs", "schedules", "configurations"],
  "every set of start URLs and links, every matcher",
  "Tests use one matcher on one site and single invalid URLs; a batch mixing valid and invalid URLs is never tried.",
  ["engine.go", "matchers.go"], [("scheme switch", "Engine.Enqueue"), ("filter before queueing", "Engine.matches")],
  ["Queue.Enqueue calls", "Client.Do calls", "Matcher.Match calls"])
p("C07", "A polite crawl never fetches what robots.txt disallows",
  "Unless Impolite is set, a page of a host is requested only after that host's robots.txt has been obtained, and never if the rules of its group for the default user agent (the groups naming it in any case, else those for *) disallow the URL's path and query: a rule applies from the start of the path, with * for any sequence and a final $ for the end, an empty rule does not count, and the longest rule that applies decides. URLs the file clearly allows are requested; a host whose robots.txt answers with status 400 or above allows everything, and a robots.txt that cannot be obtained or parsed fails the crawl instead of being ignored. Disallowed URLs are skipped without error, and with Impolite no robots.txt is requested.",
  ["schedules", "inputs", "fault_sequences"],
  "every robots.txt (groups, allow/disallow precedence, statuses, failures), every path, every interleaving of first visits to a host",
  "internal/robots tests ask three fixed questions about one file; the engine is never run against a site with disallowed links reached concurrently.",
  ["engine.go", "internal/robots/cache.go"], [("robots check before limit and fetch", "Engine.process"), ("per host cache", "robots.Cache.lookup")],
  ["robots.txt requests and page requests"])
p("C08", "Crawl-delay spaces the requests to a host",
  "When a host's robots.txt sets a crawl delay d for the default user agent (and the engine is polite), fetches of two different URLs of that host start at least d apart, however many workers and URLs are in process, and no fetch of that host starts sooner than d after its robots.txt was requested. URLs of other hosts are not delayed by it, and cancellation ends the waiting at once.",
  ["schedules", "configurations", "inputs"],
  "every delay, number of workers, URLs per host, arrival order",
  "The robots test waits once for one request; two concurrent requests to one host are never timed.",
  ["engine.go", "internal/robots/cache.go"], [("wait before fetch", "Engine.limit, robots.Cache.Wait")],
  ["time of page requests"])
p("C09", "Rate limits bound the admitted rate and cover exactly their URLs",
  "A limiter for n per second admits at most n + n*t of the URLs it covers in any period of t seconds and delays no other URL, where Limit covers all URLs, LimitHostname those with exactly that host, and LimitPattern / LimitRegexp those whose host followed by path (no scheme, no query) matches. In a crawl the limiter is consulted exactly once per fetched URL, with the same URL, before its first request, the request waits for it, and a limiter that is waiting returns as soon as its context is cancelled.",
  ["schedules", "inputs", "configurations"],
  "every limit, pattern, URL mix, arrival pattern and number of concurrent callers",
  "limiters_test.go is empty.",
  ["limiters.go", "engine.go", "internal/normalize/url.go"], [("token bucket per limiter", "limiters.go"), ("limit before fetch", "Engine.limit")],
  ["Limiter.Limit return times", "Client.Do calls"])
# ---------------------------------------------------------------- queue, dedupe, normalize
p("C10", "The memory queue is a linearizable FIFO with exact accounting",
  "Each URL accepted by Enqueue is delivered by exactly one Dequeue, in the order of acceptance, or discarded by Close; a Dequeue never stays blocked while a URL is queued or the queue is closed. Wait returns only when every accepted URL has been acknowledged with Done or discarded by Close, and then does return; once closed, Enqueue of a URL and Dequeue return io.EOF, and a rejected Enqueue (closed or cancelled) leaves nothing in the queue.",
  ["schedules", "histories"],
  "every history of concurrent Enqueue, Dequeue, Done, Wait, Close calls with batches of any size",
  "anttest.TestQueue runs short sequential scripts and one three-reader case on one schedule; it never calls Done or Wait.",
  ["queue.go"], [("mutex, condition variable, wait group", "memoryQueue")],
  ["calls and returns of Queue's methods"], [dict(name="pending", meaning="queued URLs", where="memoryQueue.pending")])
p("C11", "De-duplication lets each URL through once, also concurrently",
  "Over all calls to one de-duplicator, sequential or concurrent, each distinct URL is returned at most once (within one batch too), and the map de-duplicator returns it exactly once: the call that returns it is one that was given it. Results keep the order of the input, and the caller's slice is not changed; the Bloom filter variant may additionally withhold URLs but never returns one twice.",
  ["schedules", "histories", "inputs"],
  "every multiset of URLs, batch split and interleaving of concurrent calls",
  "dedupe_test.go makes two sequential calls.",
  ["dedupe.go"], [("LoadOrStore", "deduper.Dedupe"), ("lock around test and add", "dedupebf.Dedupe")],
  ["Dedupe's results"])
p("C12", "Normalization is canonical, idempotent and merges only equivalents",
  "Queued URLs are in normal form: lower-case scheme and host, no default port (also for IPv6 literals), an absolute path without dot segments, duplicate or trailing slashes (an empty path is /), decoded unreserved and upper-case escapes in the path, sorted query parameters, no empty query and no fragment. Normalizing twice changes nothing, spellings that differ only in these respects become the same URL, and URLs that differ in anything else (scheme, user, host, port, decoded path, multiset of query parameters) stay different.",
  ["inputs"],
  "every absolute http(s) URL",
  "url_test.go has eleven single examples, one per rule, none with leading dot segments, repeated slashes or IPv6 hosts.",
  ["internal/normalize/url.go", "engine.go"], [("normalize.URL", "internal/normalize/url.go")],
  ["URLs given to Queue.Enqueue"])
# ---------------------------------------------------------------- fetcher
p("C13", "Fetch retries exactly the temporary failures, boundedly",
  "A request is repeated if and only if it failed temporarily (status 429, 503 or 504, or a client error that reports itself temporary, wrapped or not) and fewer than MaxAttempts (default 5) requests were made, after waiting min(attempt^2 * MinBackoff, MaxBackoff). Status 404 gives no page and no error, another status of 400 or above gives a FetchError with that status at once, exhausted attempts give an error wrapping the last failure, and cancellation during a wait returns the context's error without another request. Every request is a GET for the given URL with the configured headers. A temporary error of a scraper or de-duplicator is retried by the engine likewise.",
  ["fault_sequences", "configurations"],
  "every sequence of outcomes (statuses, temporary and permanent errors, plain or wrapped), every MaxAttempts and back-off setting, cancellation at every point",
  "fetcher_test.go covers one 503,503,200 sequence, five 503s, 400 and 404; no transport error, no limits, no timing, no cancellation.",
  ["fetcher.go", "engine.go"], [("retry loop", "Fetcher.Fetch"), ("classification", "isTemporary, FetchError.Temporary")],
  ["Client.Do calls and their times", "Fetch's result"])
p("C14", "Every response body is read to the end and closed",
  "Each response a client returned to the fetcher or the robots check has its body read to EOF (unless reading fails) and closed by the time the fetch has failed or is retried, or, for a page, by the time the scrape of the page is over, whatever the outcome: retry, 404, error, cancellation, or a scraper that fails or never touches the page. In a cached client the same holds for the origin's responses (validation answers included) once the caller has closed the response it received.",
  ["fault_sequences", "schedules", "inputs"],
  "every sequence of outcomes, every scraper behaviour",
  "No test looks at whether bodies are closed.",
  ["fetcher.go", "engine.go", "page.go", "internal/robots/cache.go", "antcache/httpcache.go"],
  [("discard on error", "Fetcher.discard"), ("close after scrape", "Engine.scrape"), ("discard", "Cache.discard")],
  ["Read and Close calls on response bodies"])
# ---------------------------------------------------------------- http cache
p("C15", "The HTTP cache stores only what it may",
  "Requests other than GET and HEAD, and requests with no-store, Range, Content-Range or Authorization, go straight to the client and neither read nor change the cache. A response is stored only if its status is one of 200 203 204 206 300 301 404 405 410 414 501 and it has a Date and, under the default strategy, no no-store in request or response and a positive explicit lifetime (max-age, else Expires minus Date); directives count in any letter case and in any of several Cache-Control lines. It is stored only when its body was completely read and then closed, never when reading failed or stopped early; and a response that may be stored and was read to its end is stored when its body is closed. A storage error fails the call when looking up and is returned by Close when storing.",
  ["inputs", "histories", "fault_sequences"],
  "every method, status, header combination and split over lines, every way of consuming the body",
  "Table tests cover some twenty single-header combinations of the internal decision functions; no test has several header lines, a failing body, or an early close.",
  ["antcache/httpcache.go", "antcache/rfc7234.go", "antcache/aggressive.go", "antcache/cachereader.go", "antcache/directives.go", "antcache/utils.go"],
  [("cache/store predicates", "rfc7234, aggressive"), ("store on close", "cachereader.Close")],
  ["Storage.Store and Storage.Load calls"])
p("C16", "A cached response is served unvalidated only while fresh",
  "Under the default strategy a matching stored response is served without contacting the origin if and only if neither request nor stored response has no-cache and (only-if-cached is set, or its age, time since Date plus the request's min-fresh minus its max-stale, is below its lifetime, which is max-age, else Expires minus Date, lowered by the request's max-age; a bare max-stale accepts any age). Under the aggressive strategy it is served if and only if its age is below the configured one (default 24 hours) and the request has no no-cache.",
  ["inputs", "histories", "configurations"],
  "every combination of directives and header lines, every age",
  "Table tests fix about fifteen combinations at age zero; boundaries and combinations are not covered and the whole client is tested with one max-age.",
  ["antcache/rfc7234.go", "antcache/aggressive.go", "antcache/httpcache.go", "antcache/directives.go"],
  [("fresh predicate", "rfc7234.fresh, aggressive.fresh")],
  ["Cache.Do results against origin requests"])
p("C17", "A response from the cache is the one the origin sent",
  "Whatever was cached before, a response served from the cache has the status, the end-to-end headers and the complete body of the origin's latest stored response to that method and URL, and, under the default strategy, it was obtained with the same values of the header fields its Vary names (Vary: * is never reused). Only responses from the cache carry X-From-Cache, and the first response is passed to the caller unchanged.",
  ["histories", "inputs", "schedules"],
  "every history of requests to several URLs and methods with varying headers, bodies of any length and framing, memory and disk storage",
  "httpcache_test.go never reads the body of a cached response and uses one URL and one set of request headers.",
  ["antcache/httpcache.go", "antcache/cachereader.go", "antcache/utils.go", "antcache/memstore.go"],
  [("key of method and URL", "keyof"), ("serialized response", "cachereader.Close"), ("selecting headers", "matches")],
  ["Cache.Do results"])
p("C18", "Stale responses are validated correctly",
  "Under the default strategy a matching but stale stored response is revalidated with one conditional request carrying its ETag and Last-Modified unless the caller supplied such conditions. A 304 returns the stored response with its complete body and the headers of the 304 merged in, and, if it may still be stored, renews it in the cache; a 5xx is returned as it is, or replaced by the stored response if the request has stale-if-error; any other answer is returned in its place, replacing the stored response if it may be stored. A failing validation request fails the call. The caller's request is left as it was, so that it can be used for another call.",
  ["histories", "fault_sequences", "inputs"],
  "every stored response, every validation answer, every number of successive revalidations",
  "Tests do one revalidation and look only at a header and at the status, never at the body or at what the cache holds afterwards.",
  ["antcache/httpcache.go", "antcache/utils.go"], [("verify", "Cache.verify"), ("header merge", "merge")],
  ["origin requests", "Cache.Do results", "Storage.Store calls"])
# ---------------------------------------------------------------- disk store
p("C19", "Disk entries survive crashes whole or not at all",
  "At whatever point a store is interrupted by a crash or power loss, or fails because the file system reports an error, loading the key from a store reopened on the directory gives the complete old or the complete new value (or nothing, if there was none), never an error, a truncated or a mixed value. Once Store has returned nil the new value survives any crash, and a Store that failed leaves the old value loadable (or, if only making the new one durable failed, the new one).",
  ["crash_points", "fault_sequences", "histories"],
  "every point between two file system operations, every choice of which unsynced data and directory changes reach the disk, every failing operation",
  "disk_test.go stores and loads in one process without faults.",
  ["antcache/disk.go"], [("temp file, fsync, rename, fsync directory", "Diskstore.Store, Diskstore.add"), ("warm-up ignores other files", "Diskstore.warmup")],
  ["file system operations", "Load after reopening"], None,
  "none in /repo: an import rewrite in a build overlay records file operations")
p("C20", "The disk store is a linearizable map, also while sweeping",
  "Under any interleaving of Store, Load, warm-up and background sweeps, every Load returns the value of the latest completed or an overlapping Store of that key or, if the entry may have been evicted or was not yet warm, nothing; it never returns an error, a partial value or another key's value. An entry stored less than the maximum age ago and within the size budget is never removed, not even when an older value of the same key is being evicted at that moment.",
  ["schedules", "histories"],
  "every interleaving at file-operation granularity of concurrent stores, loads, warm-up and sweeps on few keys",
  "Tests are sequential and call the sweep by hand.",
  ["antcache/disk.go"], [("read-write lock over the index", "Diskstore.readymu"), ("rename and index update", "Diskstore.add"), ("sweep", "Diskstore.sweep")],
  ["results of Store and Load"])
p("C21", "A sweep removes the expired, then the oldest over budget",
  "A sweep removes every entry older than the maximum age (if set), and, while the entries left exceed the maximum size (if set), the oldest of them, and nothing else: afterwards the entries fit the budget and every removed unexpired entry was older than or as old as every kept one. With a limit of zero or below the respective rule is off, and without sweeping nothing is ever removed.",
  ["inputs", "histories", "configurations"],
  "every set of entries (ages, sizes), every maxage and maxsize, repeated sweeps",
  "Two tests with two entries each count how many are removed, not which.",
  ["antcache/disk.go"], [("sort by age and drop", "Diskstore.sweep")],
  ["Load results and directory contents after a sweep"])
p("C22", "Reopening a disk store restores exactly its entries",
  "After Close and Open of the same directory (with the same compression setting) and Wait, Load returns for every key exactly the value last stored and not evicted, also for the extreme keys and for empty and large values; foreign files and leftovers in the directory are ignored. Open, Wait and Close return promptly whatever the directory holds, even if it has been removed meanwhile.",
  ["histories", "inputs", "configurations"],
  "every history of stores, reopenings and foreign directory contents",
  "One test reopens a directory and counts two entries without loading them.",
  ["antcache/disk.go"], [("warm-up", "Diskstore.warmup")],
  ["Load after Open and Wait"])
# ---------------------------------------------------------------- scraping
p("C23", "The JSON scraper writes one intact line per page",
  "For every page it is given the JSON scraper writes exactly one complete JSON line holding that page's data (the scanned value), and lines of pages scraped at the same time never mix, whatever the writer's pace; if the writer fails the scrape returns the error, and a page that cannot be read or a type that is not a struct or cannot be scanned gives an error and no line. It returns the links matching its selectors (in selector order, or all links if it has none).",
  ["schedules", "inputs"],
  "every set of pages scraped concurrently by one scraper, every interleaving of writes",
  "json_test.go scrapes one page at a time.",
  ["json.go"], [("lock around encode", "jsonscraper.encode")],
  ["bytes reaching the writer", "Scrape results"])
p("C24", "Links are resolved to absolute http(s) URLs of the page",
  "The links of a page are, in document order, the href values of the matching elements resolved against the URL the page was finally served from, and only those that are valid absolute http or https URLs with a host; every other element or scheme is left out without error. Asking several times, or for several selectors, gives the same answer.",
  ["inputs"],
  "every page URL and every href (relative, protocol-relative, absolute, other schemes, invalid, missing)",
  "page_test.go resolves two links.",
  ["page.go"], [("resolve", "Page.resolve")],
  ["Page.URLs, Page.Next"])
p("C25", "Scanning fills every field from the elements it selects",
  "Scanning a document into a struct sets each tagged field from the first element its selector matches inside the element the struct itself stands for (the document, its own selector's first match, or the slice element), slices from all matches in document order, attributes when an @attribute is given, and numbers by parsing (0 if the text is none). What is missing leaves zero values and empty slices, whatever the destination held before; values an earlier scan gave stay as they are. The same holds for nested structs and slices of structs, and the result does not depend on which types were scanned before or are scanned at the same time. A type that cannot be scanned (unsupported kind, invalid selector, a slice no selector applies to) gives an error, never a panic.",
  ["inputs", "programs", "schedules"],
  "every document shape and every non-recursive type built from the supported kinds, any order and concurrency of scans",
  "scanner_test.go has one or two documents per kind; nesting is covered only where the outer selector makes no difference.",
  ["internal/scan/struct.go", "internal/scan/slice.go", "internal/scan/scan.go", "internal/scan/scanner.go", "internal/scan/nodes.go", "list.go", "page.go"],
  [("compiled scan functions", "ScannerOf"), ("per type cache", "Scanner.register")],
  ["Page.Scan and List.Scan results"])
p("C27", "Queries select exactly the matching elements in order",
  "Page.Query and List.Query return, for each node of the list in turn, all elements inside it that the selector matches, in document order (an invalid selector gives an empty list); Is is true exactly if some node of the list matches; At gives the node at an index, from the end for negative ones, and an empty list out of range; Text is the text of all nodes in order, without comments; Attr is the attribute of the first node. HTML renders a document that parses to the same one.",
  ["inputs", "programs"],
  "every document, selector (tags, classes, attributes, combinators, groups), and sequence of list operations",
  "list_test.go has one small document per method.",
  ["list.go", "page.go", "internal/scan/nodes.go", "internal/selectors/selectors.go"],
  [("compiled selector cache", "selectors.Compile"), ("document order", "List.Query")],
  ["results of the Page and List methods"])
p("C28", "Matchers accept exactly the URLs they describe",
  "MatchHostname accepts a URL if and only if its host (with the port, if it has one) is the given one. MatchPattern accepts it if and only if its host followed by its decoded path (no scheme, query or fragment; a / between them if the path has none) matches the whole pattern, where * stands for any sequence of characters, ? for any one character and a backslash makes the next character literal; MatchRegexp if and only if the regular expression matches somewhere in that text. No matcher changes the URL, and a crawl with the matcher fetches exactly the discovered URLs it accepts.",
  ["inputs"],
  "every hostname, pattern and regular expression, and every URL",
  "match_test.go has a dozen examples, none with a port, a query, an escape, two stars or a character outside ASCII.",
  ["match.go", "engine.go"], [("host and path against a pattern", "MatchPattern"), ("filter before queueing", "Engine.enqueue")],
  ["Matcher.Match results", "Client.Do calls"])
# ---------------------------------------------------------------- cdp
p("C26", "The browser client: one request per tab, the right document, nothing left behind",
  "The CDP client (antcdp.Client) never uses one browser tab for two requests at the same time: a tab's debugger connection is closed before the tab is used again. Idle tabs are used again, and the tabs left open are never more than the requests that were in flight at a time. Each request navigates once, after its headers and cookies are set. Whatever other requests a page makes, and in whatever order the browser tells about them, the call returns: with the status, headers and complete body of the navigated document (Content-Length equal to the body's length), or with an error if and only if the browser reported a failure, dropped the connection, or the request was cancelled. In each case its debugger connection is closed.",
  ["schedules", "fault_sequences"],
  "every number of concurrent requests, every order of a navigation's events, every step of the protocol failing or hanging, cancellation at every moment",
  "antcdp's only test needs a Chrome binary and is skipped.",
  ["antcdp/targets.go", "antcdp/transport.go", "antcdp/tx.go", "antcdp/client.go"],
  [("target pool", "targets.acquire/release"), ("transaction close", "tx.close"), ("waiting for the document", "tx.wait")],
  ["requests reaching a DevTools endpoint"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError: pass
print(len(P))
