#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Key ownership is valid, deterministic, balanced and minimally disruptive",
  "For any set of cluster members and any key, the owner list has exactly min(replication, members) distinct live members, depends only on the member set and the ring settings (not on join order or history), and every node computing it gets the same list in the same order. A member joining only ever adds itself to owner lists, and a member leaving changes only the owner lists it was in, with the survivors keeping their relative order. Each member receives a reasonable share of keys.",
  ["inputs", "configurations", "histories"], "all member sets, addresses, replication factors, virtual-node counts, keys and join/leave orders",
  "Unit tests look up a handful of keys on two or three fixed members; stability and agreement are statements over all memberships and keys.",
  ["internal/cluster/ring.go", "internal/cluster/node.go", "internal/cluster/membership.go"],
  [("hash ring build/lookup", "internal/cluster/ring.go"), ("node id derivation", "internal/cluster/node.go")],
  ["Ring.Lookup", "DistMemory.DebugOwners"])
p("C02", "Membership state and the ownership ring never disagree",
  "After any sequence or concurrent mix of joins, updates, removals, state marks and self-refutations, the member list holds exactly the members joined and not removed with their latest accepted data, and ownership lookups reflect exactly that list. The membership version grows with every change and never goes back, a member's incarnation never decreases through a state mark or refutation, and snapshots handed to callers are not altered by later changes.",
  ["histories", "schedules"], "all operation sequences and interleavings of membership mutations and reads",
  "Existing tests exercise single short sequences and one concurrent smoke test that does not compare ring and member list.",
  ["internal/cluster/membership.go", "internal/cluster/ring.go", "internal/cluster/version.go"],
  [("membership map + ring rebuild", "internal/cluster/membership.go"), ("version vector", "internal/cluster/version.go")],
  ["Membership.List", "Membership.Version", "Ring.Lookup"])
p("C03", "Event subscribers see an ordered stream; losses are always accounted for",
  "Every subscriber receives the events published while it is subscribed, in publication order and at most once, with strictly increasing versions; the only events it may miss are those its full buffer forced out, and each of those is counted. Publishing never blocks on a slow subscriber, and cancelling a subscription, by call or by context, ends that stream without losing or duplicating what other subscribers get.",
  ["histories", "schedules"], "all sequences and interleavings of publish, subscribe, receive, cancel and close, for all buffer sizes",
  "Tests use one publisher and fixed short scripts; ordering across concurrent publishers is a schedule property.",
  ["internal/eventbus/bus.go", "pkg/backend/dist_memory_events.go"],
  [("fan-out and version assignment", "internal/eventbus/bus.go")], ["subscriber channels", "drop counters"])
p("C04", "Serializing a value and deserializing it returns the same value",
  "For every supported serializer and every representable value, deserializing the serialized bytes yields an equal value, and malformed input is rejected with an error rather than a panic or a silently wrong value. Serializers are independent: registering or using one never changes what another produces, and asking for an unknown one fails.",
  ["inputs", "configurations"], "all values of the supported shapes, all byte strings as malformed input, all registered serializer names",
  "There are no round-trip tests over generated values; fixed examples cannot cover escaping, numeric and time edge cases.",
  ["internal/libs/serializer/serializer.go", "internal/libs/serializer/default_json_serializer.go", "internal/libs/serializer/msgpack_serializer.go"],
  [("serializer registry", "internal/libs/serializer")], ["Marshal/Unmarshal results"])
p("C05", "Recorded statistics equal the statistics of what was recorded",
  "For any history of increments, decrements, histograms, timings and gauges, the reported count, sum, minimum, maximum, mean, median, percentiles and variance are those of the values recorded for that statistic, within the documented retention window for order statistics. Concurrent recording loses nothing and one statistic never affects another, and snapshots are unaffected by later recording.",
  ["inputs", "histories", "schedules"], "all value sequences (including extreme integers), statistic names, window overflows and concurrent recorders",
  "Tests record a few small positive numbers sequentially.",
  ["pkg/stats/histogramcollector.go", "pkg/stats/collector.go", "pkg/stats/stats.go"],
  [("histogram collector", "pkg/stats/histogramcollector.go")], ["GetStats", "Mean/Median/Percentile"])
p("C06", "A request is admitted only with a credential that grants the required scope",
  "A request reaches a protected handler exactly when one of the configured mechanisms authenticates it (or anonymous access is enabled) and the identity that mechanism resolves to carries the scope the route demands; otherwise it is answered 401 for missing or wrong credentials and 403 for a missing scope, and the handler does not run. A presented credential never yields the identity, scopes or access of a different one, however close they are.",
  ["inputs", "configurations"], "all policies (tokens, basic users, client-certificate identities, verify hook, anonymous) and all request credentials and scopes",
  "Tests try a few fixed policies and headers; the decision table over policies x credentials x scopes is far larger.",
  ["pkg/httpauth/policy.go"], [("credential resolution and scope check", "pkg/httpauth/policy.go")],
  ["HTTP status", "identity stored for the handler"])
p("C07", "Auth configuration loads exactly what was written and fails closed",
  "Loading the auth configuration from a file or from the environment yields exactly the identities, secrets, scopes and anonymous flag that were written, for any valid content. A configuration that is missing where explicitly requested, malformed, has unknown fields or scopes, or defines an unusable credential is refused with an error; it never turns into a more permissive policy.",
  ["inputs", "configurations"], "all YAML configurations and environment combinations, valid and corrupted",
  "Tests load a few literal files; refusal must hold for every malformed configuration.",
  ["pkg/httpauth/loader.go", "pkg/httpauth/policy.go"], [("strict decode + validation", "pkg/httpauth/loader.go")],
  ["loaded policy's decisions", "load error"])
p("C08", "Client requests fail over exactly when they should and report what happened",
  "For any set of endpoints in any mix of healthy, failing and rejecting states, a client call succeeds whenever some endpoint would answer it and no endpoint tried before it gave a definitive rejection; it tries each endpoint at most once, does not retry definitive client errors, and sends the identical request each time. The error it returns matches the documented sentinels for the response it got and preserves the server's status, code, message and details.",
  ["inputs", "fault_sequences", "configurations"], "all endpoint sets, per-endpoint outcomes (statuses, bodies, transport faults, cancellation), methods and payloads",
  "Tests cover one dead and one live endpoint and a few statuses; the claim ranges over every outcome vector and random visiting order.",
  ["pkg/client/transport.go", "pkg/client/errors.go", "pkg/client/client.go"],
  [("failover loop and retry classification", "pkg/client/transport.go"), ("error mapping", "pkg/client/errors.go")],
  ["requests seen per endpoint", "returned error"])
p("C09", "What a client stores is what any client reads back",
  "For every legal key, byte value and time-to-live, the single-key client operations carry key, value and TTL to the server unchanged and return what the server holds unchanged, whatever bytes the key contains. Reads report absence as not-found, deletes remove only the named key, and item metadata is returned as the server reported it.",
  ["inputs", "histories"], "all keys (including reserved URL characters, unicode, slashes, percent signs), all byte values, all TTLs, all operation sequences",
  "Tests use simple ASCII keys and text values.",
  ["pkg/client/client.go", "pkg/client/types.go"], [("path escaping, body and header mapping", "pkg/client/client.go")],
  ["HTTP requests on the wire", "returned values"])
p("C10", "Batch operations act on each item exactly as single operations would",
  "A batch call returns exactly one result per requested item, in request order and under that item's key, each with its own outcome; values, TTLs and metadata are carried unchanged and one item's failure neither hides nor alters another's. The outcome of a batch equals that of the same single-item operations performed in order.",
  ["inputs", "histories"], "all batches (sizes, duplicate and odd keys, binary values, TTLs) and all per-item outcome mixes",
  "Tests use two- or three-item batches with fixed outcomes.",
  ["pkg/client/batch.go", "cmd/hypercache-server/main.go"], [("batch codec", "pkg/client/batch.go")],
  ["batch results", "wire payloads"])
p("C11", "The client's endpoint view tracks the cluster and never becomes unusable",
  "After a successful topology refresh the client's endpoints are exactly the API addresses of the members reported as reachable; after a failed, empty or malformed refresh the previous view stays in force. The client always has an endpoint to try, a refresh turns to the seeds when no endpoint of the view can be reached, returned views are independent copies, and refreshes may run concurrently with requests and shutdown without loss or deadlock.",
  ["histories", "fault_sequences", "schedules"], "all membership documents, refresh outcomes and interleavings with calls",
  "Tests do a single refresh against a fixed member list.",
  ["pkg/client/topology.go", "pkg/client/transport.go"], [("endpoint snapshot swap", "pkg/client/topology.go")],
  ["Client.Endpoints", "requests per endpoint"])
p("C12", "Client credentials and custom transport settings reach every request",
  "Every request the client sends, on every operation and every failover attempt, carries exactly the credential configured and goes through the HTTP client the caller supplied, in whichever order the options were given as documented. Credentials are never sent for a client configured without them, conflicting or empty credential options are rejected at construction, and the caller's own HTTP client object is not modified.",
  ["inputs", "configurations"], "all option lists and orders, credential strings, operations and failover paths",
  "Tests check one option at a time on one request.",
  ["pkg/client/options.go", "pkg/client/client.go"], [("auth round-trippers", "pkg/client/options.go")],
  ["headers on the wire", "custom transport calls"])
p("C13", "The concurrent map is a linearizable map",
  "Under any sequence or interleaving of operations from any number of callers the item map behaves like a single map: reads return the latest completed write, each removal or conditional operation takes effect once, and counts, iteration, clearing and copies agree with that order. Items handed out as copies do not change afterwards.",
  ["histories", "schedules"], "all keys, operation sequences and concurrent histories",
  "Tests check a few sequential calls and that races do not crash.",
  ["pkg/cache/v2/cmap.go", "pkg/cache/v2/item.go", "pkg/cache/v2/hash.go"], [("sharded map with per-shard locks", "pkg/cache/v2/cmap.go")],
  ["Get/Count/All results"])
p("C14", "Every eviction policy keeps a faithful, bounded set of keys",
  "For every registered eviction policy, at any capacity and after any history, the tracked set never exceeds its capacity, each eviction returns one key that was present and removes exactly that key, and a deleted or evicted key is gone. A key that was set and neither deleted nor evicted since is still found with its latest value.",
  ["histories", "configurations"], "all policies, capacities and set/get/delete/evict sequences",
  "The contract tests run a few fixed sequences per policy.",
  ["pkg/eviction/lru.go", "pkg/eviction/lfu.go", "pkg/eviction/clock.go", "pkg/eviction/cawolfu.go", "pkg/eviction/arc.go", "pkg/eviction/sharded.go"],
  [("policy implementations", "pkg/eviction")], ["Evict/Get results"])
p("C15", "Each eviction policy evicts the victim its definition prescribes",
  "LRU evicts the least recently used key, LFU the least frequently used key, CLOCK the first key without a remaining second chance under its hand, CAWOLFU the key at the cold end of its usage order, and ARC the tail of the recency or frequency list its ghost history and adaptive target choose, for every access history; key-partitioned wrappers apply the same rule within each partition.",
  ["histories", "configurations"], "all access histories and capacities",
  "Tests check the victim after a handful of scripted accesses.",
  ["pkg/eviction/lru.go", "pkg/eviction/lfu.go", "pkg/eviction/clock.go", "pkg/eviction/cawolfu.go", "pkg/eviction/arc.go", "pkg/eviction/sharded.go"],
  [("victim selection", "pkg/eviction")], ["sequence of evicted keys"])
p("C16", "Without pressure the cache is an exact key-value store",
  "While capacity and size limits are not reached, every cache operation behaves as on a plain map: a read returns the last value set and not since removed, get-or-set stores only when absent, multi-key reads report exactly the present and missing keys, removal and clearing delete exactly what they name, and count equals the number of live keys. Invalid keys, nil values and negative expirations are rejected without changing anything.",
  ["histories", "inputs", "configurations"], "all keys, values and operation sequences over all eviction policies and option sets",
  "Tests run short scripts on one configuration.",
  ["hypercache.go", "hypercache_io.go", "pkg/backend/inmemory.go"], [("cache API over backend", "hypercache_io.go")],
  ["API results"])
p("C17", "Capacity and size limits hold and size accounting never drifts",
  "The number of stored items never stays above the configured capacity once an operation and its eviction finish, an eviction removes only as much as needed and a removed item is gone everywhere. The reported allocation equals the total size of the items stored, after any history of writes, overwrites, removals, evictions, expirations, rejections and clears, and writes are refused for lack of space only when they would exceed the configured size limit.",
  ["histories", "configurations"], "all capacities, size limits, eviction policies, intervals and operation sequences",
  "Tests insert a few items once; drift needs overwrite/remove/expire histories.",
  ["hypercache_io.go", "hypercache_eviction.go", "hypercache.go"], [("memory accounting", "hypercache_io.go"), ("eviction loop", "hypercache_eviction.go")],
  ["Allocation", "Count", "Get"])
p("C18", "Expired items are never served and live items never expire early",
  "An item set with a time-to-live is returned by every read path until that time has passed since it was last set or, where documented, accessed, and by none afterwards, whether or not the background sweep has run; items set without one never expire. The sweep and on-demand expiration remove exactly the expired items, including promptly after being triggered, and never a value written after the expired one.",
  ["histories", "schedules", "configurations"], "all TTLs, intervals and operation/clock-advance sequences",
  "Tests sleep for a few real milliseconds on one key.",
  ["hypercache_expiration.go", "hypercache_io.go", "pkg/cache/v2/item.go"], [("expiry check on read + background loop", "hypercache_expiration.go")],
  ["read results at chosen virtual times", "Count"])
p("C19", "A typed cache view returns exactly the typed values stored, or a type error",
  "For every value type, what is stored through a typed view is read back identical through every typed read, and reading a key holding another type reports a type mismatch and leaves the entry alone instead of returning a wrong or zero value. Typed and untyped views of the same cache agree on presence, removal and metadata.",
  ["inputs", "histories"], "all values of several value types, and histories mixing views of different types",
  "Tests use one struct type and one mismatch.",
  ["hypercache_typed.go"], [("typed wrapper", "hypercache_typed.go")], ["typed reads"])
p("C20", "Listing returns exactly the matching items in the requested order",
  "Listing with any combination of filter and sort options returns every stored item satisfying the filters once, none other, ordered by the requested field in the requested direction; unknown sort fields are rejected. Listing does not change the cache.",
  ["inputs", "configurations"], "all contents, predicates, sort fields and directions",
  "Tests sort three items on one field.",
  ["pkg/backend/filters.go", "pkg/backend/inmemory.go"], [("filter pipeline", "pkg/backend/filters.go")], ["List results"])
p("C21", "The worker pool runs every accepted job exactly once, even across shutdown",
  "Every job accepted by the worker pool runs exactly once, with at most the configured number running at a time, and shutdown returns only after all accepted jobs ran; jobs offered after shutdown are refused. Failing jobs, resizes and concurrent enqueues never lose a job, stall the pool or deadlock shutdown.",
  ["histories", "schedules"], "all job mixes (including failing), worker counts, resize and shutdown points",
  "Tests run a few jobs on a fixed pool.",
  ["pool.go"], [("worker pool", "pool.go")], ["job executions", "shutdown completion"])
p("C22", "A replicated write is readable everywhere and stored only on its owners",
  "In a healthy cluster with a settled membership, a value written through any node is returned by a read through every node at every consistency level, with the latest write winning, and a removed key is absent everywhere; each key is held exactly by its owners, all with the same value and version. A draining node refuses writes and removals but keeps serving reads. A node's local view (count, list, clear) is what it holds itself, and what a caller or reader later does to an item never changes what the cluster holds.",
  ["histories", "configurations"], "all cluster sizes, replication factors, consistency levels, keys and operation sequences through arbitrary nodes",
  "Tests write one or two keys on two fixed nodes.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go"], [("primary routing + replica fan-out", "pkg/backend/dist_memory.go")],
  ["Get through each node", "per-node contents"])
p("C23", "Quorum reads see every acknowledged quorum write despite minority failures",
  "With quorum or all-replica reads and writes, a write is acknowledged only when the required number of owners stored it and is reported as failed otherwise, and every later quorum read through a node that reaches enough owners returns the latest acknowledged write or delete (or a write that was reported as failed), whichever minority of owners fails in between. Reads that cannot reach the required number of owners do not return a value.",
  ["fault_sequences", "histories", "configurations"], "all owner-failure patterns interleaved with reads and writes, all replication factors and consistency levels",
  "Tests fail one node in one scripted scenario.",
  ["pkg/backend/dist_memory.go"], [("ack counting, consistency reads", "pkg/backend/dist_memory.go")],
  ["Set error", "Get result"])
p("C24", "Older writes and deletes never overwrite newer state on any replica",
  "Whatever order replicated writes, read repairs, replayed hints, migrations and synchronisation arrive in, and however often they are repeated, a replica ends with the newest version it was given: an older version never replaces a newer one, equal versions resolve the same way everywhere, and a deleted key is not brought back by anything at or below the delete's version.",
  ["histories", "schedules", "fault_sequences"], "all multisets, orders and duplications of versioned updates and deletes delivered by any path",
  "Tests deliver one stale update on one path.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_read_repair.go"], [("version comparison and tombstones", "pkg/backend/dist_memory.go")],
  ["replica contents after delivery"])
p("C25", "Missed replica writes are queued within bounds and delivered on recovery",
  "When a replica cannot be reached, the write is remembered for it and delivered once it is reachable again, unless its time-to-live passed or a configured bound forced it out; every remembered write ends up counted as exactly one of delivered, expired or dropped. The queue never exceeds its per-node, total and byte bounds, and its reported size is the size of what it holds.",
  ["fault_sequences", "histories", "configurations"], "all outage patterns, bounds, item sizes, time-to-lives and replay times",
  "Tests queue one or two hints with one bound.",
  ["pkg/backend/dist_memory.go"], [("hint queue and replay", "pkg/backend/dist_memory.go")],
  ["metrics", "replica contents"])
p("C26", "Anti-entropy makes a replica catch up and never loses data",
  "Two replicas' digests are equal exactly when they hold the same keys and deletes at the same versions from the same origins, and the reported differences always cover every differing key. After synchronising with a peer a node holds, for every key the peer holds, a version at least as new, keeps everything for which the peer has nothing newer, and a second synchronisation changes nothing; with periodic synchronisation every node does so with every other. A delete is remembered for the configured retention, so that no peer that missed it brings the key back meanwhile, and a forgotten one is purged.",
  ["histories", "configurations", "inputs"], "all pairs of replica contents (items, versions, deletions), chunk sizes and shard counts",
  "Tests diverge a couple of keys once.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_http_transport.go"], [("merkle tree build/diff/pull", "pkg/backend/dist_memory.go")],
  ["contents after SyncWith", "digest equality"])
p("C27", "Rebalancing moves data to its owners and never loses a key",
  "After any sequence of joins, departures, returns and crashes, each a rebalance interval or more apart and with every owner up to date whenever one crashes, running the rebalancer to quiescence leaves every key on exactly its current owners with its newest value or delete, whatever the batch sizes, limits, grace periods and targets that failed meanwhile. A node never drops a key it still owns, and one it no longer owns only once a current owner has it, and a settled cluster migrates nothing further. Throughout, a read through any node, owner or not, shows a key's newest value or delete whenever all its owners hold that.",
  ["histories", "fault_sequences", "configurations"], "all membership-change sequences, batch and throttle settings, and unreachable targets",
  "Tests do one join with default settings.",
  ["pkg/backend/dist_memory.go"], [("rebalance scan, migration, replica diff, shedding", "pkg/backend/dist_memory.go")],
  ["per-node contents", "rebalance counters", "reads through every node"])
p("C28", "Cluster key listing is the exact sorted set of matching keys",
  "Listing keys through any node returns, sorted and without duplicates, exactly the keys held by reachable members that match the prefix or glob, up to the requested maximum, marking the result truncated when it had to stop. Unreachable members are named as missing, invalid patterns are rejected, and paging through the HTTP endpoints yields the same set.",
  ["inputs", "configurations", "fault_sequences"], "all key sets, patterns, limits, page sizes and unreachable members",
  "Tests list a few fixed keys with one prefix.",
  ["pkg/backend/dist_keys.go", "pkg/backend/dist_http_server.go", "cmd/hypercache-server/main.go"], [("fan-out, matcher and merge", "pkg/backend/dist_keys.go")],
  ["ListKeys result"])
p("C29", "Node-to-node HTTP carries items unchanged and only for authorised peers",
  "Over the HTTP transport every forwarded set, get, remove, digest and key listing has the same effect and result as the same call made in process: key, value (in its JSON form), expiration (to the millisecond, never shortened), version and origin arrive unchanged, with or without compression, and oversized messages are refused rather than truncated. With peer authentication configured, a request without the right credential is refused on every route and has no effect. A drained node, and only such a one, reports itself unhealthy.",
  ["inputs", "configurations"], "all items, compression thresholds, limits, auth settings, credentials and routes",
  "Tests send a few short string items.",
  ["pkg/backend/dist_http_transport.go", "pkg/backend/dist_http_server.go"], [("HTTP codec and auth wrapper", "pkg/backend/dist_http_server.go")],
  ["receiver state", "decoded results", "HTTP status"])
p("C30", "The REST API stores and serves any key and value unchanged through every node",
  "A value put under a key through any server node, singly, in a batch or through the Go client, is returned byte for byte by get, head, item envelope and batch reads through every node, under the same key in single and batch routes, with its version, origin, owners and remaining time-to-live; listings, deletes and absences are reported as they are. An item is served until its time-to-live has passed since it was written and no longer once it has passed since it was last written or read. Acknowledged writes and deletes outlive the loss of a node within the replication factor, and a drained node stops cleanly. Malformed or unknown requests are answered with the documented 4xx error envelope and change nothing.",
  ["inputs", "histories", "configurations"], "all keys, byte values, TTLs, routes, nodes, malformed inputs and single-node failures",
  "Handler tests use short ASCII keys and text on one node in process.",
  ["cmd/hypercache-server/main.go", "pkg/client/client.go", "pkg/client/batch.go"], [("REST handlers", "cmd/hypercache-server/main.go")],
  ["HTTP responses of running server processes"])
p("C31", "Membership gossip converges and never regresses a member's state",
  "Merging any membership reports in any order, grouping or repetition leaves every node with, per member, the information of the highest incarnation it has been told, never replacing newer information by older. A node accused of being down answers with a higher incarnation that wins over the accusation, and a report never alters what a node says about itself in any other way.",
  ["histories", "schedules"], "all sets, orders and duplications of membership reports, including accusations",
  "Tests merge one report.",
  ["pkg/backend/dist_memory.go", "internal/cluster/membership.go"], [("gossip merge and refutation", "pkg/backend/dist_memory.go")],
  ["membership after merge"])
p("C32", "Middleware observes calls without changing them",
  "With any stack of the provided middlewares around a cache, every call reaches the cache once with the same arguments and returns exactly what the cache returned, including errors. Each middleware records what it promises for every call, on success and failure alike.",
  ["inputs", "histories", "configurations"], "all middleware stacks, calls, arguments and outcomes",
  "Middleware has no behavioural tests over the whole service interface.",
  ["pkg/middleware/logging.go", "pkg/middleware/stats.go", "pkg/middleware/otel_metrics.go", "pkg/middleware/otel_tracing.go", "service.go"],
  [("service decorators", "pkg/middleware")], ["calls received by the wrapped service", "results"])
p("C33", "Management endpoints honour their access control and report the true state",
  "With management authentication configured, every management route refuses requests that do not pass it and performs no action; control routes additionally require the control authentication when one is configured. Admitted requests report the cache's actual configuration, counters and contents, and a control action has the effect its name says.",
  ["inputs", "configurations"], "all routes, methods, auth configurations and request credentials",
  "Tests call a few routes with auth accepting or rejecting.",
  ["management_http.go"], [("route registration with auth wrappers", "management_http.go")], ["HTTP responses", "cache state"])
p("C34", "Queued read repairs deliver the newest version once per peer and flush",
  "For every peer and key, the repair eventually sent is the newest of those queued since the last flush, and each queued key is sent to its peer in the next flush, which happens when a batch fills, at the configured interval, and on shutdown. Queueing never blocks on the network, never mixes peers, and later changes to a queued item do not change what is sent.",
  ["histories", "schedules"], "all enqueue sequences over peers, keys and versions, batch sizes and flush points",
  "Tests queue two repairs for one peer.",
  ["pkg/backend/dist_read_repair.go"], [("coalescing queue", "pkg/backend/dist_read_repair.go")], ["items the transport receives"])
p("C35", "The Redis backend stores and returns exactly the items written",
  "With a Redis or Redis Cluster backend every item set is read back equal, expires when its time-to-live says and not otherwise, and removing, clearing, counting and listing act exactly on the items stored by this cache. Server errors are reported to the caller and not turned into hits or silent successes.",
  ["histories", "inputs", "fault_sequences"], "all keys, values, TTLs, operation sequences and server faults",
  "There are no Redis tests that run without a server.",
  ["pkg/backend/redis.go", "pkg/backend/redis_cluster.go", "pkg/backend/redis_common.go", "pkg/backend/redis"], [("hash per item + key set", "pkg/backend/redis_common.go")],
  ["API results against a Redis protocol server"])
p("C36", "The failure detector removes dead members and never a responsive one",
  "A member that keeps answering probes, directly or through the configured relays, is never suspected, declared dead or removed, however many others are silent or sampled first; one that stops answering becomes suspect, is removed after the configured time and not before, stays removed until it comes back, and its ownership moves to the survivors. A suspect member that answers again, and a crashed one that restarts, is alive again in every view.",
  ["fault_sequences", "schedules", "configurations"], "all timing settings and per-member reachability timelines",
  "Tests watch one dead node in real time.",
  ["pkg/backend/dist_memory.go"], [("heartbeat loop", "pkg/backend/dist_memory.go")], ["membership over virtual time"])
p("C37", "Stopping a cache ends all its background work, in any configuration and order",
  "For every combination of options, constructing a cache or distributed node either fails leaving nothing running or yields one that can be used and stopped; after stopping, no background activity remains, repeated or concurrent stops are harmless, and operations racing with the stop neither panic nor hang.",
  ["configurations", "schedules", "histories"], "all option combinations, use patterns and stop points",
  "Tests stop a few fixed configurations.",
  ["hypercache_construct.go", "hypercache.go", "pkg/backend/dist_memory.go"], [("lifecycle of background loops", "hypercache_construct.go")],
  ["goroutines after stop"])

p("C38", "Connection and node settings reach what they configure",
  "Whatever options a Redis or Redis Cluster store is built with, in any combination and order, its client has exactly those settings: the last value given of each kind, and the documented default for the rest; a missing or blank address is refused. A server gets the configured credentials and database and nothing else, over TLS whenever TLS is configured, and nothing at all when it cannot prove its identity; a server that does not answer is given up on within the configured timeouts. The size limits and timeouts given for a node's peer-to-peer HTTP, and no others, apply to what it serves and calls. A distributed node built from a configuration behaves like one built from the same settings given as options, and further options override it.",
  ["configurations", "inputs"], "all option combinations, orders and values, server identities and credentials, and node configurations",
  "There are no tests of the stores or of the configuration constructor.",
  ["pkg/backend/redis/options.go", "pkg/backend/redis/store.go", "pkg/backend/rediscluster/options.go", "pkg/backend/rediscluster/store.go", "internal/dist/config.go", "internal/constants/redis.go", "pkg/backend/dist_http_server.go"],
  [("client construction", "pkg/backend/redis/store.go")], ["client options", "connections a server sees", "behaviour of the node"])

p("C39", "A server runs with exactly the settings it was given or refuses to start",
  "For every combination of the authentication settings (legacy token, auth file, OIDC, TLS and client certificates), a server answers each route of its client, management and peer listeners only for credentials those settings accept and that grant the route's scope: 401 for none, 403 for a missing scope, with the documented error envelope and no effect; it is open only when nothing at all is configured or anonymous access is asked for, and what it reports about a caller is what the settings say. Under TLS nothing is served in plaintext, under mTLS nothing without a certificate of the configured authority. Missing, malformed, partial or unusable security settings, an identity provider that cannot be verified, and an API address that cannot be bound end the process with an error before it serves anything, and no secret is ever written to the log. The other settings take effect as given, unusable ones as their documented default.",
  ["configurations", "inputs"], "all combinations of settings, routes, credentials, tokens and ways to get a configuration wrong",
  "Tests call handlers in process under a few fixed policies; the binary's start-up decisions are not run at all.",
  ["cmd/hypercache-server/main.go", "cmd/hypercache-server/oidc.go", "pkg/httpauth/policy.go", "pkg/httpauth/loader.go", "management_http.go"],
  [("start-up configuration and per-route gates", "cmd/hypercache-server/main.go"), ("OIDC verifier", "cmd/hypercache-server/oidc.go")],
  ["HTTP responses of running server processes", "exit status", "log"])

p("C40", "The Go client works against a live cluster while one known endpoint answers",
  "A Go client given any list of endpoints, in any order, with dead or refusing ones among them, and credentials in any form the servers accept, can write, read, batch and delete through a cluster of servers. While the cluster is whole every call succeeds and shows exactly what its caller last wrote, under the key it was written with; while servers are killed, stopped or coming back, each call either succeeds or ends with the error saying that no endpoint could serve it, and reads show only values that were written; once the cluster is whole again every call succeeds again without a new client. Calls with wrong credentials or a missing scope are refused with their own error and change nothing. A topology refresh shows the addresses at which live servers serve clients.",
  ["histories", "fault_sequences", "configurations"], "all call sequences of concurrent callers, endpoint lists, credentials and servers stopping and returning in between",
  "Client tests answer from stub servers; no test runs the client against the server it is written for.",
  ["pkg/client/client.go", "pkg/client/topology.go", "pkg/client/batch.go", "cmd/hypercache-server/main.go"],
  [("client calls", "pkg/client/client.go"), ("client API handlers", "cmd/hypercache-server/main.go")],
  ["results of client calls against running server processes"])

p("C41", "Cluster telemetry reports exactly what the cluster did",
  "Every operation moves a node's counters, latency histograms and traces by what really happened, whatever fails meanwhile: a write counts one attempt where it entered and one acknowledgement for each owner that stored it, a quorum failure is counted exactly when one is reported, calls forwarded to other nodes, stand-in writes, queued hints, read repairs, probes with their outcomes, suspected and removed members, sync rounds, purged deletes and drains exactly as often as they occur, and membership gauges show the membership. Metrics exported through OpenTelemetry are those numbers, each under its own name, until the node stops; each operation yields one span that lasts as long as it did, fails exactly when it fails and never contains a key.",
  ["histories", "fault_sequences", "schedules"], "all operation sequences, failures, timings, consistency levels and concurrent callers",
  "Tests look at single counters after one scripted call.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_latency.go", "pkg/backend/dist_versioning.go"],
  [("counters, histograms, metric registry and spans", "pkg/backend/dist_memory.go"), ("latency buckets", "pkg/backend/dist_latency.go")],
  ["Metrics", "LatencyHistograms", "exported metrics", "spans"])

p("C42", "Injected faults hit every call between nodes and nothing else",
  "A node given fault injection, in any order of options and even when its transport is replaced later, behaves exactly like one without while the drop rate is zero; at rate one no call of any kind reaches another node, each fails with the dedicated error as an unreachable peer would, and nothing else about the node changes. Drops and added latencies are counted exactly as often as they happen, a dropped call is not delayed, rates outside 0 to 1 count as the nearest bound, and changes take effect from the next call.",
  ["histories", "fault_sequences", "configurations"], "all operation sequences, rates, latencies, option orders and background activities",
  "Tests drop all calls of one write.",
  ["pkg/backend/dist_chaos.go", "pkg/backend/dist_memory.go"], [("fault-injecting transport", "pkg/backend/dist_chaos.go")],
  ["calls that reach the transport", "injection counters", "contents"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
