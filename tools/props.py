#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"observe_at": observe} if observe else {})}})

# ---------------------------------------------------------------- runtime
prop("R01", "In-memory queue: bounded FIFO, every item delivered exactly once",
 """Every item whose push reported success is delivered to exactly one successful pop, in the order in which the pushes took effect, and no pop ever delivers an item that was not pushed.
 At most ten items are held at a time: a push to a full queue and a pop from an empty queue wait until they can proceed or their context ends, and no waiter stays blocked while it could proceed.
 A call that reports false because its context ended has had no effect on the queue, and a call that can proceed at once does so even if its context has already ended.""",
 ["schedules", "histories"], "all interleavings of concurrent pushes, pops and context cancellations by a few callers, from every fill level of the queue",
 "The queue tests drive a handful of timed scenarios with sleeps; they fix one schedule each and never explore cancellation racing with delivery.",
 ["runtime/plugins/simplequeue/queue.go", "runtime/core/backend/reflect.go", "runtime/core/backend/queue.go"],
 [("Push/Pop over a capacity-10 channel with ctx.Done", "runtime/plugins/simplequeue/queue.go:Push,Pop")])

prop("R02", "In-memory cache: concurrent operations are atomic",
 """Put, get, delete and increment on the in-memory cache behave, for any concurrent callers, as if they were executed one at a time on a plain map; concurrent increments are never lost and each returns a distinct value.
 The multi-key operations perform each of their keys' single-key operations exactly once, reject key and value lists of different lengths without changing anything, and leave the destination of an absent key untouched.
 A lookup reports presence correctly, returns the value last stored, and reports an error rather than succeeding when the destination cannot hold that value.""",
 ["schedules", "histories"], "all interleavings of 2-3 callers with 1-3 operations each on colliding keys, and all sequential histories up to a bounded length over a small key and value alphabet",
 "cache_test.go runs single-threaded examples; lost updates and torn reads only appear under particular interleavings.",
 ["runtime/plugins/simplecache/cache.go", "runtime/core/backend/reflect.go"],
 [("RWMutex guarding the value map", "runtime/plugins/simplecache/cache.go")])

prop("R03", "Client pool: capacity, exclusive use, no lost wake-ups",
 """A client pool never has more live clients than its capacity, never hands one client to two holders at the same time, and reuses a returned client instead of building a new one whenever one is available.
 A caller that waits for a client is served as soon as one is returned or can be built, including when other callers' attempts to build a client fail, and otherwise gives up with an error exactly when its context ends; a failed or abandoned acquisition consumes no capacity.
 Once all callers are done the reported size and number of available clients equal the number of clients built and the number idle.""",
 ["schedules", "fault_sequences"], "all interleavings of 2-3 callers acquiring and releasing, pool capacities 1-2, and all success/failure answers of the client constructor and context cancellations",
 "clientpool_test.go runs three happy-path schedules; constructor failures and cancellation races are never exercised.",
 ["runtime/plugins/clientpool/clientpool.go", "plugins/clientpool/ir.go"],
 [("CAS on size, bounded channel of idle clients", "runtime/plugins/clientpool/clientpool.go:Pop,Push")])

prop("R04", "Runtime container: each node built once, shared, and run once",
 """A node requested from a runtime container is built on first use, exactly once even under concurrent requests, after which every request returns that same instance; a failed build is reported to its requester, caches nothing, and can be retried.
 A name is resolved in the nearest enclosing container that defines it; a required argument missing from the container and all its ancestors makes the container's construction fail, and a value comes from the explicit setting, else the command line, else the environment variable.
 A node with a background run loop has that loop started exactly once; waiting on a container returns only after the run loops of it and its descendants have ended, and shutting it down or a run loop failing cancels the container and its descendants but not its ancestors.""",
 ["schedules", "histories", "configurations"], "all interleavings of 2-3 concurrent requests on container chains of depth up to 3; all small dependency graphs, build-failure patterns and argument-source combinations",
 "namespace_test.go checks a few sequential examples with depth at most 2; concurrency and failure patterns are not tested, yet generated client pools request nodes from many request goroutines.",
 ["runtime/plugins/golang/namespace.go"],
 [("built/buildFuncs maps, parent fallback", "runtime/plugins/golang/namespace.go:Get"), ("wait groups of container and parent", "runtime/plugins/golang/namespace.go:Get,Await,Shutdown")])

prop("R05", "Service registry: one client, chosen by default or by setting",
 """A service registry constructs the selected client at most once and every caller, concurrent or later, receives that same client or that same construction error, never an unset value.
 The selected client is the one explicitly set as default, otherwise the first one registered; selecting an unknown client or having none registered yields an error.""",
 ["schedules", "histories"], "all sequences of register/select/get up to a bounded length and all interleavings of 2-3 concurrent gets",
 "The only test registers one constructor and checks nothing about concurrency or selection.",
 ["runtime/core/registry/registry.go"],
 [("isBuilt flag with cached client and error", "runtime/core/registry/registry.go:Get")])

prop("R06", "In-memory document store: queries select exactly the matching documents",
 """A query on the in-memory document database returns exactly the stored documents that satisfy the filter under MongoDB's filter semantics, in insertion order, for equality, nested paths, implicit array membership and the operators the store documents as supported, alone or combined.
 An unsupported or malformed filter yields an error rather than a wrong result, and no query crashes the caller or changes stored data.""",
 ["inputs"], "all filters up to a bounded nesting over a small operator/field/value alphabet, against all documents over a small shape alphabet",
 "The tests exercise a list of hand-picked filters over one data set; operator combinations and the scalar/array/missing-field corner cases form a product they cannot sample.",
 ["runtime/plugins/simplenosqldb/query/filter.go", "runtime/plugins/simplenosqldb/query/parsefilter.go", "runtime/plugins/simplenosqldb/nosqldb.go"],
 [("filter parser and evaluator", "runtime/plugins/simplenosqldb/query")])

prop("R07", "In-memory document store: updates change exactly what they say",
 """An update applied to the in-memory document database produces the document that MongoDB's semantics define for the supported update operators, alone or combined, leaves every other field, array element and document untouched, and reports the number of documents it matched.
 An update that is malformed or not applicable yields an error, leaves the stored documents unchanged, and never crashes the caller.""",
 ["inputs"], "all updates of up to two operators over a small operator/path/value alphabet applied to all documents over a small shape alphabet",
 "The tests exercise a list of hand-picked updates on one data set; the product of operators, paths and document shapes is not sampled.",
 ["runtime/plugins/simplenosqldb/query/update.go", "runtime/plugins/simplenosqldb/query/parseupdate.go", "runtime/plugins/simplenosqldb/nosqldb.go"],
 [("update parser and appliers", "runtime/plugins/simplenosqldb/query")])

prop("R08", "In-memory document store: CRUD histories match a collection model",
 """Any sequence of insert, find, update, replace, upsert and delete operations on the in-memory document database leaves it with the documents, order and identifiers of a plain list-of-documents model, and every operation reports the counts, existence flags and errors of that model.
 Stored documents are isolated from callers: neither modifying a value after handing it in, nor modifying a result, changes what is stored, and an already returned result does not change when the store does.
 Single operations issued concurrently behave as if executed one at a time.""",
 ["histories", "schedules"], "all operation sequences up to a bounded length over a small document alphabet, and all interleavings of two concurrent operations",
 "The tests check individual operations from one fixed initial state; aliasing between caller and store and concurrent use need particular histories.",
 ["runtime/plugins/simplenosqldb/nosqldb.go", "runtime/core/backend/nosqldb.go"],
 [("SimpleCollection item list, SimpleCursor", "runtime/plugins/simplenosqldb/nosqldb.go")])

prop("R09", "Copying results into destinations preserves the value or errors",
 """Copying a value produced by a backend into a caller's destination either yields a destination equal to the value, converting lists element by element and in order, or returns an error when the destination cannot represent it; it never panics and never truncates, and a value that was copied to the same destination before and that the caller kept does not change.
 This holds for every combination of nil, scalar, struct, pointer, interface and (nested) list values and destinations.""",
 ["inputs"], "all pairs of source and destination types and values up to a bounded nesting depth",
 "Only the type pairs that the cache and queue tests happen to use are exercised.",
 ["runtime/core/backend/reflect.go"], [("CopyResult, GetPointerValue, SetZero", "runtime/core/backend/reflect.go")])

prop("R10", "Trace context survives encoding and decoding",
 """A span context encoded by the tracing library and decoded by the runtime is the same span context (trace id, span id, flags, state and remoteness), for every valid span context.
 Decoding a string that does not describe a valid span context yields an error and never panics.""",
 ["inputs"], "all span contexts over an alphabet of boundary ids, flags and states, and all single-field corruptions of their encodings",
 "There is no test of the decoder.",
 ["runtime/core/backend/trace.go"], [("GetSpanContext", "runtime/core/backend/trace.go")])

prop("R11", "Workload engine: every issued request is counted exactly once",
 """When an open-loop workload run returns, every request it issued has finished and contributes exactly one statistic, no request is issued after the run's duration or after its context is cancelled, and the run does return whatever the order and duration of the requests.
 Request kinds are selected only among those with a positive proportion and in keeping with their proportions, and a workload is accepted exactly when its proportions total one hundred.
 The statistics file contains one line per statistic with its start, duration and error flag.""",
 ["schedules", "configurations"], "all interleavings (to a preemption bound) of generator, request and collector activities for short runs with varying request latencies, and all proportion tables over a small alphabet",
 "There is no test of the engine; its completion logic depends on the interleaving of four kinds of goroutines.",
 ["runtime/core/workload/engine.go", "runtime/core/workload/workload.go"],
 [("stop/done channels, wait group, stat channel", "runtime/core/workload/engine.go:RunOpenLoop")])

prop("R12", "External caches and queues keep the backend contract",
 """An application that is wired with Redis or Memcached instead of the in-memory cache, or with RabbitMQ instead of the in-memory queue, observes what the backend interfaces promise. A Get or Mget yields exactly the value that was last stored under the key, whatever the destination held before, and leaves the destinations of absent keys alone; deleting an absent key succeeds; Incr counts an absent key from zero; numbers of keys and values that differ are errors, and empty lists are not.
 Operations of several clients on one key take effect atomically. A pushed item is popped exactly once, in order, as an equal value of its type, and Pop returns when its context ends.
 A server that is down, refuses a command or holds a malformed value, and a value that cannot be encoded, result in an error: never in a panic, a false success or an endless wait.""",
 ["histories", "schedules", "fault_sequences"], "all histories of a few cache or queue operations, all pairs of stored values and earlier contents of destinations, all interleavings of the commands of two clients, and all failures of the server",
 "The tests of these backends need running servers and only store a few values; absent keys, failures, filled destinations and interleavings of clients do not occur in them.",
 ["runtime/plugins/redis/cache.go", "runtime/plugins/memcached/cache.go", "runtime/plugins/rabbitmq/queue.go", "runtime/core/backend/cache.go", "runtime/core/backend/queue.go"],
 [("interface that all caches implement", "runtime/core/backend/cache.go:Cache"), ("JSON encoding of values", "runtime/plugins/redis/cache.go")])

# ---------------------------------------------------------------- compiler core
prop("C01", "Wiring: definitions, aliases and properties resolve as declared",
 """Within a wiring spec every name resolves, through any chain of aliases, to its latest definition; defining a name removes an alias of that name and vice versa, and lookups never loop.
 Properties set or added on a name, or on an alias of it, are visible under both, keep their order, and a single-valued read of a multi-valued property or a read into the wrong type is an error; errors recorded while wiring are reported and never dropped.""",
 ["histories"], "all sequences of wiring operations up to a bounded length over two or three names",
 "The wiring tests build whole applications; they never interleave redefinition, aliasing and property operations.",
 ["blueprint/pkg/wiring/wiring.go", "blueprint/pkg/wiring/reflect.go"],
 [("defs, aliases and property maps", "blueprint/pkg/wiring/wiring.go")])

prop("C02", "Building an application: each node built once, in its own namespace",
 """When an application is built, every requested node and each of its dependencies is built exactly once in the namespace its declaration places it in, shared by everything that refers to it, and appears as a node of exactly that namespace and as an edge of each namespace that merely uses it.
 A failure to build or place any node fails the build with an error that mentions that node's failure; the build never succeeds with a missing or nil node, never panics, and never loops forever.""",
 ["programs", "fault_sequences"], "all dependency graphs over a few named nodes and nested namespaces, with every placement and every single build or handler failure",
 "The wiring tests compile a fixed list of example specs and never inject build failures.",
 ["blueprint/pkg/wiring/namespace.go", "blueprint/pkg/wiring/application.go", "blueprint/pkg/coreplugins/namespaceutil/namespace.go"],
 [("namespace Get/Put/Defer with Seen/Added maps", "blueprint/pkg/wiring/namespace.go"), ("namespace handler Accepts/AddNode/AddEdge", "blueprint/pkg/coreplugins/namespaceutil/namespace.go")])

prop("C03", "Modifiers compose in the declared order around a service",
 """Applying client-side and server-side modifiers to a service yields exactly one wrapper of each applied modifier, client modifiers ordered from the caller towards the service and server modifiers ordered from the network towards the service in the documented nesting, whatever other modifiers are applied and in whatever order.
 Every client of the service goes through the full client chain and every server-side chain ends at the one service instance; modifiers that only affect one service leave all others unchanged. A modifier applied to something that it cannot wrap is a build error.""",
 ["programs"], "all sequences of up to three or four modifiers from the plugin set applied to services of a small application, with and without process boundaries",
 "Each plugin has one or two example specs; the product of modifiers and orders is not tested.",
 ["blueprint/pkg/coreplugins/pointer/pointer.go", "plugins/retries/wiring.go", "plugins/timeouts/wiring.go", "plugins/circuitbreaker/wiring.go", "plugins/clientpool/wiring.go", "plugins/loadbalancer/wiring.go", "plugins/latency/wiring.go", "plugins/healthchecker/wiring.go", "plugins/http/wiring.go", "plugins/grpc/wiring.go", "plugins/goproc/wiring.go", "plugins/linuxcontainer/wiring.go"],
 [("pointer source/destination modifier chains", "blueprint/pkg/coreplugins/pointer/pointer.go")])

prop("C04", "Compilation is deterministic",
 """Building the same wiring spec any number of times yields the same application: the same nodes, wired the same way, with the same assigned ports and configuration, and generating its artifacts yields the same files with the same contents.
 This does not depend on hash-map iteration order.""",
 ["programs", "schedules"], "all example and enumerated wiring specs, under explored map iteration orders",
 "The tests compare IR strings of one run; map iteration order is random and sampled once.",
 ["blueprint/pkg/wiring/namespace.go", "blueprint/pkg/wiring/application.go", "blueprint/pkg/coreplugins/address/portassignment.go", "plugins/golang/gogen/imports.go", "plugins/golang/ir.go"],
 [("ordered node/edge lists, sorted imports", "blueprint/pkg/wiring/namespace.go, plugins/golang/gogen/imports.go")])

prop("C05", "Port assignment: distinct, valid, and preferred ports honoured",
 """Every listening address of a built namespace is given a port between 1 and 65535, no two addresses in the same namespace share a port, addresses already assigned keep theirs, and a preferred port is honoured unless it is taken.
 Every dialer of an address is given the same address that the server of that name listens on, and an address with no server or with conflicting assignments is a build error.""",
 ["configurations"], "all multisets of up to four addresses over boundary preferred ports, pre-assigned ports and hostnames, and all client/server placements",
 "The tests never create conflicting preferred ports or boundary values.",
 ["blueprint/pkg/coreplugins/address/portassignment.go", "blueprint/pkg/coreplugins/address/wiring.go", "blueprint/pkg/coreplugins/address/ir.go"],
 [("AssignPorts, CheckPorts, ResetPorts", "blueprint/pkg/coreplugins/address/portassignment.go")])

prop("C06", "Go source parsing reports the types that the Go compiler sees",
 """For every interface, struct, function and method declared in a workflow module, the parser reports the same names, parameter and result types, fully qualified, as the Go type checker does for the supported type grammar, for every import alias, nesting and declaration style.
 A construct it does not support is reported as an error or left out, never mis-described as a different type.""",
 ["programs"], "all type expressions up to a bounded depth over the supported constructors, in every declaration position and import style",
 "The parser is only exercised on the example workflows.",
 ["plugins/golang/goparser/parser.go", "plugins/golang/goparser/moduleset.go", "plugins/golang/goparser/module.go", "plugins/golang/gocode/typename.go", "plugins/golang/gocode/service.go"],
 [("ParsedFile.ResolveType and loaders", "plugins/golang/goparser/parser.go")])

prop("C07", "Generated files equal their template output, whatever existed before",
 """After code generation, every generated file's contents are exactly the output for the current wiring spec, independent of what an earlier generation left in the same place, and different nodes never silently overwrite each other's differing files.
 A generated import list names every package that the file uses exactly once, under distinct local names, and each type is printed with the name under which its package was imported.""",
 ["programs", "histories"], "all pairs of successive generations and all sets of up to three packages with colliding names over all supported type constructors",
 "No test runs code generation.",
 ["plugins/golang/gogen/template.go", "plugins/golang/gogen/imports.go", "plugins/golang/gogen/modulebuilder.go", "plugins/golang/gogen/workspacebuilder.go", "plugins/linuxcontainer/linuxgen/template.go", "plugins/dockercompose/dockergen/template.go"],
 [("ExecuteTemplateToFile, Imports", "plugins/golang/gogen")])

# ---------------------------------------------------------------- generated code
prop("G01", "Compiled applications behave as the workflow run in one process",
 """For every wiring of a workflow, the generated application compiles and every call through a generated client of a service returns the same results and an error exactly when the directly composed workflow service would, whatever transports, process boundaries and transparent modifiers are placed in between.
 Every service, backend and argument in the generated process is the one the wiring spec names.""",
 ["programs", "inputs"], "all combinations of deployment shape and transparent modifiers up to a bound, and a catalogue of argument and result types and values",
 "No test generates, compiles or runs an application.",
 ["plugins/golang", "plugins/goproc", "plugins/http", "plugins/workflow", "plugins/simple", "plugins/golang/gogen/namespacebuilder.go"],
 [("code generation pipeline", "plugins/golang/ir.go, plugins/goproc/deploy.go")])

prop("G02", "Retries: bounded attempts, first success wins, last error reported",
 """A call through a service wrapped with retries makes at least one attempt and at most the configured number, stops at the first success, and returns that success's results unchanged; if every attempt fails it returns an error.
 Time-bounded, rate-limited and delayed variants stop when their time or the caller's context ends, wait the configured delay between attempts, and never exceed the configured rate.""",
 ["fault_sequences", "configurations"], "all success/failure answer sequences up to the bound for all retry variants and boundary parameters, under virtual time",
 "No test generates or runs the wrapper.",
 ["plugins/retries/codegen.go", "plugins/retries/ir.go", "plugins/retries/wiring.go"],
 [("retry client templates", "plugins/retries/codegen.go")])

prop("G03", "Timeouts: calls return in time and never mix results",
 """A call through a service wrapped with a timeout returns within the configured time: with the service's own results and error if it answers in time, and otherwise with an error.
 A late answer never alters what was returned, and no activity or memory is left behind once the service has answered.""",
 ["schedules"], "all interleavings of service completion, timer expiry and caller cancellation",
 "No test generates or runs the wrapper; the interesting cases are races between completion and expiry.",
 ["plugins/timeouts/codegen.go"], [("timeout client template", "plugins/timeouts/codegen.go")])

prop("G04", "Circuit breaker: opens on failure rate, recovers after its interval",
 """A circuit breaker forwards calls and returns their results unchanged while closed, opens when, over the current interval, at least the minimum number of requests was made and the failure rate reaches the threshold, and while open fails calls without reaching the service.
 It admits calls again after its interval, counts every forwarded call once even under concurrency, and never blocks permanently.""",
 ["schedules", "fault_sequences"], "all outcome sequences and elapsed-time choices up to a bounded length and all interleavings of two concurrent calls",
 "No test generates or runs the wrapper.",
 ["plugins/circuitbreaker/codegen.go"], [("circuit breaker template", "plugins/circuitbreaker/codegen.go")])

prop("G05", "Load balancer: each call goes to exactly one replica and all are used",
 """A call through a load balancer is forwarded to exactly one of the configured replicas with its arguments and results unchanged.
 Every replica named in the wiring spec is reachable, none is counted twice, and a balancer without replicas is refused rather than crashing.""",
 ["configurations", "inputs"], "all replica counts up to a bound, all outcomes of the replica choice, all single-replica failures",
 "No test generates or runs the balancer.",
 ["plugins/loadbalancer/codegen.go", "plugins/loadbalancer/ir_balancer.go", "plugins/loadbalancer/wiring.go"],
 [("load balancer template", "plugins/loadbalancer/codegen.go")])

prop("G07", "Injected failures and delays are what was configured",
 """A service with injected failures fails a call with exactly the configured probability: with 0 never, with 100 always. A call that is made to fail returns an error and does not reach the service; every other call reaches it exactly once, unchanged, and returns what it returned. A random delay is between zero and the configured maximum, both included and all values equally likely; a fixed latency delays every call by exactly that time, and a negative one not at all.
 Every service has its own configuration, whichever other services of the same interface are modified, several injectors of one service add up in any order, concurrent calls do not delay each other, and a configuration that cannot be understood is refused rather than ignored.""",
 ["inputs", "schedules"], "all random draws of a call for a set of configurations, and all interleavings of two calls",
 "The repository has no tests of the code that these plugins generate, and probabilities and random delays cannot be settled by a sample of runs.",
 ["plugins/faultinjector/probabilistic/codegen.go", "plugins/faultinjector/delay/codegen.go", "plugins/faultinjector/wiring.go", "plugins/latency/codegen.go", "plugins/latency/wiring.go"],
 [("meaning of the parameters", "plugins/faultinjector/wiring.go:AddProbabilisticFailures")])
prop("G06", "Network message conversion is lossless",
 """Converting a service's arguments or results to a network message and back yields an equal value for every type the plugin accepts; a type it cannot carry is refused when the application is compiled.
 Conversion never panics, whatever the values, including zero values, nil references, and empty and nested collections.""",
 ["inputs", "programs"], "all supported parameter types up to a bounded nesting depth with boundary values",
 "No test generates or runs the conversion code.",
 ["plugins/grpc/grpccodegen/marshallgen.go", "plugins/grpc/grpccodegen/protogen.go", "plugins/thrift/thriftcodegen/marshallgen.go"],
 [("marshall/unmarshall code generation", "plugins/grpc/grpccodegen/marshallgen.go")])

# ---------------------------------------------------------------- deployment
prop("D01", "Container deployments: every address and setting reaches its container",
 """In a generated container deployment every container instance is declared once with its image or build, every configuration value and address a process in it needs is supplied under the variable name that the process reads, and every dialled address names the container and port on which the target listens.
 The generated description is well-formed and publishes no host port twice.""",
 ["programs", "configurations"], "all small applications over the container-level plugins, with all placements of services and backends up to a bound",
 "No test generates a deployment.",
 ["plugins/dockercompose/deploy.go", "plugins/dockercompose/dockergen/dockercompose.go", "plugins/linuxcontainer/deploy.go", "plugins/linux/util.go"],
 [("DockerComposeFile instances, env and port maps", "plugins/dockercompose")])

prop("D02", "Launch scripts start every process once, after what it needs",
 """A generated launch script starts each process of the container exactly once, with each of its declared dependencies evaluated before it, and waits for them.
 If a required variable is missing the script fails with a message naming it before starting anything, and a failing dependency makes it exit with an error.""",
 ["configurations", "fault_sequences"], "all dependency graphs over up to four nodes, all subsets of provided variables, every single failing node",
 "No test generates or executes a launch script.",
 ["plugins/linuxcontainer/linuxgen/run.sh.go", "plugins/linuxcontainer/linuxgen/runfunc.go", "plugins/goproc/linuxgen/goproc_runfunc.go"],
 [("run.sh template and per-node functions", "plugins/linuxcontainer/linuxgen")])

# ---------------------------------------------------------------- example applications
prop("A01", "Hotel reservation never oversells and availability reflects bookings",
 """For every sequence of reservations and queries, made one after another, the rooms reserved in a hotel for any night never exceed its capacity, and a reservation or availability answer counts every booked night of every earlier reservation, whether it is answered from the cache or from the database.
 A refused or invalid reservation (no free rooms, a negative number of rooms, invalid dates, no hotel) has no effect, and a failed backend call is reported to the caller and never read as free rooms.""",
 ["histories"], "all sequences of up to three or four reservations and availability queries over overlapping date ranges, with a warm, cold or evicted cache",
 "The tests make one reservation on one date range.",
 ["examples/dsb_hotel/workflow/hotelreservation/ReservationService.go"],
 [("MakeReservation, CheckAvailability", "examples/dsb_hotel/workflow/hotelreservation")])

prop("A02", "Social graph: follow relations are symmetric and cache-independent",
 """After any sequence of follow and unfollow operations, one user is listed as another's followee exactly when the latter is listed as the former's follower, exactly when the last operation on the pair was a follow.
 The answers are the same whether they come from the cache or from the database, and nobody is listed twice. Following an unknown user is refused.
 An operation whose backend call fails reports the failure (a query may also still answer correctly), and repeating it puts everything right.""",
 ["histories"], "all follow/unfollow sequences up to a bounded length over three users, with the cache warm, cold or evicted at any point",
 "The tests follow and read back one pair through a warm cache.",
 ["examples/dsb_sn/workflow/socialnetwork/SocialGraphService.go"],
 [("Follow, Unfollow, GetFollowers, GetFollowees", "examples/dsb_sn/workflow/socialnetwork")])

prop("A03", "Timelines list each post once, in order, whatever the cache holds",
 """Page [start:stop] of a user timeline is that part of all posts the user wrote, newest first; page [start:stop] of a home timeline is that part of all posts by the user, by those the user followed at the time, or mentioning the user, in the order they were written, each once. Pages are clipped to the posts there are, and are the same whether entries come from the cache, the database or both.
 Reading a list of posts by id gives each existing one once, cached or not. Identifiers generated by one unique-id service for distinct posts are distinct, however many are requested per millisecond and concurrently.""",
 ["histories", "schedules"], "all sequences of writes and reads up to a bounded length with the cache warm, cold or evicted, all page boundaries, all bounded patterns of bursts of identifier requests, and concurrent identifier requests",
 "The tests write one or two posts and read the full range once.",
 ["examples/dsb_sn/workflow/socialnetwork/UserTimelineService.go", "examples/dsb_sn/workflow/socialnetwork/HomeTimelineService.go", "examples/dsb_sn/workflow/socialnetwork/UniqueIdService.go", "examples/dsb_sn/workflow/socialnetwork/PostStorageService.go"],
 [("timeline cache/database merge", "examples/dsb_sn/workflow/socialnetwork")])

prop("A04", "Shopping carts hold exactly the items added, per session",
 """After any sequence of add, update, remove, merge and delete operations, each session's cart contains exactly the items and quantities of a per-session multiset model, and operations on one session's cart never affect another's.
 Removing or updating an absent item and operating on an absent cart behave as the service documents. An operation whose database call fails reports it and leaves each cart as it was before or as it would be after; a failed merge loses no items.""",
 ["histories", "fault_sequences"], "all operation sequences up to a bounded length over two carts and two items, with every single failing database call",
 "The tests run one example sequence per operation.",
 ["examples/sockshop/workflow/cart/cartservice.go"],
 [("cart service over a document store", "examples/sockshop/workflow/cart")])

prop("A05", "Orders are charged, shipped and recorded exactly once",
 """A successfully placed order is recorded once under the customer's id with the cart's items, its total, address and card, results in exactly one shipment that is queued and recorded, and empties the ordered cart; the total is the price of the items plus the flat shipping fee.
 An order that is refused (payment declined, empty cart, unknown or malformed customer, address or card) or that fails before its shipment was queued is not recorded, and nothing is shipped for it; only emptying the cart, the last step, may fail and leave a placed order, and that failure is reported.
 Every queued shipment is eventually marked as shipped by the queue consumer, also when updating its status fails now and then.""",
 ["histories", "fault_sequences"], "all short order histories with every single failing downstream call",
 "The tests place one order on the happy path.",
 ["examples/sockshop/workflow/order/orderservice.go", "examples/sockshop/workflow/shipping/shippingservice.go", "examples/sockshop/workflow/queuemaster/queuemaster.go"],
 [("NewOrder orchestration", "examples/sockshop/workflow/order/orderservice.go")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
