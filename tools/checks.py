"""The checks: for each property the harness passes that decide it."""
RT = "github.com/blueprint-uservices/blueprint/runtime/"
BP = "github.com/blueprint-uservices/blueprint/"
H = "./checks/"
SCHED = "stateless model checking of the real code: all schedules up to a deviation bound"
SEQ = "explicit enumeration of all bounded operation histories on the real code against a reference model"
ENUM = "bounded exhaustive enumeration of inputs on the real code against a reference evaluator"
GEN = "bounded exhaustive enumeration of programs: real code generation, compilation and execution"
TRUST_SCHED = " Trusted: the rewriting of the package under test (points, sync shims), testing/synctest, the reference model. Interleavings are sequentially consistent; a separate race-detector pass (where present) covers unsynchronised accesses."
TRUST_SEQ = " Trusted: the reference model; behaviour beyond the stated bounds is not covered."

def sched(pkg, inst, race=True, **kw):
    p = [dict(pkg=H + pkg, instrument=inst, **kw)]
    if race:
        p.append(dict(pkg=H + pkg, instrument=inst, race=True, run="TestRace", **kw))
    return p

CHECKS = {}
NOT_APPLICABLE = {}

def check(id, technique, note, passes, covers, **kw):
    CHECKS[id] = dict(technique=technique, note=note, passes=passes, covers=covers, **kw)

check("R01", SCHED, "Every schedule of the listed closed programs up to 2 (quick) deviations is executed on the real queue and judged by a linearizability search." + TRUST_SCHED,
    sched("r01", [RT + "plugins/simplequeue"], race=False),
    "all schedules (deviation bound per scenario) of 2-3 tasks with 1-2 queue operations each, initial fill 0/1/9/10, with and without context cancellation; linearizability against a bounded FIFO list, no spurious false, no lost wake-up, exact drain")
check("R02", SCHED + "; breadth-first sequential histories", "Sequential part: every operation from every reachable reference state; schedules: every interleaving of the listed programs up to the bound." + TRUST_SCHED,
    sched("r02", [RT + "plugins/simplecache"]),
    "sequential: breadth-first over reference states, all operations from each; schedules: all interleavings of 2-3 tasks with 1-2 operations on colliding keys, linearizability against a map; separate race-detector pass over the pairs")
check("R03", SCHED, "Every schedule of the listed programs with every constructor success/failure pattern is executed on the real pool." + TRUST_SCHED,
    sched("r03", [RT + "plugins/clientpool"]),
    "all schedules of 2-4 tasks acquiring/holding/returning, capacity 1-2, every initial idle count, every success/failure pattern of up to 2 failing constructions, context cancellation by a task or beforehand")
check("R05", SCHED + "; exhaustive sequential histories", "All register/select/get histories up to length 6 (quick) and all schedules of 2-3 concurrent gets on the real registry." + TRUST_SCHED,
    sched("r05", [RT + "core/registry"]),
    "all histories over {register 3 clients one of which fails, select 4 names, get} up to the bound; all schedules of 2-3 tasks with 1-2 gets, success and failure; race-detector pass")
check("R04", SCHED + "; exhaustive sequential histories and argument configurations", "All request histories of length 3 (quick) over all small definition placements in a chain of three containers, all argument-source combinations for two arguments, all schedules of the listed request/wait/shutdown programs on the real container." + TRUST_SCHED,
    sched("r04", [RT + "plugins/golang"]),
    "sequential: 2592 definition placements (plain, dependent, failing, running nodes in 3 nested containers) x all request histories; argument sources: all combinations of declared/required/optional/set/flag/env/parent for two names; schedules: 2-3 tasks requesting, waiting and shutting down in a tree of four containers, including failing builds and failing run loops; race-detector pass")
check("R09", ENUM, "Every pair of source value and destination type over 21 base types nested in lists up to depth 2 (quick) is copied by the real code, directly and through the cache and the queue." + TRUST_SEQ,
    [dict(pkg=H + "r09")],
    "all (value, destination type) pairs over 63 types, nil/typed-nil/empty/one/two/three-element lists; invalid destinations; reference: recursive assignability")
check("R10", ENUM, "Every span context over boundary ids, all 256 flag bytes and 8 trace states is encoded by the OpenTelemetry library and decoded by the real decoder; every listed corruption is refused." + TRUST_SEQ,
    [dict(pkg=H + "r10")],
    "all combinations of single-byte and dense ids, flags, states and remoteness; all truncations and single-field corruptions of a valid encoding")
check("R11", SCHED + "; exhaustive proportion tables and statistic lists", "Every schedule up to 2 deviations of short open-loop runs in virtual time, every outcome of the request draw, every proportion table over the alphabet, on the real engine." + TRUST_SCHED,
    sched("r11", [RT + "core/workload"]),
    "schedules of runs with 1-4 requests of zero, short, overlong, context-bound and explorer-chosen latency, with and without cancellation at the critical instants; all 100 draws for 13 proportion tables; all tables of up to 4 entries; all statistic lists of up to 4 entries over fresh and existing files")
check("R06", ENUM, "Every filter of the stated grammar is run against a store of every document of the stated alphabet, through FindMany and FindOne, and compared with an independent evaluator of MongoDB's semantics." + TRUST_SEQ,
    [dict(pkg=H + "r06")],
    "all single conditions (11 paths x all literals and operator arguments), all pairs of operators on a path, logical combinations up to depth 2, all listed malformed filters, on several hundred documents with nested documents and arrays")
check("R07", ENUM, "Every update of the stated grammar is applied, one document at a time and to many documents at once, and the whole collection is compared with an independent implementation of MongoDB's update semantics." + TRUST_SEQ,
    [dict(pkg=H + "r07")],
    "all single updates (6 operators x 23 paths x all values), all ordered pairs and a stated part of the triples of a reduced set, all listed malformed, unsupported and conflicting updates, on several dozen documents")
check("R08", SCHED + "; exhaustive sequential histories", "Every history of the stated length over the operation alphabet, from an empty and a filled collection, is compared step by step with a list-of-documents model; every schedule of the listed concurrent programs is judged by a linearizability search." + TRUST_SCHED,
    sched("r08", [RT + "plugins/simplenosqldb", RT + "plugins/simplenosqldb/query"]),
    "all histories of length 3 (quick) from an empty and from a filled collection over about 50 operations including failing ones, with every value handed in or returned scribbled over afterwards and every earlier cursor read again at the end; all schedules of 2-3 tasks with one operation each; race-detector pass over the pairs")
check("C01", SEQ, "Every history of definitions, aliases, properties and errors up to the bound, over three interchangeable names, is applied to a real wiring spec; everything visible of it, directly and while building, is compared with a reference model." + TRUST_SEQ,
    [dict(pkg=H + "c01", shards=8)],
    "all histories of length 5 (quick) over 22 operations on three names (up to renaming), all histories of length 3 (quick) with further property values (strings, nil, lists); every lookup, property read (single and multiple, into matching and wrong types) and the build of every name observed after each")
check("C02", "bounded exhaustive enumeration of wiring programs on the real compiler core against a reference semantics", "Every wiring program of the stated spaces is built by the real wiring package with real derived namespaces and compared with a reference: nodes and edges of every namespace, number of builds, instance seen by every dependent, and failures." + TRUST_SEQ,
    [dict(pkg=H + "c02", shards=8)],
    "all dependency graphs (including cyclic) over three nodes x {get, instantiate} x node kinds x one or two initial requests in a tree of four namespaces; all flag combinations (failing, nil, proxy, metadata, undefined, putting further nodes) and aliases on acyclic graphs; refusing handlers; acyclic graphs of four nodes; building all definitions")
check("C03", ENUM.replace("inputs", "wiring specs"), "Every sequence of modifiers up to the stated length is applied with the real plugins to a service with one or two clients, the application is built, and the wrappers that each client's calls go through are read off the resulting graph by reflection." + TRUST_SEQ,
    [dict(pkg=H + "c03", shards=8)],
    "14 modifiers (5 kinds of retries, timeout, circuit breaker, client pool, health check, latency, 2 fault injectors, govector, opentelemetry): all sequences of up to 2 x 3 transports x 4 placements x 1-2 clients, all sequences of 3 of 8 of them (quick), 168 sequences of all 14, pairs of differently modified services, modifiers applied after the transport, to names that are not services, and to the instances behind a load balancer")
check("C04", ENUM + " of map iteration orders", "The real compiler is rebuilt with every iteration over a hash map in its packages under the control of the explorer; every spec is compiled under every explored choice of orders and the nodes and all generated files are compared with those of sorted order.",
    [dict(pkg=H + "c04", shards=8, instrument=["compiler"], instrument_flags=["-only-maps"])], grpc=True, covers=
    "six specs (docker-compose with gRPC, Jaeger, tests and two deployments; kubernetes with HTTP and Zipkin; services with several candidate interfaces, structs and constructors; one process; a stack of tracing and retries over gRPC; the sockshop example), seven more in the thorough tier (six of them examples): all maps sorted, reversed, rotated, swapped; every place that iterates over a map in every other order (of two keys the other one, else three orders, five in the thorough tier) with all others sorted; every two places reversed in the thorough tier; once more in the same process")
check("R12", SEQ + "; all interleavings of commands", "The real clients talk over loopback connections to a server in the harness that keeps to the protocol of Redis or Memcached (the client libraries are the real ones); the RabbitMQ plugin runs on a stand-in for the AMQP library with an in-process broker. Every history runs on the in-memory implementation, the external ones and a model; for two clients, the server lets their commands take effect in every possible order and the results must be explained by some order of the operations." + TRUST_SEQ,
    [dict(pkg=H + "r12")],
    "caches: all histories of length 3 (quick) or 4 of 26 operations over two keys and four values (put, get, delete, incr, mset and mget incl. absent, repeated, empty and mismatched keys), in memory, Redis and Memcached; 37 values of many types into destinations holding each other; all programs of two clients with two operations each x all orders of their commands; every operation with a server that is down, refuses, has restarted or holds garbage, and with values that cannot be encoded. Queues: all histories of length 3 (quick) or 4 of pushes of 11 values and pops; failures")
check("C05", ENUM, "Every list of up to 4 (quick) addresses over the stated ports and preferences is assigned by the real code; every generated environment for up to four addresses; every wiring of three services with servers and callers in two boxes is built by the real compiler core and its addresses compared with a reference." + TRUST_SEQ,
    [dict(pkg=H + "c05", shards=8)],
    "all lists of up to 4 addresses over 5 assigned x 6 preferred ports incl. the ends of the range; exhaustion of the port space; assigning again and after clearing; all presence patterns of bind/dial for 4 addresses x 8 first ports of the generated .env files; all placements, call graphs, server defects and requests of three addressed services")
check("A04", SEQ, "Every history of the stated length over the cart operations, and every operation in every reachable state with small quantities, runs on the real cart service over the real in-memory document store and is compared with per-session multisets; every backend call of every operation is made to fail once." + TRUST_SEQ,
    [dict(pkg=H + "a04")],
    "all histories of length 3 (quick) over 36 operations on two carts and two items (add, update incl. non-positive, remove, delete, merge incl. with itself), with unusual names at length 2; all operations in every reachable state with quantities up to 4; a failure of every backend call, before or after it took effect, in all histories of length 2+1")
SOCK = BP + "examples/sockshop/workflow/"
check("A05", ENUM + "; stateless model checking of the real code: all schedules up to a deviation bound", "Every combination of order request and stored data, every failing backend call, every sequence of four orders, and every schedule (1 deviation, quick) of orders running against the queue master, on the real sockshop services over the real in-memory backends." + TRUST_SCHED,
    [dict(pkg=H + "a05", instrument=[SOCK + "order", SOCK + "shipping", SOCK + "queuemaster", RT + "plugins/simplequeue"])],
    "single orders: all customers/addresses/cards (missing, unknown, malformed, own, somebody else's) x carts x contents x payment outcomes x full queue; failure of each backend call; all sequences of 4 orders by two customers over three carts; schedules: 1-2 orders against the queue master with 0/9/10 shipments queued before and 0-2 failing status updates")
check("G02", GEN + " under virtual time; " + SCHED, "Every retries configuration of the list is generated by the real plugin, compiled and built by its generated namespace; every sequence of answers, times and context ends of the stated spaces is played under virtual time and compared with the configuration's promise." + TRUST_SEQ,
    [dict(pkg=H + "g02", instrument_gen=["retries"]), dict(pkg=H + "g02", instrument_gen=["retries"], race=True, run="TestRace")], gen="g02",
    covers="40 configurations of all six variants with boundary parameters x 3 methods x all answer sequences (success, failure, late success, late failure) of up to 5 attempts x 6 ends of the context; all histories of 4 calls of the token-based variants; two differently configured services of one interface; schedules of two concurrent calls")
check("G03", SCHED + " on generated code", "Every schedule up to the bound of one and two calls whose service answers before, at and after the timeout is executed on the code that the plugin generates." + TRUST_SCHED,
    [dict(pkg=H + "g03", instrument_gen=["timeouts"]), dict(pkg=H + "g03", instrument_gen=["timeouts"], race=True, run="TestRace")], gen="g03",
    covers="all schedules of single calls (3 methods x 4 latencies x success/failure x heeding the context or not x 6 ends of the caller's context) and of pairs of calls of one and of two services with different timeouts; results, instant of return, activity left behind; race-detector pass")
CB = "github.com/mercari/go-circuitbreaker"
check("G04", ENUM + " of call histories under virtual time on generated code; " + SCHED, "Every history of calls and pauses of the stated spaces, and every schedule up to the bound of concurrent calls, runs on the code that the plugin generates, compiled against a stand-in for the circuit breaker library (not available offline) with the library's documented behaviour." + TRUST_SCHED,
    [dict(pkg=H + "g04", instrument=[CB], instrument_gen=["cb"]), dict(pkg=H + "g04", instrument=[CB], instrument_gen=["cb"], race=True, run="TestRace")], gen="g04",
    covers="6 configurations (minimum 0-5, rate 0.2-1, interval 100ms-30min) and two breakers in one process: all sequences of 4 steps from 3 pauses x 4 kinds of call (success, failure, both with an ended context), of 9 calls with one pause, of 6 calls with pauses after opening; schedules of three concurrent calls before, while and after the breaker is open, with later calls that observe the counts (linearizability against the breaker model)")
check("G05", SCHED + " on generated code", "Every schedule up to the bound of the listed calls is executed on the balancers that the plugin generates." + TRUST_SCHED,
    [dict(pkg=H + "g05", instrument_gen=["lb"]), dict(pkg=H + "g05", instrument_gen=["lb"], race=True, run="TestRace")], gen="g05",
    covers="balancers over 1-5 replicas, over part of the services, two in one process, one over another, with a retrying client, declared by interface and by implementation; balancers without replicas and over a missing service; sequences of up to 15 calls and all schedules of 2-3 tasks with 1-2 calls, succeeding and failing; race-detector pass")
check("G07", ENUM + " of all random draws on generated code; " + SCHED, "Every draw of the random generator is offered to the explorer, and the outcomes are counted with the probability of their draws; every schedule up to the bound of two calls is executed." + TRUST_SCHED,
    [dict(pkg=H + "g07", instrument_gen=["latencyinjector", "delay", "prob_failure"]), dict(pkg=H + "g07", instrument_gen=["latencyinjector", "delay", "prob_failure"], race=True, run="TestRace")], gen="g07",
    covers="failure probabilities 0, 1, 37, 50, 99 and 100, random delays up to 0, 1, 3 and 99 ms, fixed latencies (zero, negative, fractions, minutes), combinations in several orders, among unmodified services of the same interface; 3 methods x success/failure x latency of the service with all draws and their exact probabilities; schedules of two concurrent calls of one and of two services; an unusable latency; race-detector pass")
check("G06", GEN, "For every parameter type of the grammar, both transports' real code is generated and compiled; every boundary value is sent through the generated client and server over a real connection, and what the service and the caller receive is compared with what was sent." + TRUST_SEQ + " gRPC is version 1.38.0 and protoc the installed one; protoc-gen-go-grpc and gorilla/mux are stand-ins (harness/cmd, stubs/mux).",
    [dict(pkg=H + "g06")], gen="g06", grpc=True,
    covers="all basic types, slices, maps (all key types x string, string x all value types), pointers of them, ten struct shapes (nested, recursive, with collections and pointers) plain and inside slices, maps and pointers, 58 unusual types that may be refused (the grammar's second nesting level, named, embedded, generic, anonymous, standard library types), 46 argument names; boundary values of every type, one field or element at a time and all together; services with several arguments and results in all 64 combinations of zero and non-zero values")
check("C06", ENUM, "Go modules are generated, written to disk and parsed with the real parser, and everything it reports (packages, interfaces, structs with their fields and methods, functions, parameter and result names and types) is compared with what the Go type checker reports for the same sources. Interfaces, structs and functions within types are compared by kind only, as the parser keeps no more of them; a module that is not supported may be refused.",
    [dict(pkg=H + "c06", shards=8)],
    "all type expressions of depth 3 (quick) or 4 of 15 constructors over 24 atoms (basic, local, generic, imported by name, by alias and into the file's scope, type parameters), each as parameter, variadic, result and field of interfaces, functions, methods, structs and generic declarations; all import styles of four packages (equal names, names unlike their directory) in two files; all pairs of 22 declaration styles in one or two files; 10 shadowed predeclared and other names x 4 kinds x imports; all sets of 11 files that the go command ignores or puts in other packages")
check("C07", ENUM, "Every code-emitting helper of the compiler runs over a file of every earlier content and what it leaves is compared with what the template yields; every combination of three packages and two type shapes is printed and the Go type checker (over made-up packages) reads it back; the workspace builder of the real compiler executes every sequence of operations, and go.work, the directories, their contents and the returned errors are compared with a model.",
    [dict(pkg=H + "c07")],
    "files: all pairs of 8 templates (two failing) x 7 earlier contents x 4 arguments x 4 helpers; imports: all triples of packages with equal last elements, equal names, version suffixes and keywords x pairs of type shapes (triples in the thorough tier); workspaces: all sequences of 3 (quick) or 4 of 8 operations over modules with equal short names")
check("G01", GEN, "Applications of a client, a service in front and two services of one interface with a cache each are generated with the real compiler for every stack of modifiers and every transport, compiled, and all their processes run; every call of a script (values, results, errors, executed calls and the trace they belong to) is compared with the workflow composed by hand." + TRUST_SEQ + " Stand-ins as for G06.",
    [dict(pkg=H + "g01", shards=8)], gen="g01", grpc=True,
    covers="every stack of up to two of ten modifiers (retries, timeouts, circuit breaker, latency, random delay, failures with probability 0, health check, client pool, tracing, vector clocks) on the services, in both orders within one application, over gRPC and HTTP in two to four processes, single modifiers also over four processes and in one; single modifiers with a further service whose interface has the same name; 86 calls each")
check("D02", ENUM, "The real compiler generates run.sh, build.sh and the Dockerfile of a container for every dependency graph of a few processes; the scripts are executed by bash, or by a POSIX shell for images, with processes that record their start, what they see and their end, and the record is compared with the graph.",
    [dict(pkg=H + "d02")],
    "all 25 dependency graphs of three processes x processes that start, fail or do not set their variable; 8 (quick) or all 64 ways to use two variables x their states (set, empty, missing); two processes with all of it; all graphs of four processes in the thorough tier; all pairs of 16 awkward values of arguments of Go processes; all pairs of 9 similar names; all combinations of build scripts and of docker commands; workspaces with a space in their path and outside values of the processes' variables")
check("D01", ENUM, "The real compiler generates docker-compose files and kubernetes manifests for every small set of containers; they are read as docker compose and kubernetes read them (YAML, variable substitution, config maps), and what every container gets is compared with what it needs.",
    [dict(pkg=H + "d01", shards=8)], grpc=True, covers=
    "docker-compose: all combinations of 16 awkward values of environment variables, arguments, volumes, commands, ports and images; all pairs of similar names; all 131072 dependency graphs of up to four containers with the settings each leaves open; settings that are absent; the same graphs as kubernetes pods; whole generated applications: 4 shapes of services x 6 placements over deployments and pods x backends x shared or own x tracers x gRPC or HTTP (a sixth of the 1728 combinations in the quick tier), with the server and client addresses of all generated processes matched against the generated networks and ports")
check("A01", ENUM + " of operation histories", "Every history of the stated length of reservations, availability queries and cache evictions runs on the real reservation service over the real in-memory backends and is compared with a per-night room count; every backend call of every operation is made to fail once." + TRUST_SEQ,
    [dict(pkg=H + "a01")],
    "all histories of length 3 (quick) of reservations for all 6 stays over three nights (across a leap day) x 2 room counts and 3 evictions, of length 4 mixing availability queries, of length 3 over three hotels, of length 2 with unusual dates and room numbers (negative, zero, extreme); after each, every stay is probed at the exact limit with the cache warm and cold; every failing backend call; both front ends")
check("A02", ENUM + " of operation histories", "Every history of the stated length of follows, unfollows, queries and cache evictions runs on the real social graph service over the real in-memory backends and is compared with a set of pairs; every backend call of every operation is made to fail once, and the operation is then repeated." + TRUST_SEQ,
    [dict(pkg=H + "a02")],
    "all histories of length 3 (quick) over three users (following oneself included) with queries and 3 kinds of evictions, of length 4 over two users, of length 3 with an unknown user, of length 2 by user name; all lists of all users compared after each, with the cache warm and cold; every failing backend call after all histories of length 2")

check("A03", ENUM + " of operation histories; " + SCHED, "Every history of the stated length of posts, follows, reads and cache evictions runs on the real timeline, post storage and social graph services over the real in-memory backends and is compared with plain lists; identifiers: all patterns of bursts in virtual time, and all schedules of concurrent requests." + TRUST_SEQ + TRUST_SCHED,
    sched("a03", [BP + "examples/dsb_sn/workflow/socialnetwork"]),
    "user timelines: all histories of length 4 (quick) of writes by two users, reads and 3 kinds of evictions; home timelines: length 3 with follows and 6 kinds of mentions; after each, every page [start:stop] of every timeline, warm and cold; post storage: every subset stored, read before and evicted x every list of up to three ids with repetition; identifiers: all patterns of 2 bursts of 7 sizes (1-300) after 9 pauses (0-2^36 ms) and of 3 bursts of 4 sizes after 5 pauses, all schedules of 2-3 tasks with 1-2 requests around the 16-ids-per-millisecond limit, with and without time passing")