PROPS = []
def P(**k): PROPS.append(k)

P(id="P01", title="Typed values are strictly and totally ordered", claimed=True,
  statement="For every two valid typed values the order is decided first by data type and then by the Go ordering of the underlying values, it is irreflexive, asymmetric and transitive, and exactly one of 'less', 'greater' or 'equal' holds. Two values that are not 'less' in either direction are the same type and the same value, and comparing any two valid values never panics.",
  over=["inputs"], over_text="every pair and triple of valid typed values of the fourteen data types, including extreme integers, infinities, signed zeros, the empty string and custom comparable values",
  why="The ordered indexes silently lose or duplicate entries when the order is not a strict total order; the tests compare a handful of neighbouring values per type and no triples.",
  files=["pkg/models/datatypes/encapsulated_value.go", "pkg/models/datatypes/datatypes.go"],
  mech=[("order by type, then by value", "encapsulated_value.go:EncapsulatedValue.Less/LessType/LessValue"), ("validation of what can be compared", "encapsulated_value.go:ValidateTypeAndData")],
  observe=["Less", "LessType", "LessValue"],
  level_note="All obligations over the real Less/LessType/LessValue code for all values; IEEE comparison modelled exactly by SMT floats; custom CheckLess implementations are assumed to be strict total orders.")

P(id="P02", title="Validation accepts exactly the well-typed values", claimed=True,
  statement="Validating a typed value (or a map of them) succeeds exactly when the declared type is one of the supported types inside the requested range, the payload's dynamic type is exactly the one that declared type names, and the value can be ordered and encoded. Otherwise an error is returned that names the offending location, and nothing panics for any payload.",
  over=["inputs"], over_text="every declared type number, every dynamic payload including nil, every requested type range",
  why="Tests sample a few wrong payloads per type; an accepted ill-typed value panics or corrupts later comparisons.",
  files=["pkg/models/datatypes/encapsulated_value.go", "pkg/models/datatypes/datatypes.go", "pkg/models/datatypes/map_string_encapsulated_value.go"],
  mech=[("per-type payload check", "encapsulated_value.go:EncapsulatedValue.Validate/ValidateTypeAndData"), ("key/value map check", "map_string_encapsulated_value.go:KeyValues.Validate"), ("type range check", "datatypes.go:DataType.Validate")],
  observe=["Validate"],
  level_note="All obligations for all payloads; reflect.TypeOf/PkgPath/CanFloat/Float are modelled by contracts (assumed).")

P(id="P03", title="Wire encoding of typed values is lossless and range-checked", claimed=True,
  statement="Encoding any valid value of a basic type and decoding it again yields the same type and the same value, for a single value and for a map of values. Decoding never silently changes a value: text that is not a canonical member of the declared type's range is rejected with an error, and an unknown declared type is rejected.",
  over=["inputs"], over_text="every value of every basic type (all 64-bit integers, all floats, all valid UTF-8 strings) and every wire document",
  why="Round trips are sampled with a few small values; truncation shows only for values near the type limits.",
  files=["pkg/models/datatypes/encapsulated_value.go", "pkg/models/datatypes/map_string_encapsulated_value.go"],
  mech=[("encode as type plus text", "encapsulated_value.go:EncapsulatedValue.MarshalJSON/EncodeValue"), ("decode by declared type", "encapsulated_value.go:UnmarshalJSON/decode"), ("map decode", "map_string_encapsulated_value.go:KeyValues.UnmarshalJSON")],
  observe=["MarshalJSON", "UnmarshalJSON"],
  level_note="All obligations for all values; strconv and encoding/json are represented by assumed contracts (round trip, range errors).")

P(id="P04", title="A query matches exactly the key values its clauses describe",
  statement="Deciding whether a set of key values satisfies a query equals the boolean meaning of the query: every per-key comparison (equal, not equal, less, less-or-equal, greater, greater-or-equal) holds under the value order and the clause's type restriction, the number of keys lies within the requested bounds, and nested 'and' groups must all match or at least one 'or' group must match. A query with no conditions matches everything. The wildcard type compares as equal to every value and satisfies every ordering, where the clause's type restriction admits it.",
  over=["inputs"], over_text="every valid query tree of any depth and every valid set of key values",
  why="The space of comparison x type x restriction x nesting is unbounded; tests cover a few flat queries per comparison.",
  files=["pkg/models/api/common/v1/query_associated_action/selection.go", "pkg/models/api/common/v1/query_associated_action/associated_action_query.go", "pkg/models/api/common/v1/query_associated_action/value_query.go", "pkg/models/api/common/v1/type_restrictions.go"],
  mech=[("per-key comparison", "selection.go:Selection.MatchKeyValues"), ("boolean combination", "associated_action_query.go:AssociatedActionQuery.MatchTags")],
  observe=["MatchTags", "MatchKeyValues"], claimed=True,
  level_note="All obligations for every query tree (by induction over the contract of the recursive function) and every set of key values; termination of the recursion is assumed (documents are finite trees).")

P(id="P05", title="Request documents are accepted exactly when well formed",
  statement="Every request document (query, match, rule, override, counter, queue, item, acknowledgement, heartbeat, lock) validates successfully exactly when its required fields are present and each nested part is valid for its allowed types: names are non-empty, limits are at least -1, durations are positive, and a retry position is front or back. Otherwise validation returns an error and never panics, whatever nested part is missing or nil.",
  over=["inputs"], over_text="every request document, including absent or nil nested parts and empty maps",
  why="Tests drive one malformed document per field; combinations of absent nested parts are unbounded.",
  files=["pkg/models/api/limiter/v1/rule.go", "pkg/models/api/limiter/v1/override.go", "pkg/models/api/limiter/v1/counter.go", "pkg/models/api/willow/v1/queue.go", "pkg/models/api/willow/v1/item.go", "pkg/models/api/locker/v1/lock.go", "pkg/models/api/common/v1/query_match_action/match_query.go", "pkg/models/api/common/v1/query_associated_action/selection.go"],
  mech=[("per document validation", "pkg/models/api/*/v1:Validate*")],
  observe=["Validate", "ValidateSpecOnly"], claimed=True,
  level_note="All obligations for every document; termination of the recursion over nested queries is assumed.")

P(id="P06", title="Ordered index lookups visit exactly the requested keys",
  statement="Looking up a key, or every key other than, below, at-or-below, above or at-or-above a key, visits exactly the stored entries whose key satisfies that comparison and whose data type lies inside the requested type range, each once, until the visitor asks to stop. (A stored wildcard key also answers a lookup of any key whose range includes the wildcard, and looking up the wildcard visits every entry in range.) A lookup changes nothing and leaves no lock held.",
  over=["inputs", "histories"], over_text="every well-formed index of any size and depth, every key including the wildcard type, every type range, every visitor decision",
  why="The tests use small trees with integer keys; traversal order, node boundaries and type-range edges are unbounded.",
  files=["internal/datastructures/btree/threadsafe_find.go", "internal/datastructures/btree/btree.go", "pkg/models/api/common/v1/type_restrictions.go"],
  mech=[("tree descent per comparison", "threadsafe_find.go:findMatchType, iterate, findLessThan, findGreaterThan"), ("type restriction", "type_restrictions.go")],
  observe=["Find", "FindNotEqual", "FindLessThan", "FindLessThanOrEqual", "FindGreaterThan", "FindGreaterThanOrEqual"], claimed=True,
  level_note="All obligations for every well-formed tree of any size: every descent and every lookup visits exactly the matching entries and gives back exactly the locks it took. That updates keep the tree well formed is P07; visitors are assumed not to change the tree.")

P(id="P07", title="Ordered index updates keep the index ordered and complete",
  statement="Creating, finding-or-creating and deleting entries in an ordered index behaves as a map from key to value: exactly the addressed entry is added or removed, every other entry stays reachable, keys stay sorted and unique, and a refused creation or deletion leaves the index as it was.",
  over=["inputs", "histories"], over_text="every sequence of creations and deletions of any length, every nesting factor",
  why="Splits and rebalances depend on the whole history; the tests run fixed or randomly sampled histories.",
  files=["internal/datastructures/btree/threadsafe_create.go", "internal/datastructures/btree/threadsafe_delete.go", "internal/datastructures/btree/btree.go"],
  mech=[("insert and split", "threadsafe_create.go"), ("delete and rebalance", "threadsafe_delete.go")],
  observe=["Create", "CreateOrFind", "Delete"], claimed=True,
  level_note="All obligations for every step an update makes at a node, for every node size and content: exactly the addressed entry is added or removed, every other entry and child is kept in order, a refused update changes nothing. The recursive descent that puts the steps together is a bounded check (random histories against a map), not proved.")

P(id="P08", title="Key combinations are generated completely and without repeats",
  statement="Generating the combinations of a set of key values up to a maximum size visits every non-empty subset of at most that size exactly once, and nothing else; set helpers add, remove, intersect and report members exactly as mathematical sets do.",
  over=["inputs"], over_text="every set of key values and every size bound",
  why="Combinations grow exponentially; tests check three- and four-element sets.",
  files=["pkg/datamanipulation/slice_manipulation.go", "pkg/models/datatypes/map_string_encapsulated_value.go", "internal/datastructures/set/set.go"],
  mech=[("combination generation", "slice_manipulation.go"), ("identifier sets", "set.go")],
  observe=["GenerateGroupPairs", "set operations"], claimed=True,
  level_note="All obligations for set operations and for the generation: every wanted subset is generated, every size is inside the bounds. That nothing is repeated, and the final order, are checked exhaustively for up to 9 keys (13 thorough), a bounded check.")

P(id="P09", title="The associated index finds what was stored under the same keys",
  statement="Items are stored under a full set of key values: creating under a set that exists is refused, creating otherwise makes the item findable by its key values and by its identifier, and deleting it removes both; a lookup by other key values never returns it.",
  over=["inputs", "histories"], over_text="every history of creations, lookups and deletions over arbitrary key value sets",
  why="The index spreads one item over many sub-indexes; tests check short histories.",
  files=["internal/datastructures/btree_associated/threadsafe_create.go", "internal/datastructures/btree_associated/threadsafe_find.go", "internal/datastructures/btree_associated/threadsafe_delete.go"],
  mech=[("id bookkeeping per number of keys", "btree_associated")],
  observe=["Create", "Find", "Delete", "FindByAssociatedID"], claimed=True,
  level_note="Stored items and identifier nodes: all obligations. Whole histories over the trees of the index: a bounded check (random histories against a model), not proved.")

P(id="P10", title="Every index operation releases every lock it takes",
  statement="Whatever its arguments, the state of the index and the answer of any visitor, an operation of the ordered index that returns has released every lock it acquired, never releases one it does not hold, and so never blocks a later caller for ever.",
  over=["inputs", "histories"], over_text="every return path of every index operation, including visitor early stops and refused operations",
  why="A lock leaked on one rare path shows only when a later writer hangs; tests do not assert lock state after each path.",
  files=["internal/datastructures/btree/threadsafe_find.go", "internal/datastructures/btree/threadsafe_create.go", "internal/datastructures/btree/threadsafe_delete.go"],
  mech=[("hand-over-hand locking", "btree")],
  observe=["lock balance at return"], claimed=True,
  level_note="Lookups: all obligations, for every tree, key, range and visitor (each lock released exactly once, none that is not held, on every path). Splits, merges, rotations and identifier nodes: all obligations. The descents of creations and deletions: a bounded check (random histories with a lock audit after every operation), not proved.")

P(id="P11", title="Counters are admitted only inside every matching limit",
  statement="An increment is accepted exactly when every rule and override that matches the counter's key values allows it: the first limit of zero refuses at once, an unlimited rule imposes nothing, and otherwise the current total of all counters the limit governs plus the increment must stay inside the limit. A rule with matching overrides is governed by those overrides. A refused increment changes no counter, and every lock taken for the decision is returned.",
  over=["inputs", "histories"], over_text="every set of rules, overrides and counters, every increment",
  why="Admission depends on the whole set of rules and the whole set of counters; tests use one or two of each.",
  files=["internal/limiter/counters/counter_client_local.go", "internal/limiter/rules/rules_client_local.go"],
  mech=[("admission", "counter_client_local.go:IncrementCounters"), ("limit lookup", "rules_client_local.go:FindLimits")],
  observe=["IncrementCounters"], claimed=True,
  level_note="All obligations over the limiter's admission path: IncrementCounters, checkCounters, FindLimits and FindOverrideLimits, for every set of rules and overrides; indexes, the lock service and the merged channel are used through contracts.")

P(id="P12", title="Counter arithmetic is exact and zero counters disappear",
  statement="An accepted increment or decrement changes exactly the addressed counter by exactly the requested amount (as long as its value fits in 64 bits), setting a counter stores exactly the requested value, and a counter that reaches zero or less no longer exists.",
  over=["inputs", "histories"], over_text="every counter history and amount",
  why="Tests run a few fixed amounts.",
  files=["internal/limiter/counters/counter_client_local.go", "internal/limiter/counters/memory/counter.go"],
  mech=[("counter update", "counter_client_local.go"), ("atomic counter", "memory/counter.go")],
  observe=["IncrementCounters", "DecrementCounters", "SetCounter", "QueryCounters"], claimed=True,
  level_note="All obligations over the counter client and the in-memory counter with machine arithmetic; the associated index is used through its interface contract.")

P(id="P13", title="Rule and override operations report and change exactly what they say",
  statement="Creating, reading, matching, updating and deleting rules and overrides acts only on the named rule or override, an override is accepted only when it has every key of its rule, and each failure is reported with the status that describes it (not found, conflict, bad request, internal) and changes nothing. Deleting an override that does not exist changes nothing and succeeds.",
  over=["inputs", "histories"], over_text="every rule and override operation on every state",
  why="Error paths are tested one by one and rarely for their effect on state.",
  files=["internal/limiter/rules/rules_client_local.go", "internal/limiter/overrides/overrides_client_local.go", "internal/limiter/rules/memory/rule.go", "internal/limiter/overrides/memory/memory_override.go"],
  mech=[("rule CRUD", "rules_client_local.go"), ("override CRUD", "overrides_client_local.go")],
  observe=["CreateRule", "GetRule", "UpdateRule", "DeleteRule", "CreateOverride", "DeleteOverride"], claimed=True,
  level_note="All obligations over every operation of the rules and overrides clients and the in-memory rule and override; both indexes are used through their interface contracts.")

P(id="P14", title="A queue channel hands out items in order and accounts for each",
  statement="Items of a channel are handed out oldest first, each to one consumer at a time, an updatable last item is replaced in place, and the number of enqueued items recorded for the channel rises and falls by exactly one per stored item.",
  over=["inputs", "histories", "schedules"], over_text="every history of enqueues, dequeues, acknowledgements and failures",
  why="Tests run short fixed histories.",
  files=["internal/willow/brokers/queue_channels/memory/memory_queue_channel.go", "internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go"],
  mech=[("enqueue, dequeue, state list", "memory_queue_channel.go")],
  observe=["Enqueue", "Dequeue", "ACK"], claimed=True,
  level_note="Every operation of a channel and its offering loop is under contract: the list under its lock (lock contract with the invariant that waiting items are stored once), notifications, counters at the limiter and the returned success and failure actions; the tree is used through its interface contract.")

P(id="P15", title="Failed items are retried as configured and never beyond",
  statement="An item acknowledged as failed, or whose processor stops heart-beating, is put back at the configured end of its channel while it has retries left and is dropped otherwise; a successful acknowledgement removes it, and an acknowledgement for an item that is not being processed is refused and changes nothing.",
  over=["inputs", "histories"], over_text="every retry setting and every history of acknowledgements and timeouts",
  why="Retry positions and exhausted retries are tested with one or two retries.",
  files=["internal/willow/brokers/queue_channels/memory/memory_queue_channel.go", "internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go"],
  mech=[("failure handling", "memory_queue_channel.go:failItem, ACK, heartbeat")],
  observe=["ACK", "Heartbeat"], claimed=True,
  level_note="failItem, ACK, Heartbeat, the timeout action and the item's watch handling are under contract for every retry setting and list; the watch itself is P18, the tree is used through its interface contract.")

P(id="P16", title="Queue operations act only on the named queue",
  statement="Creating, reading, updating and deleting a queue, and enqueueing, dequeueing, acknowledging, heart-beating and removing channels, act only on the queue of that name and the channel of exactly those key values: the limit a queue answers with is the limit that was requested and that the limiter enforces, a name that exists is refused as a conflict, a name that does not exist is reported as not found (deleting it changes nothing), an update the limiter refuses changes nothing, and deletion removes the channels of the queue and its limit before its name is free. A channel that times out while its queue is being deleted does not end the service.",
  over=["inputs", "histories"], over_text="every queue and channel operation on every state and every failure of the limiter or of a channel",
  why="Failures of the limiter in the middle of an operation, and operations on what is being destroyed, are sampled.",
  files=["internal/willow/brokers/queues/queues_client_local.go", "internal/willow/brokers/queues/memory/memory_queue.go", "internal/willow/brokers/queue_channels/queue_channels_client_local.go"],
  mech=[("queue CRUD", "queues_client_local.go"), ("limit override", "memory_queue.go"), ("channel of the key values", "queue_channels_client_local.go")],
  observe=["CreateQueue", "GetQueue", "UpdateQueue", "DeleteQueue", "EnqueueQueueItem", "ACK", "Heartbeat", "DeleteChannel"], claimed=True,
  level_note="all queue operations and all channel operations except the waiting hand-out of items; the trees behind them by contract")

P(id="P17", title="A lock is held by one client session at a time",
  statement="Obtaining a lock succeeds only when no other session holds the lock on the same key values; heart-beating or releasing takes effect only for the session that holds it and is refused for any other; after release or timeout exactly one waiting client obtains it.",
  over=["inputs", "schedules", "histories"], over_text="every history of obtain, heartbeat, release and timeout",
  why="Schedules are unbounded; the tests time a few.",
  files=["internal/locker/lock_manager/exclusive_locker.go", "internal/locker/lock_manager/exclusive_lock.go"],
  mech=[("session id check", "exclusive_locker.go, exclusive_lock.go")],
  observe=["ObtainLock", "Heartbeat", "Release"], claimed=True,
  level_note="All obligations over the lock's service loop, its requests and the locker, for every order of channel events; channels carry send/receive contracts (rely-guarantee), the index behind the locker is used through its interface contract.")

P(id="P18", title="A heartbeat watch ends exactly once",
  statement="A started heartbeat watch ends exactly once: with its shutdown action when the service stops, with its timeout action when a full timeout has passed since its start or the last heartbeat it took, or with neither when it is stopped; no second action ever runs. Heartbeat, Stop and Start report true exactly when the watch took the request (Start only the first time), so after the end they report false.",
  over=["schedules", "histories"], over_text="every interleaving of heartbeats, stops, shutdown and timer events",
  why="Timing dependent; the tests time a few schedules.",
  files=["internal/heartbeater/heartbeater.go"],
  mech=[("watch loop", "heartbeater.go:Execute"), ("requests", "heartbeater.go:Heartbeat,Stop,Start")],
  observe=["Execute", "the two actions", "Heartbeat", "Stop", "Start"], claimed=True,
  level_note="All obligations over every function of the package, for every order of channel events; channel traffic is described by send/receive contracts, the semantics of unbuffered channels and of time.Ticker is assumed.")

P(id="P19", title="HTTP handlers reject bad requests before doing anything",
  statement="A request whose body cannot be decoded, or whose document does not validate, is answered once with a client error and reaches no broker; an accepted request is forwarded exactly once with the decoded document, and the broker's answer decides the status: its error status when it fails, the documented success status otherwise.",
  over=["inputs"], over_text="every request and every broker answer, for every route",
  why="Each handler is tested with a couple of bodies; double writes and continued execution after an error are not observed.",
  files=["internal/limiter/api/v1/handlers/rules_handler.go", "internal/limiter/api/v1/handlers/overrides_handler.go", "internal/limiter/api/v1/handlers/counters_handler.go", "internal/willow/api/v1/handlers/queue_handler.go", "internal/willow/api/v1/handlers/channel_handler.go", "internal/willow/api/v1/handlers/item_handler.go", "internal/locker/api/v1/handlers/locker_handler.go", "pkg/models/api/server.go"],
  mech=[("decode, call, encode", "handlers/*.go"), ("decode and validate", "pkg/models/api/server.go")],
  observe=["HTTP status and broker calls"], claimed=True,
  level_note="All obligations over the 30 real handler methods for every request document and broker answer; net/http, encoding/json and the broker interfaces are represented by assumed contracts; routing and middleware are driven by a bounded test.")

P(id="P20", title="Clients report success only for the documented status",
  statement="A client call refuses invalid parameters without sending anything and otherwise sends one request with the documented method, path and document (obtaining a lock sends none when this client holds it already, and repeats it while the service is restarting). It returns success only when the service answered with that call's documented success status; any other answer, or a failure to reach or decode it, is returned as an error. While an item or a lock is held, each heartbeat names it, only an accepted heartbeat extends its deadline, and the holder is told it is done when the heartbeats stop.",
  over=["inputs", "fault_sequences"], over_text="every response status and body, every transport failure",
  why="Tests check a few statuses per call.",
  files=["pkg/clients/limiter_client/rule.go", "pkg/clients/limiter_client/override.go", "pkg/clients/limiter_client/counter.go", "pkg/clients/willow_client/queue.go", "pkg/clients/willow_client/channel.go", "pkg/clients/willow_client/item.go", "pkg/clients/locker_client/locker_client.go", "pkg/clients/locker_client/lock.go", "pkg/models/api/client.go"],
  mech=[("status switch per call", "pkg/clients/*")],
  observe=["client method results", "requests sent"], claimed=True,
  level_note="All obligations over every method of the three clients, their heartbeat goroutines included, for every answer and transport failure; net/http, encoding/json and the associated index behind ObtainLock are represented by assumed contracts; the setup of the HTTP client (TLS) is not covered.")

P(id="P21", title="Service configuration is accepted exactly when consistent",
  statement="Each setting of a service comes from its environment variable when that is set and otherwise from its flag or default (insecure mode is on when either the flag or the variable says true). The configuration is accepted exactly when the log level is debug or info, the port is a number from 0 to 65535, insecure mode is on without server CA, key or certificate or off with key and certificate, the storage type is memory (willow) and the default lock timeout is readable and positive (locker); otherwise an error and no configuration is returned, never a panic. A client is made exactly when its configuration has a URL and either no certificate files or a key and certificate that load and, with a CA, are signed by it.",
  over=["configurations"], over_text="every combination of settings, flags, environment variables and certificate files",
  why="Combinations grow exponentially; tests check single faults.",
  files=["internal/config/willow_config.go", "internal/config/limiter_config.go", "internal/config/locker_config.go", "pkg/clients/client_config.go", "pkg/clients/http_client.go"],
  mech=[("validation", "internal/config/*.go:validate"), ("environment over flags", "internal/config/*.go:parseEnv"), ("client certificates", "pkg/clients/client_config.go:Validate")],
  observe=["the configuration constructors and validate", "the client constructors"], claimed=True,
  level_note="All obligations over the three service configurations, the client configuration and the client constructors; package flag, os, strconv, time and crypto are represented by assumed contracts. Flags that do not parse end the process (flag.ExitOnError) and are outside the statement.")

P(id="P22", title="A relation of the one-to-many index holds exactly its own items",
  statement="Every operation of the one-to-many index works on the relation it names and on no other. Creating under a relation either hands the item already stored there under exactly these key values to the caller or files the new one under that relation, those key values (kept apart from the caller's map) and the identifier it answers; queries and matches hand out each item of that relation that was asked for, once, until the caller stops; a removal asks the caller about exactly the item named and removes it only when allowed; destroying a relation removes it only when every item was allowed to go. Empty names, reserved or malformed key values, missing callbacks and relations being destroyed are refused with an error, run no callback and change nothing.",
  over=["inputs", "histories"], over_text="every argument, every set of relations and items, every answer of the callbacks",
  why="Rules with their overrides and queues with their channels are kept in this index; tests use one relation and a handful of items.",
  files=["internal/datastructures/btree_one_to_many/threadsafe_create.go", "internal/datastructures/btree_one_to_many/threadsafe_delete.go", "internal/datastructures/btree_one_to_many/threadsafe_destroy.go", "internal/datastructures/btree_one_to_many/threadsafe_query.go", "internal/datastructures/btree_one_to_many/threadsafe_match.go", "internal/datastructures/btree_one_to_many/one_to_many_item.go"],
  mech=[("relations over the ordered index, items over the associated index", "btree_one_to_many")],
  observe=["CreateOrFind", "QueryAction", "MatchAction", "DeleteOneOfManyByKeyValues", "DestroyOneOfManyByID", "DestroyOne"], claimed=True,
  level_note="All obligations, over contracts of the ordered and the associated index (P06, P07 and P09 are about those). Whole histories over the real indexes are also run against a model on every check (bounded).")
