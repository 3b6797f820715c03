#!/usr/bin/env python3
"""Single source of properties.jsonl (and, via gen_manifest.py, of MANIFEST.json).
P(id, title, statement, over, quantifier text, why tests can't, files, mechanisms, state, observe_at)"""
import json, sys, os
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    PROPS.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over.split(), "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files.split(),
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": None}})

RT = "core/actor/actor_runtime_impl.go"
RE = "core/actor/actor_reenter_impl.go"
SYS = "core/node/system_impl.go"
ACC = "core/node/system_acceptor.go"
AB = "core/addressbook/addressbook_impl.go"

# ------------------------------------------------------------------ actors
P("C01", "Mailbox queue publishes safely and never strands a message",
  """A value pushed to a mailbox queue becomes reachable only after it is completely stored, and is popped exactly once, oldest first per producer.
  After every push, and after every pop that leaves values behind, a wake-up signal is pending for the consumer, so a waiting consumer never sleeps while values are queued.
  Neither push nor pop ever blocks, and the reported count goes up by one per push and down by one per successful pop only.""",
  "schedules histories", "every interleaving of any number of producers with the one consumer",
  "tests push a handful of messages from one or two goroutines; a lost wake-up or torn publication needs a particular interleaving",
  "lib/mpsc/mpsc.go", [("swap head, then link, then count and signal", "Queue.Push"), ("advance tail, decrement, re-signal", "Queue.Pop")],
  [("head/tail", "producer/consumer ends of the linked list", "lib/mpsc/mpsc.go Queue"), ("C", "wake-up channel", "lib/mpsc/mpsc.go Queue")],
  ["Queue.Push", "Queue.Pop", "Queue.C", "Queue.Count"])

P("C02", "Call completion accounting is exact for every accepted message",
  """Every message accepted into an actor's mailbox, directly or from a subscription, is counted in its completion group exactly once before the consumer can see it, and a refused message is never counted.
  For every message the actor takes out, that count is released exactly once, after its handler has returned or panicked and also when no handler exists.
  The group's visible counter and its waiters always agree: both change by the same amount, and the counter is already down when waiters are released.""",
  "schedules inputs histories", "every message, accepted or refused, handled, panicking or unknown, under every schedule",
  "a missing or doubled release only shows as a hang or a panic for the particular message outcome (panic, unknown event, refusal) that no test drives",
  RT + " lib/pubsub/ps_channel.go lib/warpwaitgroup/warpwaitgroup.go",
  [("Add before Push", "Runtime.Received, Channel handler loop"), ("deferred Done around handler execution", "Runtime.update"), ("counter/WaitGroup pair", "WrapWaitGroup")],
  [("WrapWaitGroup.counter", "pending work visible to the system", "lib/warpwaitgroup")], ["IActor.Received", "Wrapper.GetWg().Count()"])

P("C03", "An actor's handlers and timers run one at a time on its own loop",
  """All event handler chains and timer callbacks of one actor are executed by that actor's single loop goroutine, synchronously, so no two of them ever overlap.
  The loop is started exactly once per initialisation, nobody else consumes the mailbox, and neither an event chain nor a timer callback is run from any other goroutine.""",
  "schedules programs", "every program using the actor API and every schedule of its goroutines",
  "overlap needs two messages or a timer and a message to be in flight at the same moment; the tests send messages one at a time",
  RT + " core/actor/actor_chain.go core/actor/actor_timer.go", [("single consumer loop", "Runtime.update"), ("loop started in Init", "Runtime.Init")],
  (), ["IActor.OnEvent", "IActor.OnTimer"])

P("C04", "A panic in user code never kills the actor loop or the process",
  """A panic raised by an event handler, a middleware, a timer callback or a future callback is recovered where the framework invoked it.
  After such a panic the actor keeps processing later messages, the message's completion is still released and the recovery function is told.""",
  "inputs programs", "every panic value at every user callback the actor runtime invokes",
  "no test panics in a callback; each callback site needs its own containment and one unguarded site kills the process",
  RT + " " + RE, [("deferred recover around each callback", "Runtime.update, Future callbacks")], (), ["EventHandler", "ITimer.Execute", "IFuture.Then"])

P("C05", "Actor exit refuses new work, drains accepted work and is idempotent",
  """Once an actor is exiting every newly received message is refused with an error, while every message accepted before is still processed before the actor's loop ends, unless the forced shutdown timeout expires.
  Exit returns only after the loop has ended or that timeout has passed, it cancels the actor's timers, and calling it again or concurrently is harmless. The loop takes the shutdown signal once and ends as soon as the accepted messages are done, and a freshly set-up actor is open.""",
  "schedules histories", "every schedule of senders, the loop and one or more Exit calls",
  "losing an accepted message needs a send racing with exit, and a double exit needs two closers; tests exit once after traffic has stopped",
  RT, [("closed flag checked with the push under the gate", "Runtime.Received"), ("once-guarded shutdown signal and loop-end signal", "Runtime.Exit, Runtime.update")],
  [("closed", "mailbox gate", "Runtime")], ["IActor.Exit", "IActor.Received"])

P("C06", "Handler chains run in order and stop at the first error",
  """A chain runs its before-middlewares in order, then the handler once, then the after-middlewares in order, all with the message being handled.
  After the first non-nil error nothing further in the chain runs and exactly that error is returned; nil is returned only if every element ran and returned nil.""",
  "inputs programs", "every chain length and every position of a failing element",
  "tests only use chains with a single succeeding handler and no middlewares",
  "core/actor/actor_chain.go", [("sequential execution with early exit", "DefaultChain.Execute")], (), ["IChain.Execute"])

P("C07", "Each event has one handler; duplicates are refused, unknown ones harmless",
  """Registering a handler for an event name that is already registered returns an error and leaves the first handler in place; otherwise the handler becomes the one used for that event.
  A message is dispatched to the handler registered under exactly its event name, at most once, and a message without a registered handler, or an item that is not a message, is skipped and does not stop the actor.
  The handler table is never accessed without mutual exclusion once the actor runs.""",
  "inputs schedules histories", "every sequence of registrations and messages, and every schedule of registrations against dispatch",
  "tests never register twice, never send an unknown event and never register while messages are in flight",
  RT, [("existence check before insert", "Runtime.OnEvent"), ("lookup by header event", "Runtime.update")],
  [("chains", "event name to handler chain", "Runtime")], ["IActor.OnEvent"])

P("C08", "Every future callback runs exactly once with the future's result",
  """The first completion of a future fixes its result and later completions change nothing.
  Every callback, whether added before or after completion, is invoked exactly once with that result and never while the future's lock is held, and the future returned for it completes with the same result once the callback has ended.""",
  "schedules histories", "every interleaving of Then and Complete calls",
  "tests register one callback before completion; callbacks added after or concurrently with completion are never exercised deterministically",
  RE, [("mutex around result, done channel and callback list", "Future.Then, Future.Complete")],
  [("callbacks", "pending callbacks", "Future")], ["IFuture"])

P("C09", "A reentrant call completes its future on every outcome",
  """The future returned by a reentrant call is completed when the call succeeds, when it fails, when the caller's context ends or the call timeout passes, and when processing the result panics.
  On success it carries the callee's response, on failure the error, and the wrapper handed to callbacks always has usable request and response parts.
  The call is issued on a copy with its own completion group, so it does not disturb the completion accounting of the message that started it.""",
  "schedules fault_sequences", "every outcome of the call and every order of result, timeout and cancellation",
  "tests see one success and one timeout; failure of routing, cancellation races and panics while completing are not driven",
  RT + " " + RE + " router/msg/msg.go", [("call goroutine, cancel goroutine and reentry queue", "Runtime.ReenterCall"), ("fresh wait group", "msg.Swap")],
  (), ["ActorContext.ReenterCall"])

P("C10", "Actor timers: one-shot, cancellable, never outliving their actor",
  """A timer with interval 0 fires once and never crashes; a periodic timer delivers its ticks to the actor's loop.
  A timer that is no longer active when its tick reaches the loop is not executed, and stopping, cancelling or resetting a timer at any moment, also before its first tick, is safe from any goroutine. A timer has the due time, interval, callback and argument it was created with: with a due time it fires first when that has passed, only then at its interval, and it is among the timers its actor's exit cancels. Stop reports whether the timer was active and ends its ticks, and Reset leaves an active timer with the interval asked for.
  Every goroutine started for a timer ends when its actor shuts down, whatever it is waiting for.""",
  "schedules inputs histories", "every due time and interval including 0, and every moment of cancellation or shutdown",
  "the timer tests crash on interval 0 today, and cancellation during the due time or shutdown while a tick is queued is never driven",
  RT + " core/actor/actor_timer.go", [("timer goroutine with shutdown select", "Runtime.OnTimer"), ("active check before execution", "Runtime.update"), ("guarded ticker", "TimerInfo")],
  (), ["IActor.OnTimer", "IActor.CancelTimer", "ITimer.Stop", "ITimer.Reset"])

P("C11", "Sender identity is stamped and self-calls are refused",
  """Every call or reentrant call made through an actor records that actor's id and type as origin if and only if the message has no origin yet, always records its type as previous hop, and then hands over the caller's target, type, event and message unchanged.
  A message whose origin is the receiving actor itself is refused with the self-call error and is not enqueued; a message with no origin or another origin is not refused for that reason.""",
  "inputs programs", "every message header state and every target",
  "tests never inspect the header of a relayed message nor call an actor from itself",
  RT + " core/actor/actor_context_impl.go", [("header stamping", "Runtime.Call, Runtime.ReenterCall"), ("origin check", "Runtime.Received")],
  (), ["router.Header", "node.ErrSelfCall"])

P("C12", "Actor subscriptions deliver to the registered handler until exit",
  """Subscribing an actor to a channel succeeds only if both the subscription and the registration of its handler succeeded, and the handler is registered before the first message can be delivered; a failed subscription leaves no handler behind.
  Messages of the channel go to that actor's own mailbox, and once the actor exits its subscriptions stop consuming.""",
  "schedules fault_sequences histories", "every failure of either step and every schedule of delivery against registration and exit",
  "the subscription test has one subscriber, no failure, and looks at the result a second later",
  RT + " core/node/system_impl.go lib/pubsub/ps_channel.go", [("register, subscribe, attach mailbox", "Runtime.Sub")], (), ["IActor.Sub"])

# ------------------------------------------------------------------ system
P("S01", "The node's actor registry is race-free and ids are unique",
  """The node's table of live actors is only ever read, iterated or changed under the system's lock, and the lock is always released.
  Of any number of concurrent registrations of one id on a node at most one succeeds, the others report the repeat error; the id can be registered again after that registration failed.
  No actor, address-book or network operation runs while the lock is held.""",
  "schedules histories", "every interleaving of registration, lookup, calls, listing and exit",
  "tests register sequentially; an unlocked iteration or check-then-act window needs concurrent registration to show",
  SYS, [("embedded RWMutex", "NormalSystem")], [("actoridmap", "id to live actor", "NormalSystem")], ["ISystem.Register", "ISystem.Actors", "ISystem.FindActor"])

P("S02", "Calls and sends are routed to the right place with a complete header",
  """A call or send to a concrete id goes to the local actor with that id if there is one, otherwise to the address recorded in the address book; a local-first target prefers any local actor of the type; a wildcard target goes to the actor picked by the address book, locally if it lives here.
  A record pointing at this node for an actor that does not live here is never called remotely but reported as an error, and it is removed from the address book only if no actor of that id runs or is being registered here.
  The message that leaves carries the requested event, target id and target type, and the remote side dispatches by exactly these and by the request it received.""",
  "inputs configurations", "every target symbol, every registry and address book content, call and send alike",
  "tests use only local ids on a single node; remote and stale-record branches are not reached",
  SYS + " " + ACC + " core/addressbook/addressbook_impl.go", [("routing switch", "NormalSystem.Call, NormalSystem.Send"), ("rpc entry", "listen.Routing")], (), ["ISystem.Call", "ISystem.Send"])

P("S03", "A message that could not be delivered is always reported to its sender",
  """When a call or send does not reach an actor because the target is empty, unknown or unresolvable, the actor refuses it or the remote exchange fails, an error is returned to the caller, also across nodes.
  A nil result means the actor accepted the message and, for a remote call, that the remote node answered and the response was taken over.""",
  "inputs fault_sequences", "every failing step on every path of call and send, on both sides of the wire",
  "tests only exercise successful local delivery; a dropped error on one branch is invisible to them",
  SYS + " " + ACC + " lib/grpc/client.go", [("error propagation", "NormalSystem.Call/Send, handleRemote*, listen.Routing, Client.CallWait")], (), ["ISystem.Call", "ISystem.Send", "router.Acceptor/routing"])

P("S04", "A top-level local call always returns: done, timeout or cancelled",
  """A call that starts a new exchange waits until the actor and everything it started for that message have finished, but never beyond the system's call timeout or the end of the caller's context, and reports an error in these two cases.
  No goroutine started for the call stays blocked forever except on handlers that never end, also when the actor refuses the message.
  A call made while handling another message does not block on completion but is tracked by the exchange it belongs to.""",
  "schedules inputs", "every handler duration, cancellation moment and refusal",
  "the call tests finish immediately; timeouts, refusal and cancellation combined are not driven",
  SYS, [("wait goroutine, timeout and ready handshake", "NormalSystem.localCall")], (), ["ISystem.Call"])

P("S05", "Actor registration validates first and leaves no residue on failure",
  """An actor with an empty id or type, without constructor, of a node-unique type already present on the node, or exceeding its global quantity limit is refused before anything is published, and nothing else is a reason to refuse one.
  A registration that fails publishes no local actor; a successful one has published the address first, then constructed and initialised exactly one actor, and made it reachable under its id.""",
  "inputs configurations fault_sequences", "every builder configuration and every failing step",
  "tests register valid actors; limits combined with uniqueness and failures of the address book are not driven",
  SYS + " core/addressbook/addressbook_impl.go", [("ordered checks", "NormalSystem.Register")], (), ["ISystem.Register"])

P("S06", "Unregistering stops the actor and removes both of its records",
  """Unregistering an existing actor ends that actor, then makes it unreachable on the node, and removes its address-book record with the weight of its type.
  An unknown type is reported as an error before anything is changed, and an actor that is not on this node is still removed from the address book.""",
  "inputs histories", "every combination of present or absent actor and known or unknown type",
  "only a dynamic-picker test unregisters, with everything present",
  SYS, [("exit, delete, address book removal", "NormalSystem.Unregister")], (), ["ISystem.Unregister"])

P("S07", "Node shutdown ends every actor and withdraws the node",
  """Shutting a node down stops accepting remote calls, asks every registered actor to exit concurrently with each exit counted before it starts and released when it ends, and clears the node's address-book entries even if some of them fail.
  Waiting on the given group therefore returns exactly when all actors have exited; process shutdown starts on a termination signal and is bounded by its timeout.""",
  "schedules histories", "every number of actors and every order in which their exits finish",
  "tests shut down nodes with a few idle actors and cannot see an early release or an actor left running",
  SYS + " core/node/node_process_impl.go", [("wait group per actor", "NormalSystem.Exit"), ("bounded wait", "process.WaitClose")], (), ["ISystem.Exit", "INode.WaitClose"])

P("S08", "Naming an unknown actor type or topic never crashes the node",
  """Lookups that can come back empty, actor types in the factory and topics in the pub/sub manager, are never used without having been found.
  Calling, sending to, unregistering or publishing to an unknown type or topic yields an error or creates the topic, never a crash. Finding an actor by id answers the actor registered under exactly that id, or an error when there is none.""",
  "inputs", "every type and topic string a caller may pass",
  "tests only name types and topics that exist",
  SYS + " lib/pubsub/ps_mgr.go", [("nil checks on lookup results", "NormalSystem.Call/Send/Unregister/Pub")], (), ["ISystem"])

P("S09", "A node is assembled from what it was given and refuses incomplete input",
  """Building a node makes every table its system works with, the rpc client, the pub/sub manager and a positive call timeout, and gives its parts exactly the id, address, port, loader, factory and tracer it was built with; the address book publishes that same address.
  A node without loader or factory, or whose acceptor cannot listen, is refused instead of being answered. An acceptor exists exactly if a port was given, dispatches to this node's own system, and accepts before the node is answered.
  Calls are traced exactly if a tracer was given, and a handler's panic on the server side is answered to the caller as an error that names the panic.""",
  "inputs configurations fault_sequences", "every combination of node options and every failing step of the construction",
  "tests build the same few complete nodes; incomplete options and a port in use abort the test binary instead of being asserted",
  SYS + " core/node/node_process_impl.go " + ACC, [("construction", "buildSystemWithOption, BuildProcessWithOption"), ("acceptor", "NewAcceptor")], (), ["node.BuildProcessWithOption", "core.INode"])

# ------------------------------------------------------------------ address book
P("A01", "Registering and unregistering an address are exact inverses",
  """Registering an actor publishes its address under its id and in the set of its type, the node's info, and adds its weight to the node's type and total weight, all in one batch.
  Unregistering removes exactly the record that was published, from both indexes, and takes the same weight off the same two counters of the node that owns the actor, in one batch.""",
  "inputs histories", "every actor id, type, weight and node, and every register/unregister history",
  "tests look at a single node that unregisters its own actors and never compare counters; a wrong key only shows on a later lookup",
  AB, [("pipelines", "AddressBook.Register, AddressBook.Unregister")], (), ["IAddressBook.Register", "IAddressBook.Unregister"])

P("A02", "The local id cache only says what the address book confirmed",
  """An id is recorded as local only after its registration batch succeeded, and removed only after its removal batch succeeded or the node's entries were cleared.
  A failed batch is reported as an error and changes nothing locally; an id already registered locally or an empty id or type is refused before anything is written.
  The cache is only touched under the address book's lock.""",
  "fault_sequences schedules inputs", "every failure of the store and every interleaving of callers",
  "tests run against an always-available in-memory redis with one caller",
  AB, [("IDMap updated after Exec", "AddressBook.Register/Unregister/Clear")], [("IDMap", "ids registered by this node", "AddressBook")], ["IAddressBook"])

P("A03", "Address lookups never invent an address or hide a store failure",
  """Looking up an id returns this node's address if it registered the id, otherwise the stored record; an unknown id is reported as unknown and a failing store or unreadable record as an error.
  Lookups by type, wildcard and count report a failing store as an error and an absent type as no actors, never as a success with an empty address; an error is answered only when the store failed, a record was unreadable or nothing was found.""",
  "inputs fault_sequences", "every id and type, every store reply and failure",
  "tests look up existing ids against a healthy store",
  AB, [("error branches", "GetByID, GetByType, GetWildcardActor, GetActorTypeCount")], (), ["IAddressBook.GetByID", "IAddressBook.GetByType"])

P("A04", "Weight-based choices pick the least loaded candidate",
  """Among the candidates whose weight could be read, the wildcard and low-weight choices return one with the lowest total weight of its own node.
  A candidate whose weight or record cannot be read is skipped and does not fail the choice for the others, and if none remains an error is returned.""",
  "inputs", "every set of nodes, weights and unreadable entries, in every iteration order",
  "map iteration order is random and tests have a single node, for which every pairing is right",
  AB, [("minimum search", "GetWildcardActor, GetLowWeightNodeForActor")], (), ["IAddressBook.GetLowWeightNodeForActor"])

P("A05", "Clearing a node removes only that node's entries, under the lock",
  """Clearing withdraws exactly the records of actors owned by this node from both indexes, plus the node's counters and node info, and forgets its local ids.
  It runs under the node's distributed lock, which is released on every outcome, and a failing step is reported.""",
  "inputs fault_sequences histories", "every mixture of own and foreign records and every failing step",
  "tests clear a single node that owns every record",
  AB, [("ownership filter and pipeline", "AddressBook.Clear")], (), ["IAddressBook.Clear"])

P("D01", "The distributed lock is exclusive, expiring and owner-released",
  """The lock is taken only by an atomic set-if-absent with a fresh random token and a positive expiry, and the token is returned only if that succeeded; after the bounded retries an error is returned.
  Release deletes the lock atomically and only if it still holds the caller's token, and reports success only then.""",
  "schedules fault_sequences inputs", "every interleaving of holders on any number of nodes, and every store failure",
  "there is no test of the lock; violating owner checks needs an expiry between two holders",
  "lib/dismutex/dismutex.go 3rd/redis/client.go", [("SETNX with expiry", "dismutex.Lock"), ("compare-and-delete script", "dismutex.Unlock")], (), ["dismutex.Lock", "dismutex.Unlock"])

# ------------------------------------------------------------------ pub/sub
P("P01", "A published message is acknowledged only after handing it over",
  """Every entry a channel reads is put into its buffer, and every buffered message is pushed, with the entry's id, event and body, into the subscriber's mailbox.
  An entry is acknowledged and deleted in the stream only after it has been handed to the mailbox, with the same id, stream and group it was read from, and once handed over it is acknowledged and deleted.""",
  "crash_points schedules inputs", "every batch of entries and every point at which the consumer stops",
  "the test publishes one message and does not look at the stream; acknowledging early only shows when the process dies in between",
  "lib/pubsub/ps_channel.go lib/unbounded/unbounded.go", [("read loop", "Channel.loop"), ("handler loop", "Channel.addHandlers")], (), ["pubsub.Channel"])

P("P02", "A malformed stream entry never crashes or blocks a subscriber",
  """An entry lacking the expected fields, or holding values of another type, does not crash the process and does not prevent later entries from being delivered.
  A failed or empty read never ends the subscription.""",
  "inputs fault_sequences", "every entry any writer may put in the stream, and every read failure",
  "tests only read entries written by this library",
  "lib/pubsub/ps_channel.go", [("field checks", "Channel.loop")], (), ["redis stream entries"])

P("P03", "Stopping or closing a channel ends its consumption",
  """After a channel is stopped or closed, all goroutines consuming for it end, it takes no new entries, and entries already read are still handed over.
  Closing removes its consumer, destroys the group only if no consumer is left, and reports the first failure; doing either twice is harmless.""",
  "schedules histories fault_sequences", "every moment of stopping relative to reading and delivery",
  "no test closes a channel; a goroutine left behind keeps consuming silently",
  "lib/pubsub/ps_channel.go", [("stop flag and loop exit", "Channel.Stop, Channel.Close")], (), ["Channel.Close"])

P("P04", "Subscribing creates its group where asked and reports failure",
  """Subscribing creates the named group on the topic's stream at the requested position, latest unless the caller says otherwise, treats an already existing group as success and any other failure as an error with no subscription.
  Consumption starts only after the group exists, with a consumer name of its own, reading only never-delivered entries of that stream for that group.""",
  "inputs fault_sequences", "every option, group state and store failure",
  "tests subscribe once to a fresh stream with default options",
  "lib/pubsub/ps_topic.go lib/pubsub/ps_channel.go", [("XGroupCreate then loop", "newChannel"), ("options", "Topic.Sub")], (), ["Topic.Sub"])

P("P05", "Publishing appends the message or returns an error",
  """Publishing appends exactly one entry with the given event and body to the topic's stream and returns the store's error, and an empty event is refused without writing.
  A topic is created at most once per node even under concurrent use, all users share it, creating it never changes a stream that already exists, and the placeholder entry with which a new stream is created is removed again.""",
  "inputs schedules fault_sequences", "every topic, event, body and store failure, and every interleaving of creators",
  "tests publish one message on a fresh topic from one goroutine",
  "lib/pubsub/ps_topic.go lib/pubsub/ps_mgr.go", [("XAdd", "Topic.Pub"), ("double-checked creation", "Pubsub.CreateTopic"), ("placeholder add/delete", "newTopic")], (), ["ISystem.Pub", "Topic.Pub"])

P("P06", "Closing a topic never destroys undelivered or subscribed data",
  """Closing a topic deletes its stream and registration together, and only when the store reported that no consumer group and no entry is left.
  A topic without group and entry is deleted, also if its stream never existed. If either cannot be determined because the store failed, nothing is deleted and the error is returned; without a failed step there is no error.""",
  "inputs fault_sequences", "every stream state and store failure",
  "the test covers four healthy states and no failing store",
  "lib/pubsub/ps_topic.go", [("group and length checks", "Topic.Close")], (), ["Topic.Close"])

P("P07", "The unbounded buffer loses and reorders nothing",
  """Every value put into the buffer is delivered exactly once and in order: a value bypasses the backlog only when the backlog is empty, and only the oldest backlog value moves to the channel, being dropped from the backlog exactly when that succeeded.
  Putting never blocks, every operation is race-free, and every consumer pulls the next backlog value after taking one.""",
  "schedules histories", "every interleaving of producers and the consumer, every backlog length",
  "tests never build up a backlog",
  "lib/unbounded/unbounded.go lib/pubsub/ps_channel.go", [("backlog under mutex", "Unbounded.Put/Load")], [("backlog", "values waiting for the channel", "Unbounded")], ["Unbounded"])

# ------------------------------------------------------------------ rpc
P("R01", "RPC concurrency slots are bounded and always returned",
  """A limited client call runs only while holding one of the configured number of slots, and gives it back on every outcome, success, error or panic.
  A call whose context ends while waiting for a slot fails without using one; waiting for a slot never outlasts the context.""",
  "schedules fault_sequences", "every number of concurrent calls, failures and cancellations",
  "the tests exercise the limit with a few calls; a slot leaked on one error path needs many failing calls to be noticed",
  "lib/grpc/client.go lib/grpc/client_opt.go", [("worker channel", "Client.Call")], [("workers", "slot channel", "Client")], ["Client.Call"])

P("R02", "RPC connections are cached per address and none is leaked",
  """A connection obtained for an address is used only for that address and reused by later calls; when several callers dial the same address at once, all use one connection and the others are closed.
  A failed dial is reported and caches nothing, an unusable call option is reported and never passed on, and dialling is bounded in time.
  A stored connection that is found failed is made to reconnect at once; a call that is not made is never answered as a success and is refused only for one of these reasons.""",
  "schedules fault_sequences inputs", "every interleaving of callers and every dial failure",
  "tests dial sequentially to a live mock server",
  "lib/grpc/client.go", [("connmap", "Client.getConn, Client.CallWait")], [("connmap", "address to connection", "Client")], ["Client.CallWait"])

P("R03", "Every RPC entry is recovered and every interceptor takes part",
  """The server survives a panic while serving a remote call and returns an error for it, because recovery wraps everything else on the server side.
  All configured unary interceptors, and only these, take part in every call in the order given, and the tracing interceptors invoke the real handler exactly once with the caller's request and return its result unchanged.""",
  "inputs programs configurations", "every panic in routing and every interceptor list",
  "no test panics in a remote call or configures interceptors",
  ACC + " lib/grpc/server.go lib/grpc/client.go lib/span/span_grpc.go", [("interceptor chain", "NewAcceptor, BuildServerWithOption, Client.newconn"), ("pass-through", "span interceptors")], (), ["grpc interceptors"])

P("R04", "Every started trace span is finished and no caller metadata is changed",
  """On every path through the system's call and send, the RPC interceptors and the storage wrappers, a span that was started is finished exactly once.
  Injecting trace data never modifies the caller's outgoing metadata, and missing or unusable trace data never fails a call.""",
  "inputs fault_sequences", "every call path with tracing on or off and every tracer failure",
  "the tests run without a tracer",
  SYS + " lib/span/span_call.go lib/span/span_grpc.go 3rd/redis/client.go 3rd/mgo/collection.go", [("deferred End/Finish", "NormalSystem.Call/Send, ClientInterceptor, ServerInterceptor, wrappers")], (), ["ISpan"])

P("R05", "The RPC server listens, serves and stops as it was configured",
  """The server listens on the configured address and keeps its listener; when it cannot listen, this is reported and nothing is kept.
  Running it gives the handler this server's own rpc before it serves, serves its own listener, once, and does not keep the caller; closing it stops gracefully exactly if it was configured to, and at once otherwise.
  A server without a handler is refused; a built one keeps its settings as its options left them.""",
  "configurations fault_sequences", "every listen failure and every combination of options",
  "tests run servers with one configuration on a free port",
  "lib/grpc/server.go lib/grpc/server_opt.go", [("rpc server", "BuildServerWithOption, Server.Init/Run/Close")], (), ["Server.Init", "Server.Run", "Server.Close"])

P("T01", "Traces connect: every span has its caller's span as parent",
  """With a tracer every call and send runs in a span that is begun from the message's context before the message is handed over, and the message carries the context of that span on.
  A span is the child of the span its context, or the metadata of the incoming call, carries, and a root only without one; what is handed on, as context or as outgoing metadata beside what the caller put there, carries the new span.
  A tracer answers the span of exactly the strategy asked for, made of itself by the factory it was given under that name, or an error; it is built with every strategy given and reports under the configured name and sampling to the configured collector, or is not answered at all.""",
  "inputs configurations histories", "every context, metadata, strategy and tracer configuration",
  "no test runs with a tracer or a collector; a lost parent or context changes no result of a call",
  "lib/span/span_call.go lib/span/span_grpc.go lib/tracer/jaegertracing.go " + SYS, [("span begin", "SystemCallTracer.Begin, NormalSystem.Call, NormalSystem.Send"), ("interceptors", "ClientInterceptor, ServerInterceptor"), ("strategies", "jaegerTracing.GetSpan, BuildWithOption")], (), ["tracer.ITracer", "tracer.ISpan"])

# ------------------------------------------------------------------ messages
P("G01", "The message builder transfers everything it is given",
  """Setting a request header transfers every field of the given header, setting bodies, headers and options affects exactly the named part of the message, and a new message has request and response with usable headers, the same id and the caller's context.
  Options given to the builder take effect.""",
  "inputs", "every header content and option, including fields added later to the protocol",
  "the only builder test sets one field; a forgotten field is silently empty on the receiving side",
  "router/msg/msg.go router/router.pb.go", [("field-by-field copy", "MsgBuilder.WithReqHeader"), ("construction", "NewBuilder")], (), ["msg.MsgBuilder"])

P("G02", "Custom fields round-trip through one codec and failures change nothing",
  """Custom fields and objects are encoded and decoded with the codec configured for that kind, request and response alike, and adding fields keeps the ones already present.
  When encoding or decoding fails the message keeps its previous custom data and records the error, or the getter reports it.
  Reading a numeric field converts to every Go integer and float type, and a missing or mismatching field yields the zero value, never a crash.""",
  "inputs", "every field set, value type and codec failure",
  "tests read back a few strings, ints and one object with the default codec",
  "router/msg/msg_custom_map.go router/msg/map_custom_object.go router/msg/map_custom_serialize.go", [("merge then encode", "WithReqCustomFields"), ("conversion table", "GetReqCustomField/GetResCustomField")], (), ["msg.GetReqCustomField"])

P("G03", "Completion groups are shared down a call tree and isolated for new ones",
  """A message built from a context that already belongs to an exchange joins that exchange's completion group, any other message gets a group of its own, so every message always has one.
  A reentrant call and a remotely received call always start their own group.""",
  "programs inputs", "every way of deriving messages and contexts",
  "a missing group only crashes, and a wrongly shared one only hangs, in nested or remote calls the tests do not make",
  "router/msg/msg.go " + ACC, [("WaitGroupKey in context", "NewBuilder, Swap, GetWg, listen.Routing")], (), ["Wrapper.GetWg"])

# ------------------------------------------------------------------ libraries
P("L01", "Tokens are signed, verified and never empty",
  """Creating a token for an empty entity fails; otherwise the token carries exactly that entity, signed with the secret key.
  Parsing returns an entity only for a token whose signature verified with the same key and algorithm family and whose entity is non-empty; every other token yields an error and no entity.""",
  "inputs", "every token string, including forged ones",
  "the test parses one token it created itself",
  "lib/token/token.go", [("HS256 sign and verify", "token.Create, token.Parse"), ("claims check", "Claims.Valid")], (), ["token.Create", "token.Parse"])

P("L02", "The timer service's task table is race-free and its tasks survive panics",
  """The service's task table is only touched under its lock.
  A panicking or failing task handler is reported to the exception handler and the task keeps its single schedule; stopping or starting a task that is unknown, not started or already stopped is harmless.""",
  "schedules inputs", "every interleaving of add, remove, start and stop, every handler outcome",
  "there is no test of the timer service",
  "lib/timer/timer.go lib/timer/timer_tick.go", [("taskMutex", "TimerService"), ("recover in tick handler", "startTickTask")], [("taskMap", "id to task", "TimerService")], ["TimerService"])

P("L03", "Each redis helper issues its own command with the caller's arguments",
  """Every redis helper runs exactly the command it is named after, once, on the shared client, with the caller's context and arguments in order, and returns the reply and error unchanged.
  Tracing on or off makes no difference to the command.""",
  "inputs", "every helper and every argument",
  "tests reach the dozen helpers the address book and pub/sub use",
  "3rd/redis/client.go 3rd/redis/client_utils.go", [("pass-through wrappers", "package redis")], (), ["package redis helpers"])

P("L04", "Each mongo helper issues its own operation with the caller's arguments",
  """Every collection helper runs exactly the operation it is named after, once, on its own collection, with the caller's context, arguments and options in order, and returns the result and error unchanged.""",
  "inputs", "every helper and every argument",
  "there is no mongo test",
  "3rd/mgo/collection.go", [("pass-through wrappers", "LCollection")], (), ["LCollection"])

P("L05", "Every configuration option has the effect of its own setting",
  """Every exported option stores the given value in its own setting and no other, and that setting is read by the component it configures.
  Options are applied in the order given, on top of the defaults, without changing the defaults of other instances.""",
  "configurations", "every option of every component",
  "tests use a handful of options and cannot see one that is ignored",
  "core/node.go lib/grpc/client_opt.go lib/grpc/server_opt.go lib/pubsub/ps_opts.go lib/log/options.go lib/tracer/opts.go 3rd/redis/client_opt.go 3rd/mgo/mgr_opts.go", [("option functions", "With*")], (), ["BuildWithOption constructors"])

P("L06", "Version strategies are found exactly and the next version is the smallest",
  """A strategy is found exactly by its version and an unregistered version is reported as not found.
  The next version of an entity is the smallest registered version above its own, or its own if there is none, and the strategy list is only touched under its lock.""",
  "inputs histories schedules", "every registration order and every version",
  "there is no test of version strategies",
  "core/entity.go", [("locked list", "RegisterVersionStrategy, GetVerStrategy, GetNextVersion")], [("verList", "registered strategies", "core/entity.go")], ["core.GetNextVersion"])

P("L07", "Saving a file replaces its whole content",
  """Saving JSON or data to a path leaves exactly the given bytes in the file, creating it if needed and truncating longer old content, and releases the file on every path; reading returns the whole content or the error.""",
  "inputs", "every previous and new content",
  "there is no test of the file helpers",
  "utils/file/file.go", [("open flags, write, close", "file.WriteJSON, SaveFile, ReadFile")], (), ["file.WriteJSON"])

P("L08", "Log calls are emitted at their own level and filtered by it",
  """Every logging helper emits its message at the level it is named after, exactly once, and only if that level is enabled.
  Logging never changes control flow except for the panic and fatal levels.""",
  "inputs configurations", "every helper, level and logger configuration",
  "tests do not capture log output",
  "lib/log/helper.go", [("level switch", "helper.Log, helper.SystemLog")], (), ["log.InfoF"])

P("L09", "The span reporter never blocks callers and drops only when full",
  """Reporting a span never blocks: it is queued, or counted as dropped if the queue is full, and it is retained while queued and released exactly once after processing.
  Closing flushes what was queued before it, ends the worker, and is harmless when repeated.""",
  "schedules histories", "every rate of reporting and every moment of closing",
  "there is no test of the reporter",
  "lib/tracer/slow_reporter.go", [("bounded queue with default case", "slowReporter.Report"), ("close handshake", "slowReporter.Close")], (), ["jaeger.Reporter"])

P("L10", "Every lock taken is released and nothing blocks or re-locks under it",
  """On every path through every function, a mutex that was locked is unlocked exactly once before the function returns, and is not locked again while held.
  No channel wait, sleep, wait-group wait or storage or network exchange happens under the framework's mutexes, except topic creation and subscription setup which are serialised on purpose.""",
  "schedules programs", "every path of every function that locks",
  "a lock leaked on an error path or a re-lock shows only on that path and as a hang",
  "core lib 3rd router utils", [("sync.Mutex / sync.RWMutex uses", "whole module")], (), ["process liveness"])

P("L11", "Shared state is touched only under its lock or only atomically",
  """Everywhere in the module, a field or package variable that is changed after its construction and that a lock of its object or package guards in one place is guarded by that lock in every place, exclusively where it is changed.
  A field that is accessed with sync/atomic in one place is accessed with it in every place.""",
  "schedules programs", "every interleaving of every two operations that touch the same state",
  "a data race needs an interleaving that tests do not force, and the tests run without the race detector",
  "core lib 3rd router utils", [("maps, counters and flags shared between goroutines", "whole module")], (), ["process liveness"])

P("F01", "Contexts, builders and accessors pass on exactly what they are given",
  """An actor context forwards every operation, with unchanged arguments and result, to its own actor or its own system, and its values are those stored under their keys.
  A builder's With methods set what they are named after and nothing else, its accessors return it, and registering or picking hands over the builder itself with the caller's context.
  A node's system and address book carry the node's own id, address, port, loader and factory, and an actor's loop starts only after the actor is completely set up.""",
  "inputs programs", "every method, argument and history of the object",
  "tests use a few of the operations with one actor and one set of values",
  "core/actor/actor_context_impl.go core/actor/actor_build_impl.go " + SYS + " core/node/node_process_impl.go", [("forwarding methods", "actorContext"), ("setters and getters", "ActorLoaderBuilder"), ("identity", "buildSystemWithOption, Runtime.Init")], (), ["core.ActorContext", "core.IActorBuilder", "core.INode"])

P("L12", "The string, slice and file helpers answer what they are named after",
  """A text is found in a list exactly if one of its elements equals it; a file name is cut exactly at its last dot, and a name without a dot has neither part and does not crash; a file exists exactly if asking the system for it did not fail.
  An attribute constructor answers its own key, shared with no other, and the value it was given.""",
  "inputs", "every list, text, name and file",
  "no test calls these helpers",
  "utils/algorithms/algorithms.go utils/file/file.go def/custom_def.go", [("helpers", "ContainsInSlice, GetFileExt, GetFileRealName, Exist, ActorID, ActorTy, TransactionID")], (), ["utils/algorithms", "utils/file", "def"])

P("L13", "Nothing is used before it was made, found or decided to be there",
  """What was decided to be absent is not used, and what may be missing is used only where it was decided to be there: the text of an error is asked only of an error that was decided to be there, what a guarded type assertion yields is used only where the assertion held, what a call answers beside an error is used only where the error was decided absent or the value present, and what a map lookup yields only where the entry was found, and an element of a list the framework keeps or received only where the list was decided to be that long.
  A map that is written to, a channel that is used, a function that is called and an object whose methods are called without asking is put there where its owner is made or initialised.""",
  "inputs histories", "every path of every function and constructor",
  "a crash needs the one answer, message or configuration the tests do not give",
  "core/actor core/node core/addressbook lib router/msg 3rd", [("deliveries", "NormalSystem.Send, localCall"), ("consumer groups", "Topic.Sub, Channel.init"), ("constructors", "Runtime.Init, newChannel, TimerService, buildSystemWithOption")], (), ["core", "lib", "router", "3rd"])

P("E01", "Error codes compare by number and no failure passes for success",
  """A code keeps the number and text it was made with, and a business code that is not positive is refused. The success code is zero without text and never changes, and the absence of an error is success.
  An error that carries a code, also wrapped, answers that code; any other error with a text answers a negative code with that text, never success.
  Two codes are equal exactly if their numbers are, an absent one counting as success, and comparing with an error compares with the code it answers.""",
  "inputs", "every code, text, error and wrapping",
  "no test uses the package",
  "lib/errcode/errcode.go", [("construction", "New, Add"), ("reading", "Cause, String"), ("comparison", "Equal, EqualError, Code.Equal")], (), ["lib/errcode"])

# ------------------------------------------------------------------ not decided statically
P("N01", "Global quantity limits hold across nodes",
  """The number of actors of a type registered in the whole cluster never exceeds its global quantity limit, even if several nodes register at the same time.""",
  "schedules configurations", "every interleaving of registrations on several nodes",
  "tests register on one node",
  SYS + " " + AB, [("count check before register", "NormalSystem.Register")], (), ["IAddressBook.GetActorTypeCount"])
P("N02", "Accepted stream entries survive a crash of their consumer",
  """An entry read by a consumer that dies before acknowledging it is delivered again to some subscriber of the group.""",
  "crash_points", "every crash point between reading and acknowledging",
  "needs a crashed consumer and a surviving one",
  "lib/pubsub/ps_channel.go", [("consumer groups", "Channel.loop")], (), ["redis pending entries"])
P("N03", "Messages between two actors arrive in the order sent",
  """Two messages sent one after the other by the same sender to the same actor are handled in that order, also across nodes.""",
  "schedules histories", "every schedule and network delay",
  "needs controlled concurrency and network delay",
  SYS + " lib/mpsc/mpsc.go", [("mailbox order", "mpsc.Queue")], (), ["handler invocation order"])
P("N04", "Timers fire on time",
  """A timer fires no earlier than its due time and a periodic timer keeps its rate while the actor keeps up.""",
  "schedules inputs", "every due time, interval and load",
  "depends on the clock and scheduler",
  "core/actor/actor_timer.go", [("ticker", "Runtime.OnTimer")], (), ["ITimer"])
P("N05", "Numeric custom fields keep their exact value",
  """An integer stored as custom field is read back with exactly the same value for every 64-bit integer.""",
  "inputs", "every 64-bit value",
  "tests use small values",
  "router/msg/msg_custom_map.go", [("JSON map codec", "GetReqCustomField")], (), ["msg.GetReqCustomField"])
P("N06", "Placement keeps node weights balanced",
  """Repeated placement by the low-weight choice keeps the difference between node weights bounded by the largest actor weight.""",
  "histories schedules", "every history of placements on every cluster",
  "needs a cluster and long histories",
  AB, [("low-weight choice", "GetLowWeightNodeForActor")], (), ["IAddressBook.GetLowWeightNodeForActor"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS), "properties")
