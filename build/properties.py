#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source form of the properties)."""
import json, os

P = []

def prop(id, title, statement, over, text, tests, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=["middleware/" + f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- transactions
prop("T01", "A distributed transaction has exactly one outcome at every participant",
 "When a transaction is ended, every resource that took part receives the same final decision, commit or rollback: never commit at one participant and rollback at another, and commit only after every participant that must vote has voted yes (or, for a sole participant, is delegated the decision). A rollback that is asked for, a participant that votes no or is lost before it has voted, and a death of the owner before it has asked for the outcome all end in rollback for every participant that took part.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of owner requests, resource replies (ok, read only, rollback votes, errors), remote domain requests and process deaths, for up to three participants, local resources and external domains.",
 "The unit tests run a handful of happy paths and a few fixed error replies with one schedule each; the decision must hold for all reply orders and losses.",
 ["transaction/source/manager/handle.cpp", "transaction/source/manager/state.cpp"],
 [("two phase commit stages and result folding", "transaction/source/manager/handle.cpp"), ("branch and resource state", "transaction/include/transaction/manager/transaction.h")],
 observe=["messages to resource proxies and external domains"])

prop("T02", "Every commit or rollback request is answered once, truthfully",
 "Each request to commit, roll back or prepare a transaction is answered exactly once, to its sender and with its correlation, once the participants it asked have answered or are gone; the answer says committed only if commit was decided, rolled back only if rollback was decided. After the final answer nothing of the transaction is left in the manager: no transaction, no pending request and no reserved resource.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of requests, resource replies, resource deaths and owner deaths for up to two transactions sharing resource instances.",
 "Tests sample single schedules; lost or duplicated answers and left-over state show up only for particular orders of replies and deaths.",
 ["transaction/source/manager/handle.cpp", "transaction/source/manager/state.cpp"],
 [("pending requests and persistent replies", "transaction/source/manager/state.cpp"), ("coordinators", "transaction/source/manager/handle.cpp")],
 observe=["replies to owners, remote domains; manager state"])

prop("T03", "No answer about an outcome leaves before the decision is on disk",
 "When a caller or a superior coordinator has received an answer that a transaction is committed or prepared, the manager's log file contains a record of that decision or the transaction has been completed at every participant. Whatever crash of the manager follows, what is in the file never contradicts an answer that was sent.",
 ["crash_points", "schedules"],
 "a crash of the manager process after each message it sends and each write to its log, over the commit histories of T01.",
 "No test stops the process between a write and a reply.",
 ["transaction/source/manager/log.cpp", "transaction/source/manager/handle.cpp"],
 [("log with explicit persist before replies", "transaction/source/manager/log.cpp"), ("persistent replies held until the log is persisted", "transaction/source/manager/state.cpp")],
 observe=["database file writes and syncs", "replies"])

# ---------------------------------------------------------------- queue
prop("Q01", "Queue contents follow committed operations, in order",
 "A message that is enqueued in a committed transaction, or outside any, can be dequeued exactly once by a committed dequeue; a message of an uncommitted or rolled back enqueue is never delivered, and a rolled back dequeue makes it available again. Available messages come out in enqueue order among those that match the selector or identity asked for, with identity, payload and properties unchanged, and size and count figures agree with the contents.",
 ["histories", "schedules", "inputs"],
 "every sequence up to the depth bound of enqueue, dequeue (plain, by selector, by id), peek, browse, commit, rollback, clear and remove, over two transactions and two queues.",
 "Tests fix a few short sequences; interplay of several open transactions, selectors and ids is combinatorial.",
 ["queue/source/group/queuebase.cpp", "queue/source/group/queuebase/statement.cpp", "queue/source/group/handle.cpp"],
 [("message states added, enqueued, dequeued per transaction", "queue/source/group/queuebase.cpp")],
 observe=["replies of the queue group, queue information"])

prop("Q02", "Acknowledged queue operations survive any crash",
 "When a queue group has answered an enqueue outside a transaction, a prepare, a commit or a rollback, its effect is in the group's file and survives a crash of the group at any later point; an operation that was not answered is either wholly there or wholly absent. A restarted group offers exactly the messages of committed operations, and still knows the work of prepared transactions so that they can be committed or rolled back.",
 ["crash_points", "histories"],
 "a crash of the group process after each message it sends and each write to the file, for every history of enqueues, dequeues (also waiting ones), prepares, commits and rollbacks of up to two transactions up to the depth bound, followed by a restart.",
 "No test kills the group between the write and the answer.",
 ["queue/source/group/handle.cpp", "queue/source/group/queuebase.cpp", "queue/source/group/state.cpp"],
 [("answers held until persist", "queue/source/group/handle.cpp"), ("sqlite transaction begin and commit", "queue/source/group/queuebase.cpp")],
 observe=["database file writes", "replies"])

prop("Q03", "A blocking dequeue is woken by the message it waits for",
 "A dequeue that waits gets the first message that becomes available to it, by an enqueue, a commit, a rollback or an elapsed delay: it never keeps waiting while a message it could take is available and nothing is left to be processed. Each waiting request is answered at most once, a forgotten one is answered as discarded or has already got its message, and a request of a process whose death the group has been told of takes no message.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of up to three waiting requests with enqueues, commits, rollbacks, forgets, timers and deaths.",
 "Tests wait once in one schedule; lost wakeups need particular orders of requests and commits.",
 ["queue/source/group/handle.cpp", "queue/source/group/state.cpp", "queue/source/group/queuebase.cpp"],
 [("pending dequeue requests and wakeup when available", "queue/source/group/handle.cpp")],
 observe=["replies, pending requests"])

prop("Q04", "Redelivery counts, delays and the error queue are honoured",
 "Each rolled back dequeue increases the message's redelivery count by one; the message is not offered again before the queue's retry delay has passed, and once the retry limit is exceeded it moves, unchanged, to the error queue and is never lost or duplicated. A message on an error queue stays there until it is dequeued or restored, and restore puts it back on the queue it came from.",
 ["histories", "inputs"],
 "every sequence up to the depth bound of dequeue, rollback, commit, restore and time steps for retry counts 0 to 2 and delays zero and positive.",
 "Tests cover one retry count at a time and cannot cover the time and order product.",
 ["queue/source/group/queuebase.cpp", "queue/source/group/queuebase/statement.cpp"],
 [("rollback statements, retry and error queue", "queue/source/group/queuebase/statement.cpp")],
 observe=["queue contents by dequeue, browse and information"])

prop("Q05", "Queue forwards neither lose nor duplicate messages",
 "A queue forward ends each transaction in which it took a message exactly once: it commits only after the target (and the reply queue, where there is one) has accepted the result, and rolls back in every other case, so that the message is neither lost nor handled twice. It never runs more than the configured number of instances, and it resumes after every kind of failure.",
 ["schedules", "fault_sequences", "histories"],
 "every order of replies and failures from queue groups, services and the transaction manager, for up to two concurrent instances, including scaling and shutdown.",
 "Tests run complete domains with successful or constantly failing targets.",
 ["queue/source/forward/handle.cpp", "queue/source/forward/state.cpp", "queue/include/queue/forward/state.h"],
 [("pending dequeue, lookup, call, enqueue, commit, rollback stages", "queue/source/forward/handle.cpp")],
 observe=["messages to queue groups, services and transaction manager"])

# ---------------------------------------------------------------- service manager
prop("S01", "A server instance serves one call at a time and only what it offers",
 "A service instance that has been handed to a caller is not handed to another before it has reported the call done, been released or been replaced; when it reports done it is available again. A lookup is answered only with an instance that currently offers the service, local instances before remote ones.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of lookups, discards, acknowledgements, advertisements and deaths for up to three callers, two services and two local plus two remote instances.",
 "Tests use one caller and one schedule.",
 ["service/source/manager/handle.cpp", "service/source/manager/state.cpp"],
 [("reservation of sequential instances", "service/source/manager/state.cpp")],
 observe=["lookup replies and the acknowledgements that are sent in"])

prop("S02", "Every service lookup is answered, and no call waits beside an idle instance",
 "Each lookup gets exactly one final answer (an instance, absent, or discarded when the caller withdraws), and callers that wait for a busy service are served in the order they came. No caller keeps waiting while an instance that could serve it is idle, and an instance reserved for a caller that has withdrawn or could not be told becomes available again.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of lookups, withdrawals, acknowledgements, advertise and unadvertise, discovery answers and deaths within the bounds of S01.",
 "A lost wakeup or leaked reservation needs a particular order; the tests have no caller that dies at the wrong time.",
 ["service/source/manager/handle.cpp", "service/source/manager/state.cpp"],
 [("pending lookups", "service/source/manager/handle.cpp")],
 observe=["lookup replies"])

prop("S03", "Service call deadlines fire exactly when due",
 "A call to a service with an execution timeout that is not acknowledged in time is reported to its caller as timed out, exactly once, no earlier than its deadline, and with the contract that applies; a call acknowledged before the deadline is never reported. Deadlines of other calls are not affected, in whichever order calls start, end and time out.",
 ["schedules", "histories"],
 "every interleaving of up to three calls with different timeouts, their acknowledgements, instance deaths and time.",
 "Tests let one call time out at a time.",
 ["service/source/manager/handle.cpp", "service/source/manager/state.cpp"],
 [("ordered deadlines and one timer", "service/source/manager/state.cpp")],
 observe=["error replies to callers", "timer"])

prop("S04", "Preparing a server for shutdown drains it",
 "When the domain asks for instances to be shut down, they are no longer handed to callers, and the answer comes exactly when each is idle or gone; the services they offered stay available from other instances. A call that is in progress is completed, or its caller is told if the server is lost.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of prepare requests, calls in progress, acknowledgements and deaths with up to two instances.",
 "Tests shut down idle servers.",
 ["service/source/manager/handle.cpp", "service/source/manager/state.cpp"],
 [("prepare shutdown coordination", "service/source/manager/handle.cpp")],
 observe=["prepare shutdown replies, lookup replies, error replies to callers"])

prop("S05", "Calls to remote services go to the best connection, and a transaction keeps its",
 "A call to a service that is only offered by connections to other domains is sent to a connection with the lowest order and, among those, the fewest hops, as they are at the moment of the call. Within a transaction calls keep to the connections that the transaction already uses, as long as one of those is among the best, until the transaction has ended.",
 ["histories", "schedules"],
 "every sequence of advertise, unadvertise, reset, order changes, calls in and outside transactions and ends of transactions for up to three connections and a local server, up to the depth stated in the evidence.",
 "Tests look at single configurations; a stale order or a forgotten association shows up only after particular sequences.",
 ["service/source/manager/state.cpp", "service/source/manager/handle.cpp"],
 [("prioritized concurrent instances", "service/source/manager/state.cpp"), ("associations between transactions and connections", "service/source/manager/handle.cpp")],
 observe=["lookup replies"])

# ---------------------------------------------------------------- gateway
prop("G01", "Every call through an outbound gateway is answered exactly once",
 "Every service call, queue operation, conversation, discovery and transaction request that is sent to a remote domain through a gateway is answered exactly once to the local process that sent it, with its own correlation: the remote's reply, or an error once the connection is lost. A reply reaches only the process that asked, and the transaction manager learns of the gateway as a participant before it can see the outcome of a transactional call.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of local requests, remote replies, out of order replies, connection losses (also while sending) and local deaths for two connections and up to three requests.",
 "Tests lose a connection at rest; loss while sending and reply races are not sampled.",
 ["gateway/source/group/outbound/handle.cpp", "gateway/source/group/outbound/state.cpp"],
 [("task coordinator per connection", "gateway/source/group/outbound/handle.cpp")],
 observe=["messages on local channels and on the connection"])

prop("G02", "An inbound gateway answers each remote request once on its connection",
 "Each request that arrives from a remote domain is answered exactly once, with its correlation, on the connection it came from, and never on another; what happens to one request or connection does not affect others. Within a transaction all requests of one connection run as one local branch, prepare, commit and rollback go to that branch, and the remote gets answers in terms of its own transaction identity.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of remote requests on two connections with lookup, service, queue and transaction manager answers, and connection loss.",
 "Tests use one connection and synchronous peers.",
 ["gateway/source/group/inbound/handle.cpp", "gateway/source/group/inbound/task/create.cpp", "gateway/source/group/inbound/state.cpp"],
 [("task coordinator and transaction cache", "gateway/source/group/inbound/task/create.cpp")],
 observe=["messages on the connection and to local processes"])

prop("G03", "Interdomain messages survive every protocol version and any fragmentation",
 "A message written to a connection in a protocol version both sides speak is read at the other end with every field that version carries unchanged, whatever the boundaries at which the stream delivers it and in whatever pieces it can be written; several messages keep their order and boundaries. Partial input never yields a message.",
 ["inputs", "fault_sequences"],
 "every split of the byte stream of up to three messages of each interdomain type at each read and write, for each protocol version.",
 "Tests read back whole messages.",
 ["gateway/include/gateway/message.h", "common/source/communication/tcp.cpp", "gateway/include/gateway/message/protocol.h"],
 [("network serialization and tcp message reassembly", "common/source/communication/tcp.cpp")],
 observe=["messages received"])

# ---------------------------------------------------------------- domain
prop("D01", "Discovery answers with exactly what the asked domains can provide",
 "A discovery request is answered exactly once, after every provider that was asked has answered or is gone, with the union of what they said and nothing else. Waiting requests are not blocked by a lost provider, and a provider that is registered is asked.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of up to two requests, internal and external provider answers, topology updates and provider deaths.",
 "Tests use cooperative providers in one order.",
 ["domain/source/discovery/handle.cpp", "domain/source/discovery/state.cpp", "common/include/common/message/coordinate.h"],
 [("fan out coordination", "common/include/common/message/coordinate.h")],
 observe=["discovery replies"])

prop("D02", "The domain keeps the configured instances running and shuts down in order",
 "The domain manager starts groups in dependency order and stops them in reverse: no member of a group is started before the groups it depends on are up, nor stopped before those that depend on it are gone. A scale request converges to the requested number of instances, a restarting executable is respawned when it dies and others are not, and a shutdown ends with no process left, whatever order processes connect and die in.",
 ["schedules", "fault_sequences", "configurations"],
 "every interleaving of connect, exit, scale and shutdown events for small configurations of up to two groups and two instances.",
 "Tests boot real processes in one schedule.",
 ["domain/source/manager/handle.cpp", "domain/source/manager/task/create.cpp", "domain/source/manager/state/order.cpp", "domain/source/manager/state.cpp"],
 [("boot and shutdown order, tasks", "domain/source/manager/task/create.cpp")],
 observe=["spawned and signalled processes, replies"])

# ---------------------------------------------------------------- common
prop("C01", "A message between processes arrives whole, once and unmixed",
 "A message of any size sent to a process arrives exactly once with identical content and correlation, also when its parts are interleaved with parts of other messages, and messages of one sender to one receiver can be taken in the order they became complete or by type or correlation without disturbing the others. A message that is discarded is never delivered, not even by parts that arrive later.",
 ["schedules", "inputs"],
 "every interleaving of the parts of up to three messages at part size boundaries, and every sequence of takes by type, correlation and discards.",
 "Tests send one message at a time.",
 ["common/include/common/communication/device.h", "common/source/communication/ipc.cpp", "common/source/communication/ipc/message.cpp"],
 [("reassembly cache", "common/include/common/communication/device.h")],
 observe=["messages received"])

prop("C02", "Asynchronous sends keep order and report each message's fate once",
 "Messages sent without blocking to a destination that is slow arrive complete and in the order sent, each exactly once, whatever the destination accepts at a time; one slow destination does not hold up others. If the destination disappears each message that was not delivered is reported once to the one who sent it, and messages to other destinations are unaffected.",
 ["fault_sequences", "schedules"],
 "every pattern of would-block, accept and gone answers over up to four messages and two destinations, including sends from within the report.",
 "Tests cannot make the socket refuse at a chosen message part.",
 ["common/source/communication/ipc/send.cpp", "common/include/common/communication/ipc/send.h", "common/include/common/communication/ipc/message.h"],
 [("send coordinator per destination", "common/source/communication/ipc/send.cpp")],
 observe=["parts that reach the destination, error callbacks"])

prop("C03", "Fan-out requests complete exactly once with every answer",
 "A fan-out is completed exactly once, when every participant has either answered or failed, with all answers and failures and in no case earlier; a completed or empty fan-out is removed and concurrent fan-outs do not influence each other. Tasks that form a group run in order, a group starts only when the previous is finished and each task reports one outcome.",
 ["schedules", "fault_sequences"],
 "every order of answers and failures for up to two concurrent fan-outs of three participants; every event order for up to three tasks.",
 "Tests sample one order.",
 ["common/include/common/message/coordinate.h", "common/include/casual/task.h"],
 [("fan out coordinator", "common/include/common/message/coordinate.h"), ("task coordinator", "common/include/casual/task.h")],
 observe=["callbacks"])

prop("X01", "The transaction interface follows the TX state table",
 "Each TX call, in every state of the calling thread, returns the code and leaves the state that the X/Open TX specification prescribes, for every control and return mode, for local resources that answer with every code they may give and for suspend and resume. Every local resource that was started for a transaction is ended exactly once before that transaction is completed, on every path.",
 ["histories", "fault_sequences"],
 "every sequence of TX calls up to the depth bound with two local resources and every relevant resource answer.",
 "Tests check chosen sequences with resources that answer ok.",
 ["common/source/transaction/context.cpp", "common/source/transaction/transaction.cpp", "common/source/transaction/resource.cpp"],
 [("transaction context", "common/source/transaction/context.cpp")],
 observe=["return codes, XA calls and messages to the transaction manager"])

prop("X02", "Asynchronous call descriptors match each reply to its call",
 "Every asynchronous call gets a descriptor not in use, tpgetrply on it returns that call's reply and no other's, and taking any returns a reply of some outstanding call with its descriptor, in any order of arrival. After a reply, a timeout or a cancel the descriptor is invalid, and a reply that comes late to a cancelled call is never delivered to a later call.",
 ["histories", "schedules"],
 "every sequence of up to three calls, getreply (given, any, no block), cancel and replies in every order, with calls in and out of transaction.",
 "Tests use few fixed orders of replies.",
 ["common/source/service/call/context.cpp", "common/source/service/call/state.cpp"],
 [("pending descriptors", "common/source/service/call/state.cpp")],
 observe=["XATMI return values, tperrno"])

prop("X03", "A conversation is half duplex and ends exactly once",
 "tpconnect gives a descriptor if and only if the service accepts. Only the side that has the control can send and only the other can receive, and the control moves exactly when it is given; what is sent is received once, complete and in order. The end is told exactly once, with the event and user code that tell how the service ended, or that it is lost; after that, or after a disconnect (which the service is told about), the descriptor is invalid. A transaction with an open conversation can not commit, and when a conversation did not succeed it can only roll back. No operation waits forever.",
 ["histories", "schedules"],
 "every sequence of connect, send, receive (blocking or not), disconnect, begin, commit and rollback with up to two or three conversations and every order of what the services, lost servers and the service manager do.",
 "Tests run a few complete conversations against real services with fixed order.",
 ["common/source/service/conversation/context.cpp", "common/source/service/conversation/state.cpp"],
 [("conversation context", "common/source/service/conversation/context.cpp")],
 observe=["XATMI return values, tperrno, events, tpurcode"])

prop("X04", "A service invocation gives one reply and one acknowledge, with its outcome",
 "A request to a server runs the service once, with the request's data and flags, in the transaction that the service's transaction type and the caller's transaction give. When the service ends (successfully, with failure, by returning without tpreturn, by an exception, or by forwarding) its own transaction is committed or rolled back and the caller's is left, before exactly one reply (none when no reply is wanted or the request is forwarded) tells the code, user code, buffer and transaction state; then exactly one acknowledge with the same code makes the server available. A forward keeps caller, correlation and transaction, and is refused when it would lose an outcome. Nothing remains in the server for the next request.",
 ["inputs", "histories", "fault_sequences"],
 "every combination of request kind, transaction type, caller in or not in a transaction, operations in the service, way to end, failing resource and outcome at the transaction manager, followed by another request.",
 "Tests run services that succeed or fail in a few combinations against a real domain.",
 ["common/include/common/server/handle/service.h", "common/source/server/handle/policy.cpp", "common/source/server/handle/conversation.cpp", "common/source/transaction/context.cpp"],
 [("invocation of a service", "common/include/common/server/handle/service.h")],
 observe=["reply and acknowledge messages, requests to the transaction manager, xa functions"])

prop("B01", "A field buffer is an ordered multimap of typed values",
 "After any sequence of additions, updates, removals and cleanings, each occurrence of each field reads back exactly the value last written with its own type and size, count, next, exist, first occurrence and used agree, and a refused operation changes nothing. Copies, serialized forms and a buffer that had to grow hold the same fields in the same order.",
 ["histories", "inputs"],
 "every operation sequence up to the depth bound over fields of every type, repeated occurrences and values at size boundaries, including buffers without space left.",
 "Tests cover chosen short sequences per call.",
 ["buffer/source/field.cpp"],
 [("packed field memory with index", "buffer/source/field.cpp")],
 observe=["the C interface of field buffers"])

prop("B02", "Order, string and octet buffers return what was put in",
 "An order buffer returns the values that were added in that order, refuses to read past the end without moving, and a string or octet buffer returns exactly the bytes last set. Growth, copying and transfer in a message keep the contents, and a refused operation changes nothing.",
 ["histories", "inputs"],
 "every operation sequence up to the depth bound over all value types and sizes at the allocation boundaries.",
 "Tests cover chosen short sequences.",
 ["buffer/source/order.cpp", "buffer/source/string.cpp", "buffer/source/octet.cpp"],
 [("cursor based packing", "buffer/source/order.cpp")],
 observe=["the C interface of the buffers"])

prop("K01", "Configuration normalisation and merge keep every meaning once",
 "Combining configurations gives each named entity exactly once, with the later definition's settings, keeps every entity that any part defines, and is independent of how the parts are grouped; normalising is idempotent. Converting a configuration to the runtime model and back, and writing and reading it in each supported format, changes nothing.",
 ["configurations", "inputs"],
 "every combination of up to three small configurations over a universe of colliding names and every optional setting present or absent.",
 "Tests compare a few large examples.",
 ["configuration/source/model.cpp", "configuration/source/model/transform.cpp", "configuration/source/user.cpp", "configuration/include/configuration/model.h"],
 [("set union and update of model parts", "configuration/source/model.cpp")],
 observe=["resulting configuration"])

prop("L01", "Serialization returns what was written in every format",
 "Any value written in a supported format (binary, network, json, yaml, xml, ini) and read back in the same format is equal to the original, for all basic types at their boundary values, for empty and nested containers, optionals and every kind of text the format can carry. Truncated or malformed input gives an error, never a crash, an endless loop or a silently wrong value.",
 ["inputs"],
 "every value of a bounded shape grammar with boundary values, every truncation and every single byte corruption from an alphabet of structural bytes.",
 "Tests have one value per type and format.",
 ["common/source/serialize/json.cpp", "common/source/serialize/yaml.cpp", "common/source/serialize/xml.cpp", "common/source/serialize/ini.cpp", "common/include/common/serialize/native/binary.h", "common/include/common/serialize/native/network.h"],
 [("archives", "common/include/common/serialize/value.h")],
 observe=["values read"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
