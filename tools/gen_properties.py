#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property, kept readable here)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))


prop("P01", "Every serialized request is an exact Kafka v0 frame",
     "Every request the library sends is one frame: a 4-byte size equal to the bytes that follow, then the API's "
     "key, version 0, the request's correlation id and the client id, then the body. An independent decoder of the Kafka v0 "
     "layout reads the body back as exactly the values supplied (null, empty, non-ASCII, nested, extreme integers), "
     "consuming every byte.",
     ["inputs"], "for every request type the library defines and every combination of field values/array shapes within the bound",
     "The request tests compare Part objects with Part objects and never look at bytes; the wire layout of no complete request is asserted anywhere.",
     ["kiel/protocol/request.py", "kiel/protocol/part.py", "kiel/protocol/primitives.py", "kiel/protocol/*.py", "kiel/connection.py"],
     [("Request.serialize/Part.render", "kiel/protocol/request.py, kiel/protocol/part.py"), ("frame size prefix", "kiel/connection.py Connection.send")],
     ["bytes written to the broker socket", "Request.serialize()"])

prop("P02", "Responses decode to exactly what the broker encoded",
     "For every response of every defined API, decoding the bytes a conforming broker produces yields an object whose fields are "
     "exactly the encoded ones, in order, for any number of topics/partitions/brokers including none. Null and empty strings, "
     "non-ASCII text, binary bytes and negative or extreme integers are told apart as the protocol defines them; a null array reads as an empty list.",
     ["inputs"], "for every response type and every combination of field values/array shapes within the bound",
     "Only one metadata response is decoded from bytes by the tests; every other decode path is replaced by mocks.",
     ["kiel/protocol/response.py", "kiel/protocol/part.py", "kiel/protocol/primitives.py", "kiel/protocol/*.py", "kiel/connection.py"],
     [("Response.deserialize/Part.parse/Array.parse", "kiel/protocol")],
     ["Response.deserialize(bytes)", "result of a request future"])

prop("P03", "A fetch response cut at any byte still yields exactly its whole messages",
     "Wherever a broker cuts off the last message of a partition's message set (as it does whenever max_bytes is reached), decoding "
     "returns exactly the complete messages before the cut, with their offsets, keys and values, for that partition. Every other "
     "partition and topic of the same response is unaffected, whether sets are plain, gzip or snappy compressed.",
     ["inputs", "fault_sequences"], "for every arrangement of message sets over topics/partitions within the bound and every byte position of every cut",
     "No test decodes a message set from bytes at all, cut or whole.",
     ["kiel/protocol/messages.py", "kiel/protocol/fetch.py"],
     [("MessageSet.parse", "kiel/protocol/messages.py")],
     ["FetchResponse.deserialize(bytes)", "SingleConsumer.consume()"])

prop("P04", "Compression round-trips and interoperates for every payload",
     "For gzip and for snappy, decompressing what was compressed gives back the original bytes, for every payload size (empty, one byte, around every block boundary, "
     "several blocks) and content from incompressible to constant. The compressed form is also readable by, and "
     "the decompressor also accepts, an independent implementation of the format: standard gzip, and the 16-byte-header block-framed snappy format with any split into blocks.",
     ["inputs"], "for every payload length and content class in the bounded family, and every block split of the snappy framing",
     "The tests round-trip one short text per codec; block-boundary and tiny-block cases are never exercised.",
     ["kiel/compression/gzip.py", "kiel/compression/snappy.py"],
     [("compress/decompress", "kiel/compression")],
     ["compress(), decompress()", "bytes on the wire of compressed produce requests"])

prop("P05", "Every message set produced passes a broker's validation",
     "Every message set the producer puts on the wire is accepted by a broker that checks sizes, magic byte, attributes and the CRC32 of each message, "
     "for any content including those whose CRC takes extreme values. Unwrapping it (including nested compressed sets) gives "
     "exactly the keys and values handed in, in order, with a null key or value told apart from an empty one.",
     ["inputs"], "for every batch shape, key/value shape and compression within the bound, and messages forged to hit each CRC boundary value",
     "Tests compare message sets as objects by key and value only; the CRC and sizes of no message are ever checked.",
     ["kiel/protocol/messages.py", "kiel/clients/producer.py"],
     [("Message.render CRC", "kiel/protocol/messages.py"), ("MessageSet.render/compressed", "kiel/protocol/messages.py")],
     ["bytes written to the broker socket"])

prop("P06", "Every response reaches the request it answers",
     "With any number of requests outstanding on a connection, each pending result resolves with the decoded response to its own request, in whatever "
     "order the broker answers and however the byte stream is split into reads. Correlation ids of requests are distinct, fit a signed 32-bit integer no matter how many requests "
     "were issued before, and are echoed on the response object.",
     ["schedules", "inputs"], "for every response order, every interleaving of sends with responses, and every chunking of the byte stream within the bound",
     "The tests hand over ready-made message objects in one order; the framing reader is only run on one response delivered in three exact pieces.",
     ["kiel/connection.py", "kiel/protocol/request.py"],
     [("Connection.read_loop/read_message/pending", "kiel/connection.py"), ("generate_correlation_id", "kiel/protocol/request.py")],
     ["futures returned by Connection.send()"])

prop("P07", "No request is ever left hanging when its connection dies",
     "If a connection is closed by either side, reset, fails on write, or receives an undecodable or unmatched response, then every request outstanding on it promptly "
     "completes with an error, exactly once, and responses completed before that keep their results. Every later send on that connection fails "
     "immediately with a broker connection error naming the broker, writing nothing.",
     ["crash_points", "fault_sequences", "schedules"], "for every byte position at which the stream can die, every kind of fault, every number of outstanding requests and local close/abort at any point",
     "Tests abort one connection with two pending requests; stream failures during a read or write with requests outstanding are not covered (and two of the write-error tests do not even pass).",
     ["kiel/connection.py"],
     [("socket_error_handling/abort/close", "kiel/connection.py")],
     ["futures returned by Connection.send()"])

prop("P08", "Connecting succeeds whenever any bootstrap host answers",
     "connect() tries the configured bootstrap hosts one at a time in order, with port 9092 unless given, until one answers a metadata request, and then "
     "has live connections to the brokers and the topic metadata it reported. Whatever mixture of refusals, disconnects and garbage the earlier hosts give, a later good host "
     "is used; if none answers, a no-brokers error is raised; bootstrap connections are not leaked. (A host that accepts and never answers is waited for: there are no timeouts.)",
     ["fault_sequences", "configurations"], "for every assignment of a failure mode (refused, accepted-then-closed, cut mid-response, garbage response) to each bootstrap host",
     "Tests only cover connect errors, never a host that accepts and then fails, and never look at what is left open.",
     ["kiel/cluster.py"],
     [("Cluster.start", "kiel/cluster.py")],
     ["Client.connect()", "sockets opened/closed"])

prop("P09", "A metadata refresh makes the cluster view match the brokers'",
     "When a refresh completes, the known topics, partitions and leaders are exactly those the brokers report as having an available leader, and every leader has a live connection to its current address. "
     "Brokers that left are disconnected, dead connections are replaced, and topics or partitions with an election in progress are asked about again, until it is over, without losing the other topics.",
     ["histories", "fault_sequences"], "for every sequence of cluster changes (broker leaves, joins, dies, moves; leader moves; election in progress; topic created or deleted) within the bound, refreshing after each",
     "Three hand-written metadata exchanges with mocked connections are tested; none has a healthy topic beside a missing one.",
     ["kiel/cluster.py"],
     [("Cluster.heal/process_brokers/process_topics", "kiel/cluster.py")],
     ["Cluster.topics, get_leader(), iteration, sockets"])

prop("P10", "Overlapping metadata refreshes do not corrupt the cluster",
     "When several operations on one client trigger metadata refreshes that overlap in any way, each completes without an internal error, "
     "each broker ends with exactly one live connection, and no socket is leaked. The final view of topics and leaders is that of the last metadata the brokers gave.",
     ["schedules", "fault_sequences"], "for every interleaving of the network events of 2-3 overlapping refreshes, with up to the bounded number of broker faults",
     "All tests run one operation at a time.",
     ["kiel/cluster.py", "kiel/clients/client.py"],
     [("Cluster.heal", "kiel/cluster.py")],
     ["Cluster.heal() futures", "sockets opened/closed"])

prop("P11", "Fan-out: one broker's failure never affects another's response",
     "A client request sent to several brokers completes once every broker has answered or failed; each answer is handled exactly once and its result is "
     "reported under the broker that gave it. Brokers that fail are absent from the results and do not prevent the others' answers being handled, and a "
     "lost connection or retriable error causes exactly one metadata refresh before completion. Handlers may be plain functions or coroutines.",
     ["schedules", "fault_sequences"], "for every order of answers and every choice of failing brokers and failure kinds, with synchronous and asynchronous handlers",
     "The tests use two brokers with pre-resolved mock futures in a fixed order.",
     ["kiel/clients/client.py"],
     [("Client.send", "kiel/clients/client.py")],
     ["Client.send() result", "handler invocations", "metadata requests on the wire"])

prop("P12", "A produced message is never silently lost",
     "Once produce() has accepted a message (its topic is known and it did not raise), then whenever the client is idle the message has been acknowledged by a partition leader, or is still queued and will go out with the next flush, or was refused by a broker with a non-retriable error. "
     "This holds across retriable error codes, leader moves, elections, brokers leaving, and connections dropped at any point, and overlapping produce calls.",
     ["fault_sequences", "schedules", "histories"], "for every placement of up to the bounded number of faults over the network events of a produce history, and every interleaving of overlapping calls",
     "One retriable code on one partition is tested; connection loss with messages in flight and multi-broker partial failures are not.",
     ["kiel/clients/producer.py", "kiel/clients/client.py", "kiel/cluster.py"],
     [("Producer.flush/queue_retries/handle_produce_response", "kiel/clients/producer.py")],
     ["broker logs", "Producer.unsent_count"])

prop("P13", "Messages go, intact and in order, to the chosen partition's leader",
     "Each message is written to the partition its partitioner chose from the topic's partitions, in a request to that partition's leader, with the key from the key maker and the serialized value intact. "
     "Without faults each message is written exactly once and the messages of a partition keep the order in which they were produced, for every batch size and compression; a message is written again only after a failed attempt. Requests carry the configured acks and timeout.",
     ["inputs", "histories", "configurations"], "for every sequence of produce calls over topics/partitions/leaders, batch sizes and compressions within the bound",
     "Tests check membership of requests for one layout; ordering and exactly-once are not asserted.",
     ["kiel/clients/producer.py", "kiel/protocol/messages.py"],
     [("Producer.flush", "kiel/clients/producer.py")],
     ["broker logs"])

prop("P14", "Batching: nothing leaves early, nothing waits past the batch size",
     "No message is transmitted before the number of queued messages (over all topics) reaches the batch size, flush() is called or the client is closed; the call that reaches the batch size transmits all queued messages before completing. "
     "The reported queue length always equals the number of messages accepted and not yet handed to a request; a batch size of 0 or 1 sends at once.",
     ["histories", "configurations"], "for every sequence of produce/flush calls over topics up to the bounded depth and every batch size",
     "One batch size with one topic is tested.",
     ["kiel/clients/producer.py"],
     [("Producer.produce/unsent_count", "kiel/clients/producer.py")],
     ["requests on the wire", "Producer.unsent_count"])

prop("P15", "Closing a client loses nothing and then stays silent",
     "close() on a producer transmits everything queued, retrying after retriable failures, before connections are shut; every connection the client opened is closed once close() has completed and operations in flight have ended. Messages of topics the cluster no longer has are given up; close() may raise NoBrokersError if no broker can be reached, the messages then staying queued. "
     "Once close() has been called, further calls of produce and consume on any client complete without error, send nothing to any broker, and take or return no messages.",
     ["histories", "fault_sequences", "schedules"], "for every history of operations before, overlapping and after close, with faults during the final flush",
     "One close with two queued messages against mocks; nothing about errors at close, overlapping calls or grouped consumers.",
     ["kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/grouped.py", "kiel/cluster.py", "kiel/connection.py"],
     [("Client.close/wind_down", "kiel/clients/client.py"), ("Connection.close", "kiel/connection.py")],
     ["broker logs", "sockets", "results of later calls"])

prop("P16", "A consumer delivers every message exactly once, in order",
     "Over any run of consume() calls, the messages returned for each partition are exactly the consecutive messages of its log from the starting offset on: none skipped, none repeated, none out of order. "
     "This holds for any fetch sizes (cut messages, compressed batches), retriable fetch errors, leader moves and dropped connections, and everything in the log is eventually returned once faults stop. (One consume() per topic at a time; max_bytes leaves each partition room for its largest message; retention overtaking the consumer is P17.)",
     ["fault_sequences", "histories", "inputs"], "for every placement of up to the bounded number of faults over the network events of a consume history, and log layouts/fetch limits in the bound",
     "Offsets are followed through two scripted fetches; no test combines cut responses, compression, errors and repeated calls.",
     ["kiel/clients/consumer.py", "kiel/clients/single.py", "kiel/protocol/messages.py"],
     [("BaseConsumer.consume/handle_fetch_response/deserialize_messages", "kiel/clients/consumer.py")],
     ["return values of consume()", "fetch offsets on the wire"])

prop("P17", "Consumption starts where the caller asked",
     "A single consumer reads a topic for the first time from the position asked for: beginning, end (the default), or the broker's answer for a time given as UTC datetime or as an age. "
     "No partition is ever read before its starting offset is known, whatever errors or disconnects hit the lookup and even if the topic was unknown at first; the position is looked up again, with the start given then, only after an out-of-range error.",
     ["fault_sequences", "inputs", "histories"], "for every start value, log range and placement of up to the bounded number of faults over the lookup and first fetches",
     "Each start kind is tested once against a mock with no serialization; the error test cannot tell a fetch at the looked-up offset from one at 0.",
     ["kiel/clients/single.py", "kiel/clients/consumer.py"],
     [("SingleConsumer.determine_offsets/start_to_timestamp", "kiel/clients/single.py"), ("synced_offsets", "kiel/clients/consumer.py")],
     ["offset and fetch requests on the wire", "return values of consume()"])

prop("P18", "An undecodable message is skipped and blocks nothing",
     "A message whose deserializer raises is left out of consume()'s result; all other messages, before and after it and in other partitions, are still returned exactly once and in order. "
     "Consumption always progresses past it, even when every message of a response is undecodable.",
     ["inputs", "histories"], "for every placement of undecodable messages in the log and every fetch size",
     "No test has a failing deserializer.",
     ["kiel/clients/consumer.py"],
     [("BaseConsumer.deserialize_messages", "kiel/clients/consumer.py")],
     ["return values of consume()", "fetch offsets on the wire"])

prop("P19", "Fetches cover every owned partition once, at its leader, in budget",
     "Each consume() round asks for every partition of the topic allocated to the consumer that has a leader exactly once, at its leader, from the next unread offset, and for no other partition. "
     "The per-partition byte limits in one request are equal, positive and add up to no more than max_bytes, using nearly all of it (max_bytes being at least the number of partitions), and the wait time and minimum bytes are those configured.",
     ["inputs", "configurations"], "for every leader layout, partition count, and limit configuration within the bound",
     "One layout is tested for the byte limit.",
     ["kiel/clients/consumer.py"],
     [("BaseConsumer.consume", "kiel/clients/consumer.py")],
     ["fetch requests on the wire"])

prop("P20", "Committed offsets never run ahead, fall back or stray",
     "An offset a grouped consumer commits for a partition is exactly the next offset after the last message consume() has taken from it since the partition's position was read from the group. "
     "It never commits for partitions it is not allocated, or whose position it has not read since it got them, so no commit can skip unread messages or rewind the group, whenever rebalances strike.",
     ["schedules", "histories", "fault_sequences"], "for every point at which a rebalance or bounded number of errors can strike a consume/commit history",
     "Allocation is a constant mock in all grouped tests; no rebalance ever happens in them.",
     ["kiel/clients/grouped.py", "kiel/clients/consumer.py"],
     [("commit_offsets/topics_to_commit/synced_offsets", "kiel/clients/grouped.py")],
     ["offset commit requests on the wire"])

prop("P21", "Commits are retried until every partition is settled",
     "When a commit (automatic or explicit) completes normally, each partition of each topic consumed since its last commit (and still allocated, its position not reset by a rebalance) has had its offset accepted by the coordinator or refused with a non-retriable error. "
     "Retriable errors, on any subset of partitions, lead to another attempt that still includes the unsettled partitions; over-long metadata is retried with blank metadata; with autocommit this happens before consume() returns messages.",
     ["fault_sequences"], "for every assignment of outcomes to partitions over the bounded number of attempts",
     "Only single-partition error sequences are tested.",
     ["kiel/clients/grouped.py"],
     [("commit_offsets/handle_offset_commit_response", "kiel/clients/grouped.py")],
     ["offset commit requests on the wire", "stored group offsets"])

prop("P22", "Group members resume where the group left off, across rebalances",
     "A grouped consumer reads each partition it gains starting at the group's committed offset, looked up after it gained it, however often and whenever allocations change. "
     "Messages fetched under an allocation that changed meanwhile are neither returned nor committed, so with all members alive every message of every partition is returned to some member and none is lost. A message may be returned again if a rebalance came before its offset was committed.",
     ["schedules", "histories"], "for every placement of up to the bounded number of rebalances among the network events of one or two members' consume loops",
     "Allocation is a constant mock in all grouped tests.",
     ["kiel/clients/grouped.py", "kiel/clients/consumer.py", "kiel/zookeeper/allocator.py"],
     [("on_rebalance clears synced_offsets; consume re-checks", "kiel/clients/grouped.py")],
     ["fetch and commit requests on the wire", "return values of consume()"])

prop("P23", "The group coordinator is found, and found again when it moves",
     "connect() asks broker after broker until one names the coordinator, skipping brokers that fail or answer with a retriable error, and raises a no-brokers error when none is left. "
     "Offset lookups and commits go to the current coordinator; when it moves or dies they carry on with the new one instead of failing or retrying the old one forever.",
     ["fault_sequences"], "for every assignment of failure modes to brokers during discovery and every point at which the coordinator moves or dies",
     "Tests cover one retriable code and a fatal code with mocks; no connection failure and no coordinator move.",
     ["kiel/clients/grouped.py"],
     [("determine_coordinator", "kiel/clients/grouped.py")],
     ["requests on the wire", "results of connect()/consume()"])

prop("P24", "Default allocation: every partition to exactly one member, evenly",
     "For any members and partitions the default allocation gives every partition to exactly one member, gives members counts that differ by at most one, and assigns nothing that was not given. "
     "The result depends only on the set of members and partitions, so all members compute the same one.",
     ["inputs"], "for every set of members and of topic partitions up to the bound, in every order of arrival",
     "One example is tested.",
     ["kiel/clients/grouped.py", "kiel/zookeeper/allocator.py"],
     [("naive_allocator", "kiel/clients/grouped.py"), ("sorted members and partitions", "kiel/zookeeper/allocator.py")],
     ["allocation of each member"])

prop("P25", "Group members converge to one consistent allocation",
     "After any history of members joining, leaving, crashing or losing sessions and of partitions being added, once notifications are delivered every live member holds the allocation computed from the same members and the same partitions. "
     "Together the allocations cover every known partition exactly once; it makes no difference in which order members see the notifications, and an allocation function that omits idle members is fine.",
     ["schedules", "histories", "crash_points"], "for every interleaving of membership events and notification deliveries of up to 3 members within the depth bound",
     "Party and SharedSet are mocked out of the allocator's only test.",
     ["kiel/zookeeper/allocator.py", "kiel/zookeeper/party.py", "kiel/zookeeper/shared_set.py"],
     [("PartitionAllocator.rebalance, watches", "kiel/zookeeper/allocator.py")],
     ["PartitionAllocator.allocation", "ZooKeeper nodes"])

prop("P26", "The shared partition set is atomic under concurrent updates",
     "Concurrent additions and removals by any number of sharers take effect one after another: the stored set is always the result of the completed updates in some order, with none lost and nothing else in it. "
     "An update that changes nothing writes nothing, every watcher is given the stored set after every change, and the lock is released even if an update fails.",
     ["schedules", "fault_sequences"], "for every interleaving of the ZooKeeper operations of 2-3 sharers' updates, with a bounded number of injected failures",
     "SharedSet has no test at all.",
     ["kiel/zookeeper/shared_set.py"],
     [("Lock around read-modify-write", "kiel/zookeeper/shared_set.py")],
     ["stored znode data", "on_change callbacks"])

prop("P27", "Group membership follows joins, leaves and crashes exactly",
     "After join() the member is listed until it leaves or its session ends, and only as an ephemeral entry owned by its own session, whether the entry was absent, its own, or a leftover of another session. "
     "leave() removes it and is harmless when repeated or when it was already gone. Everyone who has start()ed watching is told of every change.",
     ["histories", "crash_points"], "for every sequence of join/leave/crash/reconnect by up to 3 members, including reuse of a name",
     "Each branch is tested once against a mock without any ZooKeeper state.",
     ["kiel/zookeeper/party.py"],
     [("Party.join/leave/start", "kiel/zookeeper/party.py")],
     ["znodes and their owners", "on_change callbacks"])

prop("P28", "Simultaneous membership and partition notifications lose no update",
     "When membership and partition notifications are processed by different threads at the same time, the allocation that results is always that of the latest members and partitions. "
     "The rebalance callback runs after each new allocation is in place, and reading the allocation from another thread never fails.",
     ["schedules"], "for every thread interleaving at source-line granularity with up to the bounded number of preemptions",
     "No test runs two threads.",
     ["kiel/zookeeper/allocator.py", "kiel/clients/grouped.py"],
     [("rebalance", "kiel/zookeeper/allocator.py")],
     ["PartitionAllocator.allocation", "on_rebalance callback"])

prop("P29", "Joining a group completes or reports failure, and leaving cleans up",
     "Starting the allocator completes only after it is connected and has seen both members and partitions, or stops at the error that occurred and ends with it; a ZooKeeper failure at any step is reported, never swallowed or turned into a hang. "
     "Partitions are only added or removed while connected, and stopping withdraws the membership before closing the connection, whichever of its steps fails and also if starting failed. (With the connection broken the entry may stay until the session times out.)",
     ["fault_sequences", "schedules"], "for every operation at which ZooKeeper can fail and every connection state history (connected, suspended, lost, reconnected) within the bound",
     "Only the constructor is tested.",
     ["kiel/zookeeper/allocator.py"],
     [("start/stop/create_attempter/handle_connection_change", "kiel/zookeeper/allocator.py")],
     ["futures of start()/stop()", "ZooKeeper operations"])

prop("P30", "Every broker error code is handled as retriable or fatal, never misread",
     "For every error code a broker can put in any response, known to the library or not: success is treated as success, codes Kafka marks retriable lead to a metadata refresh and another attempt of exactly the affected work, and all others end the affected work without retry within that call. "
     "No code makes an operation raise an unrelated error, hang, or affects other partitions in the same response (offset-out-of-range alone sends a whole topic back to looking up its offsets).",
     ["inputs", "fault_sequences"], "for every error code from -1 to beyond the known range, every response type, and every pair of partitions/topics in it",
     "Each handler is tested with one retriable and one fatal code.",
     ["kiel/constants.py", "kiel/protocol/errors.py", "kiel/clients/*.py", "kiel/cluster.py"],
     [("RETRIABLE_CODES/errors.retriable", "kiel/constants.py, kiel/protocol/errors.py"), ("handle_*_response", "kiel/clients")],
     ["requests on the wire", "results of operations", "broker logs"])

prop("P31", "A member's crash loses and repeats only what it had not committed",
     "If a group member dies at any point, what it had just sent arriving or not, its partitions go to the remaining members once its session ends, and they carry on at the committed offsets: "
     "every message it had not committed is returned by one of them, none it had committed is. With explicit commits made after processing nothing is lost; with autocommit messages are committed before they are returned, so none is returned twice "
     "(those committed just before the death may never be).",
     ["crash_points", "schedules", "histories"], "for every point at which a member can die, every order of its last requests, the end of its session and the others' traffic, within the bound",
     "No test has two members, and none ends one without its cooperation.",
     ["kiel/clients/grouped.py", "kiel/zookeeper/*.py"],
     [("GroupedConsumer", "kiel/clients/grouped.py"), ("PartitionAllocator/Party", "kiel/zookeeper")],
     ["messages returned by each member", "committed offsets", "ZooKeeper sessions"])

prop("P32", "What is produced is what is consumed, end to end",
     "A value produced with one client and read with another from the same brokers arrives unchanged, with the default or any matching serializer and deserializer, every compression, key, batch size and number of partitions; the only values left out are those that decode to None. "
     "Messages of a partition arrive in the order of its log, each as often as it was written, also if producing and consuming overlap and brokers fail, move leaders or drop connections meanwhile. "
     "A consumer that reads from the end receives everything produced after its first call.",
     ["inputs", "schedules", "fault_sequences"], "for every value, pair (and triple) of the alphabet with every configuration, and every interleaving of a producer's and a consumer's network events with faults within the bound",
     "Producer and consumer are tested apart, each against mocks.",
     ["kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/single.py", "kiel/protocol", "kiel/compression", "kiel/cluster.py"],
     [("Producer.produce", "kiel/clients/producer.py"), ("BaseConsumer.consume", "kiel/clients/consumer.py")],
     ["values returned by consume()", "broker logs"])

prop("P33", "A failing serializer, key maker or partitioner costs no other message",
     "If a message's serializer or key maker fails, or gives something that can't be encoded, produce() raises and that message is not queued; all other messages are delivered once and in order as if it had never been produced. "
     "If a partitioner or the compression fails, the error is raised and every message accepted so far stays queued and goes out, once and in order, when it works again.",
     ["inputs", "histories", "schedules"], "for every kind of failure, position of the failing messages in the history, batch size, compression and interleaving within the bound",
     "No test has a user function fail in the producer.",
     ["kiel/clients/producer.py", "kiel/protocol/messages.py"],
     [("Producer.produce/flush", "kiel/clients/producer.py")],
     ["exceptions of produce()/flush()", "broker logs"])

prop("P34", "A client holds on to nothing of the work it has finished",
     "Once a client is idle with nothing queued, it keeps nothing of the requests, responses and messages that are done: however they ended (acknowledged, refused, retried, connection lost, coordinator or leader moved, partitions reassigned), "
     "what it holds is as large as before them, so a client that runs for good needs no more and more memory. Connections that were replaced are given up too. (The last response on each connection may be kept until the next one.)",
     ["histories", "fault_sequences"], "for every placement of up to the bounded number of error codes, connection failures and broker or group events in rounds of producing, consuming and committing",
     "Tests look at one exchange at a time; what stays behind after a failure only adds up in long histories.",
     ["kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/grouped.py", "kiel/connection.py", "kiel/cluster.py"],
     [("Producer.sent", "kiel/clients/producer.py"), ("Connection.pending/api_correlation", "kiel/connection.py")],
     ["live objects of the library's classes", "containers reachable from the client"])

prop("P35", "Clients in one process do not affect each other",
     "Clients created in one process (producers, single consumers, group members, in any combination) share nothing: whatever happens to one of them or to its cluster, and however their calls interleave, "
     "another one, even with the same topic names and broker ids, sends its brokers the same requests and returns and writes the same messages as it does alone. "
     "A client that is created after an earlier one was closed starts from nothing of it.",
     ["schedules", "fault_sequences"], "for every interleaving of two clients' events and every placement of faults in one of them, up to the bounded number of both",
     "Tests use one client at a time; state that is shared by accident (class attributes, default arguments, module tables) only shows when two of them are at work.",
     ["kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/grouped.py", "kiel/connection.py", "kiel/cluster.py"],
     [("Client.__init__", "kiel/clients/client.py"), ("Cluster.__init__", "kiel/cluster.py"), ("Connection.__init__", "kiel/connection.py")],
     ["results of every call", "requests each broker receives", "broker logs"])

prop("P36", "Once trouble is over, a client works as if there had been none",
     "Whatever errors, lost connections, crashes, outages of all brokers, leader or coordinator moves, changes of address, rebalances or lost sessions a client has been through, when all is well again it needs a few more calls at most to get back to normal. "
     "From then on each call does its work at once (what is produced is written, what is new is returned, what is consumed is committed), raises nothing, "
     "and causes the requests that work needs and no others: no metadata refreshes, lookups, reconnects or retries.",
     ["histories", "fault_sequences"], "for every placement of up to the bounded number of error codes, connection failures and broker or group events",
     "Tests end with the fault; a flag, a connection or a lookup that a failure leaves behind shows in what the client does afterwards, for some combination of failures only.",
     ["kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/grouped.py", "kiel/connection.py", "kiel/cluster.py"],
     [("Client.send", "kiel/clients/client.py"), ("Cluster.heal", "kiel/cluster.py"), ("GroupedConsumer.known_coordinator", "kiel/clients/grouped.py")],
     ["requests and connections each broker receives", "results of every call", "broker logs and committed offsets"])

prop("P37", "A rebalance striking at any instruction leaves a group member in order",
     "ZooKeeper's notifications reach a group member on another thread, so its allocation may be replaced before any instruction of consume() or commit_offsets(), and its callback may be late. "
     "Wherever that happens, no call fails because of it, and every offset the member fetches from or commits for a partition is one that it had determined as its position in that partition. "
     "Once things are quiet, everything is returned to somebody and all of it is committed.",
     ["schedules", "histories"], "for every instruction of the clients' and the allocator's code that looks at an object, and every kind of rebalance, at once or with its callback held up",
     "Tests replace the allocator with a mock whose allocation never changes during a call; the window is a few instructions wide.",
     ["kiel/clients/consumer.py", "kiel/clients/grouped.py", "kiel/zookeeper/allocator.py"],
     [("GroupedConsumer.fetchable_partitions", "kiel/clients/grouped.py"), ("BaseConsumer.consume", "kiel/clients/consumer.py"), ("PartitionAllocator.rebalance", "kiel/zookeeper/allocator.py")],
     ["offsets in fetch and commit requests", "exceptions raised by calls and callbacks", "messages returned, offsets committed"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
