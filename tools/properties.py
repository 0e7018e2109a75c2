prop("C01", "Variable-length integers round-trip in their shortest wire form",
 "Every 64-bit value written as a variable-length integer is read back as the same value, in the shortest of the four wire forms, however it is handed to the encoder (by value or by pointer, alone or inside a message). The reported encoded size equals the number of bytes written.",
 ["inputs"], "every uint64 value", "The tests sample a few values per form; boundary values and all 2^64 values, and values embedded in messages, are not covered.",
 ["pkg/protocol/varint.go", "pkg/binary/marshaler.go", "pkg/binary/unmarshaler.go"],
 [("VarInt codec", "pkg/protocol/varint.go"), ("generic encoder", "pkg/binary/marshaler.go")])
prop("C02", "Every message frame is well formed and only valid headers are accepted",
 "A message built for sending carries the network's magic, its command padded with NULs to twelve bytes, the exact payload length and the first four bytes of the payload's double SHA-256, followed by exactly the payload; nothing is sent to a peer after a message that could be sent in part only. A received header passes validation exactly when its magic is one of the supported networks and its command is a known one.",
 ["inputs", "fault_sequences"], "every payload content (bounded length), every command name, every 24-byte header, every point at which a peer stops reading", "Golden tests check one message on one network; the accepted header set is 2^192 large.",
 ["pkg/protocol/msg.go", "pkg/protocol/cmd.go", "pkg/protocol/network.go", "pkg/node/node.go"],
 [("message construction", "pkg/protocol/msg.go"), ("header validation", "pkg/protocol/msg.go")])
prop("C03", "Each protocol message has the specified wire layout and survives a round trip",
 "For every protocol message the node builds or reads (version, verack and the other empty messages, ping, pong, inv, getdata, getheaders, headers, getcfilters, cfilter), the encoding is byte for byte the layout of the Bitcoin/Elements wire protocol. Decoding those bytes yields every field value that was encoded.",
 ["inputs"], "all field values; list lengths up to the stated bounds", "Tests encode one golden instance of some messages and decode others, so fields that happen to be equal or zero are not distinguished.",
 ["pkg/protocol", "pkg/binary/marshaler.go", "pkg/binary/unmarshaler.go"],
 [("message codecs", "pkg/protocol/msg_*.go"), ("address and locator codecs", "pkg/protocol/addr.go, pkg/protocol/blocklocator.go")])
prop("C04", "Decoding does not depend on how the network splits the byte stream",
 "Decoding a message from a stream gives the same value however the stream's bytes are split over reads. A stream that ends before the message does yields an error, never a message with missing content.",
 ["inputs", "fault_sequences"], "every message content (bounded), every split point and truncation point", "The tests decode from one in-memory buffer that always returns everything at once.",
 ["pkg/binary/unmarshaler.go", "pkg/protocol"],
 [("stream decoder", "pkg/binary/unmarshaler.go")])
prop("C05", "No message payload from a peer can crash the node or exhaust its memory",
 "Decoding any byte sequence a peer can send as the payload of any message returns a value or an error. It never panics, and never allocates memory out of proportion to the bytes received because of a length or count announced by the peer.",
 ["inputs"], "every payload of the stated lengths for every message type", "Hostile lengths and truncated nested structures are outside the sampled inputs.",
 ["pkg/protocol", "pkg/binary/unmarshaler.go"],
 [("length-prefixed decoding", "pkg/binary/unmarshaler.go, pkg/protocol/varint.go"), ("message decoders", "pkg/protocol/msg_*.go")],
 note="two findings in the go-elements dependency are listed as known.")
prop("C06", "A peer's stream is read message by message whatever the messages are",
 "Every ping with an eight-byte nonce is answered by exactly one pong with the same nonce, whatever well-formed, malformed, oversized or unknown message came before it from that peer and however the stream is split. A message carrying another network's magic is neither answered nor acted on.",
 ["inputs", "histories"], "every payload of bounded length for every command, then a ping; every split point listed; every other magic", "No test drives a connection; one wrong length or an error in one handler desynchronises everything after it.",
 ["pkg/node/node.go", "pkg/node/cmd_*.go", "pkg/binary/unmarshaler.go"],
 [("message loop", "pkg/node/node.go"), ("handlers", "pkg/node/cmd_*.go")])
prop("C07", "The version handshake registers each peer once and starts the header sync",
 "Each new peer is greeted by a version message with the node's user agent and services and the peer's address. A version message from a peer that serves compact filters is answered by verack and sendheaders, the height it announces becomes the peer's tip, and the first connected peer is asked for the headers after the stored tip. A peer without compact filters is not accepted; one that is already connected cannot be added again and is not served twice.",
 ["inputs", "histories"], "every service flag set and height, several stored chain lengths, repeated versions and additions", "The tests need a live Elements node and check one flow.",
 ["pkg/node/cmd_version.go", "pkg/node/handle_ping.go", "pkg/node/chainsync.go", "pkg/node/node.go"],
 [("version handling", "pkg/node/cmd_version.go"), ("peer registration", "pkg/node/handle_ping.go")])
prop("C08", "Every announced inventory is requested unchanged",
 "An inv message is answered by one getdata message that asks for exactly the announced entries, all of them, with the same types and hashes in the same order.",
 ["inputs"], "every inventory of up to the stated number of entries", "Not tested at all.",
 ["pkg/node/cmd_inv.go", "pkg/protocol/msg_inv.go"],
 [("inventory handling", "pkg/node/cmd_inv.go")])
prop("C09", "Filter requests are served with exactly the stored filters of the range",
 "A getcfilters request for the regular filter type over at most 1000 blocks ending in a known block is answered with one cfilter message per block of the range (start and stop included) whose filter is stored, in block order, each carrying that block's hash and the stored filter bytes. Any other request is not answered with filters.",
 ["inputs", "histories"], "every start height and filter type, every stop block and every subset of stored filters of a bounded chain; limits around 1000", "Not tested; off-by-one and ordering errors only show against a remote peer.",
 ["pkg/node/cmd_getcfilters.go"],
 [("serving filters", "pkg/node/cmd_getcfilters.go")])
prop("C10", "A submitted transaction reaches every connected peer exactly once",
 "A transaction submitted as hex is sent unchanged, exactly once, to every connected peer, even when sending to some other peer fails, and a peer that reads nothing delays it for a bounded time only. A text that is not a complete transaction is refused and nothing is sent. Transactions received from peers never stop a peer from being served.",
 ["inputs", "schedules", "fault_sequences"], "every order of the peers, every set of failing peers, every truncation of a transaction, all bounded interleavings of received transactions", "The only test submits one transaction to one live node.",
 ["pkg/node/node.go", "pkg/node/cmd_tx.go", "pkg/node/mempool.go"],
 [("broadcast", "pkg/node/node.go"), ("received transactions", "pkg/node/cmd_tx.go")])
prop("S01", "Only headers that extend the stored chain are stored, one per height",
 "Whatever headers peers send, alone or several at the same time, the stored headers always form one chain: exactly one header per height up to the tip, each the child of the one below. A batch of consecutive headers that starts at most one above the tip and continues it is stored completely, and the compact filter of every newly stored header is requested.",
 ["inputs", "schedules", "histories"], "every batch of bounded length with arbitrary heights, parents and repetitions over several stored chains; all bounded interleavings of two peers on different forks", "The tests only check the sequence test on hand-written height lists; heights, links and concurrent peers are not sampled.",
 ["pkg/node/cmd_headers.go", "pkg/node/node.go"],
 [("batch acceptance", "pkg/node/cmd_headers.go"), ("single writer", "pkg/node/node.go")])
prop("S02", "A block announcement extends the chain or triggers the missing sync",
 "A block received from a peer is stored, and its filter requested, exactly when its height is the tip's plus one and it is the tip's child. A block of any other height above the peer's known tip raises that tip to it and makes the node ask the peer for headers. Any other block changes nothing.",
 ["inputs"], "every block height and peer tip, several parents and stored chain lengths", "Not tested without a live node.",
 ["pkg/node/cmd_block.go", "pkg/node/chainsync.go"],
 [("block handling", "pkg/node/cmd_block.go")])
prop("S03", "Block locators describe the stored chain from its tip",
 "The block locator of a complete stored chain starts with the tip, contains only stored headers from the tip down, includes all of the most recent ones, and then leaves gaps that at most double, so that a peer on a fork finds a close common block. It never exceeds the protocol's length limit.",
 ["inputs"], "every chain height up to the bound, for the in-memory and the PostgreSQL store", "The tests build a locator for one short chain.",
 ["internal/infrastructure/storage/db/inmemory/header_inmemory.go", "internal/infrastructure/storage/db/pg/header_repository_impl.go"],
 [("locator construction", "internal/infrastructure/storage/db")])
prop("S04", "Starting the node returns exactly when it is synced with its peer",
 "Start returns once the initial peer completed its handshake, the stored tip is at least as high as the height the peer last announced, and no header below the tip is missing. It does not return before that, and then the chain tip it reports is the stored tip. It fails when the initial peer cannot be reached.",
 ["histories", "inputs"], "every bounded order of handshake, header batches and block announcements, every announced height, stores with and without gaps", "Timing and ordering dependent; tests need a live node and only see the final state.",
 ["pkg/node/chainsync.go", "pkg/node/node.go", "pkg/node/cmd_block.go"],
 [("sync check", "pkg/node/chainsync.go")])
prop("S05", "A received filter is stored for exactly the block it names",
 "A cfilter message makes exactly the filter bytes it carries available for the block hash it carries, and for no other block.",
 ["inputs"], "every filter content of bounded length and every block of a chain", "Tests only see the end-to-end result with a live node.",
 ["pkg/node/cmd_cfilter.go", "pkg/node/node.go", "pkg/protocol/msg_cfilter.go"],
 [("filter storage", "pkg/node/node.go")])
prop("S09", "Momentary store failures and dead peers do not stop the synchronisation",
 "When one operation of the header or filter store fails for a moment, or a peer's connection stops accepting data, nothing wrong is stored and no other peer is disconnected. Headers, blocks and filters that arrive afterwards are stored, the filters of new headers are asked for and stored filters are served as if nothing had happened.",
 ["faults", "histories"], "every single failing store operation among the first ones of a sync, by headers or by blocks, and every order in which peers are picked", "The tests have no failing stores and no failing connections.",
 ["pkg/node/node.go", "pkg/node/cmd_headers.go", "pkg/node/cmd_block.go", "pkg/node/cmd_getcfilters.go"],
 [("header monitor", "pkg/node/node.go"), ("filter monitor", "pkg/node/node.go"), ("sync", "pkg/node/chainsync.go")])
prop("S10", "From an honest peer the node fetches the whole chain and all filters",
 "Connected to a peer that follows the protocol, the node asks for headers portion by portion until it holds the peer's whole chain and the filter of every block it fetched, whatever it had stored before, and then falls silent. Blocks that appear during or after the sync, announced as block, inventory or headers, are fetched too, with the blocks missing below them; if the peer is lost, the node goes on with another one that announces a block, or that connects while there is none.",
 ["histories", "schedules"], "chains, stored prefixes, portion sizes, announcements and losses at every point of the sync, with all schedules of a bounded number of delays", "Tests against a live node would cover one chain shorter than one portion of headers.",
 ["pkg/node/cmd_headers.go", "pkg/node/cmd_block.go", "pkg/node/cmd_inv.go", "pkg/node/chainsync.go", "pkg/node/node.go", "pkg/node/handle_ping.go"],
 [("header sync", "pkg/node/cmd_headers.go"), ("sync request", "pkg/node/chainsync.go"), ("header monitor", "pkg/node/node.go")])
prop("R01", "A node that was killed or stopped continues where its stores end",
 "However a node ends, killed between any two operations on its database or stopped, the stores hold the beginning of the peer's chain with everything stored before, and only filters of these blocks, each unchanged; a stopped node stores nothing more. A node made on these stores first asks for the headers after the stored tip, then fetches the rest of the peer's chain, and the filter of every block above that tip, including blocks announced later, and Start returns.",
 ["crash_points", "histories", "schedules"], "a kill before every database operation of a sync of bounded length (also two kills, and with all schedules of a bounded number of delays), a stop at every turn; both kinds of stores", "No test restarts a node, and none can end the process between two database operations.",
 ["pkg/node/node.go", "pkg/node/chainsync.go", "pkg/node/cmd_headers.go", "internal/infrastructure/storage/db/pg/header_repository_impl.go", "internal/infrastructure/storage/db/pg/filter_repository_impl.go"],
 [("header monitor", "pkg/node/node.go"), ("sync request", "pkg/node/chainsync.go"), ("PostgreSQL stores", "internal/infrastructure/storage/db/pg")],
 note="one finding is listed as known: the filter of a block is asked for once, so it stays missing when the process ends before the answer is stored.")
prop("S11", "The in-memory stores may be used by several goroutines at the same time",
 "However reads and writes of the in-memory header and filter stores coincide, there is no data race, every answer is that of some moment between call and return, a batch of headers is seen completely or not at all, and no header or filter is lost.",
 ["schedules"], "two readers and a writer, or two writers, over all schedules of a bounded number of delays, with happens-before race detection", "The tests use the stores from one goroutine.",
 ["internal/infrastructure/storage/db/inmemory/header_inmemory.go", "internal/infrastructure/storage/db/inmemory/filter_inmemory.go"],
 [("in-memory headers", "internal/infrastructure/storage/db/inmemory/header_inmemory.go"), ("in-memory filters", "internal/infrastructure/storage/db/inmemory/filter_inmemory.go")])
prop("S06", "The in-memory header store answers from exactly the headers written",
 "After any sequence of writes to the in-memory header store, a lookup by hash returns the header written under that hash or reports that it is unknown, a lookup by height returns the hash of a header written with that height, the tip is a highest header, and the ancestry check says whether every ancestor down to height one is stored. An empty store reports that it has no headers.",
 ["histories", "inputs"], "every history of bounded batches of new and repeated headers with arbitrary parents; every map iteration order", "Tests use one linear chain written header by header.",
 ["internal/infrastructure/storage/db/inmemory/header_inmemory.go"],
 [("in-memory headers", "internal/infrastructure/storage/db/inmemory")])
prop("S07", "The database header store answers exactly and writes all or nothing",
 "After any sequence of writes the PostgreSQL header store answers lookups by hash and height, tip and ancestry queries from exactly the headers written. A batch is stored completely or, when any database operation fails, not at all and with an error. A failed operation leaves no database transaction open and is never reported as an empty chain or a missing header.",
 ["histories", "fault_sequences"], "every bounded history, with a failure at every database operation", "The database tests need a running server and inject no failures.",
 ["internal/infrastructure/storage/db/pg/header_repository_impl.go", "internal/infrastructure/storage/db/pg/migration"],
 [("PostgreSQL headers", "internal/infrastructure/storage/db/pg")],
 note="the database is a model of the SQL used (uniqueness, transactions, failures) with the schema of the migration files; sqlx and PostgreSQL themselves are not encoded.")
prop("S08", "The filter stores return exactly the filter stored under a key",
 "For the in-memory and the PostgreSQL filter store, a filter stored under a block hash and filter type is returned unchanged for that hash and type and for no other; unknown keys are reported as not found, computing a key leaves the caller's memory unchanged, and a database failure is reported as an error, never as a missing filter.",
 ["histories", "inputs", "fault_sequences"], "every bounded history of stored and read keys with arbitrary hashes, types and contents; a failure at every database operation", "Tests store one or two filters.",
 ["pkg/repository/filter_repository.go", "internal/infrastructure/storage/db/inmemory", "internal/infrastructure/storage/db/pg/filter_repository_impl.go"],
 [("filter keys", "pkg/repository/filter_repository.go"), ("filter stores", "internal/infrastructure/storage/db")],
 note="keys are 48 bits of a hash, assumed collision-free up to that length except for the listed finding; the database is a model.")
prop("M01", "The mempool holds and announces exactly the unconfirmed transactions",
 "The mempool holds exactly the transactions received and not yet confirmed by a block. Every subscriber is told once of each transaction entering the mempool after it subscribed, and once of each of those that a block confirms, whatever duplicates arrive and however transactions, blocks and readers interleave.",
 ["histories", "schedules"], "every bounded history of receptions and blocks over two transactions, and all interleavings within the delay bound", "Tests run one history with sleeps and no interleaving control.",
 ["pkg/node/mempool.go"],
 [("mempool", "pkg/node/mempool.go")])
prop("M02", "Slow mempool subscribers and Stop never block or crash anything",
 "A mempool subscriber that does not read its events delays neither the mempool nor other subscribers. Stopping the mempool returns promptly at any moment, without panic, ends every subscription, and transactions arriving later are harmless.",
 ["schedules"], "all interleavings of Stop with receptions, confirmations and readers within the delay bound", "Tests always drain their subscribers and stop when idle.",
 ["pkg/node/mempool.go"],
 [("notification and shutdown", "pkg/node/mempool.go")])
prop("P01", "Peers are disconnected exactly when they stop answering",
 "Every connected peer is pinged every two minutes. A peer that answers within a minute with the ping's nonce stays connected; one that does not, or whose connection fails, is disconnected and forgotten, may come back later, and neither affects the other peers nor the node.",
 ["schedules", "histories", "fault_sequences"], "every bounded sequence of answers (right, wrong, double, late, missing, broken connection) of one peer next to another, under the interleavings within the delay bound", "The timeouts are minutes long, so no test reaches them.",
 ["pkg/node/handle_ping.go", "pkg/node/cmd_pong.go", "pkg/node/node.go"],
 [("liveness monitor", "pkg/node/handle_ping.go")],
 note="ping nonces (64 random bits) are assumed distinct.")
prop("P03", "Stopping the node ends its activity at any moment",
 "Stopping a started node, also twice or at the same time, returns promptly and without error whatever it is doing. Afterwards Start has returned, all connections to peers are closed, nothing of the node keeps running, no header is stored and no peer is pinged.",
 ["schedules", "crash_points"], "Stop at every stage (before the handshake, while syncing, synced, with a ping outstanding), with messages in flight, under the interleavings within the delay bound", "The tests stop idle nodes, and monitors that keep running are invisible to them.",
 ["pkg/node/node.go", "pkg/node/handle_ping.go", "pkg/node/mempool.go"],
 [("shutdown", "pkg/node/node.go")])
prop("N01", "Scans report exactly the transactions where a watched item occurs",
 "For every chain of blocks and honest filters, a scan request is reported for every transaction matching its item in the first matching block at or above its start height, exactly once each, with the transaction's block hash and height and the request's client, or for every matching block in chain order if it is persistent. Blocks added later are scanned too, filter false positives are harmless, and requests of different clients do not affect each other.",
 ["inputs", "histories"], "every content of a bounded chain (arbitrary scripts, false positives), every start height and kind of one or two requests made at any stage of the chain's growth", "The tests need a live node and watch one payment.",
 ["pkg/scanner/scanner.go", "pkg/scanner/requestqueue.go", "pkg/scanner/request.go"],
 [("scan loop", "pkg/scanner/scanner.go"), ("request queue", "pkg/scanner/requestqueue.go")],
 note="watch items and chains are the harness' own; filters are built and matched by the real gcs code.")
prop("N02", "Store or block service failures neither lose nor repeat scan reports",
 "When reading the chain tip, a block hash, a filter or a block fails for a moment during a scan, the affected requests stay pending and are scanned again, so that once the failure is over exactly the reports that would have been made without it have been made.",
 ["fault_sequences"], "one or two failures at every position of the calls made by a scan, for every bounded chain content and request", "Tests inject no failures.",
 ["pkg/scanner/scanner.go", "pkg/scanner/requestqueue.go"],
 [("requeueing of unresolved requests", "pkg/scanner/scanner.go")])
prop("N03", "Scan requests are served whenever made, and the scanner stops at any time",
 "A request is served whenever it is made: before or after Start, concurrently with other requests, new blocks or a scan in progress. Stop returns promptly at any moment, even while a report is waiting for its reader, and leaves nothing running; a scanner started again still makes every report that was not read before, and a running one cannot be started twice.",
 ["schedules", "crash_points"], "all interleavings of requests, growth of the chain, reader, Stop and restart within the delay bound", "Tests sleep between steps and never stop a busy scanner.",
 ["pkg/scanner/scanner.go", "pkg/scanner/requestqueue.go"],
 [("scanner life cycle", "pkg/scanner/scanner.go"), ("request queue", "pkg/scanner/requestqueue.go")])
prop("N04", "Watch items match exactly the transactions that concern them",
 "A watch on an output matches a transaction exactly when one of its inputs spends that output (same hash and index), and a watch on an address exactly when one of its outputs has the address' script; both search the filters for exactly that script. Mistyped addresses and malformed outputs are refused.",
 ["inputs"], "every outpoint, prevout script and transaction of bounded size; every output script around the length of the watched one, for addresses of every kind", "Tests match a handful of fixed transactions.",
 ["pkg/scanner/watchitem.go"],
 [("watch items", "pkg/scanner/watchitem.go")],
 note="transaction hashes vary in four of their bytes.")
prop("N05", "A registered wallet descriptor watches all of its scripts",
 "Registering a descriptor for unspent outputs reports every payment to each of its scripts (the first hundred of a ranged one) from the start block on, under the identifier of the registration. A descriptor that is malformed or not supported is answered with an error, never with a crash, and disturbs no other request.",
 ["inputs"], "ranged and single descriptors with payments to any of their scripts in any block; every malformed key expression over the separators up to the bound", "The tests register one valid descriptor against a live node.",
 ["pkg/scanner/scanner.go"],
 [("descriptor registration", "pkg/scanner/scanner.go")],
 note="key derivation (elliptic curves) is a model under the engine and real in the native validation runs.")
prop("A01", "Notifications go exactly to the client they concern, while it is subscribed",
 "Every valid subscription is registered with the scanner exactly once, with its descriptor, events, start height and identifier unchanged; an invalid one is refused, and one the scanner refuses is reported once to its own client. Whatever the scanner finds for a subscribed client is reported to it once, unchanged and in order; nothing is reported to a client that has left, and leaving succeeds exactly for subscribed clients.",
 ["histories", "inputs"], "every bounded history of subscriptions (valid, invalid, refused), departures and finds of three clients, with arbitrary heights", "The service has no tests.",
 ["internal/core/application/notification_service.go", "internal/core/application/types.go"],
 [("notification service", "internal/core/application")])
prop("A02", "The notification service survives concurrent clients and stops at any moment",
 "Subscriptions, departures, finds and failing registrations may happen at the same time: no data race, no lost or repeated event, no misdirected failure, and the service keeps working afterwards. Stop returns promptly at any moment, even if nobody reads the reports, and leaves nothing running.",
 ["schedules", "crash_points"], "all interleavings of three clients, the scanner and Stop within the delay bound", "The service has no tests.",
 ["internal/core/application/notification_service.go"],
 [("notification service", "internal/core/application/notification_service.go")])
prop("W01", "Every client request is answered once and every event reaches its client",
 "Each registration or unregistration over a websocket, and each registration by HTTP, is answered exactly once: with success if it was valid, otherwise with an error, and reaches the scanner with the requested descriptor, events and start height. What the scanner finds or refuses for a client is sent to that client exactly once, as JSON of the documented form with the event and the transaction's hash, over its own websocket or to its own endpoint, and to nobody after it left.",
 ["histories", "inputs"], "every bounded history of requests (valid, invalid, malformed), departures and finds of two websocket and two webhook clients; every event name of bounded length", "The interface has no tests.",
 ["internal/interface/web-socket/handler", "pkg/neutrinod-types"],
 [("websocket handler", "internal/interface/web-socket/handler/ws_handler.go"), ("http handler", "internal/interface/web-socket/handler/http_handler.go"), ("notifications", "internal/interface/web-socket/handler/notification_handler.go")],
 note="encoding/json and the HTTP client are models (the websocket code is real); both are real in the native validation runs.")
prop("W02", "No client can disturb the others, and the daemon's interface stops cleanly",
 "Requests, events, failed registrations and departures of several clients may coincide: no data race, no mixed-up frames, no lost event, and serving continues. A client that does not read, a broken connection or an endpoint that does not answer delays the others by a bounded time only. Stop returns at any moment and ends all activity but the client connections, which end with their clients.",
 ["schedules", "fault_sequences", "crash_points"], "all interleavings of requests, events, departures and Stop of several clients within the delay bound", "The interface has no tests.",
 ["internal/interface/web-socket/handler"],
 [("handlers", "internal/interface/web-socket/handler")],
 note="encoding/json and the HTTP client are models (the websocket code is real); both are real in the native validation runs.")
prop("G01", "The node uses the magic and the genesis block of its network",
 "On liquid, testnet and regtest the node sends and understands only messages with the magic of that network, and from an empty store it asks for all headers after the network's genesis block. The embedded genesis headers hash to the published genesis hashes. A node for any other network name is refused.",
 ["inputs"], "the three networks, every foreign magic, every network name of bounded length", "The tests run on regtest only.",
 ["pkg/protocol/network.go", "pkg/protocol/checkpoints.go", "pkg/node/node.go", "pkg/node/chainsync.go"],
 [("network parameters", "pkg/protocol/network.go"), ("checkpoints", "pkg/protocol/checkpoints.go"), ("genesis locator", "pkg/node/chainsync.go")])
prop("G02", "Peer addresses are read exactly or refused",
 "Every dotted IPv4 address with a port is parsed to exactly that address and port. A text without exactly one colon between a host and a port, or with a port that is no number below 65536, is refused, and no text causes a crash. A refused peer address leaves no connection open.",
 ["inputs"], "every octet value at every position, every port text of up to six characters, every text of bounded length", "Tests parse a few fixed addresses.",
 ["pkg/protocol/addr.go", "pkg/peer/peer.go"],
 [("address parser", "pkg/protocol/addr.go"), ("outbound peers", "pkg/peer/peer.go")])
prop("B01", "The explorer's answers are passed on as block, missing block or failure",
 "Asking for a block requests exactly that block from the explorer, within a time limit. A complete answer is returned as the block served; a 404 is reported as a missing block; any other status, a broken connection, and a truncated or unreadable body are reported as failures, never as a block nor as missing. Connections are released in every case.",
 ["inputs", "fault_sequences"], "every status code, every header, truncation and read failure at every byte of a one or two transaction block", "The tests need a running explorer and ask for one block.",
 ["pkg/blockservice/service.go"],
 [("block service", "pkg/blockservice/service.go")],
 note="the HTTP client is a model; it is real in the native validation runs.")
prop("D01", "The daemon serves its clients once synced and shuts down completely",
 "Once its node is synced, and not before, the daemon serves websocket and webhook registrations at its two documented paths and nothing else, and a registered client is told exactly once of every payment to its descriptor that the peer's chain, its network's genesis block included, contains from its start block on. When its context ends, at any moment and also before its node is synced, it stops serving, scanning, storing and notifying, leaves nothing running and closes its error channel; failing to connect, which ends it, or to listen is reported there. A panic in a request handler is answered by the recovery middleware with a server error.",
 ["inputs", "histories", "schedules"], "payments in any of three blocks before or after the registration by either kind of client, every start block; all interleavings of a shutdown within the delay bound", "The daemon has no test that runs without an Elements node, an explorer and a database.",
 ["internal/interface/web-socket/server.go", "internal/interface/web-socket/middleware"],
 [("daemon", "internal/interface/web-socket/server.go"), ("middlewares", "internal/interface/web-socket/middleware")],
 note="the listening socket, JSON and key derivation are models; they are real in the native validation runs.")
prop("K01", "The command-line client configures, registers and reports what it is given",
 "Setting a configuration key changes that key only, whatever was stored before, and the configuration is printed as stored; a missing configuration is an error, not a crash. The subscribe command contacts the configured daemon once and sends it exactly one registration with the given descriptor, events and start height. Everything the daemon sends is then reported once and in order until the connection ends, which is reported as a failure.",
 ["histories", "inputs"], "every sequence of up to three configuration commands over values with quoting, every mix of up to five daemon messages", "The client has no tests.",
 ["cmd/neutrino"],
 [("client configuration", "cmd/neutrino/main.go"), ("client subscription", "cmd/neutrino/subscribe.go")],
 note="files, JSON, logging and the websocket handshake are models; they are real in the native validation runs.")
prop("K02", "The daemon runs with its configured settings or refuses to run",
 "Every setting of the daemon (network, listening address, explorer, peer and database) comes from its environment variable or its default and reaches exactly the component it configures. An unknown network, an unreachable database, a refused node and a failure while running end the daemon as a failure, the first before anything is contacted. Otherwise it runs until its interrupt or termination signal.",
 ["inputs", "fault_sequences"], "every network name with each setting set alone, none or all; every failing component", "The daemon's configuration has no tests.",
 ["cmd/neutrinod/main.go", "internal/config/config.go"],
 [("daemon program", "cmd/neutrinod/main.go"), ("configuration", "internal/config/config.go")],
 note="the environment, the database, the explorer client and the server are stand-ins that record what they are given.")
prop("K03", "The database is opened exactly as configured and brought to the current schema",
 "The daemon connects to PostgreSQL with exactly the configured user, password, host, port and database name, whatever characters they contain. The service is handed out only for a database that answers and to which all migrations of the configured source are applied; a schema that is current already is accepted. Every failure on the way is an error, never a crash or a service on an unfinished schema.",
 ["inputs", "fault_sequences"], "every printable character in user, password and name, hosts as names and addresses; every failing step", "The tests of the database need a server and use one set of settings.",
 ["internal/infrastructure/storage/db/pg/db_service.go", "internal/infrastructure/storage/db/pg/migration"],
 [("database service", "internal/infrastructure/storage/db/pg/db_service.go"), ("migrations", "internal/infrastructure/storage/db/pg/migration")],
 note="the connection and the migration library are stand-ins that record what they are given; the connection string is read by the driver's own ParseURL. What the migration files make of the tables is decided by S07 and S08, whose model takes its schema from them.")
