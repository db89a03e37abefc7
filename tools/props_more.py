
prop("C24", "A mining template is a valid block and pays reward plus fees",
 "Every template the chain routine hands a miner extends the head in use, demands the scheduled target, and holds, after one reward transaction paying that miner the block reward plus exactly the fees of the others, only stored pending transactions that can all be applied in that order within the size and minimum block limits; after every switch of the head the miners are given a template for the new one. A miner announces only blocks made from the template it was given, with the nonce it found, whose hash is below the target, together with everything they refer to.",
 ["inputs", "histories"], "Every state of the pending transactions and every head a template can be asked for.",
 "No test makes a template; dependent pending transactions, size limits and reorganisations need particular histories.",
 ["internal/chain/target.go", "internal/chain/chain.go", "internal/miner/miner.go", "internal/chain/state.go"],
 [("template", "internal/chain/target.go CreateMiningTarget"), ("mining", "internal/miner/miner.go")],
 ["MinerTarget topic", "CandidateHead topic"])
prop("C26", "The difficulty schedule follows the time the last period took",
 "The target demanded of a miner's next block is the parent's inside a period; at the start of a period it is the parent's target scaled by the time the period took over the time it should have taken, that ratio limited to between a quarter and four, never easier than the easiest permitted target; the first block has the original target.",
 ["inputs", "histories"], "Every chain, height and pair of block times.",
 "The existing tests never reach the end of a period.",
 ["pkg/core/difficulty.go", "pkg/core/hasht.go", "pkg/core/params.go"],
 [("schedule", "pkg/core/difficulty.go NextTarget")],
 ["the target in a mining template"])
prop("C29", "Wallet queries reflect the chain state in use, and asking changes nothing",
 "Balances, unspent outputs, confirmations, including blocks, the rich list and the head height are answered from the chain state in use at the time, with the right value for every owner or transaction asked about and none left out; unspent outputs claimed by pending transactions are left out exactly when asked for. Answering a question changes no chain state.",
 ["inputs", "histories"], "Every question in every reachable chain state.",
 "No test asks the chain routine anything; unknown owners, reorganisations and pending spends need particular histories.",
 ["internal/chain/chain.go", "internal/chain/state.go"],
 [("answers", "internal/chain/chain.go handle...Query")],
 ["PkhBalance, PkhUtxos, TxConfirms, TxIncludedBlock, RichList and HeadHeight topics"])
claim("C24", DF, "Every template reply and every announcement of a mined block reachable from the two loops; list construction is followed through loops and filters.")
claim("C26", DF+"; value contract of the schedule function", "Every return of the schedule function, compared with the required term under the facts of its path.")
claim("C29", DF, "Every answer of the chain routine to a question; each entry and the completeness of the answer.")
prop("C12", "Every question and submission is answered exactly once, and truthfully",
 "Every question or submission the chain routine takes from its queue is answered exactly once, on the channel that came with it, before the next event is handled; a submission is answered with success exactly when what was submitted is stored. A client of the bus waits on the channel it sent. Every HTTP request gets exactly one response, a success status is never sent for something that failed, and a failure status is never sent for a submission that was accepted.",
 ["inputs", "histories"], "Every question, submission and HTTP request, well formed or not, in every state of the node.",
 "No test asks anything over the bus or HTTP; a second or missing answer appears only on rare error paths.",
 ["internal/chain/chain.go", "internal/rest/busclient.go", "internal/rest/wallet.go", "internal/rest/admin.go", "internal/rest/server.go"],
 [("answers", "internal/chain/chain.go event loop"), ("waiting", "internal/rest/busclient.go"), ("responses", "internal/rest/wallet.go, admin.go")],
 ["reply channels of bus events", "HTTP status and body"])
prop("C20", "Only what the configuration enables is reachable over HTTP",
 "A request can end the node only through the admin endpoint, which exists only when the admin interface is enabled, and only if it carries the configured password or none is configured; the right password is never refused. Wallet endpoints exist only when the wallet interface is enabled. The command line settings are the ones used. The password is used for nothing but that comparison: it is never printed, stored or sent.",
 ["inputs"], "Every HTTP request and every configuration.",
 "No test starts the server; absence of another way in, and of a leak, is a statement about all code.",
 ["internal/rest/server.go", "internal/rest/admin.go", "cmd/bcnode/main.go"],
 [("mounting", "internal/rest/server.go"), ("password", "internal/rest/admin.go"), ("settings", "cmd/bcnode/main.go")],
 ["HTTP endpoints", "standard output and log"])
claim("C12", DF, "Every path of the chain loop from a receive to the next event, every bus client method, and every path of every HTTP handler found through the routes mounted.")
claim("C20", DF+"; taint analysis of the admin password", "Every endpoint mounted by the program's wiring, every caller of the routine that ends the node, and every place the password can flow to.")
prop("C13", "Saving survives a crash at any point",
 "Every file a node or wallet saves is replaced whole: at every instant the file holds either its old or its new content, whatever point the program stops at. Nothing is removed or overwritten in place. Success is reported only when the file was replaced. When the head is saved, the block it names and everything that block refers to have already been saved.",
 ["crash_points", "histories"], "Every save and every point at which the program can stop.",
 "Tests never stop the program in the middle of a save; each crash point would need its own run.",
 ["pkg/util/file.go", "pkg/disksyncmap/disksyncmap.go", "internal/chain/chain.go", "cmd/bcwallet/config.go"],
 [("replacing a file", "pkg/util/file.go WriteFileAtomic"), ("tables", "pkg/disksyncmap"), ("head", "internal/chain/chain.go saveHeadToFile"), ("wallet", "cmd/bcwallet/config.go Config.Save")],
 ["the files in the save directory and the wallet's configuration file"])
prop("C14", "What a node saves it reads back unchanged",
 "Every transaction, tree node and block a node has stored is found again after a restart with the same save directory, under the same id and with every part as it was; reading back something that was saved never fails. The head saved after every switch is the one the chain routine is offered at the next start, and when none was saved none is offered.",
 ["inputs", "histories"], "Every record of every kind: any number of inputs and outputs, any amounts, any bytes.",
 "The tests round-trip a few fixed records; that no field is lost or misread is a statement about all of them.",
 ["internal/inv/serialize.go", "internal/inv/inv.go", "pkg/disksyncmap/disksyncmap.go", "internal/chain/chain.go", "pkg/core/hasht.go"],
 [("text of records", "internal/inv/serialize.go"), ("disk table", "pkg/disksyncmap/disksyncmap.go"), ("saved head", "internal/chain/chain.go loadHeadFromFile")],
 ["Inv.GetBlock, GetMerkle, GetTx after a restart", "CandidateHead topic at start"])
claim("C13", "typestate of file operations over all paths; call graph census of file operations", "Every function of the module that changes a file, found through the call graph; each path of each.")
claim("C14", DF+"; symbolic composition of writer and reader", "The text written for an arbitrary record is fed to the parser registered for its table; every path must succeed and return every field.")
prop("C28", "The wallet's client and a node's HTTP interface agree",
 "Every question and submission the wallet's client sends reaches the node as what was asked or submitted, with nothing lost or altered, and what the node answers is what the client returns to its caller. A client goes on only with a node of the version it was made for, and the wallet always makes one for the network its configuration names.",
 ["inputs"], "Every address, amount, transaction id and transaction, however large or oddly encoded.",
 "No test sends a request from one to the other; agreement of two programs is a statement about all messages.",
 ["internal/rest/client/*.go", "internal/rest/wallet.go", "internal/rest/server.go", "internal/rest/models/models.go", "internal/rest/params.go", "pkg/core/hasht.go", "cmd/bcwallet/config.go", "cmd/bcwallet/bcwallet.go"],
 [("questions", "internal/rest/client"), ("answers", "internal/rest/wallet.go"), ("message types", "internal/rest/models/models.go")],
 ["HTTP requests and responses", "what the client's methods return"])
claim("C28", DF+"; symbolic composition of client and server", "Each client method's request is parsed by the routes mounted and fed to the handler found; its reply is fed back to the client. Every field of every message type is followed through its JSON form.")
prop("C21", "Keys in a wallet are never lost, altered or disclosed",
 "Whatever command is run, the wallet's configuration is only ever replaced by one with every key it had. A key generated or imported is in the saved file before success is reported or its address shown, and every key is kept under its own address. What was saved is read back as it was, and no command runs on keys that do not match their addresses. Private keys leave the program only into the configuration file, which only its owner can read.",
 ["inputs", "histories", "crash_points"], "Every wallet, every command and every argument.",
 "No test runs a wallet command; that no key is lost or leaks anywhere is a statement about all code.",
 ["cmd/bcwallet/config.go", "cmd/bcwallet/bcwallet.go", "cmd/bcwallet/cli.go", "pkg/core/crypto.go", "pkg/util/file.go"],
 [("keys", "cmd/bcwallet/config.go"), ("commands", "cmd/bcwallet/bcwallet.go"), ("start", "cmd/bcwallet/cli.go Execute")],
 ["the wallet's configuration file", "standard output"])
claim("C21", DF+"; taint analysis of private keys; symbolic composition of writer and reader", "Every entry of the command table and every path of the start, each file written and each value printed; every place a private key can flow to.")
prop("C22", "A wallet's payments do exactly what was asked",
 "A payment pays each named address exactly the amounts given for it, from the user's own coins, each spent once and never one already pending, signed with the key of its address over the outputs as sent. Everything left after a fee for the transaction's full size at the rate given comes back to an address of the user's. Nothing wraps or is lost; amount and fee are shown and confirmed before sending; a payment that cannot be covered or is too large is refused; success is reported only if the node took it.",
 ["inputs", "histories"], "Every list of addresses and amounts, every set of coins and keys, every fee rate and answer of the node.",
 "The tests pay fixed amounts from fixed coins; that no amount is lost for any set of coins is a statement about sums over all of them.",
 ["pkg/core/txfactory.go", "cmd/bcwallet/bcwallet.go", "pkg/core/transaction.go", "pkg/core/crypto.go"],
 [("choosing coins and change", "pkg/core/txfactory.go MakeOutboundTx, MakeConsolidateTx"), ("commands", "cmd/bcwallet/bcwallet.go send, consolidate")],
 ["the transaction sent to the node", "standard output"])
claim("C22", DF+"; sums and permutations as terms", "Every return of the functions making transactions and every place a command sends one: form, coins, signatures, outputs, change, fee and size are decided as terms over the coins and amounts given.")
prop("C15", "A node takes from its peers only what it has verified itself",
 "Whatever a peer sends, the node passes on to its chain routine only records that were received whole and hash to the id asked for; only chains whose blocks follow each other from a block it has, each beating its own target, with more proven work in total than the node's own chain, checked before their content is asked for; and with everything they refer to stored already or offered before what refers to it. What is said about a peer is said about that peer. A failure on a connection is never mistaken for data.",
 ["inputs", "fault_sequences"], "Everything a peer can send, in any order, with the connection failing or timing out at any point.",
 "Tests never speak to a peer; what a hostile or broken peer could send cannot be enumerated.",
 ["internal/peer/peer.go", "internal/peer/handlers.go", "internal/peer/sync.go", "pkg/prot/conn.go", "pkg/prot/core.go", "pkg/prot/primitives.go"],
 [("loop", "internal/peer/peer.go Peer.Loop"), ("chains", "internal/peer/sync.go"), ("records", "pkg/prot/core.go"), ("failures", "pkg/prot/conn.go")],
 ["CandidateHead, CandidateTx, PeersReceived, PeersRequested, PeerAnnouncedAddr topics"])
claim("C15", DF+" over a fault model of the connection; contracts of the connection's methods", "Every place a peer connection publishes an event, with every fact known there about what was read; every return of every method of the connection.")
prop("C16", "What nodes send each other arrives as it was sent",
 "Whatever one node writes to another without an error, the other reads without an error, exactly as it was: every number, text, hash, transaction, tree node and block, with all its inputs, outputs, keys and signatures, however many and however large; and nothing is left over to be taken for what is sent next. What is too large to be sent is refused, not cut.",
 ["inputs"], "Every record of every kind: any number of inputs and outputs, any amounts, any bytes.",
 "No test sends a record over a connection; that no field is lost or misread is a statement about all of them.",
 ["pkg/prot/conn.go", "pkg/prot/core.go", "pkg/prot/primitives.go", "pkg/core/hasht.go"],
 [("records", "pkg/prot/core.go"), ("numbers and text", "pkg/prot/primitives.go"), ("framing", "pkg/prot/conn.go")],
 ["values returned by Conn.Read*"])
claim("C16", DF+"; symbolic composition of writer and reader", "Every pair of methods writing and reading a kind of value: every path of the reader over the stream recorded from every successful path of the writer.")
prop("C25", "A peer can neither hang a node's connection nor make it allocate at will",
 "Every wait for a peer ends after a fixed time, and what a peer claims about the size of what it will send never decides how much memory is set aside: no allocation is larger than what was already received or one message part.",
 ["inputs", "fault_sequences"], "Everything a peer can send or leave unsent.",
 "No test speaks to a silent or lying peer; that no wait or allocation escapes is a statement about all code.",
 ["pkg/prot/conn.go", "pkg/prot/core.go", "pkg/prot/primitives.go", "internal/peer/handlers.go", "internal/peer/sync.go"],
 [("deadlines", "pkg/prot/conn.go"), ("sizes", "pkg/prot/core.go, internal/peer/handlers.go")],
 ["memory use", "a peer's loop going on"])
claim("C25", DF+"; typestate of deadlines; census of network use", "Every use of the network with the deadline in force, and every allocation with its size, in the connection's methods and a peer's loop.")
prop("C19", "A node keeps to the peers it is allowed and offers only usable ones",
 "A node is never connected to itself, to the same node twice, or to more peers than its limit, and only to nodes that spoke the same protocol and version and agreed. Every peer is told the node's current head and is tracked until it closes. A node passes on only addresses that were received from peers or announced by the peer itself and found to answer, never as its own, and remembers none of a peer that is gone. What it asks and tells a peer is meant for that peer.",
 ["inputs", "schedules", "histories"], "Every order in which connections, closings, addresses and announcements arrive.",
 "No test runs a peer factory; which connections and messages may arrive between two checks cannot be enumerated.",
 ["internal/peerfactory/peerfactory.go", "pkg/prot/conn.go", "pkg/prot/params.go"],
 [("factory", "internal/peerfactory/peerfactory.go"), ("handshake", "pkg/prot/conn.go NewConn")],
 ["connections opened and kept", "SendPeers, ShouldAnnounceAddr, ShouldRequestPeers topics"])
claim("C19", DF+" over a model of the network and of goroutines", "Every round of the factory's loop and every goroutine it starts; each place a peer is started, an address kept or an event published.")
prop("C27", "A peer or miner that ends leaves nothing behind",
 "However a peer's or a miner's routine ends, by itself, by its peer closing or failing, or by a panic anywhere below it, the failure stays inside it: each of its subscriptions is closed once, its connection is closed, and that it closed is announced exactly once under its own id, after which the node goes on without it.",
 ["inputs", "fault_sequences", "schedules"], "Every way a routine can end, at any point, for any cause.",
 "No test ends a routine by a panic or a failing connection; that nothing escapes the clean-up is a statement about every path.",
 ["internal/peer/peer.go", "internal/miner/miner.go"],
 [("peer", "internal/peer/peer.go Peer.Loop"), ("miner", "internal/miner/miner.go Miner.Loop"), ("subscriptions", "subscriptions.Close in both")],
 ["PeerClosing topic", "subscriptions and connections left open"])
claim("C27", DF+" over panicking paths; typestate of subscriptions", "Every end of the loops, with the deferred functions run, and every call or receive made inside them.")
prop("C17", "Peers are told what they should know and sent what they ask for",
 "Whatever a node validates or is told to say becomes, for each peer it is meant for and no other, the one command the other side understands as that, and after it is acknowledged exactly what it is about is sent, in order. Every command a peer says is acknowledged and dealt with, also when both speak at once, in an order both agree on. Of two chains the one with more proven work is sent, all of what the other lacks, and each record asked for is answered with that record.",
 ["inputs", "schedules"], "Every event and command, in every order and crossing any other; chains and tables of any length.",
 "No test connects two peers; that nothing validated goes untold and nothing asked for unanswered is a statement about every path.",
 ["internal/peer/peer.go", "internal/peer/handlers.go", "internal/peer/sync.go"],
 [("commands", "internal/peer/peer.go issueCommand, handleReceivedMessage"), ("what they are about", "internal/peer/handlers.go"), ("chains", "internal/peer/sync.go")],
 ["what is written to a connection", "CandidateTx, CandidateHead, PeersReceived, PeersRequested, PeerAnnouncedAddr topics"])
claim("C17", DF+" over a fault model of the connection, by event and by command", "A peer's loop, analysed once for each event alone and crossing each command, and once for each command heard; every end of a round and every write.")
prop("C23", "Every event published reaches every subscriber, once and in order",
 "Each message published on a topic is delivered exactly once, in the order of publishing, to every subscriber of the topic that has not closed its subscription, and to no other; a subscriber that is slow neither loses messages nor delays the others. A subscription closed ends what is delivered, is forgotten by its topic, and leaves nothing running; closing a queue twice does no harm. No message waits for ever while its receiver listens, and what is pushed is popped once, in order, however many routines push.",
 ["schedules", "histories"], "Every interleaving of publishers, subscribers and closings; any number of topics, subscribers and messages.",
 "The tests publish a handful of messages in one order; a lost wake-up or a message dropped while another is closing needs an interleaving no test forces.",
 ["pkg/topic/topic.go", "pkg/syncqueue/syncqueue.go", "pkg/queue/queue.go", "internal/bus/bus.go"],
 [("topic", "pkg/topic/topic.go"), ("queue", "pkg/syncqueue/syncqueue.go, pkg/queue/queue.go"), ("topics of the node", "internal/bus/bus.go")],
 ["messages received from a subscription's channel"])
claim("C23", DF+"; lockset analysis; typestate of a message from queue to channel", "Every method of topics, subscriptions and queues, every access of their fields with the locks held there, and every topic of the bus.")
prop("C10", "Routines never race or wait for each other for ever",
 "No two routines of a node touch the same memory at the same time when one of them changes it, except under a lock that both hold: each component's state is touched by its own routine only, however many miners, peers, connections and HTTP requests run. Locks are given up by whoever took them, on every path; nobody waits for anything while holding one, takes one it holds, or takes two in an order another does not; and no routine sends on a channel that only it would empty.",
 ["schedules"], "Every interleaving of all routines, any number of miners, peers and requests.",
 "The tests run single components on one routine; a race needs two routines in a particular interleaving, and need not show even then.",
 ["cmd/bcnode/bcnode.go", "internal/chain/chain.go", "internal/peerfactory/peerfactory.go", "internal/peer/peer.go", "internal/miner/miner.go", "internal/rest/server.go", "pkg/topic/topic.go", "pkg/syncqueue/syncqueue.go", "pkg/syncmap/syncmap.go", "pkg/prot/conn.go"],
 [("routines", "go statements of cmd/bcnode, internal/peerfactory, pkg/topic, pkg/prot, pkg/util; net/http handlers"), ("locks", "pkg/topic, pkg/syncqueue")],
 ["any shared memory"])
claim("C10", "interprocedural effect analysis by access path and thread (what every routine may touch, compared pairwise with happens-before by start of routine); lockset analysis; lock order", "Every go statement and HTTP handler, with every access of every function it reaches; every place a lock is taken or given up.")
prop("C11", "What is handed to another routine or shared is never changed afterwards",
 "What one routine sends, publishes or stores for others is not changed by it afterwards, and what a routine receives or finds in a shared table is not changed by it, so that every receiver sees it as it was sent: the lists, maps and records in events, replies and the inventory. A connection, which does change, belongs to one routine at a time: whoever hands it on does not touch it again.",
 ["schedules", "histories"], "Every message and record, every receiver and every moment after it was handed over.",
 "No test looks at a message after it was handed over; a change shows only when sender and receiver interleave.",
 ["internal/bus/bus.go", "internal/inv/inv.go", "internal/miner/miner.go", "internal/peerfactory/peerfactory.go", "internal/chain/state.go", "pkg/util/util.go", "pkg/topic/topic.go"],
 [("messages", "internal/bus/bus.go"), ("shared tables", "pkg/syncmap, pkg/disksyncmap, internal/inv"), ("connections", "internal/peerfactory/peerfactory.go")],
 ["events and replies received", "records in the inventory"])
claim("C11", "interprocedural effect and escape analysis by access path: no write reaches what was received, shared, sent or published", "Every receive, every way a value leaves a routine, and every write any function may make through it.")
prop("C30", "Nothing valid is refused",
 "A node refuses a transaction, a tree node, a block or a chain only if it breaks one of the rules: every refusal, however deep, stems from a broken rule and from nothing else. A chain with more proven work whose parts all obey the rules is always taken over, whatever came before it, including a restart; what is offered together is stored in the order given, and the blocks from the common ancestor up are applied oldest first. A transaction that can be stored becomes pending and is announced.",
 ["inputs", "histories", "crash_points"], "Every transaction, tree node, block and chain that obeys the rules, in every order they may arrive, before and after a restart.",
 "A test accepts the handful of valid things it makes; that no valid one is turned away, at a limit or after some history, is a statement about every refusing path.",
 ["pkg/core/verify.go", "internal/inv/inv.go", "internal/chain/chain.go", "internal/chain/state.go", "pkg/core/block.go"],
 [("rules", "pkg/core/verify.go, internal/inv/inv.go"), ("application", "internal/chain/state.go Advance, VerifyTxIncludable"), ("chain routine", "internal/chain/chain.go handleCandidateHead, handleCandidateTx")],
 ["errors of Inv.Store* and State.Advance", "the head of the chain in use", "ValidatedHead, ValidatedTx topics"])
claim("C30", DF+"; every refusing path must know a broken rule", "Every failing return of storing a transaction, tree node or block and of applying a block, every round of the chain routine with what it was offered.")
prop("C31", "Connected honest nodes come to agree on one chain",
 "Nodes that stay connected, directly or through others, all come to have the chain with the most proven work any of them has, and the same pending transactions.",
 ["schedules", "fault_sequences"], "Every network of nodes, message delay and failure.",
 "A test runs one node; agreement is about all of them, and about all time.",
 ["internal/peer/peer.go", "internal/peerfactory/peerfactory.go", "internal/chain/chain.go"],
 [("syncing", "internal/peer/sync.go"), ("spreading", "internal/peer/peer.go")],
 ["heads of several nodes"])
PENDING["C31"] = "liveness across processes: it needs bounds on message delay, on failures and on how long connections last, which no static argument over one node's source has; the local parts are decided (C06 heavier chains win, C15 what is taken from peers, C17 what peers are told, C30 nothing valid is refused)"
prop("C32", "Blocks are found at the target rate",
 "With a steady number of miners, the time between blocks tends to the target time, and every miner finds blocks in proportion to its work.",
 ["inputs", "schedules"], "Every history of hash rates and mined times.",
 "It is a statement about averages over long histories.",
 ["pkg/core/hasht.go", "pkg/core/verify.go", "internal/miner/miner.go"],
 [("retargeting", "pkg/core/hasht.go NextTarget"), ("mining", "internal/miner/miner.go")],
 ["mined times of a chain"])
PENDING["C32"] = "a statistical property of hash outputs and of real time; static analysis decides the retargeting rule (C04) and that miners work on the newest template (C24), not how often a hash meets a target"
prop("C33", "What was saved survives a loss of power",
 "After a loss of power the saved head, inventory and wallet are each in a state that was saved completely.",
 ["crash_points", "configurations"], "Every point of power loss, file system and disk.",
 "No test can cut the power.",
 ["pkg/util/file.go", "pkg/disksyncmap/disksyncmap.go", "internal/chain/chain.go", "cmd/bcwallet/config.go"],
 [("files", "pkg/util, pkg/disksyncmap")],
 ["files after a power loss"])
PENDING["C33"] = "what a disk keeps when power is lost depends on the file system and the hardware (directories are not synced); the order of calls, which settles the crash of the process alone, is decided by C13 and C14"
