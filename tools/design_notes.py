notes = {
"C01": ("the four facts of the statement, per input, as terms over the input and the record of the output it names", "none: all paths, any number of inputs.", "any adversarial transaction in any store; also a second way into the store."),
"C02": ("sums as terms; a total counts as checked only if every prefix was compared with the range before it was added", "none; amounts are 64 bit terms that may wrap unless a fact forbids it.", "wrap-around needs amounts no test uses; the coinbase rules need a block built against them."),
"C03": ("a set algebra of the unspent outputs: per transaction in order, minus inputs, plus outputs", "none over blocks and transactions.", "a double spend needs two transactions and a history; no test has a chain state."),
"C04": ("each consensus rule as a fact at the store; the bounds of targets from the parameters", "none; the difficulty arithmetic of big integers is by term, not by number.", "boundary heights (first and last of a period) are reached by no test."),
"C05": ("the size of a node is the term sum of its children's; reading the tree of a list gives the list", "tree shape is arbitrary; layered constructions are recognised, another kind of construction would be reported as not understood.", "sharing and dangling children need adversarial trees."),
"C06": ("typestate of a candidate state: copied, undone to the ancestor, applied block by block, compared, put in use, announced, saved", "none over histories; the blocks' own rules are C03 and C04.", "a switch that fails half way needs a heavier chain that is valid block by block and not as a whole."),
"C07": ("effects of applying a block, inverted and in reverse order", "none over blocks.", "a fault shows only after a reorganisation over dependent transactions, in a later query."),
"C08": ("every field of the struct types reaches the hash through an encoding whose parts have fixed or recorded length", "collision resistance of SHA-256 assumed.", "a forgotten field makes no test fail; it makes two things share an id."),
"C09": ("signer's and verifier's terms are equal, and cover every field", "ECDSA assumed.", "tests sign and verify what they signed; a field neither covers is invisible to them."),
"C10": ("pairs of accesses by different routines to overlapping access paths, at least one a write, need a common lock or an order by start or hand-over; lock graph without cycles", "routines are told apart by the go statement that starts them, each as if many ran; aliasing by access path, over-approximated.", "needs a schedule; the race detector needs cgo, which is off here, and an execution that races."),
"C11": ("effects of each function on its parameters and on what is reachable from them", "over-approximation by access path; values built fresh on the path are free.", "changing a list that was already sent shows only if the receiver reads at that moment."),
"C12": ("count of sends on the reply channel between two events; count of header writes per request", "net/http's own behaviour assumed.", "an error path nobody takes leaves a client waiting for ever."),
"C13": ("typestate automaton of a file; every function of the module that can change a file is found in the call graph", "crash of the program at any instruction; loss of power between rename and directory sync is not claimed.", "crash points cannot be enumerated by tests that never crash."),
"C14": ("reader composed with writer gives back the value, field by field", "none over values; disk failures other than absence are outside.", "no test saves anything; a lost field shows after a restart only."),
"C15": ("facts about what was read, at every publication, under a model in which any read gives anything or fails", "none over what peers send.", "hostile peers."),
"C16": ("reader composed with writer over the same symbolic stream, boundaries included", "none over values and lengths.", "boundary lengths (65535, 65536) and empty lists."),
"C17": ("per event and per command: what must have been written, read and published at the end of the round", "one command crossing at a time; liveness over many rounds is outside.", "two peers speaking at once."),
"C19": ("the step of the factory's loop as a transformation of its tables", "the network is a model in which addresses and answers are anything.", "needs many peers, in particular orders."),
"C20": ("dominance of the comparison; the password as taint", "timing of the comparison is not looked at.", "configurations: each one needs a process started with it."),
"C21": ("keys before ⊆ keys after, for each command; keys as taint", "one wallet process at a time.", "any configuration, any command, any failing write."),
"C22": ("inputs, outputs, change and fee as terms over coins and amounts asked for", "sum of a wallet's coins below 2^64 (the supply is).", "rounding, repeated destinations and exact cover are particular inputs."),
"C23": ("an automaton of a message: queued, taken, sent; locksets", "the Go memory model; fairness of the scheduler.", "needs schedules of several publishers, a slow subscriber and one that closes."),
"C24": ("the template's transactions as a list built by the loop's recurrence, each with the facts it was chosen under", "the order of preference among pending transactions is not claimed.", "templates only matter full, after reorganisations, or with dependent transactions."),
"C25": ("deadline typestate at each network operation; allocation sizes bounded by a constant or by what was received", "the operating system's deadlines.", "a peer that stops in the middle of a message."),
"C26": ("the schedule's formula as a term, per path", "big integer arithmetic by term.", "no test makes a chain as long as a period."),
"C27": ("released = acquired at every end, panicking ends included", "every call made inside a routine is taken to be able to panic.", "panics at particular points."),
"C28": ("handler composed with client: what is asked is what arrives, what is answered is what is returned", "encoding/json's round trip for exported, distinct field names is assumed, the names are checked.", "fifty addresses, empty lists, errors with text."),
"C29": ("each answer entry as a term over the state in use; effects of answering are none", "none over states.", "unknown owners, pending spends, reorganised state."),
"C30": ("a list of excuses per operation, each the negation of one rule (or a state that C07 shows impossible); a refusing path must know one of them", "none over values and histories; the states are those C03, C07 and C24 maintain. The rules themselves are the node's own (C01 to C05).", "valid things at exact limits, deep reorganisations, transactions known from refused chains or before a restart."),
}
caught = {}
for l in open(V + "/tools/caught.txt"):
    a, b = l.split(":")
    caught[a.split("-")[0]] = " ".join(b.split())