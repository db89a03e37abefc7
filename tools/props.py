#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run by hand after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, st, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

CLOSED = "No existing test touches this path; "
prop("C01", "Only the holder of the matching key can spend an output",
 "A transaction is stored by a node, and so becomes eligible for a block, only if every one of its inputs names an existing output whose recorded owner is the hash of the input's public key, and carries a signature by that key that verifies over the transaction's minimum block and outputs. The value recorded in the input must be the value of the output it spends. There is no other way into the store of transactions.",
 ["inputs", "histories"], "Every transaction, from any client or peer, in any store state.",
 "The tests build a handful of well formed transactions; the guarantee is about every adversarial one and every way into the store.",
 ["pkg/core/verify.go", "pkg/core/transaction.go", "pkg/core/crypto.go", "internal/inv/inv.go", "internal/inv/serialize.go"],
 [("input checks", "pkg/core/verify.go Verifier.VerifyTx"), ("store guard", "internal/inv/inv.go Inv.StoreTx"), ("reload through the same guard", "internal/inv/serialize.go")],
 ["Inv.StoreTx", "Inv.HasTx"])
prop("C02", "No transaction creates value",
 "A stored transaction that spends something pays out no more than the sum of the outputs it spends, and neither sum may exceed the range of the amount type. A transaction that spends nothing is accepted only as the first transaction of a block, and that block pays its miner at most the fixed reward plus the fees of its other transactions. A transaction that spends nothing is never accepted on its own from a client or peer.",
 ["inputs", "histories"], "Every transaction and every block, whatever the number and size of amounts in them.",
 "The tests use small sums; overflow, fee rounding and ways around the coinbase rule need adversarial amounts.",
 ["pkg/core/verify.go", "pkg/core/transaction.go", "internal/inv/inv.go", "internal/chain/chain.go", "internal/peer/peer.go"],
 [("surplus check", "pkg/core/verify.go Verifier.VerifyTx"), ("coinbase rule", "pkg/core/verify.go Verifier.VerifyBlock"), ("loose coinbase rule", "internal/chain/chain.go handleCandidateTx")],
 ["Inv.StoreTx", "Inv.StoreBlock", "the chain routine's handling of a new transaction"])
prop("C03", "No output is spent twice on one chain",
 "A block can be applied to the current chain state only if every output its transactions spend is unspent there at that point and no transaction of it is already on the chain; no stored transaction spends the same output twice. Applying a block removes exactly the outputs spent and adds exactly the outputs created, and nothing else changes the set of unspent outputs except undoing a block.",
 ["inputs", "histories"], "Every block and transaction in every reachable chain state.",
 "Tests exercise no chain state at all; double spends need particular histories of blocks and transactions.",
 ["internal/chain/state.go", "pkg/core/verify.go"],
 [("apply", "internal/chain/state.go State.Advance"), ("duplicate input check", "pkg/core/verify.go Verifier.VerifyTx")],
 ["State.Advance"], [("unspent set", "outputs spendable on the current chain", "internal/chain/state.go")])
prop("C04", "A stored block satisfies every consensus rule",
 "A block is stored only if its parent is stored, its hash is below its claimed target, its transactions fit the size limit, its mined time is above the median of its recent ancestors, within the allowed range of a period's first block and not after the permitted future time, and its target is its parent's inside a difficulty period; at the start of a period the target is at least a quarter and at most four times the previous one and no easier than the easiest permitted. The first block of a chain has the original target. A transaction is applied only in a block at or after its minimum block. A rejected block leaves no trace in the store.",
 ["inputs", "histories"], "Every block offered by any peer or miner, in any store state.",
 "The tests check hashing and set helpers; no test builds a chain long enough to reach the schedule or time rules.",
 ["pkg/core/verify.go", "pkg/core/params.go", "internal/inv/inv.go"],
 [("block checks", "pkg/core/verify.go Verifier.VerifyBlock"), ("store guard", "internal/inv/inv.go Inv.StoreBlock")],
 ["Inv.StoreBlock"])
prop("C05", "The transaction tree of a block is complete, bounded and consistent",
 "A tree node is stored only when both its children are stored, and a transaction or block only when everything it refers to is; the size recorded for a node is the exact sum of the sizes below it and can never exceed the block limit. The tree a miner builds from a list of transactions yields exactly that list, in that order, when it is read back.",
 ["inputs", "histories"], "Every tree node and block, with any shape and any sharing.",
 "Tests compare one fixed tree hash; nothing tests dangling children, shared subtrees or size accounting.",
 ["internal/inv/inv.go", "pkg/core/block.go", "pkg/core/verify.go"],
 [("tree store guard", "internal/inv/inv.go Inv.StoreMerkle"), ("tree reading", "internal/inv/inv.go GetMerkleTxIds"), ("tree building", "pkg/core/block.go MerkleFromTxIds")],
 ["Inv.StoreMerkle", "Inv.GetMerkleTxs"])
prop("C06", "The chain head only moves to a valid chain with strictly more work",
 "The node replaces its chain state only by one that was reached by undoing blocks to a common ancestor and applying, each successfully, the blocks up to the new head, and only when the new head has strictly more total work. A switch that fails half way leaves the head and the unspent outputs in use exactly as they were. Only after a switch is it announced to subscribers and saved, and what is announced and saved is the new state.",
 ["inputs", "histories"], "Every sequence of blocks and competing chains a node may receive.",
 "No test runs the chain component; reorganisations that fail part way need specially built histories.",
 ["internal/chain/chain.go", "internal/chain/state.go"],
 [("switch", "internal/chain/chain.go Chain.syncToHead and callers"), ("apply and undo", "internal/chain/state.go")],
 ["the head, state and transaction queries of the chain routine", "ValidatedHead topic"])
prop("C07", "Undoing a block restores the state before it was applied",
 "Undoing the head block restores exactly the unspent outputs, the included transactions and the pending transactions that its application changed, in the reverse order, and moves the head to its parent. A copy of the chain state shares no changeable part with the original.",
 ["inputs", "histories"], "Every block, including ones whose transactions depend on each other.",
 "No test applies or undoes a block.",
 ["internal/chain/state.go", "pkg/set/set.go"],
 [("apply and undo", "internal/chain/state.go State.Advance, State.Rewind"), ("copy", "internal/chain/state.go State.Copy")],
 ["State.Advance", "State.Rewind", "State.Copy"])
prop("C08", "Identifiers commit to content and content is stored under its own id",
 "The id of a transaction, tree node or block is a collision resistant digest of every one of its fields, in an unambiguous order, so that changing anything changes the id. Everything is stored under its own id, never under one chosen by the sender, and an entry once stored is never changed.",
 ["inputs", "histories"], "Every entity and every pair of entities.",
 "Tests compare a few hashes; that no field is left out is a statement about all pairs.",
 ["pkg/core/block.go", "pkg/core/transaction.go", "pkg/core/block.go", "internal/inv/inv.go"],
 [("hashes", "pkg/core Tx.Hash, MerkleNode.Hash, Block.Hash"), ("store", "internal/inv/inv.go")],
 ["Inv.StoreTx", "Inv.StoreMerkle", "Inv.StoreBlock"])
prop("C09", "A signature commits to the payment it authorises",
 "The content a wallet or miner signs, and the content a node verifies a signature against, is the same for a given transaction and determines its minimum block, its outputs and the inputs it spends, so that a published signature authorises nothing else.",
 ["inputs"], "Every transaction and every change to it.",
 "Tests sign and verify one message; that nothing can be swapped under a signature is a statement about all changes.",
 ["pkg/core/transaction.go", "pkg/core/verify.go"],
 [("signed content", "pkg/core/transaction.go TxHashPreSig"), ("signing", "pkg/core/transaction.go"), ("verification", "pkg/core/verify.go")],
 ["TxHashPreSig", "Verifier.VerifyTx"])
PENDING = {}
CL = {}
def claim(id, technique, note, level="other"): CL[id] = (technique, note, level)
DF = "interprocedural available-facts dataflow over SSA (abstract interpretation with value numbering)"
claim("C01", DF, "All paths from every exported entry that can reach the transaction store; the facts holding at the store must include the ownership, signature and value facts for every input.")
claim("C02", DF, "All paths to the transaction and block stores; arithmetic facts (no overflow, surplus, coinbase bound) must hold at the store.")
claim("C03", DF, "All paths through applying a block: the effects recorded for every input and output of every transaction, plus a census of everything that changes the unspent set.")
claim("C06", DF, "All paths of the chain routine to a replacement of the state in use; facts that must dominate it.")
claim("C07", DF+"; effect matching", "Effects of applying and undoing compared term by term, with iteration orders; aliasing of copies.")
claim("C04", DF, "All paths to the block store; each consensus rule must be a fact at the store.")
claim("C05", DF, "All paths to the three stores, plus value contracts for the tree functions.")
claim("C08", DF+"; structural coverage of hashed fields", "Fields reaching each id hash are compared with the fields of the type; store keys must be the hash of what is stored.")
claim("C09", DF+"; structural coverage of signed fields", "Signed and verified content are compared as terms; one field gap is a recorded finding.")
exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None
NA = dict(PENDING)
for p in P:
    if p["id"] not in CL and p["id"] not in NA:
        NA[p["id"]] = "not built yet: the machinery for this property is still being written"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in CL:
        t, n, l = CL[i]
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i}", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
