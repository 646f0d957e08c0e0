#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

A, PO, RF, BP, ST, SH = ("src/accumulator.cpp", "src/pollard.cpp", "src/ram_forest.cpp", "src/batchproof.cpp", "src/state.cpp", "src/crypto/sha512.cpp")

p("C01", "A proof is accepted only after every check on it has succeeded",
  "Verification of a batch proof against a pollard returns true only when as many hashes as targets were given, the targets are distinct leaves of the forest, every given target hash and every supplied proof hash was used, every already known hash on the way from a target to its root was compared with the given or recomputed value and found equal (or rests on such a comparison lower down with both children known), and every unknown one was recomputed from its children. "
  "A full forest returns true only if every given target hash is one of its leaves.",
  ["inputs", "histories"], "all batch proofs and hash lists (honest, truncated, padded, reordered, forged), in every cache state a pollard can be in",
  "the tests forge a handful of proofs against small pollards; which check is skipped depends on which nodes happen to be cached, a combination space no sample covers",
  [PO, RF, BP, ST, "include/pollard.h", "include/ram_forest.h"],
  [("count and sanity checks, then build and verify the partial tree", "Pollard::Verify"), ("per-node comparison or recomputation", "Pollard::VerifyProofTree"), ("leaf lookup", "RamForest::Verify")],
  [("verification flags", "whether a node was known before, is valid, is on a target's path", "Pollard::Node")], ["return value of Verify"])
p("C02", "Verification never changes the roots or the leaf count",
  "Verifying a proof, whether it is accepted or rejected, never changes the root hashes or the number of leaves, and never overwrites a hash or drops a node that the accumulator already held.",
  ["inputs", "histories"], "all proofs and hash lists, valid or not, from every reachable cache state",
  "the tests compare roots only after accepted proofs and a few rejected ones; an overwrite shows only for particular combinations of known and unknown nodes",
  [PO, RF], [("supplied and computed hashes are stored only in nodes created for this proof", "Pollard::CreateProofTree / VerifyProofTree"), ("children are created only where there are none", "Pollard::InitChildrenOfComputed")],
  [("node hashes and child links", "the cached part of the forest", "Pollard::InternalNode")], ["Roots", "NumLeaves", "later Verify results"])
p("C03", "A rejected proof leaves no trace in the pollard",
  "When a pollard rejects a proof, everything it added while checking it is removed again: the set of cached nodes, the set of remembered leaves and the leaf lookup are as they were before the call.",
  ["inputs", "histories"], "all rejected proofs, wherever in the check the rejection happens",
  "the tests look at the cached-leaf count after two rejections; what must be rolled back depends on which children were missing at each node",
  [PO], [("record of created children, undone on rejection", "Pollard::Verify, CreateProofTree"), ("leaves are remembered only after acceptance", "Pollard::Verify")],
  [("recovery list", "which children were created under which node", "Pollard::Verify")], ["NumCachedLeaves", "CountNodes", "Prove"])
p("C04", "Bad removal lists are refused before anything changes; good ones are not",
  "A list of leaf positions to remove is accepted exactly when it is strictly ascending (so free of duplicates) and every position is an existing leaf; the empty list is accepted. "
  "A modification with a list that is not acceptable returns false and changes nothing: no leaf is added, removed or moved before the list has been checked.",
  ["inputs", "histories"], "all target lists and all leaf counts, on both accumulator kinds",
  "the tests try one unsorted list; boundary values (last leaf, all leaves, duplicates at either end, empty forest) and the order of check and effects are not exercised",
  [ST, A, RF, BP], [("target list check", "ForestState::CheckTargetsSanity, IsSortedNoDupes"), ("check before the first effect", "Accumulator::Remove, Accumulator::Modify, RamForest::Modify")],
  [], ["return value of Modify / CheckSanity", "Roots", "NumLeaves"])
p("C05", "An undo record that does not fit is refused before anything changes",
  "Rolling back a modification of a full forest either completes or returns false with the forest exactly as it was; it returns false only before its first change, after the record's counts, positions and hashes have been checked against the forest.",
  ["inputs", "histories"], "all undo records (own, foreign, stale, malformed) and all forests",
  "the tests only undo the record of the latest modification, so no refusal path is ever taken",
  [RF], [("validation ahead of the first change", "RamForest::Undo")], [("leaf rows, leaf lookup, leaf count, roots", "the forest", "RamForest, Accumulator")], ["return value of Undo", "Roots", "Prove after a refused Undo"])
p("C06", "Read-only operations change nothing",
  "Proving, reading roots, leaf counts and leaves, comparing, counting, printing, sanity-checking and serialising leave every accumulator, proof and undo record they are given exactly as it was, including cached nodes reached through shared pointers; only their designated result is written.",
  ["inputs", "histories"], "all calls of every read-only operation, in every state",
  "constness of the C++ types does not extend through the shared pointers the trees are built of, and tests rarely compare the whole state before and after a query",
  [A, PO, RF, BP, ST], [("no stores to reachable state", "const members of Accumulator, Pollard, RamForest, BatchProof, UndoBatch, ForestState")], [], ["all observers"])
p("C07", "Serialised proofs and undo records follow one fixed byte layout",
  "A batch proof is written as big-endian 32-bit target and hash counts, then each target in order as big-endian 32 bits, then each 32-byte hash in order; an undo record as addition count, deletion count, each position, each hash in the same encoding. "
  "Reading uses the same layout field by field, so for positions below 2^32 writing and reading back gives an equal object.",
  ["inputs"], "all proofs and undo records, of every size including empty",
  "the tests round-trip two small objects through the writer and reader of the same build, which cannot notice a layout or byte-order change made to both sides, or one that needs unusual counts",
  [BP, "src/crypto/common.h", "include/batchproof.h"], [("writer", "BatchProof::Serialize, UndoBatch::Serialize"), ("reader", "BatchProof::Unserialize, UndoBatch::Unserialize"), ("byte order", "WriteBE32 / ReadBE32")], [], ["bytes of Serialize", "fields after Unserialize"])
p("C08", "Parsing untrusted bytes is safe, exact and all-or-nothing",
  "For every byte string, parsing a proof or undo record reads only inside the string and accepts it only if its length is exactly what its own counts imply (computed without wrap-around). "
  "A refused string leaves the object unchanged; an accepted one leaves in it exactly the decoded content, with nothing of what it held before.",
  ["inputs", "histories"], "all byte strings of every length, parsed into fresh and into used objects",
  "no test parses a malformed string or parses into an object that already held something",
  [BP], [("length check against the counts", "BatchProof::Unserialize, UndoBatch::Unserialize"), ("fields cleared and refilled", "same")], [], ["return value and fields after Unserialize"])
p("C09", "Every inner hash is the hash of its left child followed by its right child",
  "The hash stored for any inner node, by any operation that computes one, is SHA-512/256 over exactly the 32 bytes of its left child's hash followed by the 32 bytes of its right child's hash, with no special cases.",
  ["inputs", "histories"], "all operations that compute a hash, all node positions, all child hashes",
  "tests pin the roots of two fixed leaf sets; a special case (equal children, a zero hash, one particular code path) leaves those roots unchanged",
  [A, PO, RF], [("single parent hash function", "Accumulator::ParentHash"), ("call sites", "Accumulator::Add, Pollard::Node::ReHash*, RamForest::Node::ReHash")], [], ["Roots", "proof hashes"])
p("C10", "The hash primitive computes SHA-512/256 as standardised",
  "For every message the hasher consumes, the 256-bit result is the FIPS 180-4 SHA-512/256 digest: the standard initial value, round constants, rotation amounts, message schedule, padding, length encoding and big-endian output.",
  ["inputs"], "all messages, in particular all 64-byte messages an accumulator hashes",
  "tests compare a few root hashes; a wrong constant is noticed but a path used only by other lengths or call patterns is not",
  [SH, "src/crypto/common.h", "src/crypto/sha512.h"], [("compression function", "sha512::Transform"), ("buffering and padding", "CSHA512::Write, Finalize256")], [], ["digest bytes"])
p("C11", "Positions and leaf counts keep their full 64-bit range",
  "No computation on leaf positions, node positions or leaf counts in the accumulators or the position arithmetic passes through an integer type, shift or loop counter too narrow for it, so forests beyond 2^31 and 2^32 leaves behave by the same rules as small ones.",
  ["inputs", "configurations"], "all leaf counts and positions the 64-bit interfaces admit",
  "a forest of 2^31 leaves needs more than 64 GB; the tests stay below 2^17 leaves, where 32-bit arithmetic gives the same results",
  [ST, A, RF, PO, "src/state.h"], [("64-bit position arithmetic", "ForestState"), ("64-bit counters", "RamForest, Pollard, Accumulator")], [], ["ForestState results for large leaf counts", "Roots of large forests"])
p("C12", "Missing data is reported, never dereferenced",
  "Whenever an operation looks something up that may be absent (a leaf in the lookup, a node or child a pollard does not hold, the next hash of a proof that is too short), it tests for absence first and then fails or skips; it never reads through an absent result.",
  ["inputs", "histories"], "all inputs and cache states, in release builds (self-checks compiled out)",
  "the tests run with extra self-checks compiled in and mostly ask for things that exist",
  [A, PO, RF], [("absence tests", "Accumulator::Prove, ComparePositionMap; Pollard::Read, ReadSiblings, SwapSubTrees, FinalizeRemove, CreateProofTree, VerifyProofTree, ReHash*")], [], ["no crash; false / empty results"])
p("C13", "The leaf lookup always follows the leaves",
  "Wherever leaves are added, swapped, removed, restored from disk, rolled back, remembered after a proof or pruned, the lookup from leaf hash to position is updated in the same operation for exactly the affected positions, using the positions before the move where a move is involved.",
  ["histories"], "all sequences of modify, verify, prune, undo and restore operations",
  "the full forest's lookup is exercised through proving; the pollard's own lookup, and the lookup after restore, prune or verification, is checked in one small example",
  [A, PO, RF], [("range and subtree updates next to each swap", "Accumulator::UpdatePositionMapForSubtreeSwap / ForRange"), ("insert and erase", "NewLeaf, FinalizeRemove, Restore, Undo, Verify, Prune")],
  [("m_posmap", "leaf hash to position", "Accumulator")], ["Prove", "ComparePositionMap"])
p("C14", "A forest file is read back as written, and I/O failure is never silent",
  "The forest file is a big-endian 64-bit leaf count followed by each row's hashes from the bottom up; saving writes and opening reads exactly that layout for every leaf count. "
  "Saving reports success only after all writes and a flush succeeded, and opening never builds a forest from bytes that were not read.",
  ["inputs", "fault_sequences", "histories"], "all forests, all file contents (empty, truncated, oversized), all I/O failures",
  "the only disk test saves and reloads 32 leaves without any fault",
  [RF], [("save", "RamForest::Commit"), ("load", "RamForest::Restore, constructor")], [("m_file", "backing file", "RamForest")], ["return value of Commit", "constructor", "file bytes"])
p("C15", "Results depend only on the operations performed on that object",
  "No library operation reads or writes state shared between objects or threads, and none depends on time, randomness, addresses, locale or the iteration order of hash tables; so distinct accumulators are independent and the same history always gives the same roots, proofs and bytes.",
  ["schedules", "histories", "configurations"], "all interleavings of operations on distinct objects, all platforms' hash-table orders",
  "tests run one object after another in one process with one standard library",
  [A, PO, RF, BP, ST, SH], [("no mutable globals or statics; unordered results sorted before use", "whole library")], [], ["Roots", "Prove", "Serialize", "files"])
p("C16", "Self-checks only observe",
  "Compiling the extra self-checks in or out, or compiling assertions out, never changes what any operation returns, stores or writes as long as no check fails: the checked conditions have no effects and no other code depends on the setting.",
  ["configurations"], "all inputs, for the verification build, the release build and builds without assertions",
  "the tests are built with the extra self-checks on; the library that is installed is built with them off and is never run by a test",
  ["src/check.h", A, PO, RF, ST, BP], [("check macros", "CHECK, CHECK_SAFE, assert")], [], ["any observable behaviour in the two builds"])
p("C17", "No failure inside the library is dropped",
  "Whenever a step of an operation can report failure, the operation that uses it takes that outcome into account: it stops and reports failure itself (or raises an error where it cannot return one). A destructor, which can report nothing, is exempt.",
  ["inputs", "fault_sequences"], "all failing steps in all operations",
  "the failing paths are almost never taken by the tests",
  [A, PO, RF, BP], [("every boolean or optional result of an internal step is tested", "all callers")], [], ["return values"])
p("C18", "A proof is produced complete, in the order asked for, or not at all",
  "Proving returns true only if every requested hash is a leaf in the lookup and every needed proof hash could be read; the proof then lists the targets in the order of the request with the proof hashes in canonical position order. "
  "If it returns false, the caller's proof object is untouched.",
  ["inputs", "histories"], "all requests, including unknown, repeated or pruned leaves, on both accumulator kinds",
  "the tests ask only for leaves that can be proven",
  [A], [("lookup of each hash; read of each proof position; single assignment of the result", "Accumulator::Prove")], [], ["return value and result of Prove"])
p("C19", "Full forest and pollard have the same roots after the same history",
  "After the same accepted sequence of modifications, a full forest and any pollard (whatever it remembers or pruned in between) report identical root hashes in the same order.",
  ["histories"], "all modification sequences and all remember/prune choices",
  "random histories sample a tiny part of the space", [A, PO, RF], [("shared add/remove algorithm over two storages", "Accumulator::Add, Remove")], [], ["Roots"])
p("C20", "Undo is the exact inverse of modify",
  "Rolling back the record of the latest modification of a full forest restores the leaves, their positions, the lookup and the roots from before it, repeatedly back to the empty forest.",
  ["histories"], "all modification sequences", "random histories sample a tiny part of the space", [RF, ST], [("swap reversal and rehash", "RamForest::Undo, ForestState::UndoTransform")], [], ["operator==", "Roots"])
p("C21", "Position arithmetic is a correct model of the forest's shape",
  "For every leaf count, parent, child, sibling, ancestor, path, root and row computations agree with the shape of the forest (children's parent is the node, every leaf lies under exactly one root, rows are disjoint ranges).",
  ["inputs"], "all 64-bit leaf counts and positions", "tests try one leaf count", [ST], [("bit formulas", "ForestState")], [], ["ForestState results"])
p("C22", "Removal moves exactly the right subtrees",
  "For every leaf count and acceptable target list, the computed swaps leave all kept leaves in the positions of the smaller forest and all removed ones behind them.",
  ["inputs"], "all leaf counts and target lists", "random samples only", [ST], [("swap computation", "ForestState::Transform")], [], ["leaf order after Modify"])
p("C23", "Every proof that is produced verifies",
  "A proof produced by a forest or pollard for any of its leaves is accepted by every pollard with the same roots, and proves only those leaves.",
  ["histories", "inputs"], "all histories and target sets", "random samples only", [A, PO, ST], [("proof positions on both sides", "ForestState::ProofPositions")], [], ["Verify"])
p("C24", "A remembered leaf stays provable until it is removed or pruned",
  "A leaf added to a pollard with the remember flag, or proven to it, is remembered. Until the leaf is removed or the pollard is pruned, whatever is added, removed, merged or verified, the pollard keeps the leaf, the hashes its proof needs and its entry in the lookup, so that it can prove the leaf with the correct proof.",
  ["histories", "inputs"], "all histories of additions, removals and (accepted or rejected) verifications, all choices of remembered leaves",
  "the tests remember leaves for a few steps of simple histories; whether a node is kept depends on the neighbours that are kept with it, which differs from history to history",
  [PO, A, "include/pollard.h"],
  [("mark of a remembered leaf in its sibling's child link", "Pollard::NewLeaf, Pollard::Verify"), ("dead ends are let go", "Pollard::MergeRoot, Pollard::Node::ReHash, Pollard::InternalNode::Prune"), ("what hangs below a node moves with it", "Pollard::SwapSubTrees, Pollard::FinalizeRemove")],
  [("child links", "which nodes are kept, and which leaves are marked", "Pollard::InternalNode::m_nieces"), ("lookup", "position of each remembered leaf", "Accumulator::m_posmap")], ["Prove", "NumCachedLeaves"])
p("C25", "A crash while saving never loses the last saved forest",
  "If the process or machine stops at any point while a forest is being saved, reopening the file yields either the previously saved or the newly saved forest.",
  ["crash_points"], "all crash points inside saving", "no test interrupts a save", [RF], [("in-place rewrite of the file", "RamForest::Commit")], [], ["forest after reopening"])
p("C26", "Every loop of every operation ends",
  "No operation can go round for ever: whatever lists, proofs, bytes, files and counts it is given, every loop in the library ends. Each way through a loop's body moves it towards its end - no branch goes back to the top without progress - and each counter is wide enough to reach the bound it is compared with.",
  ["inputs", "histories"], "all inputs and states, including lists longer than any the tests use and rare branches inside loops",
  "tests use a few dozen elements and common branches; a loop that hangs only for a long list, a large count or one rare branch passes them",
  [ST, PO, RF, A, BP, "src/crypto/sha512.cpp"],
  [("walks over targets in steps of one to four", "ForestState::ProofPositions, ForestState::ComputeNextRowTargets, ForestState::MakeSwaps"), ("counters over caller's lists", "BatchProof::Unserialize, Accumulator::Prove, RamForest::Undo"), ("loops over rows and roots", "ForestState::Path, ForestState::RootPositions, Pollard::FinalizeRemove")],
  [("loop variables", "cursors, counters and sizes the loop conditions read", "all loops")], ["all operations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), max(len(x["title"]) for x in P))
