#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (kept in one place so that
the checks, properties.jsonl and the manifest stay in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
old = json.load(open(os.path.join(HERE, "MANIFEST.json")))
TECH = {
 "C01": ("abstract interpretation of proof-tree construction and verification per round of the row loop, with path facts: acceptance only if every duty of the round (sibling known or supplied, parent recomputed, compared with the stored hash, target leaf compared) was carried out",
   "Every accepting path of Pollard::Verify and of every step it is built from is decided for all proofs, targets and cached nodes; each obligation is a rule over all paths of one round. Trusts the library models, the position arithmetic (C11) and the parent hash (C09); that the rounds together visit every row is an obligation of its own."),
 "C02": ("abstract interpretation of proof-tree construction, verification and rollback with a write log: every hash store is shown to write the value already there, or to be into a node created by this call or not trusted",
   "Every store into a node of the pollard reachable from Verify is enumerated and decided on all paths; roots and leaf count are shown unwritten. Trusts the library models and that a node marked valid holds the hash of its subtree."),
 "C03": ("abstract interpretation of verification and its rollback: typestate of every refusing exit (rolled back) and correspondence between the slots written while building and the slots restored by the rollback",
   "Every refusing path of Pollard::Verify and every kind of node it may have left behind is decided. Trusts the library models."),
 "C04": ("abstract interpretation with universally quantified path facts: acceptance if and only if entailed, no write before refusal",
   "Every accepting and every refusing path of the target check and of each modify operation is decided for all lists. Node-moving operations are treated as opaque changes. Trusts the library models and the class invariant that the bottom row holds every leaf."),
 "C05": ("abstract interpretation with path facts over the undo record and the forest: no write on a refusing path, every precondition entailed on an accepting one",
   "Every refusing and accepting path of the rollback is decided for all records and forests, including its loops over added leaves and deleted hashes. Node-moving steps are opaque changes; what the completed rollback restores is the subject of other properties. Trusts the library models and the class invariant that the bottom row holds every leaf."),
 "C06": ("interprocedural effect (write-set) analysis over the type-checked AST",
   "Sound over-approximation of stores reachable from every read-only operation, including through shared pointers; virtual calls resolved to every override. Trusts the effect table for the standard library."),
 "C07": ("abstract interpretation of writer and reader over value terms (symbolic arrays and byte chunks)",
   "The final buffer and the decoded members are computed as terms for all sizes and a symbolic element index and compared with the layout. Trusts the library models; container sizes below 2^62."),
 "C08": ("abstract interpretation with linear path facts: buffer bounds, exact acceptance and write-on-refusal analysis",
   "Every buffer access, every accepting and every refusing path of the two parsers is decided for all inputs. Trusts the library models; container sizes below 2^62."),
 "C09": ("abstract interpretation over value terms: bytes hashed, children combined and node stored compared as symbolic values",
   "Every path of the parent hash, every place it is used and every operation that recomputes a node or merges roots is decided. The hasher is taken as the sequence of bytes written (see C10). Which nodes need recomputing is not part of it."),
 "C10": ("translation validation by abstract interpretation: block function compared with the standard's word graph in a normal form of sums modulo 2^64 over bit polynomials; buffering and padding by an inductive invariant",
   "The compression function is evaluated symbolically once (all inputs), each Write path preserves 'state and buffer = the bytes consumed', and the padding bytes and digest are compared as terms for every length. Trusts the libc byte-order and memory models; message length below 2^61 bytes."),
 "C11": ("integer-width analysis of every position/count expression in the type-checked AST",
   "Every conversion, shift, loop counter and declaration on position-typed values is classified; narrowing reported. Trusts the list of position sources (64-bit interfaces)."),
 "C12": ("typestate (absent / present / untested) of every possibly absent value - child and parent links, walk results, stored hashes, lookup entries, proof cursors - over an abstract interpretation of every function, with an interprocedural summary of which arguments may be absent",
  "Every use of such a value in the accumulators is an obligation, decided on all paths with the self-checks compiled out. Trusts that roots, the nodes behind them and the nodes of a proof tree exist; a value whose test is not understood is reported as undecided."),
 "C13": ("abstract interpretation of every operation that adds, moves, removes, restores or remembers leaves, with the lookup as a symbolic map; typestate rule that a move is preceded by the update for the same positions",
   "Every round and path that writes the lookup is compared with the position the leaf is at, for all leaf counts and targets; other writers are reported as undecided. Trusts that a stored hash is read back, that leaf hashes are distinct, and that the swap lists and position arithmetic are right (C11)."),
 "C14": ("abstract interpretation with the sequence of stream operations as a state component (loops summarised as repetitions), compared with the file layout; typestate of the stream (unchecked, unflushed)",
   "Every path of saving and of opening a forest is decided for all leaf counts and file contents. Trusts the stream model (failure is sticky), that NumRows() is the smallest r with leaves <= 2^r, and that rows are empty before a forest is restored."),
 "C15": ("shared-state, entropy-source and iteration-order dataflow analysis over the type-checked AST",
   "Every object with static or thread storage, every call to a time/random/address/locale source, every container-order-dependent loop and every member-wise copied shared pointer in the library is enumerated and classified. Trusts the tables of order-insensitive operations and std entropy sources."),
 "C16": ("cross-configuration AST comparison plus effect analysis of check conditions",
   "The release and verification ASTs are compared with check expansions removed, and every checked condition is shown free of writes. Assumes no check fails."),
 "C17": ("call-result obligations over the call graph plus path-sensitive abstract interpretation of each caller with the step's outcome as an unknown",
   "Every call of a fallible step must have its result used, and no path of the caller on which the step failed may report success or fall off the end. Steps are identified by interface names and by being built from them."),
 "C24": ("induction over the operations of a pollard by abstract interpretation with path facts over the child links: mark set, moved with the leaf, and no kept node or marked leaf let go; typestate of the rollback; lookup rules of C13",
   "Every path of adding, merging, swapping, rehashing, promoting and marking is decided for all heap shapes as a local step of the induction. That the steps are applied to the right positions (swap lists, walk down the tree) is trusted."),
 "C26": ("termination analysis by abstract interpretation: a lexicographic measure for every way through every loop; a closed set of ways through a loop (recurrent guard) or a counter narrower than its bound is a violation",
   "Every loop of the library is analysed with an arbitrary state at its head; all but two get a measure (row-wise climb in VerifyProofTree and the root search in Path are undecided, though a stuck way through them is still reported). Recursion, and calls that do not return, are outside. Trusts the library models; lists are shorter than 2^62."),
 "C18": ("abstract interpretation with universally quantified path facts over value terms; first loop iterations partitioned",
   "Every path of Prove is decided for all requests: successful exits yield exactly the looked-up positions and the successfully read hashes at the canonical proof positions, refused ones leave the argument alone. Reading a stored hash and computing proof positions are opaque steps. Trusts the library models."),
}
def main():
    checks = []
    for pid in sorted(TECH):
        if not os.path.exists(os.path.join(HERE, "ux/checks", pid.lower() + ".py")):
            print("no check for", pid); continue
        t, note = TECH[pid]
        checks.append({"property": pid, "quick_cmd": f"python3 -m ux.run {pid}",
                       "thorough_cmd": f"python3 -m ux.run {pid} --thorough",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": t, "level": "other", "level_note": note})
    have = {c["property"] for c in checks}
    na = list(old["not_applicable"])
    m = {"version": 1, "setup_cmd": "python3 -c \"from ux.facts import exporter; exporter()\"",
         "checks": checks, "not_applicable": [n for n in na if n["property"] not in have]}
    if "notes" in old: m["notes"] = old["notes"]
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()
