"""C01: a proof is accepted only after every check on it has succeeded."""
from ..report import Report
from .proofs import ASSUMED, run


def check(tier):
    r = Report("C01", tier,
               "Path-sensitive symbolic dataflow over the source of Pollard::Verify, CreateProofTree, VerifyProofTree (with the node functions they use) and RamForest::Verify. "
               "Every loop is summarised by one arbitrary round. The node of a round is the one whose verification marks it reads; each path of the round is judged under every combination "
               "of that node's four marks (valid, on the way to a target, known before, sibling known before) and of its being a leaf or not that the path allows: a node known before and not known to be valid must have been compared "
               "(with the given hash, or with the hash recomputed from its children), an unknown one must get the next given hash or be recomputed, its parent may be marked as valid only if the node is, or was compared and both children were known before, "
               "a failed comparison must end the verification or be kept in a flag no later round resets, and the parent must be part of the next row. While the partial tree is built, a supplied proof hash is used up only for a node that was unknown (and stores it) or whose hash was found equal to it, "
               "the marks of created and existing children are exact, and roots start as known and not valid. An accepting return must entail equal counts, distinct targets in range, successful building and verification of the same partial tree, no row left, and no given or supplied hash left. "
               "A full forest accepts only after having found every given hash in its leaf lookup.",
               ASSUMED)
    run(r, tier, ("C01",))
    return r
