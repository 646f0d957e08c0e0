"""C02: verification never changes the roots or the leaf count, or what was known before."""
from ..report import Report
from .proofs import ASSUMED, run


def check(tier):
    r = Report("C02", tier,
               "Path-sensitive symbolic dataflow over the source of Pollard::Verify, CreateProofTree, VerifyProofTree (with the node functions they use) and RamForest::Verify. "
               "On every path of an arbitrary round of each loop, and under every combination of the marks of the round's node that the path allows, every store into a node's hash must go to the node of the round and that node must not have been known before "
               "(or the stored value was found equal to the old one); the marks that tell this are exact for children found and children created, and are set for every root put into the partial tree; a child is created only where there was none; "
               "the roots, the number of leaves and the links of older nodes are never written; and undoing the record of a rejected proof removes no child that was there before.",
               ASSUMED)
    run(r, tier, ("C02",))
    return r
