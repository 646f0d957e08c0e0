"""C03: a rejected proof leaves no trace in the pollard."""
from ..report import Report
from .proofs import ASSUMED, run


def check(tier):
    r = Report("C03", tier,
               "Path-sensitive symbolic dataflow over the source of Pollard::Verify, CreateProofTree and VerifyProofTree. "
               "For every path of an arbitrary round of building the partial tree, the children created below its node are compared with what undoing the entries recorded on that path removes (the meaning of each recorded code is derived from the loop that undoes the record, on all of its paths): "
               "every created child must be removed. Every path of Verify that rejects after building must run that loop, over the whole record and not depending on what a node holds; "
               "the lookup of leaves and the marks of remembered leaves must be untouched on every rejecting path, and the pass over the partial tree itself changes no links.",
               ASSUMED)
    run(r, tier, ("C03",))
    return r
