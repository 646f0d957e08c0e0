"""Development aid: print the exported tree of functions compactly. usage: python3 -m ux.dump NAME.. [config]"""
import sys
from .facts import Program


def d(n, ind=0):
    p = "  " * ind
    if not isinstance(n, dict):
        return
    sc = []
    for k, v in n.items():
        if k in ("k", "l", "c", "f", "eb", "ee"):
            continue
        if isinstance(v, (str, int, bool, tuple)) or v is None:
            sc.append("%s=%s" % (k, v))
        elif hasattr(v, "s"):
            sc.append("%s:%s" % (k, v.s[:60]))
        elif k == "fn":
            sc.append("fn=%s%s%s" % (v["n"][:90], " const" if v.get("const") else "", " pt:" + ",".join(t.s[:40] for t in v.get("pt", []))))
    print(p + n.get("k", "-"), " ".join(sc))
    for k, v in n.items():
        if k == "fn":
            continue
        if isinstance(v, dict):
            print(p + " ." + k)
            d(v, ind + 1)
        elif isinstance(v, list):
            print(p + " ." + k)
            for x in v:
                if isinstance(x, dict):
                    d(x, ind + 1)
                elif x is not None:
                    print(p + "  ", x)


if __name__ == "__main__":
    prog = Program("release")
    for a in sys.argv[1:]:
        for f in prog.functions.values():
            if f["n"].endswith(a):
                print("=====", f["n"], f["key"])
                d({k: v for k, v in f.items() if k in ("params", "body", "inits")})
