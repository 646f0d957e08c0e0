"""Expressions as text, for reports."""
from .effects import short


def txt(n, depth=0):
    if n is None:
        return ""
    if depth > 12:
        return "..."
    k = n["k"]
    d = depth + 1
    if k == "ref":
        return n["n"]
    if k == "int":
        return n["v"]
    if k == "null":
        return "nullptr"
    if k == "this":
        return "this"
    if k == "member":
        b = txt(n["b"], d)
        return n["n"] if b == "this" else b + ("->" if n["arrow"] else ".") + n["n"]
    if k == "call":
        a = ", ".join(txt(x, d) for x in n["args"])
        o = n.get("obj")
        nm = short(n["fn"]["n"])
        if n.get("opc"):
            op = n["opc"]
            xs = ([o] if o else []) + n["args"]
            if op == "[]":
                return "%s[%s]" % (txt(xs[0], d), txt(xs[1], d))
            if op == "->":
                return txt(xs[0], d)
            if op == "()":
                return "%s(%s)" % (txt(xs[0], d), a)
            if len(xs) == 1:
                return op + txt(xs[0], d)
            return "%s %s %s" % (txt(xs[0], d), op, txt(xs[1], d))
        if o is not None and o["k"] != "this":
            if nm.startswith("operator "):
                return txt(o, d)
            return "%s%s%s(%s)" % (txt(o, d), "->" if n.get("arrow") else ".", nm, a)
        return "%s(%s)" % (nm, a)
    if k == "ctor":
        a = ", ".join(txt(x, d) for x in n["args"])
        if len(n["args"]) == 1 and n["fn"].get("ctor") in ("copy", "move"):
            return a
        return "%s(%s)" % (short(n["fn"].get("cls", "")), a)
    if k == "cast":
        if n.get("impl"):
            return txt(n["x"], d)
        t = n.get("t")
        return "(%s)%s" % (t.s if t is not None else "?", txt(n["x"], d))
    if k == "bin":
        return "(%s %s %s)" % (txt(n["x"], d), n["op"], txt(n["y"], d))
    if k == "un":
        op = n["op"]
        return txt(n["x"], d) + op[4:] if op.startswith("post") else op + txt(n["x"], d)
    if k == "cond":
        return "%s ? %s : %s" % (txt(n["x"], d), txt(n["a"], d), txt(n["b"], d))
    if k == "idx":
        return "%s[%s]" % (txt(n["b"], d), txt(n["i"], d))
    if k == "init":
        return "{%s}" % ", ".join(txt(x, d) for x in n["args"])
    if k == "lambda":
        return "[...]{...}"
    return k
