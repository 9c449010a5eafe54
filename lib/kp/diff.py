"""First differences between two JSON values, for reports."""


def diff(a, b, path="", out=None, limit=6):
    out = [] if out is None else out
    if len(out) >= limit or a == b or b == "-":
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            diff(a.get(k, "<absent>"), b.get(k, "<absent>"), path + "." + k, out, limit)
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, "%s[%d]" % (path, i), out, limit)
    else:
        out.append("%s: %s | %s" % (path, str(a)[:160], str(b)[:160]))
    return out
