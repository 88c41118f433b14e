"""Member labels for abstract locations and values."""


def chain(loc):
    """list of steps from the root of a location: ('this'|...), then member short names / '[]'"""
    out = []
    t = loc
    n = 0
    while n < 60:
        n += 1
        k = t[0]
        if k == "fld":
            out.append(t[2])
            t = t[1]
        elif k == "elem":
            out.append("[]")
            t = t[1]
        elif k == "size":
            out.append("#")
            t = t[1]
        elif k in ("deref",):
            t = t[1]
        elif k == "v":
            t = t[1]
        elif k == "dyn":
            t = t[2]
        elif k == "addr":
            t = t[1]
        elif k == "iter":
            out.append("[]")
            t = t[1]
        elif k == "ref":
            t = t[1]
        else:
            out.append(t)
            break
    out.reverse()
    return out


def member(loc):
    """readable name of the member a location/value denotes, None if it is not (part of) a member"""
    c = chain(loc)
    if not c:
        return None
    names = [s for s in c if isinstance(s, str)]
    flds = [s for s in names if s not in ("[]", "#")]
    if not flds:
        return None
    return ".".join(s.split("::")[-1] if s not in ("[]", "#") else s for s in names).replace(".[]", "[]").replace(".#", "#")


def qfields(loc):
    return [s for s in chain(loc) if isinstance(s, str) and s not in ("[]", "#")]


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for k in t:
            if isinstance(k, tuple):
                yield from subterms(k)
