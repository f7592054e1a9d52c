"""Sets of integers as sorted tuples of inclusive, non-adjacent intervals."""
NEG = -(1 << 256)
POS = 1 << 256
FULL = ((NEG, POS),)
EMPTY = ()


def norm(ivs):
    ivs = sorted(i for i in ivs if i[0] <= i[1])
    out = []
    for lo, hi in ivs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def of(*vals):
    return norm((v, v) for v in vals)


def inter(a, b):
    if a is b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
        hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def union(a, b):
    return norm(a + b)


def compl(a):
    out = []
    cur = NEG
    for lo, hi in a:
        if cur <= lo - 1:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= POS:
        out.append((cur, POS))
    return tuple(out)


def diff(a, b):
    return inter(a, compl(b))


def has(a, v):
    for lo, hi in a:
        if v < lo:
            return False
        if v <= hi:
            return True
    return False


def pick(a, prefer=()):
    """A member; printable ASCII letters/digits first so that counterexamples are readable."""
    for v in prefer:
        if has(a, v):
            return v
    for lo, hi in ((97, 122), (48, 57), (33, 126)):
        x = inter(a, ((lo, hi),))
        if x:
            return x[0][0]
    lo, hi = a[0]
    if lo == NEG:
        lo, hi = a[-1] if a[-1][0] != NEG else (min(hi, 0), hi)
    return lo


def shift(a, d):
    if d == 0:
        return a
    return tuple((lo if lo <= NEG else lo + d, hi if hi >= POS else hi + d) for lo, hi in a)


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)
