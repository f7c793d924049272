"""The C integer types of the LP64 target, their boundary values and the usual arithmetic conversions."""
INT = {  # name: (bits, signed)
 'i8': (8, True), 'u8': (8, False), 'i16': (16, True), 'u16': (16, False),
 'i32': (32, True), 'u32': (32, False), 'i64': (64, True), 'u64': (64, False),
}
NAMES = list(INT)
def lim(t):
    b, s = INT[t]
    return (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)
def bounds(t):
    lo, hi = lim(t)
    vals = [0, 1, 2, 3, 7, 10, 100, hi, hi - 1, lo, lo + 1, hi // 2, hi // 2 + 1]
    if INT[t][1]: vals += [-1, -2, -3, -7, -100]
    for k in (7, 8, 15, 16, 31, 32, 63):
        for d in (-1, 0, 1):
            v = (1 << k) + d
            if lo <= v <= hi: vals.append(v)
            if INT[t][1] and lo <= -v <= hi: vals.append(-v)
    out = []
    for v in vals:
        if v not in out and lo <= v <= hi: out.append(v)
    return out
def small(t):
    lo, hi = lim(t)
    vals = [0, 1, 2, 5, hi, lo]
    if INT[t][1]: vals += [-1, -3]
    out = []
    for v in vals:
        if v not in out: out.append(v)
    return out
ALLV = []
for _t in NAMES:
    for _v in bounds(_t):
        if (_v & (2**64 - 1)) not in ALLV: ALLV.append(_v & (2**64 - 1))
def promote(t):
    return t if INT[t][0] >= 32 else 'i32'
def common(a, b):
    a, b = promote(a), promote(b)
    if a == b: return a
    (ba, sa), (bb, sb) = INT[a], INT[b]
    if ba != bb: return a if ba > bb else b
    return a if not sa else b
def wrap(v, t):
    b, s = INT[t]
    v &= (1 << b) - 1
    if s and v >> (b - 1): v -= 1 << b
    return v
def lit(v, t):
    """A C expression of type t with value v."""
    b, s = INT[t]
    if b < 32:
        return '((%s)%s)' % (t, v if v >= 0 else '%d' % v)
    suf = {'i32': '', 'u32': 'U', 'i64': 'L', 'u64': 'UL'}[t]
    if v < 0:
        lo = lim(t)[0]
        if v == lo: return '(-%d%s-1)' % (-(v + 1), suf)
        return '(-%d%s)' % (-v, suf)
    return '%d%s' % (v, suf)
