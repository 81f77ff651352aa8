"""Bit-level terms over signed-view values: byte extraction, concatenation, byte swaps, bit fields."""
import bisect
from dom import *
from state import CIDS

def sgn(x, w):
    x = int(x) & ((1 << w) - 1)
    return x - (1 << w) if w and x >> (w - 1) else x
def unsg(x, w): return int(x) & ((1 << w) - 1)
def rng(w): return -(1 << (w - 1)), (1 << (w - 1)) - 1
def lossy(v):
    if v.__class__ is not Lin: return False
    return any(SYM_LOSSY[s] for s, k in v.t)

def canon(v, bits):
    """representative of v modulo 2**bits (the constant part reduced)"""
    if v.__class__ is not Lin: return sgn(v, bits)
    c = sgn(v.c, bits)
    return v if c == v.c else ladd(v, c - v.c)
def ext(v, w, k, n):
    """bytes k..k+n of the w-bit value v, as a signed value of n bytes"""
    if k == 0 and 8 * n == w: return v
    if v.__class__ is not Lin:
        return sgn(unsg(v, w) >> (8 * k), 8 * n) if k * 8 < w else 0
    d = defn(v)
    if d is not None:
        o = d[0]
        if o == 'ext':
            if k + n <= d[4]: return ext(d[1], d[2], d[3] + k, n)
        elif o == 'bswap':
            m = d[2]
            if k + n <= m: return bswap(ext(d[1], 8 * m, m - k - n, n), n)
        elif o == 'cat':
            parts = d[1]; pos = 0; out = []
            for L, x in parts:
                a = max(k, pos); b = min(k + n, pos + L)
                if a < b: out.append((b - a, ext(x, 8 * L, a - pos, b - a)))
                pos += L
            if sum(L for L, x in out) == n: return cat(out)
        elif o == 'zext':
            m = d[2] // 8
            if d[2] % 8 == 0:
                if k + n <= m: return ext(d[1], d[2], k, n)
                if k >= m: return 0
                return cat([(m - k, ext(d[1], d[2], k, m - k)), (n - (m - k), 0)])
        elif o == 'xorn':
            return xorn([ext(q, w, k, n) for q in d[1]], (d[2] >> (8 * k)) & ((1 << (8 * n)) - 1), 8 * n)
        elif o == 'bits':
            r = _cut(d[1], 8 * k, 8 * n)
            if r is not None: return r
        elif o in ('tolower', 'toupper') and k == 0 and n == 1:
            # the character that comes from an unsigned reading of a character
            e = defn(d[1])
            if e is not None and e[0] == 'zext' and e[2] == 8: return term(o, (e[1],), -128, 127, o, lossy(v))
    elif v.__class__ is Lin and (v.c or len(v.t) > 1 or v.t[0][1] != 1):
        fs = decomp(v, w)
        if len(fs) > 1 or fs[0][0]:
            r = _cut(fs, 8 * k, 8 * n)
            if r is not None: return r
    # values whose range is known to be small
    lo = hi = v.c
    for s, q in v.t:
        if q > 0: lo += q * SYM_LO[s]; hi += q * SYM_HI[s]
        else: lo += q * SYM_HI[s]; hi += q * SYM_LO[s]
    if lo >= 0:
        if hi < (1 << (8 * k)): return 0
    M = 1 << (8 * n - 1)
    if k == 0 and -M <= lo and hi < M: return v
    return term('ext', (v, w, k, n), -M, M - 1, 'byte', lossy(v))

def _cut(fs, lo, n):
    """bits lo..lo+n of disjoint fields, as a signed n-bit value"""
    out = []
    for l, m, x in fs:
        b = max(l, lo); e = min(l + m, lo + n)
        if b >= e: continue
        if b == l and e == l + m: out.append((l - lo, m, x)); continue
        if x.__class__ is not Lin: out.append((b - lo, e - b, (int(x) >> (b - l)) & ((1 << (e - b)) - 1))); continue
        y = x
        d = defn(x)
        if d is not None and d[0] == 'zext': out.append((b - lo, e - b, field(d[1], d[2], b - l, e - b)))
        else: out.append((b - lo, e - b, field(x, m + 1, b - l, e - b)))
    return compose(out, n)
def byteterms(v, n):
    """the n bytes of a value, lowest first, in a form that is equal for values equal modulo 2**(8n)"""
    out = []
    for k in range(n):
        b = ext(v, 8 * n, k, 1)
        d = defn(b)
        if d is not None and d[0] == 'ext': b = term('ext', (canon(d[1], 8 * (d[3] + 1)), 8 * (d[3] + 1), d[3], 1), -128, 127, 'byte', lossy(v))
        elif b.__class__ is Lin: b = canon(b, 8)
        out.append(b)
    return out
def bswap(v, n):
    if n == 1: return v
    if v.__class__ is not Lin:
        return sgn(int.from_bytes(unsg(v, 8 * n).to_bytes(n, 'little'), 'big'), 8 * n)
    d = defn(v)
    if d is not None:
        if d[0] == 'bswap' and d[2] == n: return d[1]
        if d[0] == 'cat':
            return cat([(L, bswap(x, L)) for L, x in reversed(d[1])])
    M = 1 << (8 * n - 1)
    # short non-negative values: only a few bytes are non-zero -> concatenation
    lo = hi = v.c
    for s, q in v.t:
        if q > 0: lo += q * SYM_LO[s]; hi += q * SYM_HI[s]
        else: lo += q * SYM_HI[s]; hi += q * SYM_LO[s]
    if d is not None and d[0] == 'zext':
        m = d[2] // 8
        return cat([(n - m, 0), (m, bswap(d[1], m))])
    return term('bswap', (v, n), -M, M - 1, 'bswap', lossy(v))

def cat(parts):
    """little-endian concatenation of (nbytes, signed value)"""
    out = []
    for L, x in parts:
        if L <= 0: continue
        d = defn(x)
        if d is not None and d[0] == 'cat': sub = list(d[1])
        else: sub = [(L, x)]
        for L2, x2 in sub:
            if out:
                L1, x1 = out[-1]
                if x1.__class__ is not Lin and x2.__class__ is not Lin:
                    out[-1] = (L1 + L2, sgn(unsg(x1, 8 * L1) | (unsg(x2, 8 * L2) << (8 * L1)), 8 * (L1 + L2))); continue
                d1 = defn(x1); d2 = defn(x2)
                if d1 is not None and d2 is not None and d1[0] == 'ext' and d2[0] == 'ext' and d1[3] + d1[4] == d2[3] and canon(d2[1], 8 * d2[3]) == canon(d1[1], 8 * d2[3]):
                    out[-1] = (L1 + L2, ext(d2[1], d2[2], d1[3], L1 + L2)); continue
                # descending bytes: byte-swapped value
                b1 = d1; 
                m = _desc(d1, L1); q = _desc(d2, L2)
                if m is not None and q is not None and m[2] == q[2] + L2 and canon(m[0], 8 * m[2]) == canon(q[0], 8 * m[2]):
                    out[-1] = (L1 + L2, bswap(ext(m[0], m[1], q[2], L1 + L2), L1 + L2)); continue
            out.append((L2, x2))
    if not out: return 0
    if len(out) == 1: return out[0][1]
    n = sum(L for L, x in out)
    M = 1 << (8 * n - 1)
    l = any(lossy(x) for L, x in out)
    # top part zero: value is the zero-extension of the rest
    if n <= 8 and out[-1][1].__class__ is not Lin and out[-1][1] == 0 and len(out) == 2:
        return zext(out[0][1], 8 * out[0][0])
    lo, hi = -M, M - 1
    t = out[-1]
    if t[1].__class__ is not Lin and n <= 8:
        base = int(t[1]) << (8 * (n - t[0]))
        lo, hi = base, base + (1 << (8 * (n - t[0]))) - 1
    return term('cat', (tuple(out),), lo, hi, 'cat', l)

def _desc(d, L):
    """(v,w,lowbyte) if the part is the byte-reversal of bytes lowbyte..lowbyte+L of v"""
    if d is None: return None
    if d[0] == 'ext' and L == 1: return (d[1], d[2], d[3])
    if d[0] == 'bswap':
        e = defn(d[1])
        if e is not None and e[0] == 'ext' and e[4] == L: return (e[1], e[2], e[3])
        return (d[1], 8 * d[2], 0)
    return None

def zext(a, wf):
    """unsigned reading of a wf-bit value"""
    if a.__class__ is not Lin: return unsg(a, wf)
    lo = hi = a.c
    for s, q in a.t:
        if q > 0: lo += q * SYM_LO[s]; hi += q * SYM_HI[s]
        else: lo += q * SYM_HI[s]; hi += q * SYM_LO[s]
    if lo >= 0: return a
    if hi < 0: return ladd(a, 1 << wf)
    d = defn(a)
    if d is not None and d[0] == 'bits':
        v = 0
        for l, n, x in d[1]: v = ladd(v, lscale(x, 1 << l))
        return v
    return term('zext', (a, wf), 0, (1 << wf) - 1, 'u', lossy(a))

def rng_of(v):
    lo = hi = v.c
    for s, q in v.t:
        if q > 0: lo += q * SYM_LO[s]; hi += q * SYM_HI[s]
        else: lo += q * SYM_HI[s]; hi += q * SYM_LO[s]
    return lo, hi

READS = {}
def content(cid, pos, n, lossy=False):
    """n bytes at pos of an unknown content.  Reads that overlap an earlier one are expressed through it,
    so the same byte never gets two independent values."""
    c = pos.c if pos.__class__ is Lin else int(pos)
    base = pos.t if pos.__class__ is Lin else ()
    have, order = READS.setdefault((cid, base), ({}, []))
    if have.get(c) is not None and have[c][0] == n: return have[c][1]
    parts = []; k = c
    while k < c + n:
        if len(order) != len(have): order[:] = sorted(have)
        h = bisect.bisect_right(order, k)
        s = order[h - 1] if h else None
        if s is not None and k < s + have[s][0]:
            m, t = have[s]
            e = min(s + m, c + n)
            parts.append((e - k, ext(t, 8 * m, k - s, e - k))); k = e
        else:
            e2 = e = min(order[h], c + n) if h < len(order) else c + n
            L = e - k; M = 1 << (8 * L - 1)
            b0, b1 = -M, M - 1
            q = CIDS[cid].d
            if L == 1 and q is not None and q[0] in ('tolower', 'toupper') and not CIDS[cid].lossy:
                # a character of a converted content is the converted character
                x = content(q[1], Lin(k, base) if base else k, 1)
                e = defn(x)
                while e is not None and e[0] in ('tolower', 'toupper'): x = e[1]; e = defn(x)
                t = term(q[0], (x,), -128, 127, q[0], lossy or any(SYM_LOSSY[z] for z, w in x.t)) if x.__class__ is Lin else x
                if x.__class__ is Lin:
                    have[k] = (L, t); order.insert(h, k)
                    parts.append((L, t)); k = e2
                    continue
            if L == 1 and CIDS[cid].no:
                al = [q - 256 if q > 127 else q for q in range(256) if q not in CIDS[cid].no]
                if al: b0, b1 = min(al), max(al)
            t = term('byt', (cid, Lin(k, base) if base else k, L), b0, b1, 'byte', lossy=lossy or any(SYM_LOSSY[s] for s, q in base))
            have[k] = (L, t); order.insert(h, k)
            parts.append((L, t)); k = e
    return parts[0][1] if len(parts) == 1 else cat(parts)

FIELDS = {}
def field(v, w, lo, n):
    """bits lo..lo+n of the w-bit value v, as an unsigned number"""
    if n <= 0: return 0
    if v.__class__ is not Lin: return (unsg(v, w) >> lo) & ((1 << n) - 1)
    if lo >= w: return 0
    if lo + n > w: n = w - lo
    d = defn(v)
    if d is not None:
        o = d[0]
        if o == 'zext':
            if lo >= d[2]: return 0
            return field(d[1], d[2], lo, min(n, d[2] - lo))
        if o == 'field':
            if lo >= d[4]: return 0
            return field(d[1], d[2], d[3] + lo, min(n, d[4] - lo))
        if o == 'ext':
            if lo + n <= 8 * d[4]: return field(d[1], d[2], 8 * d[3] + lo, n)
        if o == 'bswap':
            # a field inside one byte
            if lo // 8 == (lo + n - 1) // 8:
                m = d[2]; k = lo // 8
                return field(d[1], 8 * m, 8 * (m - 1 - k) + lo % 8, n)
        if o == 'cat':
            pos = 0
            for L, x in d[1]:
                if lo >= pos and lo + n <= pos + 8 * L: return field(x, 8 * L, lo - pos, n)
                pos += 8 * L
        if o == 'bits':
            # list of (lo, n, value) disjoint fields, zero elsewhere
            for l2, n2, x in d[1]:
                if lo >= l2 and lo + n <= l2 + n2: return field(x, n2 + 1, lo - l2, n)
            if all(lo + n <= l2 or lo >= l2 + n2 for l2, n2, x in d[1]): return 0
    a, b = rng_of(v)
    if a >= 0:
        if b < (1 << lo): return 0
        if lo == 0 and b < (1 << n): return v
        bl = b.bit_length()
        if lo + n > bl: n = bl - lo
    if v.c and len(v.t) == 1 and v.t[0][1] == 1 and 0:
        pass
    if w <= 16 and n > 1:
        # narrow words: exact down to the single bits, whatever fields are looked at
        r = 0
        for i in range(n): r = ladd(r, lscale(field(v, w, lo + i, 1), 1 << i))
        return r
    key = (v, w)
    L = lossy(v)
    fs = FIELDS.setdefault(key, [])
    if (lo, n) not in fs:
        for l2, n2 in fs:
            if not (lo + n <= l2 or l2 + n2 <= lo):
                L = True; break
        fs.append((lo, n))
    return term('field', (v, w, lo, n), 0, (1 << n) - 1, 'bits', L)

def decomp(v, w):
    """v as disjoint (lo, n, value) unsigned fields (zero elsewhere), or None"""
    if v.__class__ is not Lin:
        u = unsg(v, w)
        out = []; i = 0
        while u >> i:
            if (u >> i) & 1:
                j = i
                while (u >> j) & 1: j += 1
                out.append((i, j - i, (1 << (j - i)) - 1)); i = j
            else: i += 1
        return out
    d = defn(v)
    if d is not None:
        if d[0] == 'bits': return list(d[1])
        if d[0] == 'field': return [(0, d[4], v)]
        if d[0] == 'zext': return [(0, d[2], v)]
        if d[0] == 'cat':
            out = []; pos = 0
            for L, x in d[1]:
                if x.__class__ is not Lin:
                    out += [(l + pos, n, y) for l, n, y in decomp(x, 8 * L)]
                else: out.append((pos, 8 * L, zext(x, 8 * L)))
                pos += 8 * L
            return out
    # linear combination with power of two coefficients over small non-negative symbols
    if v.c >= -(1 << (w - 1)):
        out = decomp(v.c, w) if v.c else []
        for s, k in v.t:
            if k <= 0 or k & (k - 1) or SYM_LO[s] < 0: return whole(v, w)
            out.append((k.bit_length() - 1, SYM_HI[s].bit_length(), Lin(0, ((s, 1),))))
        out.sort(key=lambda x: x[0])
        pos = 0
        for l, n, x in out:
            if l < pos: return whole(v, w)
            pos = l + n
        if pos <= w: return out
    return whole(v, w)
def whole(v, w):
    a, b = rng_of(v)
    if a >= 0: return [(0, b.bit_length(), v)]
    return [(0, w, zext(v, w))]

def compose(fs, w):
    """value (signed view) of disjoint unsigned fields"""
    fs = sorted((f for f in fs if not (f[2].__class__ is not Lin and f[2] == 0)), key=lambda f: f[0])
    if not fs: return 0
    # merge constants
    if all(f[2].__class__ is not Lin for f in fs):
        return sgn(sum(int(f[2]) << f[0] for f in fs), w)
    if len(fs) == 1 and fs[0][0] == 0:
        f = fs[0]
        if f[1] < w: return f[2]
        d = defn(f[2])
        if d is not None and d[0] == 'zext' and d[2] == w: return d[1]
        if rng_of(f[2])[1] < (1 << (w - 1)): return f[2]
    # whole bytes?
    if all(f[0] % 8 == 0 and f[1] % 8 == 0 for f in fs) and w % 8 == 0:
        parts = []; pos = 0
        ok = True
        for l, n, x in fs:
            if l > pos: parts.append(((l - pos) // 8, 0))
            d = defn(x)
            if x.__class__ is not Lin: parts.append((n // 8, sgn(x, n)))
            elif d is not None and d[0] == 'zext' and d[2] == n: parts.append((n // 8, d[1]))
            elif d is not None and d[0] == 'zext' and d[2] < n and d[2] % 8 == 0:
                parts.append((d[2] // 8, d[1])); parts.append(((n - d[2]) // 8, 0))
            elif d is not None and d[0] == 'cat' and sum(L for L, y in d[1]) >= n // 8: parts.append((n // 8, ext(x, 8 * sum(L for L, y in d[1]), 0, n // 8)))
            elif d is not None and d[0] == 'field' and d[3] % 8 == 0: parts.append((n // 8, ext(d[1], d[2], d[3] // 8, n // 8)))
            else: ok = False; break
            pos = l + n
        if ok:
            if pos < w: parts.append(((w - pos) // 8, 0))
            return cat(parts)
    top = fs[-1][0] + fs[-1][1]
    if top < w:
        # a plain linear combination
        v = 0
        for l, n, x in fs: v = ladd(v, lscale(x, 1 << l))
        return v
    t = fs[-1]
    if t[2].__class__ is not Lin:
        # the sign is known: a linear combination as well
        v = -(1 << w) if (int(t[2]) >> (t[1] - 1)) & 1 else 0
        for l, n, x in fs: v = ladd(v, lscale(x, 1 << l))
        return v
    lo, hi = rng(w)
    return term('bits', (tuple(fs),), lo, hi, 'bits', any(lossy(f[2]) for f in fs))

def term_shl(a, k, w):
    fs = decomp(a, w)
    out = []
    for l, n, x in fs:
        l2 = l + k
        if l2 >= w: continue
        if l2 + n > w:
            x = field(x, n + 1, 0, w - l2); n = w - l2
        out.append((l2, n, x))
    return compose(out, w)

def term_shr(o, a, k, w, lo, hi):
    if o == 'lshr':
        fs = decomp(a, w)
        if len(fs) != 1 or fs[0][0] != 0 or True:
            out = []
            for l, n, x in fs:
                if l + n <= k: continue
                if l >= k: out.append((l - k, n, x))
                else:
                    d = defn(x)
                    if d is not None and d[0] == 'zext': y = field(d[1], d[2], k - l, n - (k - l))
                    else: y = field(x, n + 1, k - l, n - (k - l))
                    out.append((0, n - (k - l), y))
            return compose(out, w)
    return term('ashr', (a, k, w), lo, hi, 'shr', lossy(a))

def masked(a, m, w):
    """a & m (constant)"""
    fs = decomp(a, w)
    runs = decomp(sgn(m, w), w)
    out = []
    for l, n, x in fs:
        for l2, n2, _ in runs:
            b = max(l, l2); e = min(l + n, l2 + n2)
            if b < e:
                if b == l and e == l + n: out.append((l, n, x)); continue
                d = defn(x)
                if d is not None and d[0] == 'zext': y = field(d[1], d[2], b - l, e - b)
                else: y = field(x, n + 1, b - l, e - b)
                out.append((b, e - b, y))
    return compose(out, w)

def tight(S, v, w):
    """a value the path keeps small, through a name whose own range is small"""
    if v.__class__ is not Lin or v.c or len(v.t) != 1 or v.t[0][1] != 1: return v
    lo, hi = S.bounds(v)
    if lo < 0: return v
    n = int(hi).bit_length(); s = v.t[0][0]
    if SYM_LO[s] >= 0 and SYM_HI[s].bit_length() <= n or n >= w - 1: return v
    d = SYM_DEF[s]
    if d is not None and d[0] in ('ext', 'cat', 'bswap', 'zext', 'field', 'bits'): return v
    a = term('field', (v, w, 0, n), 0, (1 << n) - 1, 'bits', SYM_LOSSY[s])
    if not S.add_eq(lsub(v, a)): return v
    return S.norm(a)

def bit_op(I, st, o, a, b, w):
    """and/or/xor/shl/lshr/ashr with at least one symbolic operand"""
    S = st.st
    if o in ('shl', 'lshr', 'ashr'):
        lo, hi = S.bounds(b)
        if b.__class__ is Lin and 0 <= lo and hi < w and hi - lo <= 8 and o == 'shl' and a.__class__ is not Lin:
            pass
        M = rng(w)
        if o == 'lshr':
            la, ha = S.bounds(a)
            if la >= 0: M = (0, ha)
        return [(st, S.norm(term(o, (a, b, w), M[0], M[1], o, True)))]
    if a.__class__ is not Lin: a, b = b, a
    if b.__class__ is not Lin:
        a = tight(S, a, w)
        if a.__class__ is not Lin: return [(st, sgn({'and': unsg(a, w) & unsg(b, w), 'or': unsg(a, w) | unsg(b, w), 'xor': unsg(a, w) ^ unsg(b, w)}[o], w))]
        m = unsg(b, w); full = (1 << w) - 1
        if o == 'and':
            if m == 0: return [(st, 0)]
            if m == full: return [(st, a)]
            return [(st, S.norm(masked(a, m, w)))]
        if m == 0: return [(st, a)]
        if o == 'or':
            if m == full: return [(st, -1)]
            rest = decomp(masked(a, full & ~m, w), w)
            return [(st, S.norm(compose(rest + decomp(b, w), w)))]
        return [(st, S.norm(xorn([a], m, w)))]
    if a == b: return [(st, a if o != 'xor' else 0)]
    la, ha = S.bounds(a); lb, hb = S.bounds(b)
    r = rng(w)
    if o == 'and':
        if la >= 0 and lb >= 0: r = (0, min(ha, hb))
        elif la >= 0: r = (0, ha)
        elif lb >= 0: r = (0, hb)
        x, y = sorted((a, b), key=repr)
        return [(st, S.norm(term('and2', (x, y, w), r[0], r[1], 'and', True)))]
    a = tight(S, a, w); b = tight(S, b, w)
    if a.__class__ is not Lin or b.__class__ is not Lin: return bit_op(I, st, o, a, b, w) if a.__class__ is Lin or b.__class__ is Lin else [(st, sgn(unsg(a, w) | unsg(b, w) if o == 'or' else unsg(a, w) ^ unsg(b, w), w))]
    fa = decomp(a, w); fb = decomp(b, w)
    if all(l + n <= l2 or l2 + n2 <= l for l, n, x in fa for l2, n2, y in fb):
        return [(st, S.norm(compose(fa + fb, w)))]
    if la >= 0 and lb >= 0: r = (0, (1 << max(ha.bit_length(), hb.bit_length())) - 1)
    if o == 'xor': return [(st, S.norm(xorn([a, b], 0, w)))]
    x, y = sorted((a, b), key=repr)
    return [(st, S.norm(term('or2', (x, y, w), r[0], r[1], 'or', True)))]

def xorn(vals, c, w):
    ops = []
    def flat(v):
        nonlocal c
        if v.__class__ is not Lin: c ^= unsg(v, w); return
        d = defn(v)
        if d is not None and d[0] == 'xorn' and d[3] == w:
            c ^= d[2]
            for q in d[1]: flat(q)
        elif v in ops: ops.remove(v)
        else: ops.append(v)
    for v in vals: flat(v)
    c &= (1 << w) - 1
    if not ops: return sgn(c, w)
    if len(ops) == 1 and c == 0: return ops[0]
    if len(ops) == 1 and c == (1 << w) - 1: return ladd(lneg(ops[0]), -1)
    ds = [defn(q) for q in ops]
    if all(d is not None and d[0] == 'zext' and d[2] < w for d in ds):
        m = max(d[2] for d in ds)
        if all(d[2] == m for d in ds) and c < (1 << m): return zext(xorn([d[1] for d in ds], c, m), m)
    bs = [rng_of(q) for q in ops]
    for m in (8, 16, 32):
        if m >= w: break
        M = 1 << (m - 1)
        if all(-M <= l and h < M for l, h in bs) and -M <= sgn(c, w) < M: return xorn(ops, sgn(c, w) & ((1 << m) - 1), m)
    ops.sort(key=repr)
    r = rng(w)
    if all(l >= 0 for l, h in bs) and c < (1 << (w - 1)):
        n = max([h.bit_length() for l, h in bs] + [c.bit_length()]); r = (0, min((1 << n) - 1, r[1]))
    elif w > 8:
        n = max(max(h.bit_length(), (-l - 1).bit_length() if l < 0 else 0) for l, h in bs)
        n = max(n, min(c.bit_length(), (((1 << w) - 1) ^ c).bit_length()))
        r = (max(r[0], -(1 << n)), min(r[1], (1 << n) - 1))
    return term('xorn', (tuple(ops), c, w), r[0], r[1], 'xor', any(lossy(q) for q in ops))

def bit(v, k):
    if v.__class__ is not Lin: return ('c', (int(v) >> k) & 1)
    d = defn(v)
    if d is not None and d[0] == 'bits':
        for l, n, x in d[1]:
            if l <= k < l + n:
                if x.__class__ is not Lin: return ('c', (x >> (k - l)) & 1)
                return None
        return ('c', 0)
    return None
