"""Where a literal can and where it must occur in partly known content."""
from state import *
import bitops

def byte_can(S, v, ch):
    """can the byte value v be ch?"""
    if v.__class__ is not Lin: return (int(v) & 255) == ch
    lo, hi = S.bounds(v)
    c = ch - 256 if ch >= 128 else ch
    if not (lo <= c <= hi or lo <= ch <= hi): return False
    d = defn(v)
    if d is None: return True
    if d[0] == 'byt': return ch not in CIDS[d[1]].no and not (CIDS[d[1]].lower and 65 <= ch <= 90)
    if d[0] == 'byr' and d[3] == 1: return any(piece_can(S, p, ch) for p in d[1])
    if d[0] in ('zext', 'ext') and (d[0] == 'zext' and d[2] == 8): return byte_can(S, d[1], ch)
    if d[0] in ('tolower', 'toupper'):
        if d[0] == 'tolower' and 65 <= ch <= 90 or d[0] == 'toupper' and 97 <= ch <= 122: return False
        o = ch - 32 if d[0] == 'tolower' and 97 <= ch <= 122 else ch + 32 if d[0] == 'toupper' and 65 <= ch <= 90 else ch
        return byte_can(S, d[1], ch) or byte_can(S, d[1], o)
    return True
def piece_can(S, p, ch):
    if p[0] == 'L': return ch in p[1]
    if p[0] == 'V':
        if p[1] == 1: return byte_can(S, p[2], ch)
        return True
    c = CIDS[p[1]]
    return ch not in c.no and not (c.lower and 65 <= ch <= 90)
def span(S, p):
    if p[0] == 'L': return len(p[1]), len(p[1])
    if p[0] == 'V': return p[1], p[1]
    lo, hi = S.bounds(p[3])
    return max(lo, 0), hi
def may(S, ps, k, i, nd, whole=False):
    """can nd[i:] occur at the beginning of pieces k.. (whole: be all that follows)"""
    if i == len(nd):
        if not whole: return True
        return all(span(S, p)[0] == 0 for p in ps[k:])
    if k == len(ps): return False
    p = ps[k]
    if p[0] == 'L':
        b = p[1]; m = min(len(b), len(nd) - i)
        if b[:m] != nd[i:i + m]: return False
        if m < len(b): return not whole
        return may(S, ps, k + 1, i + m, nd, whole)
    lo, hi = span(S, p)
    j = 0
    while True:
        if j >= lo and j <= hi and may(S, ps, k + 1, i + j, nd, whole): return True
        if i + j == len(nd): return not whole and j <= hi
        if j >= hi or not piece_can(S, p, nd[i + j]): return False
        j += 1
def can_equal(S, ps, lit):
    return may(S, ps, 0, 0, lit, True)
def must(ps, k, nd):
    """nd certainly occurs at the beginning of pieces k.."""
    b = b''
    while len(b) < len(nd):
        if k == len(ps) or ps[k][0] != 'L': return False
        b += ps[k][1]; k += 1
    return b.startswith(nd)
def find(S, nd, ps):
    """first occurrence: ('at', offset) / ('no',) / ('?', least possible offset, offset of a certain occurrence or None)"""
    ps = list(ps); off = 0; lo0 = None
    for k, p in enumerate(ps):
        if p[0] == 'L':
            for t in range(len(p[1])):
                if p[1][t:t + len(nd)] != nd[:len(p[1]) - t]: continue
                q = [('L', p[1][t:])] + ps[k + 1:]
                if not may(S, q, 0, 0, nd): continue
                if must(q, 0, nd): return ('at', ladd(off, t)) if lo0 is None else ('?', lo0, ladd(off, t))
                if lo0 is None: lo0 = ladd(off, t)
        else:
            lo, hi = span(S, p)
            if hi > 0 and lo0 is None:
                # starting inside p: one or more bytes of nd from p
                j = 1
                while j <= min(hi, len(nd)) and piece_can(S, p, nd[j - 1]):
                    if j == len(nd) or may(S, ps, k + 1, j, nd): lo0 = off; break
                    j += 1
        off = ladd(off, plen(p))
    return ('no',) if lo0 is None else ('?', lo0, None)
def rfind(S, nd, ps):
    """last occurrence"""
    ps = list(ps); offs = []; off = 0
    for p in ps: offs.append(off); off = ladd(off, plen(p))
    for k in range(len(ps) - 1, -1, -1):
        p = ps[k]
        if p[0] == 'L':
            for t in range(len(p[1]) - 1, -1, -1):
                q = [('L', p[1][t:])] + ps[k + 1:]
                if p[1][t:t + len(nd)] == nd[:len(p[1]) - t] and may(S, q, 0, 0, nd):
                    return ('at', ladd(offs[k], t)) if must(q, 0, nd) else ('?',)
        else:
            lo, hi = span(S, p)
            if hi > 0:
                j = 1
                while j <= min(hi, len(nd)) and piece_can(S, p, nd[j - 1]):
                    if j == len(nd) or may(S, ps, k + 1, j, nd): return ('?',)
                    j += 1
    return ('no',)
def find_set(S, chars, ps, neg, last=False):
    """find_first_of / find_first_not_of (neg) / ..._last_... over the whole of ps"""
    ps = list(ps); offs = []; off = 0; lo0 = None
    for p in ps: offs.append(off); off = ladd(off, plen(p))
    for k in (range(len(ps) - 1, -1, -1) if last else range(len(ps))):
        p = ps[k]
        if p[0] == 'L':
            for t in (range(len(p[1]) - 1, -1, -1) if last else range(len(p[1]))):
                if (p[1][t] in chars) != neg: return ('at', ladd(offs[k], t)) if lo0 is None else ('?', lo0, ladd(offs[k], t))
            continue
        lo, hi = span(S, p)
        if hi == 0: continue
        inside = any(piece_can(S, p, c) for c in chars)
        outside = any(piece_can(S, p, c) for c in range(256) if c not in chars)
        hit, miss = (outside, inside) if neg else (inside, outside)
        if not hit: continue
        if not miss and lo > 0:
            x = ladd(offs[k], lsub(plen(p), 1)) if last else offs[k]
            return ('at', x) if lo0 is None else ('?', lo0, x)
        if lo0 is None: lo0 = ladd(offs[k], lsub(plen(p), 1)) if last else offs[k]
    return ('no',) if lo0 is None else ('?', lo0, None)
