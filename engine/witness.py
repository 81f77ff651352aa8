"""Concretisation check: an alarm is raised only when the abstract state has a concrete member.

model(store) looks for an assignment of integers to the symbols that satisfies every constraint of the
store and every definition of a derived symbol.  differ(model, rope, rope) tells whether two contents are
different under it.  No solver: interval-guided choice, exact evaluation, bounded number of attempts."""
import random
from dom import *
from bitops import sgn, unsg
import concrete
from state import CIDS

OPAQUE = object()
def _cls(f): return lambda v: 1 if 0 <= v < 128 and f(chr(v)) else 0
CHAR = {'tolower': lambda v: v + 32 if 65 <= v <= 90 else v, 'toupper': lambda v: v - 32 if 97 <= v <= 122 else v,
        'isalnum': _cls(str.isalnum), 'isalpha': _cls(str.isalpha), 'isdigit': _cls(str.isdigit), 'isspace': _cls(lambda c: c in ' \t\n\r\v\f'),
        'isxdigit': _cls(lambda c: c in '0123456789abcdefABCDEF'), 'isupper': _cls(str.isupper), 'islower': _cls(str.islower),
        'isprint': _cls(lambda c: ' ' <= c <= '~'), 'ispunct': _cls(lambda c: '!' <= c <= '~' and not c.isalnum())}

def flat_args(key):
    """symbols the definition depends on, or None when it is opaque"""
    op = key[0]
    if op in ('ext', 'bswap', 'zext', 'field', 'wrap', 'wrapk', 'div', 'sdivn', 'sremn', 'ashr', 'mul'):
        return [a for a in key[1:] if a.__class__ is Lin] if op != 'mul' else [a for a in key[1:] if a.__class__ is Lin]
    if op in ('cat', 'bits'):
        return [p[-1] for p in key[1] if p[-1].__class__ is Lin]
    if op == 'xorn': return [a for a in key[1] if a.__class__ is Lin]
    if op in CHAR or op == 'declen': return [a for a in key[1:] if a.__class__ is Lin]
    if op == 'byt': return [a for a in key[2:3] if a.__class__ is Lin]
    if op == 'byr':
        out = [key[2]] if key[2].__class__ is Lin else []
        return out + syms_of(key[1])
    return None

def evald(key, g):
    """value of a definition; g evaluates arguments; OPAQUE when free"""
    op = key[0]
    if op == 'ext':
        _, v, w, k, n = key; return sgn(unsg(g(v), w) >> (8 * k), 8 * n)
    if op == 'bswap':
        _, v, n = key; return sgn(int.from_bytes(unsg(g(v), 8 * n).to_bytes(n, 'little'), 'big'), 8 * n)
    if op == 'zext': return unsg(g(key[1]), key[2])
    if op == 'field':
        _, v, w, lo, n = key; return (unsg(g(v), w) >> lo) & ((1 << n) - 1)
    if op == 'cat':
        r = 0; pos = 0
        for L, x in key[1]:
            r |= unsg(g(x), 8 * L) << pos; pos += 8 * L
        return sgn(r, pos)
    if op == 'bits':
        # disjoint unsigned fields that reach up to the top bit: the value is their signed reading
        return sgn(sum(int(g(x)) << l for l, n, x in key[1]), max(l + n for l, n, x in key[1]))
    if op == 'wrap': return sgn(g(key[1]), key[2])
    if op == 'wrapk':
        e = g(key[1]); return (e - sgn(e, key[2])) >> key[2]
    if op == 'div': return g(key[1]) // int(key[2]) if key[2].__class__ is not Lin else OPAQUE
    if op == 'sdivn':
        a = g(key[1]); b = int(key[2]); return -((-a) // b) if a < 0 else a // b
    if op == 'sremn':
        a = g(key[1]); b = int(key[2]); q = -((-a) // b) if a < 0 else a // b
        return a - q * b
    if op == 'ashr' and key[2].__class__ is not Lin: return g(key[1]) >> int(key[2])
    if op == 'mul': return g(key[1]) * g(key[2])
    if op == 'byr':
        pos = g(key[2]); size = key[3]; out = b''
        if pos < 0: return OPAQUE
        for p in key[1]:
            if p[0] == 'L': L = len(p[1])
            elif p[0] == 'V': L = p[1]
            else: L = g(p[3])
            if pos >= L: pos -= L; continue
            t = min(L - pos, size - len(out))
            if p[0] == 'L': out += p[1][pos:pos + t]
            elif p[0] == 'V': out += unsg(g(p[2]), 8 * L).to_bytes(L, 'little')[pos:pos + t]
            else: return OPAQUE      # settled by consistent()
            pos = 0
            if len(out) == size: break
        if len(out) < size: return OPAQUE
        return sgn(int.from_bytes(out, 'little'), 8 * size)
    if op in CHAR: return CHAR[op](g(key[1]))
    if op == 'declen': return len(str(g(key[1])))
    if op == 'xorn':
        r = key[2]
        for x in key[1]: r ^= unsg(g(x), key[3])
        return sgn(r, key[3])
    return OPAQUE

def invert(key, val):
    """(argument, value) pairs that make the definition val, or None"""
    op = key[0]
    if op == 'bswap': return [(key[1], sgn(int.from_bytes(unsg(val, 8 * key[2]).to_bytes(key[2], 'little'), 'big'), 8 * key[2]))]
    if op == 'zext': return [(key[1], sgn(val, key[2]))]
    if op == 'cat':
        out = []; pos = 0; n = sum(L for L, x in key[1]); u = unsg(val, 8 * n)
        for L, x in key[1]:
            out.append((x, sgn(u >> pos, 8 * L))); pos += 8 * L
        return out
    if op == 'wrap': return [(key[1], val)]
    return None

def closure(store, seeds):
    seen = set(); todo = list(seeds)
    while todo:
        s = todo.pop()
        if s in seen: continue
        seen.add(s)
        v = store.sub.get(s)
        if v is not None and v.__class__ is Lin: todo += [x for x, k in v.t]
        d = SYM_DEF[s]
        if d is not None:
            a = flat_args(d)
            if a:
                for q in a: todo += [x for x, k in q.t]
    return seen

def choose(rng, lo, hi, small):
    c = []
    if lo <= 0 <= hi: c.append(0)
    c += [lo, hi]
    for q in (1, 2, 3, 5, 7, 17):
        if lo <= q <= hi: c.append(q)
        if lo + q <= hi: c.append(lo + q)
        if hi - q >= lo: c.append(hi - q)
    for _ in range(3): c.append(rng.randint(lo, hi))
    for q in (8, 16, 31, 40):
        a = max(lo, -(1 << q)); b = min(hi, 1 << q)
        if a <= b: c.append(rng.randint(a, b))
    if small:
        a = max(lo, -9); b = min(hi, 40)
        if a <= b: return rng.randint(a, b) if rng.random() < .8 else rng.choice(c)
        return lo if lo > 0 else hi
    return rng.choice(c)

class Fail(Exception): pass

def attempt(store, order, rng, mode):
    S = store.copy()
    small = mode % 3 == 0
    req = {}
    def val(l):
        v = S.norm(l)
        while v.__class__ is Lin:
            s = v.t[0][0]
            assign(s)
            v = S.norm(l)
        return int(v)
    def assign(s):
        v = S.norm(Lin(0, ((s, 1),)))
        if v.__class__ is not Lin: return
        if v.t[0][0] != s or len(v.t) > 1:
            for x, k in v.t: assign(x)
            return
        q = req.get(s)
        for t in range(4):
            lo, hi = S.sb(s)
            c = choose(rng, lo, hi, small)
            if q is not None: c = sgn((unsg(c, q[0]) & ~q[1]) | q[2], q[0])
            if lo <= c <= hi:
                T = S.copy()
                if T.add_eq(ladd(v, -c)):
                    S.sub, S.b, S.cons, S.ne = T.sub, T.b, T.cons, T.ne
                    return
        raise Fail
    def push(l, w, mask, val, d=None):
        # the bits of l (of the definition d) selected by mask must be val
        if d is not None: s = None
        elif l.__class__ is Lin:
            n = S.norm(l)
            if n.__class__ is not Lin: l = n
        if d is None:
            if l.__class__ is not Lin:
                if (unsg(l, w) ^ val) & mask: raise Fail
                return
            if l.c or len(l.t) != 1 or l.t[0][1] != 1: return
            s = l.t[0][0]; d = SYM_DEF[s]
        o = d[0] if d is not None else None
        if o == 'field': push(d[1], d[2], (mask & ((1 << d[4]) - 1)) << d[3], (val & ((1 << d[4]) - 1)) << d[3])
        elif o == 'ext':
            m = (1 << (8 * d[4])) - 1; push(d[1], d[2], (mask & m) << (8 * d[3]), (val & m) << (8 * d[3]))
        elif o == 'bswap':
            n = d[2]; f = lambda x: int.from_bytes((x & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'), 'big')
            push(d[1], 8 * n, f(mask), f(val))
        elif o == 'zext':
            m = (1 << d[2]) - 1; push(d[1], d[2], mask & m, val & m)
        elif o == 'cat':
            pos = 0
            for L, x in d[1]:
                m = (1 << (8 * L)) - 1
                push(x, 8 * L, (mask >> pos) & m, (val >> pos) & m); pos += 8 * L
        elif o == 'bits':
            for a, n, x in d[1]:
                m = (1 << n) - 1; push(x, n + 1, (mask >> a) & m, (val >> a) & m)
        elif o == 'xorn':
            sy = [q for q in d[1] if S.norm(q).__class__ is Lin]
            c = d[2]
            for q in d[1]:
                if q not in sy: c ^= unsg(S.norm(q), d[3])
            if len(sy) == 1: push(sy[0], d[3], mask, (val ^ c) & mask)
        else:
            have = req.get(s)
            if have is not None:
                if have[0] != w: return
                if (have[2] ^ val) & have[1] & mask: raise Fail
                req[s] = (w, have[1] | mask, have[2] | (val & mask))
            else: req[s] = (w, mask, val & mask)
    WIDTH = {'field': lambda d: d[4] + 1, 'ext': lambda d: 8 * d[4], 'bswap': lambda d: 8 * d[2], 'zext': lambda d: d[2] + 1, 'cat': lambda d: 8 * sum(L for L, x in d[1]), 'xorn': lambda d: d[3],
             'bits': lambda d: 1 + max(a + n for a, n, x in d[1])}
    def define(s, d):
        r = evald(d, val)
        if r is OPAQUE: assign(s); return
        if not S.add_eq(ladd(Lin(0, ((s, 1),)), -r)): raise Fail
    if mode % 2:
        # from the derived symbols back to what they are made of
        for s in reversed(order):
            d = SYM_DEF[s]
            if d is None or rng.random() < .3: continue
            if d[0] in ('bswap', 'zext', 'cat', 'wrap'):
                assign(s)
                r = int(S.norm(Lin(0, ((s, 1),))))
                for a, x in invert(d, r):
                    if not S.add_eq(lsub(a, x)): raise Fail
    # bits of the values everything is made of, as far as derived values are fixed (or chosen first)
    for s in reversed(order):
        d = SYM_DEF[s]
        if d is None or d[0] not in WIDTH: continue
        v = S.norm(Lin(0, ((s, 1),)))
        if v.__class__ is Lin:
            if mode % 4 < 2 or v.t[0][0] != s or len(v.t) > 1: continue
            if rng.random() < .4: continue
            assign(s)
            v = S.norm(Lin(0, ((s, 1),)))
            if v.__class__ is Lin: continue
        w = WIDTH[d[0]](d)
        push(None, w, (1 << w) - 1, unsg(v, w), d)
    for s in order:
        d = SYM_DEF[s]
        if d is None or flat_args(d) is None: assign(s)
        else: define(s, d)
    m = {}
    for s in order:
        v = S.norm(Lin(0, ((s, 1),)))
        if v.__class__ is Lin: raise Fail
        m[s] = int(v)
    # every definition and constraint once more, exactly
    def g(l):
        if l.__class__ is not Lin: return int(l)
        return l.c + sum(k * m[x] for x, k in l.t)
    for s in order:
        d = SYM_DEF[s]
        if d is not None and flat_args(d) is not None:
            r = evald(d, g)
            if r is not OPAQUE and r != m[s]: raise Fail
        v = store.sub.get(s)
        if v is not None and g(v) != m[s]: raise Fail
    consistent(order, m, g)
    for c in store.cons:
        if all(x in m for x, k in c.t) and g(c) < 0: raise Fail
    for c in store.ne:
        if all(x in m for x, k in c.t) and g(c) == 0: raise Fail
    return m

def consistent(order, m, g):
    """the same byte of the same content must not have two values"""
    known = {}
    def see(cid, o, b):
        if known.setdefault((cid, o), b) != b or b in CIDS[cid].no or CIDS[cid].lower and 65 <= b <= 90: raise Fail
    for s in order:
        d = SYM_DEF[s]
        if d is None: continue
        if d[0] == 'byt':
            o = g(d[2])
            for i, b in enumerate(unsg(m[s], 8 * d[3]).to_bytes(d[3], 'little')): see(d[1], o + i, b)
        elif d[0] == 'byr':
            pos = g(d[2]); bs = unsg(m[s], 8 * d[3]).to_bytes(d[3], 'little'); i = 0
            for p in d[1]:
                if p[0] == 'L': L = len(p[1])
                elif p[0] == 'V': L = p[1]
                else: L = g(p[3])
                if pos >= L: pos -= L; continue
                while pos < L and i < len(bs):
                    if p[0] == 'L': 
                        if p[1][pos] != bs[i]: raise Fail
                    elif p[0] == 'V':
                        if unsg(g(p[2]), 8 * L).to_bytes(L, 'little')[pos] != bs[i]: raise Fail
                    else: see(p[1], g(p[2]) + pos, bs[i])
                    pos += 1; i += 1
                pos = 0
                if i >= len(bs): break
def cids_of(syms):
    """symbols by the unknown content they are read from"""
    by = {}
    for s in syms:
        d = SYM_DEF[s]
        if d is None: continue
        if d[0] == 'byt': by.setdefault(d[1], []).append(s)
        elif d[0] == 'byr':
            for p in d[1]:
                if p[0] == 'S': by.setdefault(p[1], []).append(s)
    return by
def groups(store, seeds):
    """symbols to assign, split into independent groups"""
    syms = closure(store, seeds)
    # symbols related by constraints
    ch = True
    cons = list(store.cons) + list(store.ne)
    while ch:
        ch = False; rest = []
        for c in cons:
            if any(x in syms for x, k in c.t):
                n = closure(store, [x for x, k in c.t])
                if not n <= syms: syms |= n
                ch = True
            else: rest.append(c)
        cons = rest
        # solved symbols defined over ours
        for s, v in store.sub.items():
            if s in syms: continue
            if v.__class__ is Lin and any(x in syms for x, k in v.t) and (SYM_DEF[s] is None or flat_args(SYM_DEF[s]) is not None):
                syms |= closure(store, [s]); ch = True
            elif v.__class__ is not Lin and SYM_DEF[s] is not None:
                a = flat_args(SYM_DEF[s])
                if a and any(x in syms for q in a for x, k in q.t): syms |= closure(store, [s]); ch = True
    par = {s: s for s in syms}
    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]; x = par[x]
        return x
    def join(xs):
        xs = [find(x) for x in xs if x in par]
        for x in xs[1:]: par[find(x)] = find(xs[0])
    for c in list(store.cons) + list(store.ne): join([x for x, k in c.t])
    for c in cids_of(syms).values(): join(c)
    for s in syms:
        v = store.sub.get(s)
        if v is not None and v.__class__ is Lin: join([s] + [x for x, k in v.t])
        d = SYM_DEF[s]
        if d is not None:
            a = flat_args(d)
            if a: join([s] + [x for q in a for x, k in q.t])
    gs = {}
    for s in syms: gs.setdefault(find(s), []).append(s)
    return [sorted(g) for g in gs.values()]

def all_seeds(store):
    seeds = set()
    for c in list(store.cons) + list(store.ne): seeds.update(x for x, k in c.t)
    seeds.update(store.b)
    for s, v in store.sub.items():
        if SYM_DEF[s] is not None and flat_args(SYM_DEF[s]) is not None: seeds.add(s)
    return seeds

def derived(d):
    """does a term read a content that is computed from another one?"""
    if d[0] == 'byt': return CIDS[d[1]].d is not None
    return any(p[0] == 'S' and CIDS[p[1]].d is not None for r in concrete.rope_args(d) for p in r)
class Model(dict):
    real = None
def model(store, extra=(), tries=40, mode0=0, modes=16):
    """assignment for every symbol the store or extra mentions, or None.  When operations on contents are involved,
    m.real holds contents under which they have the results the state assumes."""
    ex = set()
    for l in extra:
        if l.__class__ is Lin: ex.update(x for x, k in l.t)
    terms = concrete.text_terms(store, concrete.all_terms(store, ex) | closure(store, all_seeds(store) | ex))
    if not any(SYM_DEF[s][0] in concrete.TEXT or derived(SYM_DEF[s]) for s in terms): return numbers(store, extra, tries, mode0)
    need = set(terms)
    todo = list(terms)
    while todo:
        for x in closure(store, concrete.deps(todo.pop())):
            if x in need: continue
            need.add(x); ex.add(x)
            d = SYM_DEF[x]
            if d is not None and d[0] in concrete.OPS: terms.add(x); todo.append(x)
    extra = list(extra) + [Lin(0, ((x, 1),)) for x in need | ex]
    for mode in range(modes):
        m = numbers(store, extra, tries if mode == 0 else min(tries, 12), mode0 * modes + mode)
        if m is None:
            if mode == 0: return None
            continue
        r = concrete.realise(store, m, terms)
        if r is not None:
            m = Model(m); m.real = r; return m
    return None
def numbers(store, extra=(), tries=40, mode0=0):
    seeds = all_seeds(store)
    for l in extra:
        if l.__class__ is Lin: seeds.update(x for x, k in l.t)
    m = {}
    for g in groups(store, seeds):
        for t in range(tries):
            rng = random.Random(t * 7919 + len(g) + mode0 * 101)
            try:
                m.update(attempt(store, g, rng, t + mode0)); break
            except Fail: continue
        else: return None
    return m

def value(store, m, l):
    l = store.norm(l)
    if l.__class__ is not Lin: return int(l)
    return l.c + sum(k * m[x] for x, k in l.t)

def differ(store, m, r1, r2, CIDS):
    """are the two contents different under the assignment?  True / False"""
    if m.__class__ is Model:
        try: return m.real.text(r1) != m.real.text(r2)
        except concrete.No: return False
    known = {}
    for key, s in DEFS.items():
        if key[0] == 'byt':
            try:
                v = store.norm(Lin(0, ((s, 1),)))
                b = int(v) if v.__class__ is not Lin else (m[s] if s in m else None)
                if b is None: continue
                pos = value(store, m, key[2])
                n = key[3]; u = unsg(b, 8 * n)
                for i in range(n): known[(key[1], pos + i)] = (u >> (8 * i)) & 255
            except KeyError: continue
    def flat(r):
        out = []; pos = 0
        for p in r:
            if p[0] == 'L': out.append((pos, len(p[1]), 'B', p[1], 0)); pos += len(p[1])
            elif p[0] == 'V':
                b = unsg(value(store, m, p[2]), 8 * p[1]).to_bytes(p[1], 'little')
                out.append((pos, p[1], 'B', b, 0)); pos += p[1]
            else:
                n = value(store, m, p[3]); o = value(store, m, p[2])
                if n > 0: out.append((pos, n, 'S', p[1], o)); pos += n
        return out, pos
    a, n1 = flat(r1); b, n2 = flat(r2)
    if n1 != n2: return True
    i = j = 0; pos = 0
    while i < len(a) and j < len(b):
        p = a[i]; q = b[j]
        e = min(p[0] + p[1], q[0] + q[1])
        if e > pos:
            x = pos - p[0]; y = pos - q[0]; L = e - pos
            if p[2] == 'B' and q[2] == 'B':
                if p[3][x:x + L] != q[3][y:y + L]: return True
            elif p[2] == 'S' and q[2] == 'S':
                if p[3] != q[3] or p[4] + x != q[4] + y: return True
            else:
                if p[2] == 'B': p2, x2, q2, y2 = p, x, q, y
                else: p2, x2, q2, y2 = q, y, p, x
                for t in range(L):
                    if known.get((q2[3], q2[4] + y2 + t)) != p2[3][x2 + t]: return True
        pos = e
        if p[0] + p[1] == e: i += 1
        if q[0] + q[1] == e: j += 1
    return False

def syms_of(r):
    out = []
    for p in r:
        if p[0] == 'V': out.append(p[2])
        elif p[0] == 'S': out += [p[2], p[3]]
    return [x for x in out if x.__class__ is Lin]

def ropes_differ(store, r1, r2, CIDS):
    """a member of the state under which the contents differ exists (exactly evaluated)"""
    x = set(); concrete.rope_syms(r1, x); concrete.rope_syms(r2, x)
    ex = [Lin(0, ((s, 1),)) for s in x]
    found = False
    for mode in range(8):
        try: m = model(store, ex, tries=24, mode0=mode)
        except RecursionError: return False
        if m is None: continue
        try:
            if differ(store, m, r1, r2, CIDS): return True
        except KeyError: continue
    return False
