"""Subsumption and join of abstract states at loop heads (and at crowded merge points).

Symbols, contents and regions created since the function was entered (>= the watermarks) are
existentially quantified in a recorded state; older ones keep their identity.
"""
import match
from fractions import Fraction
from state import *

STAT = {'join': 0, 'sub': 0, 'subok': 0}

class NoMatch(Exception): pass

class Walk:
    """parallel traversal of two states"""
    def __init__(self, e1, s1, e2, s2, lv, wm):
        self.e1 = e1; self.s1 = s1; self.e2 = e2; self.s2 = s2; self.lv = lv
        self.wm, self.rwm, self.cwm = wm
        self.rho = {0: 0}; self.inv = {0: 0}
        self.todo = []
    def pair(self, a, b):
        """relate region a of state 1 with region b of state 2; False when impossible"""
        x = self.rho.get(a)
        if x is not None: return x == b
        if a < 0 or b < 0:
            if a >= 0 or b >= 0: return False
            (r1, o1), (r2, o2) = SD[a], SD[b]
            if not self.pair(r1, r2): return False
            if o1 != o2 and self.s1.st.norm(o1) != self.s2.st.norm(o2): return False
            self.rho[a] = b; self.inv[b] = a
            return True
        if b in self.inv: return False
        if (a <= self.rwm or b <= self.rwm) and a != b: return False
        self.rho[a] = b; self.inv[b] = a
        self.todo.append((a, b))
        return True

def match_ptr(W, p, q):
    return p.__class__ is Ptr and q.__class__ is Ptr and W.pair(p.b, q.b)

# ------------------------------------------------------------------------------- subsumption
def subsumes(I, e1, s1, e2, s2, lv, wm):
    STAT['sub'] += 1
    if s1.lossy and not s2.lossy: return False
    W = Walk(e1, s1, e2, s2, lv, wm)
    W.eqs = []; W.kappa = {}
    try:
        if len(s1.exc) != len(s2.exc) or s1.facts != s2.facts: return False
        for x in lv: sub_val(W, e1[x], e2[x])
        for (t1, p1), (t2, p2) in zip(s1.exc, s2.exc):
            if t1 != t2: return False
            sub_val(W, p1, p2)
        for b in s1.regs:
            if b <= W.rwm:
                if b in s2.regs:
                    if s1.regs[b] is s2.regs[b] or W.pair(b, b): continue
                    return False
                elif b in I.globals: continue
                else: return False
        while W.todo:
            a, b = W.todo.pop()
            r1 = s1.regs.get(a); r2 = s2.regs.get(b)
            if r1 is None or r2 is None:
                if r1 is None and r2 is None: continue
                if a in I.globals: continue
                return False
            if r1 is r2 and not any_exist(W, r1): continue
            sub_reg(W, r1, r2)
        ok = solve_sub(W)
        if ok: STAT['subok'] += 1
        return ok
    except NoMatch:
        return False

def any_exist(W, r):
    # identical region objects: values mention the same symbols; existential ones must be mapped to themselves
    for o, (s, v) in r.cells.items():
        c = v.__class__
        if c is Lit or c is int or c is FnP: continue
        return True
    return r.size.__class__ is Lin

def sub_int(W, a, b):
    if a.__class__ is not Lin and b.__class__ is not Lin:
        if a != b: raise NoMatch()
        return
    W.eqs.append((W.s1.st.norm(a), W.s2.st.norm(b)))

def sub_val(W, a, b):
    if a is UNK: return
    ca = a.__class__; cb = b.__class__
    if ca in (int, Lit, Lin):
        if cb not in (int, Lit, Lin): raise NoMatch()
        sub_int(W, a, b); return
    if ca is Ptr:
        if not match_ptr(W, a, b): raise NoMatch()
        sub_int(W, a.o, b.o); return
    if ca is StrVal:
        if cb is not StrVal: raise NoMatch()
        sub_int(W, a.n, b.n); sub_rope(W, a.r, b.r); return
    if ca is Bytes:
        if cb is not Bytes: raise NoMatch()
        sub_rope(W, a.r, b.r); return
    if ca is Agg:
        if cb is not Agg or len(a.v) != len(b.v): raise NoMatch()
        for x, y in zip(a.v, b.v): sub_val(W, x, y)
        return
    if ca is MapVal:
        if cb is not MapVal or len(a.e) != len(b.e) or a.more < b.more or not a.absent <= b.absent: raise NoMatch()
        for (k1, r1), (k2, r2) in zip(a.e, b.e):
            sub_rope(W, k1, k2) if k1.__class__ is tuple else sub_val(W, k1, k2)
            if not W.pair(r1, r2): raise NoMatch()
        return
    if ca is StreamVal:
        if cb is not StreamVal: raise NoMatch()
        sub_rope(W, a.rem, b.rem); sub_val(W, a.cnt, b.cnt); return
    if ca is Cond:
        if cb is Cond and (a.lossy or (a.pos == b.pos and a.neg == b.neg)): return
        raise NoMatch()
    if a is b or a == b: return
    raise NoMatch()

COARSE = frozenset((10, 13, 0, 32, 58))
ALL = frozenset(range(256))
def ropes_no(S, r):
    """the characters that do not occur in the pieces"""
    out = ALL
    for p in r:
        if p[0] == 'S': out = out & CIDS[p[1]].no
        elif p[0] == 'L': out = out - frozenset(p[1])
        elif p[1] == 1: out = frozenset(ch for ch in out if not match.byte_can(S, p[2], ch))
        else: return frozenset()
    return out
def sub_rope(W, r1, r2):
    if r1 == r2:
        for p in r1:
            if p[0] == 'V': sub_int(W, p[2], p[2])
            elif p[0] == 'S':
                if p[1] >= W.cwm:
                    if W.kappa.setdefault(p[1], p[1]) != p[1]: raise NoMatch()
                sub_int(W, p[2], p[2]); sub_int(W, p[3], p[3])
        return
    n1 = len(r1)
    for i, p in enumerate(r1):
        if i == n1 - 1 and p[0] == 'S' and p[1] >= W.cwm and p[1] not in W.kappa and CIDS[p[1]].lossy and CIDS[p[1]].d is None:
            # an arbitrary tail: covers any remaining content with the same character restrictions
            rest = r2[i:]
            c = CIDS[p[1]]
            if c.lower and not rope_lower(rest): raise NoMatch()
            if not c.no <= ropes_no(W.s2.st, rest): raise NoMatch()
            if len(rest) == 1 and rest[0][0] == 'S': W.kappa[p[1]] = rest[0][1]
            else: W.kappa[p[1]] = ('rest', rest)
            sub_int(W, p[3], rope_len(rest))
            return
        if i >= len(r2): raise NoMatch()
        q = r2[i]
        if p[0] != q[0]: raise NoMatch()
        if p[0] == 'L':
            if p != q: raise NoMatch()
        elif p[0] == 'V':
            if p[1] != q[1]: raise NoMatch()
            sub_int(W, p[2], q[2])
        else:
            if p[1] < W.cwm:
                if p[1] != q[1]: raise NoMatch()
            else:
                k = W.kappa.get(p[1])
                if k is None:
                    c = CIDS[p[1]]; d = CIDS[q[1]]
                    if p[1] != q[1]:
                        if c.d is not None and not c.lossy: raise NoMatch()
                        if c.lower and not d.lower: raise NoMatch()
                        if not c.no <= d.no: raise NoMatch()
                    W.kappa[p[1]] = q[1]
                elif k != q[1]: raise NoMatch()
            sub_int(W, p[2], q[2]); sub_int(W, p[3], q[3])
    if len(r2) != n1: raise NoMatch()

def sub_reg(W, r1, r2):
    if r1.alive != r2.alive: raise NoMatch()
    if not r1.alive: return
    sub_int(W, r1.size, r2.size)
    c1 = r1.cells; c2 = r2.cells
    if r1.ro: return
    if r1.fill != r2.fill and r1.fill not in ('lossy',):
        if not (r1.fill == 'unk' and r2.fill == 'zero'): raise NoMatch()
    k2 = set(c2)
    for o, (s, v) in c1.items():
        x = c2.get(o)
        if x is None:
            if v is UNK: continue
            raise NoMatch()
        k2.discard(o)
        if x[0] != s:
            if s.__class__ is Lin or x[0].__class__ is Lin: sub_int(W, s, x[0])
            else: raise NoMatch()
        sub_val(W, v, x[1])
        if o.__class__ is Lin: sub_int(W, o, o)
    if k2 and r1.fill not in ('lossy', 'unk'): raise NoMatch()

def sig(v, sg):
    """apply a substitution to a value"""
    if v.__class__ is not Lin: return v
    r = v.c
    for s, k in v.t:
        x = sg.get(s)
        r = ladd(r, lscale(x if x is not None else Lin(0, ((s, 1),)), k))
    return r

def solve_sub(W):
    S1 = W.s1.st; S2 = W.s2.st
    wm = W.wm
    sg = {}
    pend = W.eqs
    prog = True
    while prog and pend:
        prog = False
        rest = []
        for a, b in pend:
            if a.__class__ is Lin:
                un = [(s, k) for s, k in a.t if s >= wm and s not in sg]
            else: un = []
            if not un:
                d = S2.norm(lsub(sig(a, sg), b))
                if d.__class__ is not Lin:
                    if d != 0: return False
                elif S2.decide_eq(d) is not True: return False
                prog = True
            elif len(un) == 1 and abs(un[0][1]) == 1:
                s, k = un[0]
                r = lsub(b, sig(ladd(a, Lin(0, ((s, -k),))), sg))
                sg[s] = S2.norm(lscale(r, k)); prog = True
            else: rest.append((a, b))
        pend = rest
    if pend:
        for a, b in pend:
            for s, k in a.t:
                if s >= wm and s not in sg: sg[s] = Lin(0, ((s, 1),))
            if S2.decide_eq(lsub(sig(a, sg), b)) is not True: return False
    for s, (lo, hi) in S1.b.items():
        v = S2.norm(sg.get(s, Lin(0, ((s, 1),))))
        if s >= wm and s not in sg: continue
        l, h = S2.bounds(v)
        if l < lo and not S2.prove(ladd(v, -lo)): return False
        if h > hi and not S2.prove(lsub(hi, v)): return False
    for s, x in sg.items():
        if s in S1.b: continue
        l, h = S2.bounds(x)
        if l < SYM_LO[s] and not S2.prove(ladd(x, -SYM_LO[s])): return False
        if h > SYM_HI[s] and not S2.prove(lsub(SYM_HI[s], x)): return False
    for c in S1.cons:
        if not S2.prove(sig(c, sg)): return False
    for c in S1.ne:
        if S2.decide_eq(sig(c, sg)) is not False: return False
    for s, v in S1.sub.items():
        if s < wm and s not in S2.sub or s < wm and S2.sub[s] != v:
            if S2.decide_eq(lsub(Lin(0, ((s, 1),)), sig(S1.norm(v), sg))) is not True: return False
    return True

# ------------------------------------------------------------------------------- join
class J:
    pass

def join(I, e1, s1, e2, s2, lv, wm, n):
    STAT['join'] += 1
    W = Walk(e1, s1, e2, s2, lv, wm)
    W.pairs = {}       # (va, vb) -> symbol
    W.vars = []        # (sym, va, vb)
    W.cpairs = {}
    W.shared = []
    W.round = n; W.fine = I.opts.get('fine', 4)
    env = [None] * len(e1)
    for x in lv: env[x] = jval(W, e1[x], e2[x])
    R = s1.copy()
    R.lossy = s1.lossy or s2.lossy
    R.why = s1.why or s2.why
    exc = []
    for (t1, p1), (t2, p2) in zip(s1.exc, s2.exc): exc.append((t1, jval(W, p1, p2)))
    R.exc = tuple(exc)
    for b in list(s1.regs):
        if b <= W.rwm and b in s2.regs:
            if s1.regs[b] is s2.regs[b] and not any_exist(W, s1.regs[b]): continue
            W.pair(b, b)
    while W.todo:
        a, b = W.todo.pop()
        r1 = s1.regs.get(a); r2 = s2.regs.get(b)
        if r1 is None or r2 is None: continue
        if r1 is r2 and not any_exist(W, r1): continue
        jreg(W, R, a, r1, r2)
    for b in list(R.regs):
        if b > W.rwm and b not in W.rho and b not in s2.regs: del R.regs[b]
    jstore(W, R, n)
    return env, R

def jint(W, a, b, stride=False):
    a = W.s1.st.norm(a); b = W.s2.st.norm(b)
    if a.__class__ is not Lin and b.__class__ is not Lin and a == b: return a
    if a == b:
        if a.__class__ is Lin: W.shared.append(a)
        return a
    k = (a, b)
    s = W.pairs.get(k)
    if s is None:
        lo1, hi1 = W.s1.st.bounds(a); lo2, hi2 = W.s2.st.bounds(b)
        M = 1 << 64
        s = new_sym(-M, M, 'j', True)
        W.pairs[k] = s
        W.vars.append((s, a, b))
    return Lin(0, ((s, 1),))

def jval(W, a, b):
    ca = a.__class__; cb = b.__class__
    if a is UNK or b is UNK: return UNK
    if ca in (int, Lit, Lin):
        if cb in (int, Lit, Lin):
            if ca is Lit and cb is Lit and a == b: return a
            return jint(W, a, b)
        return UNK
    if ca is Ptr:
        if cb is Ptr and W.pair(a.b, b.b):
            return Ptr(a.b, jint(W, a.o, b.o))
        return UNK
    if ca is not cb:
        return UNK
    if ca is StrVal:
        n = jint(W, a.n, b.n)
        return StrVal(jrope(W, a.r, b.r, n), n)
    if ca is Bytes:
        return Bytes(jrope(W, a.r, b.r, jint(W, rope_len(a.r), rope_len(b.r))))
    if ca is Agg:
        if len(a.v) != len(b.v): return UNK
        return Agg([jval(W, x, y) for x, y in zip(a.v, b.v)])
    if ca is Cond:
        if a.pos == b.pos and a.neg == b.neg and not a.lossy: return a
        return lossy_cond()
    if ca is MapVal:
        return jmap(W, a, b)
    if ca is StreamVal:
        return StreamVal(jrope(W, a.rem, b.rem, jint(W, rope_len(a.rem), rope_len(b.rem))), jval(W, a.cnt, b.cnt))
    if a is b or a == b: return a
    return UNK

def jcid(W, c, d):
    if c == d: return c
    k = (c, d)
    x = W.cpairs.get(k)
    if x is None:
        a = CIDS[c]; b = CIDS[d]
        x = W.cpairs[k] = new_cid('join', lossy=True, lower=a.lower and b.lower, no=a.no & b.no, base=True)
    return x

def jrope(W, r1, r2, n):
    if r1 == r2:
        for p in r1:
            if p[0] == 'V' and p[2].__class__ is Lin: W.shared.append(W.s1.st.norm(p[2]))
        return r1
    if len(r1) == len(r2) and all(p[0] == q[0] and (p[0] != 'L' or p == q) and (p[0] != 'V' or p[1] == q[1]) for p, q in zip(r1, r2)):
        out = []
        for p, q in zip(r1, r2):
            if p[0] == 'L': out.append(p)
            elif p[0] == 'V': out.append(('V', p[1], jint(W, p[2], q[2])))
            else: out.append(('S', jcid(W, p[1], q[1]), jint(W, p[2], q[2]), jint(W, p[3], q[3])))
        return tuple(out)
    i = 0
    pre = []
    while i < len(r1) and i < len(r2) and r1[i] == r2[i]:
        pre.append(r1[i]); i += 1
    a = list(r1[i:]); b = list(r2[i:])
    if a and b and a[0][0] == 'L' and b[0][0] == 'L':
        k = 0
        while k < len(a[0][1]) and k < len(b[0][1]) and a[0][1][k] == b[0][1][k]: k += 1
        if k:
            pre.append(('L', a[0][1][:k])); a[0] = ('L', a[0][1][k:]); b[0] = ('L', b[0][1][k:])
    low = rope_lower(tuple(a)) and rope_lower(tuple(b))
    no = ropes_no(W.s1.st, a) & ropes_no(W.s2.st, b)
    if W.round >= W.fine: no = no & COARSE
    cid = new_cid('join', lossy=True, lower=low, no=no, base=True)
    return tuple(pre) + (('S', cid, 0, lsub(n, rope_len(tuple(pre)))),)

def jmap(W, a, b):
    e = []; more = max(a.more, b.more)
    bi = dict((k, r) for k, r in b.e) if all(k.__class__ in (tuple, int, Lit) for k, r in b.e) else {}
    for k, r in a.e:
        r2 = bi.get(k)
        if r2 is not None and W.pair(r, r2): e.append((k, r))
        else: more = 2
    if len(e) != len(b.e): more = 2
    return MapVal(tuple(e), a.absent & b.absent, more, a.kind)

def jreg(W, R, a, r1, r2):
    r = R.wr(a)
    if r1.alive != r2.alive:
        r.alive = True; r.fill = 'lossy'; r.cells = {}; return
    r.size = jint(W, r1.size, r2.size)
    if r1.ro: return
    c1 = r1.cells; c2 = r2.cells
    cells = {}
    f1 = r1.fill; f2 = r2.fill
    fill = f1 if f1 == f2 else 'lossy'
    drop = False
    def cellval(rr, o, s):
        if rr.fill == 'zero' and o.__class__ is not Lin and rr.ver == 0:
            for o2, (s2, v2) in rr.cells.items():
                if o2.__class__ is Lin or s2.__class__ is Lin: return None
                if o2 < o + s and o2 + s2 > o: return None
            return 0
        return None
    for o, (s, v) in c1.items():
        x = c2.get(o)
        if x is None:
            if o.__class__ is not Lin and s.__class__ is not Lin:
                z = cellval(r2, o, s)
                if z == 0 and v.__class__ in (int, Lit, Lin): cells[o] = (s, jval(W, v, 0)); continue
                if z == 0 and v is NULL: cells[o] = (s, v); continue
                cells[o] = (s, UNK)
            else: drop = True
            continue
        if x[0] != s:
            if v.__class__ is Bytes and x[1].__class__ is Bytes:
                nn = jint(W, s, x[0])
                cells[o] = (nn, jval(W, v, x[1]))
                r.ver = 1
            elif s.__class__ is not Lin and x[0].__class__ is not Lin: cells[o] = (max(s, x[0]), UNK)
            else: drop = True
            continue
        if o.__class__ is Lin and W.s1.st.norm(o) != W.s2.st.norm(o): drop = True; continue
        cells[o] = (s, jval(W, v, x[1]))
    for o, (s, v) in c2.items():
        if o in c1: continue
        if o.__class__ is not Lin and s.__class__ is not Lin:
            z = cellval(r1, o, s)
            if z == 0 and v.__class__ in (int, Lit, Lin): cells[o] = (s, jval(W, 0, v)); continue
            if z == 0 and v is NULL: cells[o] = (s, v); continue
            # do not overlap other cells
            if any(o2.__class__ is not Lin and s2.__class__ is not Lin and o2 < o + s and o2 + s2 > o for o2, (s2, _) in cells.items()):
                drop = True; continue
            cells[o] = (s, UNK)
        else: drop = True
    # overlapping cells (different layouts): keep the wider as unknown
    ks = sorted(o for o in cells if o.__class__ is not Lin and cells[o][0].__class__ is not Lin)
    for i in range(len(ks) - 1):
        o = ks[i]
        if o in cells and o + cells[o][0] > ks[i + 1]:
            del cells[ks[i + 1]]; cells[o] = (cells[o][0], UNK); drop = True
    r.cells = cells
    r.ver = 1 if (r1.ver or r2.ver or r.ver) else 0
    r.fill = 'lossy' if drop else fill

BIG = 1 << 64
def jstore(W, R, n):
    S1 = W.s1.st; S2 = W.s2.st
    T = Store()
    lossyset = set(S1.lossy | S2.lossy)
    T.lossy = frozenset(lossyset)
    # equalities known in both: keep identical substitutions; the rest become variables
    vars_ = list(W.vars)
    sub1 = S1.sub; sub2 = S2.sub
    for s in set(sub1) | set(sub2):
        a = sub1.get(s); b = sub2.get(s)
        S = Lin(0, ((s, 1),))
        na = S1.norm(S); nb = S2.norm(S)
        if na == nb:
            T.sub[s] = na
        elif s < W.wm or SYM_DEF[s] is not None:
            vars_.append((s, na, nb)); lossyset.add(s)
    # make the kept substitutions consistent (no substituted symbol on a right-hand side)
    for s in list(T.sub):
        v = T.sub[s]
        if v.__class__ is Lin and any(x in T.sub for x, k in v.t): T.sub[s] = T.norm(v)
    # bounds
    for s in set(S1.b) & set(S2.b):
        if s in T.sub: continue
        l1, h1 = S1.b[s]; l2, h2 = S2.b[s]
        l, h = min(l1, l2), max(h1, h2)
        if (l, h) != (SYM_LO[s], SYM_HI[s]): T.b[s] = (l, h)
        if (l1, h1) != (l2, h2): lossyset.add(s)
    for s in set(S1.b) ^ set(S2.b): lossyset.add(s)
    newvars = []
    for s, a, b in vars_:
        l1, h1 = S1.bounds(a); l2, h2 = S2.bounds(b)
        l, h = min(l1, l2), max(h1, h2)
        if n >= 2:
            if l2 < l1: l = 0 if l2 >= 0 else (-(1 << 63) if l2 >= -(1 << 63) else -BIG)
            if h2 > h1: h = (1 << 31) - 1 if h2 < (1 << 31) and n < 4 else ((1 << 63) - 1 if h2 < (1 << 63) else BIG)
        l = max(l, SYM_LO[s]); h = min(h, SYM_HI[s])
        T.b[s] = (l, h)
        newvars.append((s, a, b))
    R.st = T
    T.lossy = frozenset(lossyset)
    # affine equalities
    affine(T, newvars, W, n)
    # inequalities
    cand = {}
    rep1 = {}; rep2 = {}
    for s, a, b in newvars:
        for rep, v in ((rep1, a), (rep2, b)):
            if v.__class__ is Lin and len(v.t) == 1 and abs(v.t[0][1]) == 1:
                t, k = v.t[0]
                rep.setdefault(t, []).append(lscale(ladd(Lin(0, ((s, 1),)), -v.c), k))
    m1 = {s: a for s, a, b in newvars}; m2 = {s: b for s, a, b in newvars}
    def valid(c):
        return S1.prove(sig(c, m1)) and S2.prove(sig(c, m2))
    budget = [400]
    def addc(c):
        if c.__class__ is not Lin: return
        c2 = T.norm(c)
        if c2.__class__ is not Lin or c2 in cand: return
        budget[0] -= 1
        if budget[0] < 0: return
        cand[c2] = None
        if T.bounds(c2)[0] >= 0: return
        if valid(c): T.add_ge(c)
    for src, rep in ((S1, rep1), (S2, rep2)):
        for c in list(src.cons):
            addc(c)
            alts = [c]
            for s, k in c.t:
                if s in rep:
                    nxt = []
                    for q in alts:
                        nxt.append(q)
                        for r in rep[s][:3]:
                            d = dict(q.t) if q.__class__ is Lin else {}
                            if s in d: nxt.append(ladd(ladd(q, Lin(0, ((s, -d[s]),))), lscale(r, d[s])))
                    alts = nxt[:12]
            for q in alts[1:]: addc(q)
        for s, (lo, hi) in list(src.b.items()):
            for r in rep.get(s, ())[:2]:
                if lo > -(1 << 60): addc(ladd(r, -lo)) if n < 2 else None
                if hi < (1 << 60): addc(lsub(hi, r)) if n < 2 else None
    if n < 3:
        # templates: new variables against each other and against the values they live with
        sh = []
        for v in W.shared:
            if v not in sh: sh.append(v)
            if len(sh) >= 12: break
        V = [Lin(0, ((s, 1),)) for s, a, b in newvars if s >= W.wm][:10]
        for i, x in enumerate(V):
            for y in V[:i]:
                addc(lsub(x, y)); addc(lsub(y, x))
            for y in sh:
                addc(lsub(y, x)); addc(lsub(x, y))
    for c in S1.ne:
        if S2.decide_eq(sig(c, m2)) is False: T.ne[T.norm(c)] = None if T.norm(c).__class__ is Lin else None
    for c in list(T.ne):
        if c.__class__ is not Lin: del T.ne[c]
    # symbols whose knowledge was weakened
    for src in (S1, S2):
        for c in src.cons:
            if c not in T.cons and not T.prove(c):
                for s, k in c.t: lossyset.add(s)
    T.lossy = frozenset(lossyset)

def affine(T, newvars, W, n):
    """linear equalities among the variables valid on both sides (nullspace)"""
    if not newvars: return
    vs = newvars[:24]
    shared = set()
    for s, a, b in vs:
        for v in (a, b):
            if v.__class__ is Lin:
                for t, k in v.t:
                    if t < W.wm or any(t == q for q, _, _ in vs): shared.add(t)
    for v in W.shared[:12]:
        for t, k in v.t: shared.add(t)
    vset = set(s for s, a, b in vs)
    shared = [t for t in sorted(shared) if t not in vset and t not in T.sub][:24]
    cols = [('x', s, a, b) for s, a, b in vs] + [('s', t, Lin(0, ((t, 1),)), Lin(0, ((t, 1),))) for t in shared] + [('c', None, 1, 1)]
    # rows: one equation per (side, symbol) and per (side, constant)
    rows = {}
    for j, (k, s, a, b) in enumerate(cols):
        for side, v in ((1, a), (2, b)):
            if k == 's':
                v = (W.s1.st if side == 1 else W.s2.st).norm(v)
            if v.__class__ is Lin:
                for t, q in v.t: rows.setdefault((side, t), {})[j] = Fraction(q)
                if v.c: rows.setdefault((side, None), {})[j] = Fraction(v.c)
            elif v: rows.setdefault((side, None), {})[j] = Fraction(int(v))
    # gaussian elimination; columns of variables first so that they become pivots last
    m = []
    order = list(range(len(cols)))
    for r in rows.values(): m.append(dict(r))
    piv = {}
    for j in order:
        p = None
        for i, r in enumerate(m):
            if r.get(j): p = i; break
        if p is None: continue
        r = m.pop(p); q = r[j]
        r = {k: v / q for k, v in r.items() if v}
        for x in m:
            f = x.get(j)
            if f:
                for k, v in r.items():
                    nv = x.get(k, 0) - f * v
                    if nv: x[k] = nv
                    else: x.pop(k, None)
        for pj, x in piv.items():
            f = x.get(j)
            if f:
                for k, v in r.items():
                    nv = x.get(k, 0) - f * v
                    if nv: x[k] = nv
                    else: x.pop(k, None)
        piv[j] = r
    free = [j for j in order if j not in piv]
    for fj in free:
        # nullspace vector: coefficient 1 at fj, -r[fj] at pivots
        vec = {fj: Fraction(1)}
        for j, r in piv.items():
            if r.get(fj): vec[j] = -r[fj]
        if not any(cols[j][0] == 'x' for j in vec): continue
        den = 1
        for v in vec.values():
            den = den * v.denominator // gcd(den, v.denominator)
        if den > 1 << 20: continue
        c = 0; t = {}
        big = False
        for j, v in vec.items():
            v = int(v * den)
            if abs(v) > 1 << 40 and cols[j][0] != 'c': big = True
            if cols[j][0] == 'c': c += v
            else: t[cols[j][1]] = t.get(cols[j][1], 0) + v
        if big: continue
        e = mk(c, t)
        if e.__class__ is Lin: T.add_eq(e)

def visit(x, out):
    c = x.__class__
    if c is Lin:
        for s, k in x.t: out.add(s)
    elif c in (int, str, bytes, bool, float) or x is None: return
    elif c in (tuple, list, frozenset, set):
        for y in x: visit(y, out)
    elif c is dict:
        for y in x.values(): visit(y, out)
    elif hasattr(c, '__slots__'):
        for n in c.__slots__: visit(getattr(x, n), out)

def forget(env, st, lv, wm):
    """drop what an imprecise state knows about symbols nothing refers to any more"""
    live = set()
    for x in lv: visit(env[x], live)
    for b, r in st.regs.items():
        visit(r.cells, live); visit(r.size, live)
    visit(st.exc, live); visit(st.caught, live)
    S = st.st
    for f in st.facts: visit(f, live)
    todo = list(live)
    while todo:
        s = todo.pop()
        v = S.sub.get(s); d = SYM_DEF[s]
        n = set()
        if v.__class__ is Lin: visit(v, n)
        if d is not None: visit(d, n)
        for x in n:
            if x not in live: live.add(x); todo.append(x)
    w = wm[0]
    ok = lambda v: all(s < w or s in live for s, k in v.t)
    T = S.copy()
    T.cons = {c: None for c in S.cons if ok(c)}
    if not st.lossy and len(T.cons) != len(S.cons):
        # what is forgotten may have bounded something precise
        L = S.lossy
        for c in S.cons:
            if c not in T.cons and any((s < w or s in live) and not SYM_LOSSY[s] and s not in L for s, k in c.t):
                st.taint('relations of a joined loop were forgotten'); break
    T.ne = {c: None for c in S.ne if ok(c)}
    T.b = {s: v for s, v in S.b.items() if s < w or s in live}
    T.sub = {s: v for s, v in S.sub.items() if s < w or s in live}
    st.st = T
