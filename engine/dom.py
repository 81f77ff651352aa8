"""Numeric domain: symbols, linear expressions over symbols, and a relational constraint store.

Integers are kept in *signed view*: an abstract value of width w denotes a mathematical integer in
[-2^(w-1), 2^(w-1)).  A value is either a Python int or a Lin (linear expression over symbols).
The store keeps solved equalities, intervals, linear inequalities (Lin >= 0) and disequalities.
Entailment is decided by interval arithmetic, one/two-step combination and, last, by exact
rational feasibility (simplex).
"""
from fractions import Fraction
from math import gcd

class Lit(int):
    """an integer that was a literal in the program (as opposed to one computed)"""
    __slots__ = ()

SYM_LO = []
SYM_HI = []
SYM_LOSSY = []
SYM_DEF = []
SYM_NAME = []
DEFS = {}

def new_sym(lo, hi, name='', lossy=False, d=None):
    SYM_LO.append(lo); SYM_HI.append(hi); SYM_LOSSY.append(lossy); SYM_DEF.append(d); SYM_NAME.append(name)
    return len(SYM_LO) - 1

class Lin:
    __slots__ = ('c', 't', 'h')
    def __init__(self, c, t):
        self.c = c; self.t = t; self.h = hash((c, t))
    def __hash__(self): return self.h
    def __eq__(self, o):
        return self is o or (o.__class__ is Lin and self.h == o.h and self.c == o.c and self.t == o.t)
    def __ne__(self, o): return not self == o
    def __repr__(self):
        s = []
        for v, k in self.t:
            nm = SYM_NAME[v] or 's'
            s.append(('%+d*' % k if abs(k) != 1 else ('+' if k > 0 else '-')) + '%s#%d' % (nm, v))
        if self.c or not s: s.append('%+d' % self.c)
        return ''.join(s)

def mk(c, d):
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    if not t: return c
    return Lin(c, t)

def sym(lo, hi, name='', lossy=False, d=None):
    if lo == hi: return lo
    return Lin(0, ((new_sym(lo, hi, name, lossy, d), 1),))

def ladd(a, b):
    if a.__class__ is not Lin:
        if b.__class__ is not Lin: return int(a) + int(b)
        return Lin(b.c + int(a), b.t) if a else b
    if b.__class__ is not Lin:
        return Lin(a.c + int(b), a.t) if b else a
    d = dict(a.t)
    for s, k in b.t: d[s] = d.get(s, 0) + k
    return mk(a.c + b.c, d)

def lscale(a, k):
    k = int(k)
    if a.__class__ is not Lin: return int(a) * k
    if k == 0: return 0
    if k == 1: return a
    return Lin(a.c * k, tuple((s, q * k) for s, q in a.t))

def lneg(a): return lscale(a, -1)
def lsub(a, b):
    if a is b: return 0
    return ladd(a, lscale(b, -1))

def term(op, args, lo, hi, name='', lossy=False):
    """hash-consed symbol defined as op(args); equal definitions give the same symbol"""
    key = (op,) + tuple(args)
    s = DEFS.get(key)
    if s is None:
        s = new_sym(lo, hi, name or op, lossy, key)
        DEFS[key] = s
    return Lin(0, ((s, 1),))

def defn(v):
    """definition of a value that is a single symbol"""
    if v.__class__ is Lin and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        return SYM_DEF[v.t[0][0]]
    return None

INF = None

class Infeasible(Exception): pass

_lp_cache = {}
STATS = {'lp': 0, 'lpc': 0}

class Store:
    __slots__ = ('sub', 'b', 'cons', 'ne', 'lossy')
    def __init__(self):
        self.sub = {}; self.b = {}; self.cons = {}; self.ne = {}; self.lossy = frozenset()
    def copy(self):
        s = Store.__new__(Store)
        s.sub = dict(self.sub); s.b = dict(self.b); s.cons = dict(self.cons); s.ne = dict(self.ne); s.lossy = self.lossy
        return s

    def norm(self, v):
        if v.__class__ is not Lin: return v
        sub = self.sub
        if not sub: return v
        while True:
            for s, k in v.t:
                if s in sub:
                    break
            else:
                return v
            d = {}
            c = v.c
            for s, k in v.t:
                r = sub.get(s)
                if r is None: d[s] = d.get(s, 0) + k
                elif r.__class__ is Lin:
                    c += r.c * k
                    for s2, k2 in r.t: d[s2] = d.get(s2, 0) + k2 * k
                else: c += int(r) * k
            v = mk(c, d)
            if v.__class__ is not Lin: return v

    def sb(self, s):
        r = self.b.get(s)
        if r is not None: return r
        return (SYM_LO[s], SYM_HI[s])

    def bounds(self, v):
        if v.__class__ is not Lin: return (v, v)
        lo = hi = v.c
        b = self.b
        for s, k in v.t:
            r = b.get(s)
            if r is None: l = SYM_LO[s]; h = SYM_HI[s]
            else: l, h = r
            if k > 0:
                lo += k * l; hi += k * h
            else:
                lo += k * h; hi += k * l
        return lo, hi

    # ---------------------------------------------------------------- entailment
    def prove(self, v):
        """v >= 0 ?"""
        v = self.norm(v)
        if v.__class__ is not Lin: return v >= 0
        lo, hi = self.bounds(v)
        if lo >= 0: return True
        if hi < 0: return False
        return self._prove(v)

    def _prove(self, v):
        cons = self.cons
        if not cons: return False
        vs = dict(v.t)
        # one step: v - k*c has nonnegative lower bound
        one = []
        for c in cons:
            m = None
            for s, k in c.t:
                q = vs.get(s)
                if q is not None and (q > 0) == (k > 0):
                    m = (q, k); break
            if m is None: continue
            q, k = m
            # v*|k| - c*|q|
            w = ladd(lscale(v, abs(k)), lscale(c, -abs(q)))
            w = self.norm(w)
            if w.__class__ is not Lin:
                if w >= 0: return True
                # tighten integer: v*|k| >= w ... v >= ceil(w/|k|)
                continue
            lo, hi = self.bounds(w)
            if lo >= 0: return True
            one.append(w)
        if not one: return False
        for w in one[:6]:
            ws = dict(w.t)
            for c in cons:
                for s, k in c.t:
                    q = ws.get(s)
                    if q is not None and (q > 0) == (k > 0):
                        w2 = ladd(lscale(w, abs(k)), lscale(c, -abs(q)))
                        if w2.__class__ is not Lin:
                            if w2 >= 0: return True
                        elif self.bounds(w2)[0] >= 0: return True
                        break
        if len(cons) < 3: return False
        return self._lp(v)

    def _lp(self, v):
        """True if cons and v <= -1 is infeasible"""
        syms = set(s for s, k in v.t)
        rel = []
        todo = list(self.cons)
        changed = True
        while changed:
            changed = False
            rest = []
            for c in todo:
                if any(s in syms for s, k in c.t):
                    rel.append(c); syms.update(s for s, k in c.t); changed = True
                else: rest.append(c)
            todo = rest
        key = (v, frozenset(rel), tuple((s, self.sb(s)) for s in sorted(syms)))
        r = _lp_cache.get(key)
        STATS['lpc'] += 1
        if r is None:
            STATS['lp'] += 1
            r = not lp_feasible(rel + [ladd(lneg(v), -1)], {s: self.sb(s) for s in syms})
            if len(_lp_cache) > 200000: _lp_cache.clear()
            _lp_cache[key] = r
        return r

    def decide_ge(self, v):
        """True / False / None for v >= 0"""
        v = self.norm(v)
        if v.__class__ is not Lin: return v >= 0
        lo, hi = self.bounds(v)
        if lo >= 0: return True
        if hi < 0: return False
        if self._prove(v): return True
        if self._prove(ladd(lneg(v), -1)): return False
        return None

    def decide_eq(self, v):
        v = self.norm(v)
        if v.__class__ is not Lin: return v == 0
        lo, hi = self.bounds(v)
        if lo > 0 or hi < 0: return False
        if v in self.ne or lneg(v) in self.ne: return False
        g = 0
        for s, k in v.t: g = gcd(g, k)
        if g > 1 and v.c % g: return False
        if self.cons:
            if self._prove(ladd(v, -1)) or self._prove(ladd(lneg(v), -1)): return False
            if self._prove(v) and self._prove(lneg(v)): return True
        return None

    # ---------------------------------------------------------------- update
    def set_bound(self, s, lo, hi):
        """returns False if infeasible"""
        l, h = self.sb(s)
        nl = max(l, lo); nh = min(h, hi)
        if nl > nh: return False
        if nl == l and nh == h: return True
        if nl == nh: return self.subst(s, nl)
        self.b[s] = (nl, nh)
        return self.propagate(s)

    def propagate(self, s, depth=0):
        if not self.recheck_ne(s): return False
        if depth > 6: return True
        for c in list(self.cons):
            for s1, k1 in c.t:
                if s1 == s: break
            else: continue
            if c not in self.cons: continue
            lo, hi = self.bounds(c)
            if hi < 0: return False
            if lo >= 0:
                self.cons.pop(c, None); continue
            for s2, k2 in c.t:
                if s2 == s: continue
                l, h = self.sb(s2)
                # k2*s2 >= -(rest hi)
                if k2 > 0:
                    resthi = hi - k2 * h
                    nl = -((resthi) // k2)  # s2 >= ceil(-resthi/k2)
                    if nl > l:
                        if nl > h: return False
                        if nl == h:
                            if not self.subst(s2, nl): return False
                            return True
                        self.b[s2] = (nl, h)
                        if nl - l > 0 and not self.propagate(s2, depth + 1): return False
                        if c not in self.cons: break
                        lo, hi = self.bounds(c)
                else:
                    resthi = hi - k2 * l
                    nh = resthi // (-k2)
                    if nh < h:
                        if nh < l: return False
                        if nh == l:
                            if not self.subst(s2, nh): return False
                            return True
                        self.b[s2] = (l, nh)
                        if not self.propagate(s2, depth + 1): return False
                        if c not in self.cons: break
                        lo, hi = self.bounds(c)
        return True

    def recheck_ne(self, s):
        for w in list(self.ne):
            for s1, k in w.t:
                if s1 == s: break
            else: continue
            lo, hi = self.bounds(w)
            if lo > 0 or hi < 0:
                self.ne.pop(w, None)
            elif lo == 0 or hi == 0:
                self.ne.pop(w, None)
                if not self.add_ge(ladd(w, -1) if lo == 0 else ladd(lneg(w), -1)): return False
        return True

    def subst(self, s, v):
        """s := v ; returns False if infeasible"""
        v = self.norm(v)
        if s in self.sub:
            return self.add_eq(lsub(self.sub[s], v))
        l, h = self.sb(s)
        if v.__class__ is not Lin:
            if v < l or v > h: return False
        else:
            for s1, k in v.t:
                if s1 == s: return self.add_eq(lsub(Lin(0, ((s, 1),)), v))
        if s in self.lossy and v.__class__ is Lin:
            pass
        self.sub[s] = v
        self.b.pop(s, None)
        # rewrite cons, ne mentioning s
        redo = [c for c in self.cons if any(s1 == s for s1, k in c.t)]
        for c in redo: del self.cons[c]
        redone = [c for c in self.ne if any(s1 == s for s1, k in c.t)]
        for c in redone: del self.ne[c]
        if v.__class__ is Lin:
            lo, hi = self.bounds(v)
            if lo < l and not self.add_ge(ladd(v, -l)): return False
            if hi > h and not self.add_ge(lsub(h, v)): return False
        for c in redo:
            if not self.add_ge(c): return False
        for c in redone:
            if not self.add_ne(c): return False
        return True

    def add_ge(self, v):
        v = self.norm(v)
        if v.__class__ is not Lin: return v >= 0
        lo, hi = self.bounds(v)
        if hi < 0: return False
        if lo >= 0: return True
        g = 0
        for s, k in v.t: g = gcd(g, k)
        if g > 1:
            v = Lin(v.c // g, tuple((s, k // g) for s, k in v.t))
            lo, hi = self.bounds(v)
            if hi < 0: return False
            if lo >= 0: return True
        if len(v.t) == 1:
            s, k = v.t[0]
            # k is +-1 now
            if k > 0: return self.set_bound(s, -v.c, 1 << 200)
            return self.set_bound(s, -(1 << 200), v.c)
        if hi == 0:
            return self.add_eq(v)
        if v in self.cons: return True
        n = lneg(v)
        if n in self.cons:
            return self.add_eq(v)
        if self.cons:
            if self._prove(v): return True
            if self._prove(ladd(n, -1)): return False
            if self._prove(n): return self.add_eq(v)
        self.cons[v] = None
        # interval propagation from v
        for s2, k2 in v.t:
            if v not in self.cons: break
            lo, hi = self.bounds(v)
            r = self.sb(s2)
            l, h = r
            if k2 > 0:
                nl = -((hi - k2 * h) // k2)
                if nl > l:
                    if not self.set_bound(s2, nl, h): return False
            else:
                nh = (hi - k2 * l) // (-k2)
                if nh < h:
                    if not self.set_bound(s2, l, nh): return False
        # a disequality that now pins the value
        nv = self.norm(v)
        if nv in self.ne or lneg(nv) in self.ne if nv.__class__ is Lin else False:
            self.ne.pop(nv, None); self.ne.pop(lneg(nv), None)
            self.cons.pop(nv, None)
            return self.add_ge(ladd(nv, -1))
        return True

    def add_eq(self, v):
        v = self.norm(v)
        if v.__class__ is not Lin: return v == 0
        lo, hi = self.bounds(v)
        if lo > 0 or hi < 0: return False
        if v in self.ne or lneg(v) in self.ne: return False
        g = 0
        for s, k in v.t: g = gcd(g, k)
        if v.c % g: return False
        if g > 1: v = Lin(v.c // g, tuple((s, k // g) for s, k in v.t))
        # choose a symbol with unit coefficient, preferring the newest, keeping lossy ones out of others
        best = None
        for s, k in v.t:
            if k == 1 or k == -1:
                rank = (SYM_DEF[s] is None, s)
                if best is None or rank > best[0]: best = (rank, s, k)
        if best is not None:
            _, s, k = best
            rest = mk(v.c, {s1: k1 for s1, k1 in v.t if s1 != s})
            val = lscale(rest, -k) if k == 1 else rest
            if k == 1: val = lneg(rest)
            else: val = rest
            return self.subst(s, val)
        # no unit coefficient: keep as two inequalities
        if v not in self.cons: self.cons[v] = None
        n = lneg(v)
        if n not in self.cons: self.cons[n] = None
        for w in (v, n):
            for s2, k2 in w.t:
                lo, hi = self.bounds(w)
                l, h = self.sb(s2)
                if k2 > 0:
                    nl = -((hi - k2 * h) // k2)
                    if nl > l and not self.set_bound(s2, nl, h): return False
                else:
                    nh = (hi - k2 * l) // (-k2)
                    if nh < h and not self.set_bound(s2, l, nh): return False
        return True

    def add_ne(self, v):
        v = self.norm(v)
        if v.__class__ is not Lin: return v != 0
        lo, hi = self.bounds(v)
        if lo > 0 or hi < 0: return True
        if lo == 0: return self.add_ge(ladd(v, -1))
        if hi == 0: return self.add_ge(ladd(lneg(v), -1))
        g = 0
        for s, k in v.t: g = gcd(g, k)
        if v.c % g: return True
        if g > 1: v = Lin(v.c // g, tuple((s, k // g) for s, k in v.t))
        if self.cons:
            ge = self._prove(v); le = self._prove(lneg(v))
            if ge and le: return False
            if ge: return self.add_ge(ladd(v, -1))
            if le: return self.add_ge(ladd(lneg(v), -1))
        n = lneg(v)
        if v.t[0][1] < 0: v = n
        self.ne[v] = None
        return True

    def is_lossy(self, v):
        v = self.norm(v)
        if v.__class__ is not Lin: return False
        L = self.lossy
        for s, k in v.t:
            if SYM_LOSSY[s] or s in L: return True
        return False

    def related_lossy(self, v):
        """does v or anything constrained together with it involve an imprecise symbol?"""
        v = self.norm(v)
        if v.__class__ is not Lin: return False
        syms = set(s for s, k in v.t)
        todo = list(self.cons) + list(self.ne)
        changed = True
        while changed:
            changed = False
            rest = []
            for c in todo:
                if any(s in syms for s, k in c.t):
                    syms.update(s for s, k in c.t); changed = True
                else: rest.append(c)
            todo = rest
        L = self.lossy
        return any(SYM_LOSSY[s] or s in L for s in syms)


def quot(x, a):
    if a == 1: return x
    if a == -1: return -x
    r = Fraction(x) / a
    return r.numerator if r.denominator == 1 else r

def lp_feasible(cons, bnds):
    """rational feasibility of  {c >= 0 for c in cons}  with variable bounds (exact general simplex)"""
    rows = []      # each: dict var->Fraction for basic variable
    lo = {}; hi = {}; val = {}
    for s, (l, h) in bnds.items():
        lo[s] = l; hi[s] = h
        val[s] = l if abs(l) <= abs(h) else h
        if l <= 0 <= h: val[s] = 0
    basic = {}
    idx = 0
    for c in cons:
        if c.__class__ is not Lin:
            if c < 0: return False
            continue
        idx += 1
        b = ('r', idx)
        row = {}
        for s, k in c.t:
            row[s] = row.get(s, 0) + k
        basic[b] = row
        lo[b] = -c.c; hi[b] = None
        val[b] = sum(k * val[s] for s, k in c.t)
    order = {}
    for i, v in enumerate(sorted(bnds)): order[v] = i
    for i, v in enumerate(basic): order[v] = len(bnds) + i
    for it in range(400):
        # find violated basic var (Bland: smallest)
        viol = None
        for b in basic:
            v = val[b]
            if (lo[b] is not None and v < lo[b]) or (hi[b] is not None and v > hi[b]):
                if viol is None or order[b] < order[viol]: viol = b
        if viol is None: return True
        b = viol
        row = basic[b]
        below = lo[b] is not None and val[b] < lo[b]
        piv = None
        for s in row:
            k = row[s]
            if not k: continue
            if below:
                ok = (k > 0 and (hi[s] is None or val[s] < hi[s])) or (k < 0 and (lo[s] is None or val[s] > lo[s]))
            else:
                ok = (k < 0 and (hi[s] is None or val[s] < hi[s])) or (k > 0 and (lo[s] is None or val[s] > lo[s]))
            if ok and (piv is None or order[s] < order[piv]): piv = s
        if piv is None: return False
        target = lo[b] if below else hi[b]
        a = row[piv]
        theta = quot(target - val[b], a)
        val[b] = target
        val[piv] = val[piv] + theta
        for b2, r2 in basic.items():
            if b2 is not b and b2 != b:
                k = r2.get(piv)
                if k: val[b2] = val[b2] + k * theta
        # pivot: b leaves, piv enters
        # b = a*piv + rest  -> piv = b/a - rest/a
        nrow = {b: quot(1, a)}
        for s, k in row.items():
            if s != piv and k: nrow[s] = quot(-k, a)
        del basic[b]
        for b2, r2 in basic.items():
            k = r2.pop(piv, 0)
            if k:
                for s, q in nrow.items():
                    x = r2.get(s, 0) + k * q
                    if x: r2[s] = x
                    else: r2.pop(s, None)
        basic[piv] = nrow
    return True  # give up: assume feasible
