"""Abstract interpreter for LLVM IR (as dumped by irdump)."""
import json, heapq, time, re, sys
from state import *
import bitops, match
import witness

sys.setrecursionlimit(100000)

STD_BASES = {
    'St9exception': [], 'St11logic_error': ['St9exception'], 'St13runtime_error': ['St9exception'],
    'St12out_of_range': ['St11logic_error'], 'St16invalid_argument': ['St11logic_error'], 'St12length_error': ['St11logic_error'],
    'St12domain_error': ['St11logic_error'], 'St11range_error': ['St13runtime_error'], 'St14overflow_error': ['St13runtime_error'],
    'St15underflow_error': ['St13runtime_error'], 'St9bad_alloc': ['St9exception'], 'St8bad_cast': ['St9exception'],
    'St20bad_array_new_length': ['St9bad_alloc'], 'St17bad_function_call': ['St9exception'], 'St12system_error': ['St13runtime_error'],
    'St10bad_typeid': ['St9exception'],
}

class Budget(Exception): pass
class Unsupported(Exception): pass

class Fn:
    __slots__ = ('n', 'dm', 'na', 'va', 'rt', 'pt', 'bl', 'nv', 'rpo', 'heads', 'live', 'file', 'line', 'sret', 'isrepo', 'short', 'ismodel')

def wbits(t):
    return int(t[1:])

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d['files']
        self.fns = {}; self.decls = {}; self.vars = {}
        self.ctors = d['ctors']
        for it in d['items']:
            k = it['k']
            if k == 'fn':
                f = it['f']; F = Fn()
                F.n = f['n']; F.dm = simplify(f['dm']); F.na = f['na']; F.va = f['va']; F.rt = f['rt']; F.pt = f['pt']; F.bl = f['bl']; F.sret = f['sret']
                F.file = f.get('file', ''); F.line = f.get('line', 0); F.rpo = None
                F.isrepo = F.file.startswith('/repo/')
                F.ismodel = '/verif/model/' in F.file
                self.fns[F.n] = F
            elif k == 'decl': self.decls[it['n']] = (simplify(it['dm']), it['rt'], it['nr'])
            elif k == 'var': self.vars[it['n']] = it

_STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
def simplify(dm):
    dm = dm.replace('> >', '>>').replace('> >', '>>').replace('> >', '>>')
    dm = dm.replace(_STR, 'string')
    dm = dm.replace('std::__cxx11::', 'std::')
    return dm

def prepare(F):
    """RPO, loop heads and live-in registers of each block"""
    bl = F.bl
    n = len(bl)
    succ = []
    for b in bl:
        t = b[-1]
        o = t['o']
        if o == 'br': s = list(t['s'])
        elif o == 'switch': s = [t['df']] + [c[1] for c in t['cs']]
        elif o == 'invoke': s = [t['nb'], t['ub']]
        else: s = []
        succ.append(s)
    # iterative dfs
    seen = [0] * n; post = []; heads = set()
    stack = [(0, iter(succ[0]))]; seen[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if seen[s] == 0:
                seen[s] = 1; stack.append((s, iter(succ[s]))); break
            elif seen[s] == 1: heads.add(s)
        else:
            seen[b] = 2; post.append(b); stack.pop()
    rpo = {b: i for i, b in enumerate(reversed(post))}
    F.rpo = rpo; F.heads = heads
    # liveness
    use = [None] * n; dfn = [None] * n; phis = [None] * n
    def ops(i):
        r = []
        def val(v):
            if isinstance(v, list) and v:
                k = v[0]
                if k == 'v': r.append(v[1])
                elif k in ('gep',): val(v[1])
                elif k == 'agg':
                    for x in v[1]: val(x)
                elif k == 'ce':
                    for x in v[2]: val(x)
        for k in ('a',):
            if k in i:
                for v in i[k]: val(v)
        for k in ('b', 'f', 'c', 'n'):
            if k in i and isinstance(i[k], list): val(i[k])
        if 'x' in i:
            for x in i['x']: val(x[0])
        return r
    for bi in range(n):
        u = set(); d = set(); ph = {}
        for i in bl[bi]:
            if i['o'] == 'phi':
                for pb, v in i['in']:
                    if v[0] == 'v': ph.setdefault(pb, set()).add(v[1])
                d.add(i['d'])
            else:
                for x in ops(i):
                    if x not in d: u.add(x)
                if 'd' in i: d.add(i['d'])
        use[bi] = u; dfn[bi] = d; phis[bi] = ph
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for bi in range(n - 1, -1, -1):
            out = set()
            for s in succ[bi]:
                out |= live[s]
                out |= phis[s].get(bi, set())
            nl = use[bi] | (out - dfn[bi])
            if nl != live[bi]:
                live[bi] = nl; ch = True
    # after phis: values defined by the phis of the block itself are live at its body
    F.live = []
    for bi in range(n):
        l = set(live[bi])
        for i in bl[bi]:
            if i['o'] == 'phi': l.add(i['d'])
            else: break
        F.live.append(sorted(l))
    mx = F.na
    for b in bl:
        for i in b:
            if 'd' in i and i['d'] >= mx: mx = i['d'] + 1
    F.nv = mx

class Interp:
    def __init__(self, prog, peel=2, maxmerge=40, time_limit=600, opts=None):
        self.p = prog
        self.peel = peel; self.maxmerge = (opts or {}).get('maxmerge', maxmerge); self.hint = (None, 0, 0); self.dropped = {}; self.always = {}
        self.opts = opts or {}
        self.t0 = time.time(); self.time_limit = time_limit
        self.obl = {}          # (rule, loc) -> [proved, failed, undecided]
        self.alarms = {}       # key -> dict
        self.unmodelled = {}
        self.taints = {}
        self.stack = []        # call stack: [Fn, instr]
        self.steps = 0
        self.fcalls = {}
        self.globals = {}
        self.gbase = {}
        self.model_cache = {}
        self.analysed = set()
        self.curfn = None
        self.events = []
        self.ev_hooks = {}
        self.max_depth = 400
        self.loopinfo = {}
        self.varargs = {}
        import models
        self.models = models
        models.install(self)
        # every global has its region number before anything runs, so that it is never taken for a local object
        for n in list(prog.vars):
            b = new_rid(); self.gbase[n] = b; self.globals[b] = n

    # ------------------------------------------------------------ globals
    def initial(self):
        st = State()
        for n, v in self.p.vars.items():
            if not v['const'] and not v['ext']: self.global_ptr(st, n)
        return st
    def global_ptr(self, st, n):
        if n in self.p.fns or n in self.p.decls: return FnP(n)
        b = self.gbase.get(n)
        if b is None:
            b = new_rid(); self.gbase[n] = b
            self.globals[b] = n
        if b not in st.regs:
            v = self.p.vars.get(n)
            if v is None:
                r = Reg('global', 1 << 40, 'unk', n)
            else:
                r = Reg('global', v['sz'] if not v['ext'] else 1 << 40, 'undef', v['dm'])
                r.ro = bool(v['const'])
                r.site = n
                if v['ext']: r.fill = 'unk'
                else:
                    r.fill = 'zero'
                    if 'init' in v: self.init_cells(st, r, v['init'])
            st.regs[b] = r; st.own.add(b)
        return Ptr(b, 0)
    def init_cells(self, st, r, init):
        for off, size, val in init:
            k = val[0]
            if k == 'z':
                if size > 0: r.cells[off] = (size, Bytes((('L', b'\0' * size),))) if size <= 256 else None
                if r.cells.get(off, 1) is None: del r.cells[off]
            elif k == 'd':
                r.cells[off] = (size, Bytes((('L', bytes.fromhex(val[1])),)))
            else:
                r.cells[off] = (size, self.const(st, val))
    def const(self, st, v):
        k = v[0]
        if k == 'i':
            if v[1] == 1: return Lit(1 if v[2] else 0)
            return Lit(v[2])
        if k == 'n': return NULL
        if k == 'u': return UNDEF
        if k == 'g': return self.global_ptr(st, v[1])
        if k == 'gep':
            p = self.const(st, v[1])
            if p.__class__ is Ptr: return Ptr(p.b, ladd(p.o, v[2]))
            return UNK
        if k == 'f': return Lit(v[2])
        if k == 'agg': return Agg([self.const(st, x) for x in v[1]])
        if k == 'z': return UNDEF
        if k == 'ce':
            if v[1] in ('bitcast', 'addrspacecast'): return self.const(st, v[2][0])
            if v[1] == 'inttoptr':
                a = self.const(st, v[2][0])
                if isinstance(a, int): return Ptr(0, int(a))
            if v[1] == 'ptrtoint':
                a = self.const(st, v[2][0])
                if a.__class__ is Ptr: return self.addr(a)
        return UNK

    # ------------------------------------------------------------ helpers
    def loc(self):
        """innermost repository location, else innermost client location"""
        for f, i in reversed(self.stack):
            if f.isrepo and i is not None and 'l' in i:
                fi = self.p.files[i['l'][0]]
                if fi.startswith('/repo/'): return '%s:%d' % (fi[6:], i['l'][1])
        for f, i in reversed(self.stack):
            if i is not None and 'l' in i and i['l'][1]:
                fi = self.p.files[i['l'][0]]
                if fi.startswith('/verif/'): return '%s:%d' % (fi, i['l'][1])
        return '?'
    def iloc(self, i):
        if i is not None and 'l' in i: return '%s:%d' % (self.p.files[i['l'][0]], i['l'][1])
        return '?'
    def backtrace(self):
        out = []
        for f, i in self.stack:
            if i is not None and 'l' in i and i['l'][1]:
                fi = self.p.files[i['l'][0]]
                if fi.startswith('/repo/') or fi.startswith('/verif/'):
                    out.append('%s:%d in %s' % (fi, i['l'][1], f.dm[:100]))
        return out
    def callpath(self):
        """innermost repository function"""
        for f, i in reversed(self.stack):
            if f.isrepo: return f.dm
        return ''

    def addr(self, p):
        if p.b == 0: return p.o
        return ladd(term('addr', (p.b,), 4096, 1 << 47, 'addr'), p.o)
    def toint(self, st, v, w=64):
        c = v.__class__
        if c is Lit or c is int: return v
        if c is Lin: return st.st.norm(v)
        if c is Ptr: return st.st.norm(self.addr(v))
        if c is FnP: return term('faddr', (v.n,), 4096, 1 << 47)
        if c is bool: return int(v)
        if v is UNKB: return sym(-(1 << (w - 1)), (1 << (w - 1)) - 1, 'b')
        M = 1 << (w - 1)
        return sym(-M, M - 1, 'unk', lossy=True)
    def toptr(self, st, v):
        c = v.__class__
        if c is Ptr:
            if v.o.__class__ is Lin:
                o = st.st.norm(v.o)
                if o is not v.o: return Ptr(v.b, o)
            return v
        if c is FnP: return v
        if c is Lit or c is int: return Ptr(0, int(v))
        if c is Lin:
            v = st.st.norm(v)
            if v.__class__ is not Lin: return Ptr(0, v)
            for s, k in v.t:
                d = SYM_DEF[s]
                if k == 1 and d is not None and d[0] == 'addr':
                    return Ptr(d[1], lsub(v, Lin(0, ((s, 1),))))
                if k == 1 and d is not None and d[0] == 'faddr' and len(v.t) == 1 and v.c == 0:
                    return FnP(d[1])
            return UNK
        return UNK

    # ------------------------------------------------------------ conditions
    def apart(self, st, d):
        """d is the distance of addresses in two objects that both live: it is not 0"""
        (s1, k1), (s2, k2) = d.t
        d1 = SYM_DEF[s1]; d2 = SYM_DEF[s2]
        if k1 + k2 != 0 or abs(k1) != 1 or d1 is None or d2 is None or d1[0] != 'addr' or d2[0] != 'addr': return False
        r1 = st.regs.get(d1[1]); r2 = st.regs.get(d2[1])
        if r1 is None or r2 is None or not r1.alive or not r2.alive: return False
        c = d.c * k1    # addr1 + c - addr2
        if c == 0: return True
        r, c = (r1, c) if c > 0 else (r2, -c)
        return r.size.__class__ is not Lin and r.size is not None and c < r.size
    def mkcmp(self, st, p, a, b, w):
        """comparison of two ints of width w; returns 0/1 or Cond"""
        S = st.st
        if p == 'eq' or p == 'ne':
            d = S.norm(lsub(a, b))
            r = S.decide_eq(d)
            if r is not None: return Lit(1 if r == (p == 'eq') else 0)
            if d.__class__ is Lin and len(d.t) == 2 and self.apart(st, d): return Lit(0 if p == 'eq' else 1)
            x, y = (a, b) if a.__class__ is Lin else (b, a)
            if y.__class__ is not Lin and -128 <= y <= 255 and x.c == 0 and len(x.t) == 1 and not match.byte_can(S, x, int(y) & 255): return Lit(0 if p == 'eq' else 1)
            c = Cond([[('eq', d)]], [[('ne', d)]])
            return c if p == 'eq' else c.inv()
        if p[0] == 's':
            if p == 'slt': v = ladd(lsub(b, a), -1)
            elif p == 'sle': v = lsub(b, a)
            elif p == 'sgt': v = ladd(lsub(a, b), -1)
            else: v = lsub(a, b)
            r = S.decide_ge(v)
            if r is not None: return Lit(1 if r else 0)
            return Cond([[('ge', v)]], [[('ge', ladd(lneg(v), -1))]])
        # unsigned
        if p == 'ugt': a, b = b, a; p = 'ult'
        elif p == 'uge':
            a, b = b, a; p = 'ule'
        sa = S.decide_ge(a); sb = S.decide_ge(b)
        strict = p == 'ult'
        lt = ladd(lsub(b, a), -1) if strict else lsub(b, a)
        nlt = ladd(lneg(lt), -1)
        na = ladd(lneg(a), -1); nb = ladd(lneg(b), -1)
        if sa is not None and sb is not None:
            if sa != sb:
                return Lit(1 if sa else 0)   # a>=0,b<0 : a<b unsigned
            r = S.decide_ge(lt)
            if r is not None: return Lit(1 if r else 0)
            return Cond([[('ge', lt)]], [[('ge', nlt)]])
        pos = []; neg = []
        for pa in (True, False):
            if sa is not None and pa != sa: continue
            for pb in (True, False):
                if sb is not None and pb != sb: continue
                g = []
                if sa is None: g.append(('ge', a if pa else na))
                if sb is None: g.append(('ge', b if pb else nb))
                if pa == pb:
                    pos.append(g + [('ge', lt)]); neg.append(g + [('ge', nlt)])
                elif pa: pos.append(g)
                else: neg.append(g)
        return Cond(pos, neg)

    def ptrcmp(self, st, p, a, b):
        a = self.toptr(st, a); b = self.toptr(st, b)
        if a is UNK or b is UNK: return lossy_cond()
        if a.__class__ is FnP or b.__class__ is FnP:
            eq = a == b
            if p == 'eq': return Lit(int(eq))
            if p == 'ne': return Lit(int(not eq))
            return lossy_cond()
        if a.b == b.b:
            pp = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(p, p)
            return self.mkcmp(st, pp, a.o, b.o, 64)
        if p == 'eq': return Lit(0)
        if p == 'ne': return Lit(1)
        return lossy_cond()

    def apply_atoms(self, st, atoms):
        S = st.st
        for k, v in atoms:
            if k == 'ge': r = S.add_ge(v)
            elif k == 'eq': r = S.add_eq(v)
            else: r = S.add_ne(v)
            if not r: return False
        return True

    def assume(self, st, c, truth):
        """states in which c has the given truth value (consumes st)"""
        if c.__class__ is not Cond:
            v = self.toint(st, c, 1)
            if v.__class__ is Lin:
                c = self.mkcmp(st, 'ne', v, 0, 1)
                if c.__class__ is not Cond: return [st] if bool(c) == truth else []
            else: return [st] if bool(v) == truth else []
        dnf = c.pos if truth else c.neg
        out = []
        n = len(dnf)
        for i, conj in enumerate(dnf):
            s = st if i == n - 1 else st.copy()
            if c.lossy: s.taint('undetermined condition at ' + self.loc())
            if self.apply_atoms(s, conj): out.append(s)
        return out
    def cond_lossy(self, st, c):
        if c.__class__ is not Cond: return st.st.is_lossy(c) if c.__class__ is Lin else False
        if c.lossy: return True
        for conj in c.pos:
            for k, v in conj:
                if st.st.is_lossy(v): return True
        return False
    def split(self, st, c):
        """(states where true, states where false)"""
        if c.__class__ is not Cond:
            v = self.toint(st, c, 1)
            if v.__class__ is not Lin: return ([st], []) if v else ([], [st])
            c = self.mkcmp(st, 'ne', v, 0, 1)
            if c.__class__ is not Cond: return ([st], []) if c else ([], [st])
        L = self.cond_lossy(st, c)
        st2 = st.copy()
        t = self.assume(st2, c, True)
        f = self.assume(st, c, False)
        if t and f:
            for s in t: s.nfork += 1
            for s in f: s.nfork += 1
        if t and f and L:
            why = 'branch on an imprecise value at ' + self.loc()
            for s in t: s.taint(why)
            for s in f: s.taint(why)
        return t, f

    def force(self, st, v):
        """materialise a Cond into 0/1: list of (state, Lit)"""
        if v.__class__ is not Cond: return [(st, v)]
        t, f = self.split(st, v)
        return [(s, Lit(1)) for s in t] + [(s, Lit(0)) for s in f]

    # ------------------------------------------------------------ obligations
    def oblige(self, st, rule, atoms, msg):
        """each v in atoms must be >= 0.  Returns True if the path may continue (assumed from there on)."""
        loc = self.loc()
        S = st.st
        key = (rule, loc)
        rec = self.obl.get(key)
        if rec is None: rec = self.obl[key] = [0, 0, 0]
        ok = True
        for v in atoms:
            v = S.norm(v)
            if S.prove(v): continue
            # possible violation
            st2 = S.copy()
            if not st2.add_ge(ladd(lneg(v), -1)): continue
            ok = False
            if st.lossy or S.related_lossy(v):
                rec[2] += 1
                w = st.why or 'imprecise value'
                self.taints[w] = self.taints.get(w, 0) + 1
            elif not self.confirm(st, st2):
                rec[2] += 1
            else:
                rec[1] += 1
                self.alarm(st, rule, msg() if callable(msg) else msg, loc)
            if not S.add_ge(v): return False
        if ok: rec[0] += 1
        return True
    def fail(self, st, rule, msg, lossy=False):
        loc = self.loc()
        rec = self.obl.setdefault((rule, loc), [0, 0, 0])
        if st.lossy or lossy:
            rec[2] += 1
            w = st.why or 'imprecise value'
            self.taints[w] = self.taints.get(w, 0) + 1
        elif not self.confirm(st): rec[2] += 1
        else:
            rec[1] += 1; self.alarm(st, rule, msg, loc)
    def passed(self, rule):
        rec = self.obl.setdefault((rule, self.loc()), [0, 0, 0]); rec[0] += 1
    def confirm(self, st, store=None):
        """the abstract state has a concrete member"""
        try: m = witness.model(store if store is not None else st.st)
        except RecursionError: m = None
        if m is None:
            self.taints['no concrete member found at ' + self.loc()] = self.taints.get('no concrete member found at ' + self.loc(), 0) + 1
            return False
        return True
    def alarm(self, st, rule, msg, loc):
        key = (rule, loc, msg)
        if key in self.alarms:
            self.alarms[key]['count'] += 1; return
        self.alarms[key] = dict(rule=rule, loc=loc, msg=msg, fn=self.callpath(), backtrace=self.backtrace(), trace=st.tr(), count=1)

    # ------------------------------------------------------------ memory
    def region(self, st, p, what):
        """region of a pointer for access, or None (access reported)"""
        if p is UNK or p.__class__ is not Ptr:
            st.taint('access through unknown pointer at ' + self.loc()); return None
        if p.b == 0:
            self.fail(st, 'null-dereference', what + ' through a null pointer'); return None
        if p.b < 0: return p.b
        r = st.regs.get(p.b)
        if r is None:
            if p.b in self.globals:
                self.global_ptr(st, self.globals[p.b]); return st.regs[p.b]
            self.fail(st, 'use-after-scope', what + ' of an object whose lifetime has ended'); return None
        if not r.alive:
            self.fail(st, 'use-after-free', what + ' of freed memory (%s)' % r.label); return None
        return r

    def get_str(self, st, p):
        """StrVal of the std::string object at p, or None"""
        r = self.region(st, p, 'string access')
        if r is None or r.__class__ is int: return None
        c = r.cells.get(p.o)
        if c is not None and c[1].__class__ is StrVal: return c[1]
        if p.o.__class__ is Lin:
            for o2, (s2, v2) in r.cells.items():
                if o2.__class__ is Lin and v2.__class__ is StrVal and st.st.norm(o2) == p.o: return v2
        if r.fill == 'zero':
            v = StrVal((), 0)
            self.put(st, p.b, p.o, 32, v)
            return v
        lossy = r.fill != 'unk'
        cid = new_cid('elem', lossy=lossy, base=True)
        n = sym(0, 1 << 40, 'len', lossy=lossy)
        v = StrVal((('S', cid, 0, n),), n)
        self.put(st, p.b, p.o, 32, v)
        return v
    def put(self, st, b, o, size, v):
        """write a value cell (no bounds check)"""
        r = st.wr(b)
        cells = r.cells
        c = cells.get(o)
        if c is not None and c[0] == size:
            cells[o] = (size, v)
            if o.__class__ is not Lin and size.__class__ is not Lin: 
                if r.ver == 0: return
            if r.ver == 0: return
        self.kill(st, r, o, size)
        cells[o] = (size, v)
        if o.__class__ is Lin or size.__class__ is Lin: r.ver = 1   # region has symbolic cells
    def kill(self, st, r, o, size):
        cells = r.cells
        if o.__class__ is not Lin and size.__class__ is not Lin and r.ver == 0:
            e = o + size
            dead = None
            for o2 in cells:
                s2 = cells[o2][0]
                if o2 < e and o2 + s2 > o:
                    if dead is None: dead = []
                    dead.append(o2)
            if dead is None: return
            for o2 in dead:
                s2, v2 = cells.pop(o2)
                # keep the parts of byte cells outside the overwritten range
                if (o2 < o or o2 + s2 > e) and v2.__class__ in (Bytes, int, Lit, Lin):
                    rp = self.cell_rope(s2, v2)
                    if rp is not None:
                        if o2 < o: cells[o2] = (o - o2, Bytes(self.rope_part(st, rp, s2, 0, o - o2)))
                        if o2 + s2 > e: cells[e] = (o2 + s2 - e, Bytes(self.rope_part(st, rp, s2, e - o2, o2 + s2 - e)))
            return
        S = st.st
        dead = []
        for o2, (s2, v2) in cells.items():
            if o2 == o and s2 == size: dead.append(o2); continue
            a = ladd(o, size)
            if S.prove(lsub(o2, a)) or S.prove(lsub(o, ladd(o2, s2))): continue
            dead.append(o2)
        for o2 in dead:
            s2, v2 = cells.pop(o2)
            if o2 != o or s2 != size:
                if r.fill != 'unk': r.fill = 'unk'
        if o.__class__ is Lin and r.fill == 'zero': r.fill = 'unk'
    def cell_rope(self, size, v):
        if v.__class__ is Bytes: return v.r
        if v.__class__ in (int, Lit, Lin): return (('V', size, v),)
        return None

    def check(self, st, p, size, write):
        """bounds check; returns region (or negative string-data id) or None"""
        what = 'write' if write else 'read'
        r = self.region(st, p, what)
        if r is None: return None
        if r.__class__ is int:
            b, o = SD[r]
            sv = self.get_str(st, Ptr(b, st.st.norm(o)))
            if sv is None: return None
            lim = sv.n if write else ladd(sv.n, 1)
            if not self.oblige(st, 'bounds-' + what, [p.o, lsub(lim, ladd(p.o, size))], lambda: '%s of %s byte(s) at offset %s of a string of size %s' % (what, size, p.o, sv.n)):
                return None
            return r
        if r.kind == 'vec': return r
        if p.o.__class__ is Lin or size.__class__ is Lin:
            if not self.oblige(st, 'bounds-' + what, [p.o, lsub(r.size, ladd(p.o, size))], lambda: '%s of %s byte(s) at offset %s of %s (size %s)' % (what, size, p.o, r.label or r.kind, r.size)):
                return None
        elif p.o < 0 or r.size.__class__ is Lin or p.o + size > r.size:
            if not self.oblige(st, 'bounds-' + what, [p.o, lsub(r.size, ladd(p.o, size))], lambda: '%s of %s byte(s) at offset %s of %s (size %s)' % (what, size, p.o, r.label or r.kind, r.size)):
                return None
        if write and r.ro:
            self.fail(st, 'write-to-constant', 'write to constant %s' % r.label)
        return r

    def load(self, st, p, size, ty):
        """value of type ty, or None if the path ends"""
        r = self.check(st, p, size, False)
        if r is None:
            if st.lossy: return UNK
            return None
        w = size * 8
        if r.__class__ is int:
            b, o = SD[r]
            sv = self.get_str(st, Ptr(b, st.st.norm(o)))
            return self.rope_read(st, sv.r, sv.n, p.o, size)
        return self.load_reg(st, p.b, r, p.o, size, ty)

    def load_reg(self, st, b, r, o, size, ty):
        c = r.cells.get(o)
        if c is not None and c[0] == size:
            v = c[1]
            k = v.__class__
            if k is Lin: return st.st.norm(v)
            if k is Ptr or k is Lit or k is int or k is FnP: return v
            if k is Bytes: return self.rope_read(st, v.r, size, 0, size)
            if v is UNKB:
                nv = self.fresh_val(size, ty, False)
                self.put(st, b, o, size, nv)
                return nv
            return v
        if r.ver:
            for o2, (s2, v2) in r.cells.items():
                if s2 == size and o2.__class__ is Lin and st.st.norm(o2) == o:
                    if v2.__class__ is Bytes: return self.rope_read(st, v2.r, size, 0, size)
                    return v2
        if o.__class__ is not Lin:
            # inside one cell / composed of several
            parts = []; pos = o; e = o + size; okp = True
            for o2 in sorted(x for x in r.cells if x.__class__ is not Lin):
                s2, v2 = r.cells[o2]
                if s2.__class__ is Lin:
                    if o2 <= o and st.st.prove(lsub(ladd(o2, s2), e)) and v2.__class__ is Bytes:
                        return self.rope_read(st, v2.r, s2, o - o2, size)
                    if o2 < e: okp = False
                    continue
                if o2 + s2 <= pos: continue
                if o2 >= e: break
                if o2 > pos:
                    parts.append(('gap', o2 - pos)); pos = o2
                if v2 is UNKB:
                    nv = Bytes((('S', new_cid('raw', base=True), 0, s2),))
                    self.put(st, b, o2, s2, nv); v2 = nv
                rp = self.cell_rope(s2, v2)
                take = min(o2 + s2, e) - pos
                if rp is None:
                    if v2.__class__ is Ptr or v2.__class__ is FnP or v2 is UNK or v2.__class__ is Agg or v2 is UNDEF:
                        if v2 is UNDEF: parts.append(('gap', take)); pos += take; continue
                    okp = False; break
                parts.append(self.rope_part(st, rp, s2, pos - o2, take)); pos += take
            if okp and parts:
                if pos < e: parts.append(('gap', e - pos))
                rp = ()
                for q in parts:
                    if q and q[0] == 'gap':
                        if r.fill == 'zero': q = (('L', b'\0' * q[1]),)
                        elif r.fill == 'undef': q = (('V', q[1], term('pad', (b, o), -(1 << (8 * q[1] - 1)), (1 << (8 * q[1] - 1)) - 1, lossy=True)),) if q[1] <= 8 else (('S', new_cid('pad', lossy=True), 0, q[1]),)
                        else: q = (('S', new_cid('raw', base=True), 0, q[1]),)
                    rp = rope_cat(rp, q)
                return self.rope_read(st, rp, size, 0, size)
            if not okp: return UNK
        else:
            # constant table?
            if r.ro and len(r.cells) == 1:
                (o2, (s2, v2)), = r.cells.items()
                if v2.__class__ is Bytes and rope_lit(v2.r) is not None and size == 1:
                    bs = rope_lit(v2.r)
                    lo, hi = st.st.bounds(lsub(o, o2))
                    lo = max(lo, 0); hi = min(hi, s2 - 1)
                    if lo <= hi:
                        vals = [x - 256 if x > 127 else x for x in bs[lo:hi + 1]]
                        return term('tbl', (b, o, size), min(vals), max(vals), 'tbl')
        if r.fill == 'zero' and not r.ver: 
            if o.__class__ is not Lin: return NULL if ty == 'ptr' else 0
        if r.fill == 'undef':
            if o.__class__ is Lin:
                nv = self.fresh_val(size, ty, False)
                return nv
            return UNDEF
        nv = self.fresh_val(size, ty, r.fill == 'lossy' or (r.fill == 'zero'))
        self.put(st, b, o, size, nv)
        return nv
    def fresh_val(self, size, ty, lossy):
        if ty == 'ptr': return UNK
        if ty == 'agg' or ty == 'vec': return UNK
        M = 1 << (size * 8 - 1)
        return sym(-M, M - 1, 'mem', lossy=lossy)

    def store(self, st, p, size, v):
        """False if the path ends"""
        p = self.toptr(st, p)
        r = self.check(st, p, size, True)
        if r is None: return st.lossy
        if r.__class__ is int:
            b, o = SD[r]
            o = st.st.norm(o)
            sv = self.get_str(st, Ptr(b, o))
            if v.__class__ in (int, Lit, Lin): piece = (('V', size, v),)
            elif v.__class__ is Bytes: piece = v.r
            else: piece = (('S', new_cid('w', lossy=True), 0, size),)
            nr = self.rope_write(st, sv.r, sv.n, p.o, size, piece)
            self.put(st, b, o, 32, StrVal(nr, sv.n))
            return True
        self.put(st, p.b, p.o, size, v)
        return True

    # ------------------------------------------------------------ ropes
    def rope_locate(self, st, r, pos):
        """split rope at byte position pos: (left, right) or None"""
        S = st.st
        pos = S.norm(pos)
        if pos.__class__ is not Lin and pos == 0: return (), r
        left = []; rem = pos
        start = 0
        if rem.__class__ is not Lin and len(r) > 1:
            # pieces of known length in front
            h = self.hint
            if h[0] is r and h[2] <= rem: start = h[1]; rem = rem - h[2]
            rem0 = rem; k0 = start
            for k0 in range(start, len(r)):
                p = r[k0]; t = p[0]
                L = p[1] if t == 'V' else len(p[1]) if t == 'L' else p[3]
                if L.__class__ is Lin or L > rem: break
                rem -= L
            else: k0 = len(r)
            start = k0
            if rem == 0: return r[:start], r[start:]
            left = list(r[:start])
        for i in range(start, len(r)):
            p = r[i]
            if rem.__class__ is not Lin and rem == 0: return tuple(left), r[i:]
            L = S.norm(plen(p))
            if rem == L:
                left.append(p); return tuple(left), r[i + 1:]
            d = lsub(L, rem)       # > 0 : inside p
            if d.__class__ is not Lin or S.decide_ge(d) is not None:
                if S.prove(d):
                    if S.decide_eq(d) is True:
                        left.append(p); return tuple(left), r[i + 1:]
                    # inside
                    if p[0] == 'L' and rem.__class__ is not Lin:
                        return tuple(left) + (('L', p[1][:rem]),), (('L', p[1][rem:]),) + r[i + 1:]
                    if p[0] == 'V' and rem.__class__ is not Lin:
                        return tuple(left) + (('V', rem, bitops.ext(p[2], 8 * p[1], 0, rem)),), (('V', p[1] - rem, bitops.ext(p[2], 8 * p[1], rem, p[1] - rem)),) + r[i + 1:]
                    if p[0] == 'S':
                        return tuple(left) + (('S', p[1], p[2], rem),), (('S', p[1], S.norm(ladd(p[2], rem)), d),) + r[i + 1:]
                    return None
                left.append(p); rem = S.norm(lsub(rem, L)); continue
            if S.prove(lsub(rem, L)):
                left.append(p); rem = S.norm(lsub(rem, L)); continue
            return None
        if rem.__class__ is not Lin and rem == 0: return tuple(left), ()
        if S.decide_eq(rem) is True: return tuple(left), ()
        return None
    def rope_part(self, st, r, n, pos, ln):
        """bytes pos..pos+ln of a cell of n bytes: the parts may be of lengths only the state knows"""
        for p in r:
            if p[0] == 'S' and p[3].__class__ is Lin:
                r = self.models.norm_rope(st.st, r)
                for p in r:
                    if p[0] == 'S' and p[3].__class__ is Lin: return self.rope_slice(st, r, n, pos, ln)
                break
        return rope_sl(r, pos, ln)
    def rope_slice(self, st, r, n, pos, ln):
        """content of [pos, pos+ln)"""
        S = st.st
        pos = S.norm(pos); ln = S.norm(ln)
        if ln.__class__ is not Lin and ln <= 0: return ()
        if pos.__class__ is not Lin and pos == 0 and (ln == n or S.decide_eq(lsub(ln, n)) is True): return r
        x = self.rope_locate(st, r, pos)
        if x is not None:
            if S.decide_eq(lsub(ladd(pos, ln), n)) is True: return x[1]
            y = self.rope_locate(st, x[1], ln)
            if y is not None: return y[0]
        low = rope_lower(r)
        no = self.rope_noset(r)
        if len(r) == 1 and r[0][0] == 'S':
            return (('S', r[0][1], S.norm(ladd(r[0][2], pos)), ln),)
        # a view into an interned rope: contiguous views merge again
        cid = new_cid('view', lossy=rope_lossy(r), lower=low, no=no, d=('rope', r))
        return (('S', cid, pos, ln),)
    def rope_noset(self, r):
        s = None
        for p in r:
            if p[0] == 'S': q = CIDS[p[1]].no
            elif p[0] == 'L': q = frozenset(x for x in range(256) if x not in p[1])
            else: q = frozenset()
            s = q if s is None else s & q
        return s or frozenset()
    def rope_read(self, st, r, n, pos, size):
        """integer value of size bytes at pos"""
        S = st.st
        w = size * 8
        if size == 1 and S.decide_eq(lsub(pos, n)) is True: return 0
        x = self.rope_locate(st, r, pos)
        M = 1 << (w - 1)
        if x is not None:
            right = x[1]
            need = size; parts = []
            for p in right:
                if p[0] == 'V':
                    t = min(need, p[1])
                    parts.append((t, bitops.ext(p[2], 8 * p[1], 0, t) if t != p[1] else p[2]))
                elif p[0] == 'L':
                    t = min(need, len(p[1]))
                    parts.append((t, bitops.sgn(int.from_bytes(p[1][:t], 'little'), 8 * t)))
                else:
                    L = S.norm(p[3])
                    lo = S.bounds(L)[0]
                    if L.__class__ is Lin:
                        # is it long enough?
                        t = need if S.prove(ladd(L, -need)) else 0
                    else:
                        t = min(need, L)
                        if L <= 0: continue
                    if t <= 0: parts = None; break
                    dv = CIDS[p[1]].d
                    if dv is not None and dv[0] == 'rope':
                        parts.append((t, term('byr', (self.models.norm_rope(S, dv[1]), S.norm(p[2]), t), -(1 << (8 * t - 1)), (1 << (8 * t - 1)) - 1, 'byte', lossy=CIDS[p[1]].lossy or bitops.lossy(p[2]))))
                    else: parts.append((t, bitops.content(p[1], S.norm(p[2]), t, CIDS[p[1]].lossy)))
                need -= t
                if need == 0: break
            if parts is not None and need == 0:
                if len(parts) == 1: return S.norm(parts[0][1]) if parts[0][1].__class__ is Lin else parts[0][1]
                return bitops.cat(parts)
        r = self.models.norm_rope(S, r)
        return term('byr', (r, S.norm(pos), size), -M, M - 1, 'byte', lossy=rope_lossy(r) or bitops.lossy(pos))
    def rope_write(self, st, r, n, pos, size, piece):
        S = st.st
        x = self.rope_locate(st, r, pos)
        if x is not None:
            y = self.rope_locate(st, x[1], size)
            if y is not None:
                a = x[0]; b = y[1]
                nr = a[:-1] + rope_cat(a[-1:], piece, b[:1]) + b[1:]
                if pos.__class__ is not Lin and len(a) > 1:
                    # all of a but its last piece stays where it is
                    p = a[-1]; L = p[1] if p[0] == 'V' else len(p[1]) if p[0] == 'L' else p[3]
                    if L.__class__ is not Lin: self.hint = (nr, len(a) - 1, int(pos) - int(L))
                return nr
        # position unknown: content becomes an opaque function of the old one
        cid = new_cid('mod', lossy=True)
        return (('S', cid, 0, n),)

    def read_bytes(self, st, p, n):
        """rope describing n bytes at p (bounds checked), or None"""
        S = st.st
        n = S.norm(n)
        if n.__class__ is not Lin and n == 0: return ()
        r = self.check(st, p, n, False)
        if r is None: return None
        if r.__class__ is int:
            b, o = SD[r]
            sv = self.get_str(st, Ptr(b, S.norm(o)))
            if sv is None: return None
            # may include the terminator
            if S.prove(lsub(sv.n, ladd(p.o, n))): return self.rope_slice(st, sv.r, sv.n, p.o, n)
            return self.rope_slice(st, rope_cat(sv.r, (('L', b'\0'),)), ladd(sv.n, 1), p.o, n)
        c = r.cells.get(p.o)
        if c is not None:
            if c[1] is UNKB:
                nv = Bytes((('S', new_cid('raw', base=True), 0, c[0]),))
                self.put(st, p.b, p.o, c[0], nv); c = (c[0], nv)
            if c[1].__class__ is Bytes:
                if c[0] == n: return c[1].r
                if S.prove(lsub(c[0], n)): return self.rope_slice(st, c[1].r, c[0], 0, n)
            rp = self.cell_rope(c[0], c[1])
            if rp is not None and c[0] == n: return rp
        for o2, (s2, v2) in list(r.cells.items()):
            if v2.__class__ is Bytes and S.prove(lsub(p.o, o2)) and S.prove(lsub(ladd(o2, s2), ladd(p.o, n))):
                return self.rope_slice(st, v2.r, s2, lsub(p.o, o2), n)
        if n.__class__ is not Lin and p.o.__class__ is not Lin and n <= 64:
            out = ()
            pos = p.o; e = p.o + n
            ok = True
            for o2 in sorted(x for x in r.cells if x.__class__ is not Lin):
                s2, v2 = r.cells[o2]
                if s2.__class__ is Lin: ok = False; break
                if o2 + s2 <= pos: continue
                if o2 >= e: break
                rp = self.cell_rope(s2, v2)
                if rp is None: ok = False; break
                if o2 > pos:
                    out = rope_cat(out, self.gap_rope(r, o2 - pos)); pos = o2
                t = min(o2 + s2, e) - pos
                out = rope_cat(out, self.rope_part(st, rp, s2, pos - o2, t)); pos += t
            if ok:
                if pos < e: out = rope_cat(out, self.gap_rope(r, e - pos))
                return out
        # unknown bytes
        lossy = r.fill == 'lossy' or bool(r.cells)
        cid = new_cid('raw', lossy=lossy, base=not lossy)
        return (('S', cid, 0, n),)
    def gap_rope(self, r, n):
        if r.fill == 'zero': return (('L', b'\0' * n),)
        return (('S', new_cid('raw', lossy=(r.fill != 'unk'), base=True), 0, n),)
    def write_bytes(self, st, p, n, rope):
        """bounds-checked write of a rope of length n; False if path ends"""
        S = st.st
        n = S.norm(n)
        if n.__class__ is not Lin and n == 0: return True
        r = self.check(st, p, n, True)
        if r is None: return st.lossy
        if r.__class__ is int:
            b, o = SD[r]; o = S.norm(o)
            sv = self.get_str(st, Ptr(b, o))
            nr = self.rope_write(st, sv.r, sv.n, p.o, n, rope)
            self.put(st, b, o, 32, StrVal(nr, sv.n))
            return True
        if n.__class__ is not Lin and len(rope) == 1 and rope[0][0] == 'V' and rope[0][1] == n:
            self.put(st, p.b, p.o, n, rope[0][2])
        else:
            self.put(st, p.b, p.o, n, Bytes(rope))
        return True

    def memcpy(self, st, d, s, n):
        S = st.st
        n = self.toint(st, n)
        d = self.toptr(st, d); s = self.toptr(st, s)
        nn = S.decide_ge(n)
        if nn is None:
            # size_t beyond 2^63 would be an out-of-bounds copy
            if not self.oblige(st, 'bounds-write', [n], 'copy with a size that wrapped around'): return False
        elif nn is False:
            self.fail(st, 'bounds-write', 'copy with a size that wrapped around', S.is_lossy(n)); return False
        n = S.norm(n)
        if n.__class__ is not Lin and n == 0: return True
        if S.decide_eq(n) is True: return True
        if S.decide_eq(n) is None:
            # zero-size copies are harmless: check under n >= 1 in a copy, then go on
            pass
        sr = self.region(st, s, 'read') if s.__class__ is Ptr or s is UNK else None
        if sr is None: return st.lossy
        if d.__class__ is not Ptr:
            st.taint('copy through unknown pointer'); return True
        if sr.__class__ is not int and d.b > 0 and n.__class__ is not Lin and s.o.__class__ is not Lin and d.o.__class__ is not Lin:
            # structure copy: cells move as they are
            if self.check(st, s, n, False) is None: return st.lossy
            dr = self.check(st, d, n, True)
            if dr is None: return st.lossy
            sr = st.regs[s.b]
            mv = []
            simple = True
            for o2, (s2, v2) in sr.cells.items():
                if o2.__class__ is Lin or s2.__class__ is Lin: simple = False; break
                if o2 + s2 <= s.o or o2 >= s.o + n: continue
                if o2 < s.o or o2 + s2 > s.o + n: simple = False; break
                mv.append((o2 - s.o, s2, v2))
            if simple:
                dw = st.wr(d.b)
                self.kill(st, dw, d.o, n)
                cov = 0
                for o2, s2, v2 in mv:
                    if v2 is UNKB:
                        v2 = Bytes((('S', new_cid('raw', base=True), 0, s2),))
                        self.put(st, s.b, s.o + o2, s2, v2)
                        dw = st.wr(d.b)
                    dw.cells[d.o + o2] = (s2, v2); cov += s2
                if cov < n and sr.fill != dw.fill:
                    # fill the gaps
                    pos = d.o
                    for o2, s2, v2 in sorted(mv, key=lambda x: x[0]):
                        if d.o + o2 > pos: self.gap(st, dw, sr, pos, d.o + o2 - pos)
                        pos = d.o + o2 + s2
                    if pos < d.o + n: self.gap(st, dw, sr, pos, d.o + n - pos)
                return True
        rp = self.read_bytes(st, s, n)
        if rp is None: return st.lossy
        return self.write_bytes(st, d, n, rp)
    def gap(self, st, dw, sr, o, n):
        if sr.fill == 'zero': dw.cells[o] = (n, Bytes((('L', b'\0' * n),))) if n <= 512 else (n, UNKB)
        elif sr.fill == 'undef': dw.cells[o] = (n, UNDEF)
        else: dw.cells[o] = (n, UNKB)

    # ------------------------------------------------------------ functions
    def call(self, st, fn, args):
        """fn: Fn.  returns list of (state, kind, value); kind 'ret' or 'exc'"""
        if len(self.stack) > self.max_depth: raise Unsupported('recursion too deep in ' + fn.dm)
        if fn.rpo is None: prepare(fn)
        if fn.isrepo: self.analysed.add(fn.dm)
        self.fcalls[fn.n] = self.fcalls.get(fn.n, 0) + 1
        ent = [fn, None]
        if fn.va: self.varargs[id(ent)] = args[fn.na:]
        self.stack.append(ent)
        try:
            return self.run(st, fn, args, ent)
        finally:
            self.stack.pop()
            if fn.va: self.varargs.pop(id(ent), None)

    def run(self, st, fn, args, ent):
        wm = (len(SYM_LO), cur_rid(), len(CIDS))
        env0 = [None] * fn.nv
        for i in range(fn.na):
            env0[i] = args[i] if i < len(args) else UNDEF
        outcomes = []
        heap = [(0, 0, 0, env0, st, 0)]
        seq = 0
        heads = fn.heads; rpo = fn.rpo; live = fn.live
        peel = self.peel
        if '/verif/clients' in fn.file: peel = self.opts.get('client_peel', 0)
        self.nframe = fid = getattr(self, 'nframe', 0) + 1
        hs = {}       # head -> {key: [count, [raw states], general]}
        blockcount = {}
        allocas = []
        while heap:
            _, _, bi, env, s, arrived = heapq.heappop(heap)
            if time.time() - self.t0 > self.time_limit: raise Budget('time limit in ' + fn.dm)
            ent[1] = fn.bl[bi][0]
            if arrived: env = clean_env(env, live[bi], fn.nv)
            if arrived and bi in heads:
                # everything waiting at the loop head: exact states go on one by one, the others as one join
                rb = rpo.get(bi, 0); same = []; dirty = {}
                while True:
                    self.iterate(s, fid, bi, rpo.get(arrived - 1, 0) >= rb)
                    r = self.head(fn, bi, env, s, hs, wm, peel, fid)
                    if r is not None:
                        if r.__class__ is tuple: same.append(r)
                        else: dirty[id(r)] = r
                    if not (heap and heap[0][2] == bi and heap[0][0] == rb): break
                    x = heapq.heappop(heap)
                    env = clean_env(x[3], live[bi], fn.nv); s = x[4]; arrived = x[5]
                if len(same) > self.maxmerge: same = self.merge_many(same, live[bi], wm)
                for e in dirty.values(): same.append((list(e[2][0]), e[2][1].copy()))
            elif heap and heap[0][2] == bi and len(heap) > self.maxmerge:
                # merge other pending states of the same block when there are many
                same = [(env, s)]
                while heap and heap[0][2] == bi and heap[0][0] == rpo.get(bi, 0):
                    x = heapq.heappop(heap)
                    same.append((clean_env(x[3], live[bi], fn.nv), x[4]))
                if len(same) > self.maxmerge:
                    same = self.merge_many(same, live[bi], wm)
            else: same = [(env, s)]
            for env, s in same:
                work = [(0, env, s)]
                while work:
                    idx, env, s = work.pop()
                    nxt = self.block(fn, bi, idx, env, s, ent, work, outcomes, allocas)
                    if nxt:
                        for tb, e2, s2 in nxt:
                            seq += 1
                            heapq.heappush(heap, (rpo.get(tb, 1 << 30), seq, tb, e2, s2, bi + 1))
        # scope exit
        if allocas:
            for s, k, v in outcomes:
                for b in allocas:
                    if b in s.regs: del s.regs[b]
        if len(outcomes) > self.opts.get('ret_merge', 24):
            outcomes = self.merge_outcomes(outcomes, wm)
        return outcomes

    def phis(self, fn, frm, to, env):
        bl = fn.bl[to]
        if bl[0]['o'] != 'phi': return env
        env = list(env)
        vals = []
        for i in bl:
            if i['o'] != 'phi': break
            for pb, v in i['in']:
                if pb == frm:
                    vals.append((i['d'], v)); break
        return env, vals

    def goto(self, fn, frm, to, env, s):
        bl = fn.bl[to]
        if bl[0]['o'] == 'phi':
            new = []
            for i in bl:
                if i['o'] != 'phi': break
                for pb, v in i['in']:
                    if pb == frm:
                        new.append((i['d'], self.val(s, env, v))); break
            env = list(env)
            for d, v in new: env[d] = v
        else: env = list(env)
        return (to, env, s)

    def val(self, st, env, v):
        k = v[0]
        if k == 'v': return env[v[1]]
        if k == 'i':
            if v[1] == 1: return Lit(1 if v[2] else 0)
            return Lit(v[2])
        return self.const(st, v)

    def block(self, fn, bi, idx, env, st, ent, work, outcomes, allocas):
        code = fn.bl[bi]
        n = len(code)
        while idx < n:
            i = code[idx]
            ent[1] = i
            o = i['o']
            self.steps += 1
            if o == 'phi':
                idx += 1; continue
            if o == 'load':
                a = i['a'][0]
                p = self.toptr(st, env[a[1]] if a[0] == 'v' else self.const(st, a))
                v = self.load(st, p, i['sz'], i['t'])
                if v is None: return None
                t = i['t']
                if t == 'ptr' and v.__class__ is not Ptr and v is not UNK: v = self.toptr(st, v)
                elif t[0] == 'i' and v.__class__ in (Ptr, FnP): v = self.toint(st, v)
                env[i['d']] = v
                idx += 1; continue
            if o == 'store':
                a, b = i['a']
                v = self.val(st, env, a); p = self.val(st, env, b)
                if v.__class__ is Cond:
                    fs = self.force(st, v)
                    for s2, v2 in fs[1:]:
                        e2 = list(env)
                        if self.store(s2, p, i['sz'], v2): work.append((idx + 1, e2, s2))
                    st, v = fs[0]
                if v.__class__ is Agg:
                    v = UNK
                if not self.store(st, p, i['sz'], v): return None
                idx += 1; continue
            if o == 'getelementptr':
                p = self.toptr(st, self.val(st, env, i['b']))
                if p is UNK or p.__class__ is not Ptr or 'bad' in i: env[i['d']] = UNK
                else:
                    off = ladd(p.o, i['c'])
                    for x, sc, xt in i['x']:
                        xv = self.toint(st, self.val(st, env, x))
                        off = ladd(off, lscale(xv, sc))
                    env[i['d']] = Ptr(p.b, st.st.norm(off))
                idx += 1; continue
            if o == 'br':
                if 'c' not in i:
                    return [self.goto(fn, bi, i['s'][0], env, st)]
                c = self.val(st, env, i['c'])
                t, f = self.split(st, c)
                if t and f and 'l' in i and (fn.isrepo or fn.ismodel):
                    nt = '%s:%d' % (self.p.files[i['l'][0]].replace('/repo/', ''), i['l'][1])
                    for s2 in t: s2.note(nt + ' true')
                    for s2 in f: s2.note(nt + ' false')
                out = []
                for s2 in t: out.append(self.goto(fn, bi, i['s'][0], env, s2))
                for s2 in f: out.append(self.goto(fn, bi, i['s'][1], env, s2))
                return out
            if o == 'call' or o == 'invoke':
                res = self.docall(fn, i, env, st, allocas)
                if o == 'call':
                    first = None
                    for s2, k, v in res:
                        if k == 'ret':
                            if first is None: first = (s2, v)
                            else:
                                e2 = list(env)
                                if 'd' in i: e2[i['d']] = v
                                work.append((idx + 1, e2, s2))
                        else: outcomes.append((s2, k, v))
                    if first is None: return None
                    st, v = first
                    if 'd' in i: env[i['d']] = v
                    idx += 1; continue
                out = []
                for s2, k, v in res:
                    e2 = list(env)
                    if k == 'ret':
                        if 'd' in i: e2[i['d']] = v
                        out.append(self.goto(fn, bi, i['nb'], e2, s2))
                    else:
                        s2.exc = s2.exc + (v,)
                        out.append(self.goto(fn, bi, i['ub'], e2, s2))
                return out
            if o == 'ret':
                v = self.val(st, env, i['a'][0]) if i['a'] else None
                outcomes.append((st, 'ret', v))
                return None
            if o == 'unreachable': return None
            if o == 'resume':
                e = st.exc[-1]; st.exc = st.exc[:-1]
                outcomes.append((st, 'exc', e))
                return None
            if o == 'landingpad':
                env[i['d']] = self.landingpad(st, i)
                idx += 1; continue
            if o == 'switch':
                v = self.toint(st, self.val(st, env, i['c']), i['w'])
                out = []
                cur = st
                if v.__class__ is not Lin:
                    for cv, b in i['cs']:
                        if cv == v: return [self.goto(fn, bi, b, env, st)]
                    return [self.goto(fn, bi, i['df'], env, st)]
                L = st.st.is_lossy(v)
                for cv, b in i['cs']:
                    d = lsub(v, cv)
                    q = cur.st.decide_eq(d)
                    if q is False: continue
                    s2 = cur.copy()
                    if s2.st.add_eq(d):
                        if L: s2.taint('switch on an imprecise value at ' + self.loc())
                        if fn.isrepo and 'l' in i: s2.note('%s:%d case %d' % (self.p.files[i['l'][0]].replace('/repo/', ''), i['l'][1], cv))
                        out.append(self.goto(fn, bi, b, env, s2))
                    if not cur.st.add_ne(d): cur = None; break
                if cur is not None:
                    if L: cur.taint('switch on an imprecise value at ' + self.loc())
                    out.append(self.goto(fn, bi, i['df'], env, cur))
                return out
            if o == 'alloca':
                cnt = self.val(st, env, i['n'])
                sz = i['sz'] * (int(cnt) if cnt.__class__ is not Lin else 1)
                r = Reg('alloca', sz, 'undef', i.get('nm') or i.get('ty', ''))
                b = st.add(r); allocas.append(b)
                env[i['d']] = Ptr(b, 0)
                idx += 1; continue
            # arithmetic and the rest: may fork
            res = self.arith(i, o, env, st)
            s0 = None
            for s2, v in res:
                if s0 is None: s0 = (s2, v)
                else:
                    e2 = list(env); e2[i['d']] = v
                    work.append((idx + 1, e2, s2))
            if s0 is None: return None
            st, v = s0
            env[i['d']] = v
            idx += 1
        return None

    # ------------------------------------------------------------ arithmetic
    def wrap(self, st, e, w):
        S = st.st
        e = S.norm(e)
        M = 1 << (w - 1)
        if e.__class__ is not Lin:
            if -M <= e < M: return [(st, e)]
            return [(st, (e + M) % (2 * M) - M)]
        lo, hi = S.bounds(e)
        if lo >= -M and hi < M: return [(st, e)]
        if w == 32 and self.opts.get('words'): return [(st, sym(-M, M - 1, 'word', lossy=True))]
        if S.prove(ladd(e, M)) and S.prove(lsub(M - 1, e)): return [(st, e)]
        k0 = (lo + M) // (2 * M); k1 = (hi + M) // (2 * M)
        if k1 - k0 <= 2:
            out = []
            for k in range(k0, k1 + 1):
                v = ladd(e, -k * 2 * M)
                s = st if k == k1 else st.copy()
                if s.st.add_ge(ladd(v, M)) and s.st.add_ge(lsub(M - 1, v)): out.append((s, s.st.norm(v)))
            return out
        t = term('wrap', (e, w), -M, M - 1, 'wrap', lossy=False)
        k = term('wrapk', (e, w), k0, k1, 'k')
        if not S.add_eq(lsub(e, ladd(t, lscale(k, 2 * M)))): return []
        return [(st, S.norm(t))]

    def arith(self, i, o, env, st):
        S = st.st
        if o == 'icmp':
            a = self.val(st, env, i['a'][0]); b = self.val(st, env, i['a'][1])
            ct = i['ct']
            if ct == 'ptr': return [(st, self.ptrcmp(st, i['p'], a, b))]
            if ct == 'i1':
                out = []
                for s1, av in self.force(st, a):
                    for s2, bv in self.force(s1, b):
                        av2 = self.toint(s2, av, 1); bv2 = self.toint(s2, bv, 1)
                        out.append((s2, self.mkcmp(s2, i['p'], av2, bv2, 1)))
                return out
            w = wbits(ct)
            if a is UNDEF or b is UNDEF: self.undef_use(st)
            return [(st, self.mkcmp(st, i['p'], self.toint(st, a, w), self.toint(st, b, w), w))]
        t = i['t']
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a = self.val(st, env, i['a'][0]); b = self.val(st, env, i['a'][1])
            w = wbits(t)
            if w == 1:
                return self.bool_op(st, o, a, b)
            if a.__class__ is Cond or b.__class__ is Cond:
                out = []
                for s1, av in self.force(st, a):
                    for s2, bv in self.force(s1, b):
                        out += self.binop(s2, o, self.toint(s2, av, w), self.toint(s2, bv, w), w)
                return out
            return self.binop(st, o, self.toint(st, a, w), self.toint(st, b, w), w)
        if o in ('zext', 'sext', 'trunc'):
            a = self.val(st, env, i['a'][0])
            wf = wbits(i['ft']); wt = wbits(t)
            if wf == 1:
                out = []
                for s1, av in self.force(st, a):
                    av = self.toint(s1, av, 1)
                    if av.__class__ is Lin:
                        tt, ff = self.split(s1, self.mkcmp(s1, 'ne', av, 0, 1))
                        for x in tt: out.append((x, Lit(1 if o == 'zext' else -1)))
                        for x in ff: out.append((x, Lit(0)))
                    else: out.append((s1, Lit(0 if not av else (1 if o == 'zext' else -1))))
                return out
            if a.__class__ is Cond:
                if wt == 1: return [(st, a)]
                out = []
                for s1, av in self.force(st, a): out.append((s1, av))
                return out
            if o == 'sext': return [(st, self.toint(st, a, wf))]
            a = self.toint(st, a, wf)
            if o == 'zext': return self.zext(st, a, wf, wt)
            return self.trunc(st, a, wf, wt)
        if o == 'select':
            c = self.val(st, env, i['a'][0]); x = self.val(st, env, i['a'][1]); y = self.val(st, env, i['a'][2])
            if t == 'i1':
                if x.__class__ in (Lit, int) and y.__class__ in (Lit, int):
                    if x and not y: return [(st, c)]
                tt, ff = self.split(st, c)
                return [(s, x) for s in tt] + [(s, y) for s in ff]
            tt, ff = self.split(st, c)
            return [(s, x) for s in tt] + [(s, y) for s in ff]
        if o == 'extractvalue':
            a = self.val(st, env, i['a'][0])
            for k in i['ix']:
                if a.__class__ is Agg and k < len(a.v): a = a.v[k]
                else: a = UNK
            if t == 'ptr' and a.__class__ in (int, Lit, Lin): a = self.toptr(st, a)
            return [(st, a)]
        if o == 'insertvalue':
            a = self.val(st, env, i['a'][0]); v = self.val(st, env, i['a'][1])
            if a.__class__ is Agg: l = list(a.v)
            else: l = [UNDEF] * max(i['n'], i['ix'][0] + 1)
            if len(i['ix']) == 1: l[i['ix'][0]] = v
            else: l[i['ix'][0]] = UNK
            return [(st, Agg(l))]
        if o == 'ptrtoint': return [(st, self.toint(st, self.val(st, env, i['a'][0])))]
        if o == 'inttoptr': return [(st, self.toptr(st, self.val(st, env, i['a'][0])))]
        if o in ('bitcast', 'freeze', 'addrspacecast'): return [(st, self.val(st, env, i['a'][0]))]
        if o == 'atomicrmw':
            p = self.toptr(st, self.val(st, env, i['a'][0])); v = self.val(st, env, i['a'][1])
            old = self.load(st, p, i['sz'], t)
            if old is None: return []
            w = wbits(t) if t[0] == 'i' else 64
            oi = self.toint(st, old, w)
            rop = i['rop']
            out = []
            if rop in ('add', 'sub', 'and', 'or', 'xor'):
                for s2, nv in self.binop(st, rop, oi, self.toint(st, v, w), w):
                    if self.store(s2, p, i['sz'], nv): out.append((s2, oi))
            else:
                if self.store(st, p, i['sz'], v if rop == 'xchg' else UNK): out.append((st, old))
            return out
        if o == 'cmpxchg':
            st.taint('cmpxchg'); return [(st, UNK)]
        if o == 'fence': return [(st, None)]
        if o in ('fcmp',): return [(st, lossy_cond())]
        if t.startswith('i') and t[1:].isdigit():
            w = wbits(t)
            return [(st, sym(-(1 << (w - 1)), (1 << (w - 1)) - 1, o, lossy=True))]
        return [(st, UNK)]

    def undef_use(self, st):
        self.fail(st, 'uninitialised', 'decision on an uninitialised value')
        st.taint('uninitialised value')

    def bool_op(self, st, o, a, b):
        if o == 'xor':
            if b.__class__ in (Lit, int):
                if b:
                    if a.__class__ is Cond: return [(st, a.inv())]
                    a = self.toint(st, a, 1)
                    if a.__class__ is Lin: return [(st, self.mkcmp(st, 'eq', a, 0, 1))]
                    return [(st, Lit(0 if a else 1))]
                return [(st, a)]
        out = []
        for s1, av in self.force(st, a):
            for s2, bv in self.force(s1, b):
                av2 = self.toint(s2, av, 1); bv2 = self.toint(s2, bv, 1)
                if av2.__class__ is Lin or bv2.__class__ is Lin: out.append((s2, lossy_cond())); continue
                r = {'and': av2 & bv2, 'or': av2 | bv2, 'xor': av2 ^ bv2}.get(o)
                out.append((s2, Lit(r & 1)) if r is not None else (s2, lossy_cond()))
        return out

    def zext(self, st, a, wf, wt):
        if a.__class__ is not Lin: return [(st, a if a >= 0 else int(a) + (1 << wf))]
        S = st.st
        q = S.decide_ge(a)
        if q is True: return [(st, a)]
        if q is False: return [(st, ladd(a, 1 << wf))]
        if wf <= 16:
            return [(st, bitops.zext(a, wf))]
        s2 = st.copy(); out = []
        if st.st.add_ge(a): out.append((st, st.st.norm(a)))
        if s2.st.add_ge(ladd(lneg(a), -1)): out.append((s2, s2.st.norm(ladd(a, 1 << wf))))
        return out
    def trunc(self, st, a, wf, wt):
        if wt == 1:
            if a.__class__ is not Lin: return [(st, Lit(a & 1))]
            lo, hi = st.st.bounds(a)
            if lo >= 0 and hi <= 1: return [(st, self.mkcmp(st, 'ne', a, 0, 8))]
            d = bitops.bit(a, 0)
            if d is not None and d[0] == 'c': return [(st, Lit(d[1]))]
            t = bitops.field(a, wf, 0, 1)
            if t.__class__ is not Lin: return [(st, Lit(t))]
            return [(st, self.mkcmp(st, 'ne', st.st.norm(t), 0, 8))]
        if a.__class__ is not Lin:
            M = 1 << (wt - 1)
            return [(st, (int(a) + M) % (2 * M) - M if not -M <= a < M else a)]
        S = st.st
        M = 1 << (wt - 1)
        lo, hi = S.bounds(a)
        if lo >= -M and hi < M: return [(st, a)]
        if wt % 8 == 0:
            e = bitops.ext(a, wf, 0, wt // 8)
            d = defn(e)
            if not (d is not None and d[0] == 'ext' and d[1] == a): return [(st, S.norm(e))]
        k0 = (lo + M) // (2 * M); k1 = (hi + M) // (2 * M)
        if k1 - k0 <= 2 and wt >= 32: return self.wrap(st, a, wt)
        if wt % 8 == 0:
            t = bitops.ext(a, wf, 0, wt // 8)
            if wt >= 32:
                k = term('wrapk', (a, wt), k0, k1, 'k')
                if not S.add_eq(lsub(a, ladd(t, lscale(k, 2 * M)))): return []
            return [(st, S.norm(t))]
        return self.wrap(st, a, wt)

    def binop(self, st, o, a, b, w):
        S = st.st
        ca = a.__class__ is not Lin; cb = b.__class__ is not Lin
        M = 1 << (w - 1)
        if o == 'add': return self.wrap(st, ladd(a, b), w)
        if o == 'sub': return self.wrap(st, lsub(a, b), w)
        if o == 'mul':
            if cb: return self.wrap(st, lscale(a, b), w)
            if ca: return self.wrap(st, lscale(b, a), w)
            la, ha = S.bounds(a); lb, hb = S.bounds(b)
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
            if lo < -M or hi >= M: lo, hi = -M, M - 1
            return [(st, S.norm(term('mul', tuple(sorted((a, b), key=repr)), lo, hi, lossy=True)))]
        if ca and cb:
            a = int(a); b = int(b)
            ua = a & (2 * M - 1); ub = b & (2 * M - 1)
            r = None
            if o == 'and': r = ua & ub
            elif o == 'or': r = ua | ub
            elif o == 'xor': r = ua ^ ub
            elif o == 'shl': r = ua << ub if ub < w else 0
            elif o == 'lshr': r = ua >> ub if ub < w else 0
            elif o == 'ashr': r = a >> ub if ub < w else 0
            elif b != 0:
                if o == 'udiv': r = ua // ub
                elif o == 'urem': r = ua % ub
                elif o == 'sdiv': r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                elif o == 'srem': r = abs(a) % abs(b) * (-1 if a < 0 else 1)
            else:
                self.fail(st, 'division-by-zero', 'division by zero'); return []
            r &= 2 * M - 1
            return [(st, r - 2 * M if r >= M else r)]
        if o in ('udiv', 'sdiv', 'urem', 'srem'):
            if cb and b > 0:
                if o in ('sdiv', 'udiv') and a.c % b == 0 and all(k % b == 0 for s, k in a.t) and (o == 'sdiv' or S.prove(a)):
                    return [(st, mk(a.c // b, {s: k // b for s, k in a.t}))]
                q = S.decide_ge(a)
                if q is None:
                    s2 = st.copy(); out = []
                    if st.st.add_ge(a): out += self.divpos(st, o, st.st.norm(a), int(b))
                    if s2.st.add_ge(ladd(lneg(a), -1)):
                        if o[0] == 'u':
                            out += self.divpos(s2, o, s2.st.norm(ladd(a, 1 << w)), int(b))
                        else:
                            lo, hi = s2.st.bounds(a)
                            if o == 'sdiv': out.append((s2, term('sdivn', (a, int(b)), -((-lo) // b), 0)))
                            else: out.append((s2, term('sremn', (a, int(b)), -(b - 1), 0)))
                    return out
                if q is True: return self.divpos(st, o, a, int(b))
                if o[0] == 'u': return self.divpos(st, o, S.norm(ladd(a, 1 << w)), int(b))
                lo, hi = S.bounds(a)
                if o == 'sdiv': return [(st, term('sdivn', (a, int(b)), -((-lo) // b), 0))]
                return [(st, term('sremn', (a, int(b)), -(b - 1), 0))]
            z = S.decide_eq(b)
            if z is not False:
                if not self.oblige_ne(st, b): return []
            return [(st, S.norm(term(o, (a, b), -M, M - 1, lossy=True)))]
        if o == 'shl' and cb and 0 <= b < w:
            e = lscale(a, 1 << int(b))
            lo, hi = S.bounds(e)
            if lo >= -M and hi < M: return [(st, e)]
            return [(st, S.norm(bitops.term_shl(a, int(b), w)))]
        if o in ('lshr', 'ashr') and cb and 0 <= b < w:
            q = S.decide_ge(a)
            if q is True or o == 'ashr':
                lo, hi = S.bounds(a)
                if lo >> b == hi >> b: return [(st, lo >> int(b))]
                t = bitops.term_shr(o if q is not True else 'lshr', a, int(b), w, lo >> b, hi >> b)
                t = S.norm(t)
                if len(a.t) == 1 or True:
                    d = lsub(a, lscale(t, 1 << int(b)))
                    if not S.add_ge(d) or not S.add_ge(lsub((1 << int(b)) - 1, d)): return []
                return [(st, S.norm(t))]
            if q is False: lo, hi = S.bounds(ladd(a, 1 << w)); return [(st, bitops.term_shr('lshr', a, int(b), w, max(lo, 0) >> b, hi >> b))]
            return [(st, S.norm(bitops.term_shr('lshr', a, int(b), w, 0, ((1 << w) - 1) >> int(b))))]
        if w == 32 and self.opts.get('words') and (o != 'and' or b.__class__ is Lin and a.__class__ is Lin): return [(st, sym(-(1 << 31), (1 << 31) - 1, 'word', lossy=True))]
        return bitops.bit_op(self, st, o, a, b, w)
    def oblige_ne(self, st, b):
        S = st.st
        s2 = S.copy()
        if s2.add_eq(b):
            if st.lossy or S.related_lossy(b): pass
            else: self.fail(st, 'division-by-zero', 'possible division by zero')
        return S.add_ne(b)
    def divpos(self, st, o, a, b):
        S = st.st
        if a.__class__ is not Lin: return [(st, a // b if 'div' in o else a % b)]
        lo, hi = S.bounds(a); lo = max(lo, 0)
        q = S.norm(term('div', (a, b), 0, (1 << 64) // b))
        if q.__class__ is Lin and len(q.t) == 1:
            if not S.set_bound(q.t[0][0], lo // b, hi // b): return []
            q = S.norm(q)
        r = S.norm(lsub(a, lscale(q, b)))
        if not S.add_ge(r) or not S.add_ge(lsub(b - 1, r)): return []
        return [(st, S.norm(q if 'div' in o else r))]

    # ------------------------------------------------------------ exceptions
    def ti_bases(self, n):
        """mangled typeinfo name (without _ZTI) -> list of bases"""
        if n in STD_BASES: return STD_BASES[n]
        v = self.p.vars.get('_ZTI' + n)
        if v is None or 'init' not in v: return []
        out = []
        for off, size, val in v['init']:
            if off >= 16 and val[0] == 'g' and val[1].startswith('_ZTI'): out.append(val[1][4:])
        return out
    def ti_isa(self, n, t):
        if n == t: return True
        return any(self.ti_isa(x, t) for x in self.ti_bases(n))
    def tid(self, n):
        if not hasattr(self, '_tids'): self._tids = {}
        return self._tids.setdefault(n, len(self._tids) + 1)
    def landingpad(self, st, i):
        e = st.exc[-1]        # (typename, ptr)
        sel = 0
        for k, v in i['cc']:
            if k == 'catch':
                if v[0] == 'n': sel = self.tid('*'); break
                if v[0] == 'g':
                    t = v[1][4:]
                    if self.ti_isa(e[0], t): sel = self.tid(t); break
            else: 
                sel = -1
        return Agg([e[1] if e[1] is not None else NULL, Lit(sel)])

    # ------------------------------------------------------------ calls
    def docall(self, fn, i, env, st, allocas):
        f = i['f']
        args = [self.val(st, env, a) if a[0] != 'md' else None for a in i['a']]
        if f[0] == 'asm':
            return [(st, 'ret', UNK)]
        tgt = self.val(st, env, f)
        if tgt.__class__ is not FnP:
            tgt = self.toptr(st, tgt)
        if tgt.__class__ is not FnP:
            if tgt.__class__ is Ptr and tgt.b == 0:
                self.fail(st, 'null-dereference', 'call through a null function pointer'); return []
            st.taint('call through an unknown function pointer at ' + self.loc())
            return [(st, 'ret', self.unk_ret(i['t']))]
        # Conds as arguments become 0/1
        for k, a in enumerate(args):
            if a.__class__ is Cond:
                out = []
                for s2, v in self.force(st, a):
                    e2 = list(args); e2[k] = v
                    out += self.invoke(s2, tgt.n, e2, i)
                return out
        for k, sz in enumerate(i['at']):
            if sz:
                # byval: private copy
                r = Reg('alloca', sz, 'undef', 'byval')
                b = st.add(r); allocas.append(b)
                if not self.memcpy(st, Ptr(b, 0), args[k], sz): return []
                args[k] = Ptr(b, 0)
        return self.invoke(st, tgt.n, args, i)
    def unk_ret(self, t, lossy=True):
        if t == 'void': return None
        if t == 'i1': return lossy_cond()
        if t[0] == 'i' and t[1:].isdigit():
            w = int(t[1:]); return sym(-(1 << (w - 1)), (1 << (w - 1)) - 1, 'ret', lossy=lossy)
        return UNK

    def invoke(self, st, name, args, i):
        m = self.model_cache.get(name, 0)
        if m == 0:
            F = self.p.fns.get(name)
            dm = F.dm if F is not None else self.p.decls.get(name, (name,))[0]
            m = None
            if self.opts.get('uninterp'): m = self.models.uninterpreted(dm, self.opts['uninterp'])
            if m is None: m = self.models.lookup(name, dm, F is not None)
            self.model_cache[name] = m
        if m is not None:
            r = m(self, st, args, i, name)
            if len(r) > 1:
                for x in r: x[0].nfork += 1
            return r
        F = self.p.fns.get(name)
        if F is not None:
            return self.call(st, F, args)
        dm, rt, nr = self.p.decls[name]
        self.unmodelled[dm] = self.unmodelled.get(dm, 0) + 1
        if nr: return []
        st.taint('call of unmodelled ' + dm[:80])
        for a in args:
            p = self.toptr(st, a) if a.__class__ in (Ptr,) else None
            if p is not None and p.b > 0 and p.b in st.regs and not st.regs[p.b].ro:
                r = st.wr(p.b)
                if r.kind != 'global': r.cells = {}; r.fill = 'lossy'; r.ver = 0
        return [(st, 'ret', self.unk_ret(i['t']))]

    def call_by_name(self, st, name, args):
        F = self.p.fns.get(name)
        return self.call(st, F, args)

    # ------------------------------------------------------------ joins
    def shape(self, env, lv, st, wm):
        rwm = wm[1]
        num = {}; queue = []
        def rid(b):
            if b <= rwm:
                if b >= 0: return b
                x = num.get(b)
                if x is None:
                    r, o = SD[b]
                    x = ('s', rid(r), o if o.__class__ is not Lin else 'L')
                    num[b] = x
                return x
            x = num.get(b)
            if x is None:
                x = num[b] = ('n', len(num)); queue.append(b)
            return x
        def sv(v):
            c = v.__class__
            if c is Lit: return v
            if c is Ptr: return ('p', rid(v.b))
            if c is FnP: return v.n
            if c is Agg: return tuple(sv(x) for x in v.v)
            if c is Cond: return 'c'
            if v is UNDEF: return 'u'
            if v is UNK: return 'k'
            return 'i'
        k = [sv(env[x]) for x in lv]
        for e in st.exc: k.append(e[0])
        for e in st.caught: k.append(e[0])
        k.append(st.lossy); k.append(st.facts); k.append(len(st.exc))
        def reg(b, r):
            k.append((rid(b), r.alive))
            if r.kind == 'heaparr' or not r.alive: return
            for o in sorted(x for x in r.cells if x.__class__ is not Lin):
                v = r.cells[o][1]
                c = v.__class__
                if c is Lit: k.append((o, v))
                elif c is Ptr: k.append((o, 'p', rid(v.b)))
                elif c is FnP: k.append((o, v.n))
                elif c is StrVal: k.append((o, 'S'))
                elif c is MapVal:
                    k.append((o, 'M', len(v.e)))
                    for kk, r2 in v.e: rid(r2)
        for b in sorted(st.regs):
            if b > rwm: continue
            r = st.regs[b]
            if r.ro: continue
            if b in self.globals and not r.cells: continue
            reg(b, r)
        i = 0
        while i < len(queue):
            b = queue[i]; i += 1
            r = st.regs.get(b)
            if r is not None and not r.ro: reg(b, r)
        return tuple(k)

    def iterate(self, s, fid, bi, back):
        # iterations of a path that it was free to take or leave count; the ones that could not go otherwise do not
        d = dict(s.iters); k = (fid, bi)
        n, nf, total, _ = d.get(k, (0, 0, 0, False)) if back else (0, s.nfork, 0, False)
        fk = s.nfork != nf
        d[k] = (n + 1 if fk else n, s.nfork, total + 1, fk)
        s.iters = d
    def head(self, fn, bi, env, s, hs, wm, peel, fid=0):
        lv = fn.live[bi]
        H = hs.setdefault(bi, {})
        n, nf, total, fk = s.iters[(fid, bi)]
        if not fk and not s.lossy and total < self.opts.get('straight_cap', 3000): return env, s
        key = hash(self.shape(env, lv, s, wm))
        e = H.get(key)
        if e is None:
            if len(H) > self.opts.get('max_part', 400):
                # too many partitions: give up precision, tell the user
                raise Budget('too many partitions in ' + fn.dm)
            e = H[key] = [0, [], None, 0]
        from join import subsumes, join, forget
        for (e2, s2) in e[1]:
            if subsumes(self, e2, s2, env, s, lv, wm): return None
        if e[2] is not None and subsumes(self, e[2][0], e[2][1], env, s, lv, wm): return None
        exact = e[0] < (peel if s.lossy else self.opts.get('exact_cap', 24)) and n < peel
        if self.opts.get('drop') and (s.lossy or not exact):
            # bounded driver: longer paths are left to other drivers, and reported as not followed
            k = 'loop at %s followed for %d free iterations' % (self.loc(), peel)
            self.dropped[k] = self.dropped.get(k, 0) + 1
            return None
        if exact or e[2] is None:
            s2 = s.copy()
            if exact:
                e[0] += 1
                e[1].append((list(env), s2))
                return env, s
            e[2] = (list(env), s2)
            return e
        r = join(self, e[2][0], e[2][1], env, s, lv, wm, e[3])
        e[3] += 1
        if e[3] > 3: forget(r[0], r[1], lv, wm)
        e[2] = (list(r[0]), r[1].copy())
        return e

    def merge_many(self, same, lv, wm):
        from join import subsumes, join
        ex = []; lo = {}
        for env, s in same:
            if not s.lossy:
                if not any(subsumes(self, e2, s2, env, s, lv, wm) for e2, s2 in ex): ex.append((env, s))
        keep = self.opts.get('exact_keep', 96)
        if len(ex) > keep:
            # the ones that were reached first stay apart
            if self.opts.get('drop'): keep //= 4
            for env, s in ex[keep:]: lo.setdefault(hash(self.shape(env, lv, s, wm)), []).append((env, s))
            ex = ex[:keep]
        for env, s in same:
            if s.lossy: lo.setdefault(hash(self.shape(env, lv, s, wm)), []).append((env, s))
        out = list(ex)
        for g in lo.values():
            acc = g[0]
            for x in g[1:]:
                if subsumes(self, acc[0], acc[1], x[0], x[1], lv, wm): continue
                acc = join(self, acc[0], acc[1], x[0], x[1], lv, wm, 0)
            out.append(acc)
        return out
    def merge_outcomes(self, outs, wm):
        from join import subsumes, join
        def pl(o):
            k, v = o[1], o[2]
            if k == 'exc' or v is None or v is UNK or v is UNDEF or v.__class__ in (Agg, Cond): return None
            return [v]
        groups = {}
        for o in outs:
            s, k, v = o
            groups.setdefault((k, v[0] if k == 'exc' else shape_val(v), hash(self.shape([], [], s, wm))), []).append(o)
        res = []
        nexact = 0
        for g in groups.values():
            ex = []
            pv = g[0][2]
            if g[0][1] != 'exc' and pv is not None and pl(g[0]) is None:
                res += g; continue
            lv = [] if pl(g[0]) is None else [0]
            for o in g:
                if not o[0].lossy and not any(subsumes(self, pl(x) or [], x[0], pl(o) or [], o[0], lv, wm) for x in ex): ex.append(o)
            lo = [o for o in g if o[0].lossy]
            if nexact + len(ex) > self.opts.get('exact_keep', 96): lo += ex; ex = []
            nexact += len(ex)
            res += ex
            acc = None
            for o in lo:
                if any(subsumes(self, pl(x) or [], x[0], pl(o) or [], o[0], lv, wm) for x in ex): continue
                if acc is None: acc = (pl(o) or [], o[0]); k = o[1]; v = o[2]; continue
                if subsumes(self, acc[0], acc[1], pl(o) or [], o[0], lv, wm): continue
                acc = join(self, acc[0], acc[1], pl(o) or [], o[0], lv, wm, 0)
            if acc is not None: res.append((acc[1], k, acc[0][0] if acc[0] else v))
        return res

def shape_val(v):
    c = v.__class__
    if c is Lit: return v
    if c is Ptr: return ('p', v.b)
    if c is FnP: return v.n
    if c is Agg: return tuple(shape_val(x) for x in v.v)
    if c is Cond: return 'c'
    return 'i'

def clean_env(env, lv, n):
    e = [None] * n
    for x in lv: e[x] = env[x]
    return e

def rope_sl(r, pos, ln):
    """slice of a rope with concrete lengths"""
    out = []
    for p in r:
        L = plen(p)
        if pos >= L: pos -= L; continue
        t = min(L - pos, ln)
        if p[0] == 'L': out.append(('L', p[1][pos:pos + t]))
        elif p[0] == 'V': out.append(('V', t, bitops.ext(p[2], 8 * p[1], pos, t)) if t != p[1] else p)
        else: out.append(('S', p[1], ladd(p[2], pos), t))
        ln -= t; pos = 0
        if ln <= 0: break
    return rope_cat(tuple(out))
