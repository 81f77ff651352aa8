"""Abstract states: values, memory regions, string contents (ropes), containers."""
from dom import *

class Ptr:
    __slots__ = ('b', 'o')
    def __init__(self, b, o): self.b = b; self.o = o
    def __eq__(self, x): return x.__class__ is Ptr and x.b == self.b and x.o == self.o
    def __hash__(self): return hash((self.b, self.o))
    def __repr__(self): return 'P(%s,%s)' % (self.b, self.o)
NULL = Ptr(0, 0)

class FnP:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __eq__(self, x): return x.__class__ is FnP and x.n == self.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return 'F(%s)' % self.n

class _S:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
UNDEF = _S('undef')      # uninitialised
UNK = _S('unk')          # imprecise (lossy) value of any type
UNKB = _S('unkb')        # unknown but exact bytes

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = tuple(v)
    def __repr__(self): return 'A%r' % (self.v,)
    def __eq__(self, o): return o.__class__ is Agg and o.v == self.v
    def __hash__(self): return hash(self.v)

class Cond:
    """boolean with disjunctive normal forms of its truth and its falsity"""
    __slots__ = ('pos', 'neg', 'lossy')
    def __init__(self, pos, neg, lossy=False): self.pos = pos; self.neg = neg; self.lossy = lossy
    def inv(self): return Cond(self.neg, self.pos, self.lossy)
    def __repr__(self): return 'C%r' % (self.pos,)
def lossy_cond(): return Cond([[]], [[]], True)
def free_cond(): return Cond([[]], [[]], False)

class Bytes:
    """cell value: raw bytes described by a rope"""
    __slots__ = ('r',)
    def __init__(self, r): self.r = r
    def __eq__(self, o): return o.__class__ is Bytes and o.r == self.r
    def __hash__(self): return hash(self.r)
    def __repr__(self): return 'Bytes%r' % (self.r,)

# ------------------------------------------------------------------ contents
CIDS = []   # attributes of opaque contents
CIDDEF = {}
class Cid:
    __slots__ = ('lossy', 'lower', 'no', 'd', 'base', 'name')
def new_cid(name='', lossy=False, lower=False, no=frozenset(), base=False, d=None):
    if d is not None:
        r = CIDDEF.get(d)
        if r is not None: return r
    c = Cid(); c.lossy = lossy; c.lower = lower; c.no = no; c.base = base; c.d = d; c.name = name
    CIDS.append(c)
    if d is not None: CIDDEF[d] = len(CIDS) - 1
    return len(CIDS) - 1

def plen(p):
    k = p[0]
    if k == 'L': return len(p[1])
    if k == 'V': return p[1]
    return p[3]
def rope_len(r):
    n = 0
    for p in r: n = ladd(n, plen(p))
    return n
def rope_lossy(r):
    return any(p[0] == 'S' and CIDS[p[1]].lossy for p in r)
def rope_lit(r):
    """bytes if the rope is a literal"""
    if not r: return b''
    if len(r) == 1 and r[0][0] == 'L': return r[0][1]
    out = b''
    for p in r:
        if p[0] == 'L': out += p[1]
        elif p[0] == 'V' and p[2].__class__ in (int, Lit):
            out += (int(p[2]) & ((1 << (8 * p[1])) - 1)).to_bytes(p[1], 'little')
        else: return None
    return out
def rope_cat(*rs):
    if rs and len(rs[0]) > 64:      # long: only its end can merge with what follows
        a = rs[0]
        t = rope_cat(a[-1:], *rs[1:])
        return a + t[1:] if t and t[0] is a[-1] else a[:-1] + t
    out = []
    for r in rs:
        for p in r:
            if p[0] == 'L':
                if not p[1]: continue
                if out and out[-1][0] == 'L':
                    out[-1] = ('L', out[-1][1] + p[1]); continue
            elif p[0] == 'V':
                if p[1] == 0: continue
                if p[2].__class__ in (int, Lit):
                    b = (int(p[2]) & ((1 << (8 * p[1])) - 1)).to_bytes(p[1], 'little')
                    if out and out[-1][0] == 'L': out[-1] = ('L', out[-1][1] + b)
                    else: out.append(('L', b))
                    continue
            elif p[0] == 'S':
                if p[3].__class__ is not Lin and p[3] == 0: continue
                if out and out[-1][0] == 'S' and out[-1][1] == p[1] and ladd(out[-1][2], out[-1][3]) == p[2]:
                    out[-1] = ('S', p[1], out[-1][2], ladd(out[-1][3], p[3])); continue
            out.append(p)
    return tuple(out)
def rope_lower(r):
    for p in r:
        if p[0] == 'L':
            if p[1].lower() != p[1]: return False
        elif p[0] == 'S':
            if not CIDS[p[1]].lower: return False
        else:
            d = defn(p[2])
            if d is None or d[0] != 'tolower': return False
    return True
def rope_no(r, ch):
    for p in r:
        if p[0] == 'L':
            if ch in p[1]: return False
        elif p[0] == 'S':
            if ch not in CIDS[p[1]].no: return False
        else: return False
    return True

class StrVal:
    __slots__ = ('r', 'n')
    def __init__(self, r, n=None):
        self.r = r
        self.n = rope_len(r) if n is None else n
    def __eq__(self, o): return o.__class__ is StrVal and o.r == self.r and o.n == self.n
    def __hash__(self): return hash(self.r)
    def __repr__(self): return 'Str%r' % (self.r,)

class MapVal:
    """associative container: known entries (key token -> element region), known-absent keys, and whether there may be more"""
    __slots__ = ('e', 'absent', 'more', 'kind')
    def __init__(self, e=(), absent=frozenset(), more=0, kind='map'):
        self.e = e; self.absent = absent; self.more = more; self.kind = kind
    def __eq__(self, o): return o.__class__ is MapVal and (o.e, o.absent, o.more) == (self.e, self.absent, self.more)
    def __hash__(self): return hash((self.e, self.absent, self.more))
    def __repr__(self): return 'Map(%r,%r)' % (self.e, self.more)

class StreamVal:
    __slots__ = ('rem', 'cnt')
    def __init__(self, rem, cnt): self.rem = rem; self.cnt = cnt
    def __eq__(self, o): return o.__class__ is StreamVal and (o.rem, o.cnt) == (self.rem, self.cnt)
    def __hash__(self): return hash((self.rem, self.cnt))

# ------------------------------------------------------------------ regions
class Reg:
    __slots__ = ('kind', 'size', 'alive', 'cells', 'fill', 'label', 'esz', 'ro', 'site', 'ver')
    def __init__(self, kind, size, fill='undef', label='', site=None):
        self.kind = kind; self.size = size; self.alive = True; self.cells = {}; self.fill = fill
        self.label = label; self.esz = 0; self.ro = False; self.site = site; self.ver = 0
    def clone(self):
        r = Reg.__new__(Reg)
        r.kind = self.kind; r.size = self.size; r.alive = self.alive; r.cells = dict(self.cells); r.fill = self.fill
        r.label = self.label; r.esz = self.esz; r.ro = self.ro; r.site = self.site; r.ver = self.ver
        return r

def cur_rid(): return _rid[0]
SD = {}      # string data region id -> (region, offset) of the owning std::string object
SDR = {}
_rid = [1000]
def new_rid():
    _rid[0] += 1
    return _rid[0]
def sd_id(b, o):
    k = (b, o)
    r = SDR.get(k)
    if r is None:
        r = -(len(SDR) + 1)
        SDR[k] = r; SD[r] = k
    return r

class State:
    __slots__ = ('regs', 'own', 'st', 'lossy', 'trace', 'exc', 'caught', 'facts', 'why', 'iters', 'nfork')
    def __init__(self):
        self.regs = {}; self.own = set(); self.st = Store(); self.lossy = False; self.trace = None; self.exc = (); self.caught = (); self.facts = (); self.why = None; self.iters = {}; self.nfork = 0
    def copy(self):
        s = State.__new__(State)
        s.regs = dict(self.regs); s.own = set(); self.own = set()
        s.st = self.st.copy(); s.lossy = self.lossy; s.trace = self.trace; s.exc = self.exc; s.caught = self.caught; s.facts = self.facts; s.why = self.why; s.iters = self.iters; s.nfork = self.nfork
        return s
    def taint(self, why):
        if not self.lossy: self.why = why
        self.lossy = True
    def wr(self, b):
        """writable region"""
        if b in self.own: return self.regs[b]
        r = self.regs[b].clone()
        self.regs[b] = r; self.own.add(b)
        return r
    def add(self, reg):
        b = new_rid()
        self.regs[b] = reg; self.own.add(b)
        return b
    def note(self, x):
        self.trace = (x, self.trace)
    def tr(self, n=60):
        out = []; t = self.trace
        while t is not None and len(out) < n:
            out.append(t[0]); t = t[1]
        return out[::-1]
