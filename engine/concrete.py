"""Concrete contents for the strings of an abstract state.

Given an assignment of integers to the symbols of a state, look for bytes of all unknown contents under which every
search, comparison and number conversion recorded in the state really has the result the state assumes.  A state is
only taken for a real one (and an alarm only raised) when such contents are found and checked by plain evaluation."""
import random, re
from dom import *
from state import CIDS
from bitops import sgn, unsg

CAP = 1 << 25
FIND = ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')
OPS = set(FIND) | {'seq', 'slt', 'cmp3', 'sto', 'sto?', 'strlen', 'byt', 'byr'}
TEXT = OPS - {'byt', 'byr'}
class No(Exception): pass

def find_value(op, h, nd, p):
    """std::string search; p as a signed 64 bit number, -1 for npos"""
    p &= (1 << 64) - 1
    if op == 'find': return h.find(nd, p) if p <= len(h) else -1
    if op == 'rfind':
        if len(nd) > len(h): return -1
        return h.rfind(nd, 0, min(p, len(h)) + len(nd))
    want = 'not' not in op
    if 'first' in op:
        rng = range(min(p, len(h)), len(h))
    else: rng = range(min(p, len(h) - 1), -1, -1)
    s = set(nd)
    for k in rng:
        if (h[k] in s) == want: return k
    return -1

def number(l, bb, k):
    """('ok', value, characters used) / ('inv',) / ('oor',) of std::stoi and the like on the bytes l"""
    lo, hi = RNG[k]
    digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:bb]
    txt = l.split(b'\0')[0].decode('latin1'); j = len(txt) - len(txt.lstrip(' \t\n\v\f\r'))
    neg = False
    if j < len(txt) and txt[j] in '+-': neg = txt[j] == '-'; j += 1
    if bb == 16 and txt[j:j + 2].lower() == '0x' and txt[j + 2:j + 3] and txt[j + 2:j + 3].lower() in digs: j += 2
    b0 = j
    while j < len(txt) and txt[j].lower() in digs: j += 1
    if j == b0: return ('inv',)
    v = int(txt[b0:j], bb)
    if neg: v = -v
    if k in ('stoul', 'stoull'):
        if abs(v) >= 1 << 64: return ('oor',)
        return 'ok', sgn(v & ((1 << 64) - 1), 64), j
    if not lo <= v <= hi: return ('oor',)
    return 'ok', v, j
RNG = {'stoi': (-(1 << 31), (1 << 31) - 1), 'stol': (-(1 << 63), (1 << 63) - 1), 'stoll': (-(1 << 63), (1 << 63) - 1),
       'stoul': (-(1 << 63), (1 << 63) - 1), 'stoull': (-(1 << 63), (1 << 63) - 1)}

def base(x, b):
    d = '0123456789abcdefghijklmnopqrstuvwxyz'
    if x == 0: return b'0'
    neg = x < 0; x = abs(x); o = ''
    while x: o = d[x % b] + o; x //= b
    return (('-' if neg else '') + o).encode()

def rope_args(key):
    op = key[0]
    if op in FIND: return [key[1], key[2]]
    if op == 'seq' or op == 'slt' or op == 'cmp3': return [key[1], key[2]]
    if op in ('sto', 'sto?'): return [key[1]]
    if op == 'strlen': return [key[1]]
    if op == 'byr': return [key[1]]
    return []
def rope_syms(r, out):
    for p in r:
        if p[0] == 'V': l = p[2:3]
        elif p[0] == 'S':
            l = p[2:4]
            d = CIDS[p[1]].d
            if d is not None:
                if d[0] in ('rope', 'cstr'): rope_syms(d[1], out)
                elif d[0] == 'dec' and d[1].__class__ is Lin: l += (d[1],)
                elif d[0] in ('tolower', 'toupper'): rope_syms((('S', d[1], 0, 0),), out)
        else: continue
        for v in l:
            if v.__class__ is Lin: out.update(s for s, k in v.t)

def text_terms(store, syms):
    """symbols of the state that stand for the result of an operation on contents"""
    out = set()
    for s in syms:
        d = SYM_DEF[s]
        if d is not None and d[0] in OPS: out.add(s)
    return out
def all_terms(store, extra=()):
    syms = set(store.sub) | set(store.b) | set(extra)
    for c in list(store.cons) + list(store.ne): syms.update(x for x, k in c.t)
    for v in store.sub.values():
        if v.__class__ is Lin: syms.update(x for x, k in v.t)
    return text_terms(store, syms)
def deps(s):
    """symbols the value of a term on contents depends on"""
    d = SYM_DEF[s]; out = set()
    for r in rope_args(d): rope_syms(r, out)
    if d[0] in FIND and d[3].__class__ is Lin: out.update(x for x, k in d[3].t)
    if d[0] in ('byt', 'byr') and d[2].__class__ is Lin: out.update(x for x, k in d[2].t)
    return out

class Real:
    def __init__(self, store, m, rng, mode):
        self.S = store; self.m = m; self.rng = rng; self.mode = mode
        self.cells = {}      # cid -> {pos: byte}
        self.fill = {}
        self.par = {}
        self.rid = {}
    def val(self, l):
        l = self.S.norm(l)
        if l.__class__ is not Lin: return int(l)
        r = l.c
        for x, k in l.t:
            if x not in self.m: raise No('no value')
            r += k * self.m[x]
        return r
    # ---- single bytes
    def at(self, r, pos):
        for p in r:
            if p[0] == 'L': L = len(p[1])
            elif p[0] == 'V': L = p[1]
            else: L = self.val(p[3])
            if L < 0: raise No('negative length')
            if pos >= L: pos -= L; continue
            if p[0] == 'L': return ('c', p[1][pos])
            if p[0] == 'V': return ('v', p[1], p[2], pos)
            return self.cell(p[1], self.val(p[2]) + pos)
        raise No('outside')
    def cell(self, cid, pos):
        c = CIDS[cid]; d = c.d
        if c.lossy: raise No('imprecise')
        if d is None or d[0] == 'stream': return ('b', cid, pos, ())
        if d[0] == 'fill': return ('c', d[1])
        if d[0] in ('rope', 'cstr'): return self.at(d[1], pos)
        if d[0] == 'dec':
            t = str(self.val(d[1])).encode()
            if pos >= len(t): raise No('dec')
            return ('c', t[pos])
        if d[0] in ('tolower', 'toupper'):
            x = self.cell(d[1], pos)
            if x[0] == 'c':
                return ('c', bytes([x[1]]).lower()[0] if d[0] == 'tolower' else bytes([x[1]]).upper()[0])
            if x[0] == 'b': return ('b', x[1], x[2], x[3] + (d[0],))
        raise No('content %s' % (d[0],))
    def put(self, x, b):
        """make the byte x equal b"""
        if x[0] == 'c':
            if x[1] != b: raise No('constant')
            return
        if x[0] == 'v':
            u = unsg(self.val(x[2]), 8 * x[1])
            if (u >> (8 * x[3])) & 255 != b: raise No('value')
            return
        cands = [b]
        for f in x[3]:
            if f == 'tolower' and 65 <= b <= 90 or f == 'toupper' and 97 <= b <= 122: raise No('case')
        if x[3]:
            c = chr(b)
            cands = [b] + ([ord(c.swapcase())] if b < 128 and c.isalpha() else [])
            if self.mode % 2: cands.reverse()
        cc = CIDS[x[1]]
        cands = [q for q in cands if q not in cc.no and not (cc.lower and 65 <= q <= 90)]
        if not cands: raise No('excluded')
        h = self.cells.setdefault(x[1], {})
        o = h.get(x[2])
        if o is not None:
            if self.app(o, x[3]) != b: raise No('conflict')
            return
        h[x[2]] = cands[0]
    @staticmethod
    def app(b, fs):
        for f in fs:
            b = bytes([b]).lower()[0] if f == 'tolower' else bytes([b]).upper()[0]
        return b
    def get(self, x):
        if x[0] == 'c': return x[1]
        if x[0] == 'v': return (unsg(self.val(x[2]), 8 * x[1]) >> (8 * x[3])) & 255
        o = self.cells.get(x[1], {}).get(x[2])
        return None if o is None else self.app(o, x[3])
    def length(self, r):
        n = 0
        for p in r: n += len(p[1]) if p[0] == 'L' else p[1] if p[0] == 'V' else self.val(p[3])
        return n
    # ---- whole contents
    def filler(self, cid):
        f = self.fill.get(cid)
        if f is None:
            c = CIDS[cid]
            pool = b'xyzwvq0159ABQ _/.~\t\x01\x80\xff\n\r:=&?#%+' if self.mode else b'xyA0 _\x01\x80\n'
            ok = [q for q in pool if q not in c.no and not (c.lower and 65 <= q <= 90) and q not in self.avoid.get(cid, ())]
            if not ok: ok = [q for q in range(256) if q not in c.no and not (c.lower and 65 <= q <= 90)]
            if not ok: raise No('no character')
            f = ok[0] if self.mode < 2 else self.rng.choice(ok[:8] if self.mode < 6 else ok)
            self.fill[cid] = f
        return f
    def text(self, r):
        out = bytearray()
        for p in r:
            if p[0] == 'L': out += p[1]
            elif p[0] == 'V': out += unsg(self.val(p[2]), 8 * p[1]).to_bytes(p[1], 'little')
            else:
                n = self.val(p[3])
                if n < 0: raise No('negative')
                if n > CAP: raise No('long')
                out += self.span(p[1], self.val(p[2]), n)
            if len(out) > CAP: raise No('long')
        return bytes(out)
    def span(self, cid, o, n):
        c = CIDS[cid]; d = c.d
        if c.lossy: raise No('imprecise')
        if n == 0: return b''
        if d is None or d[0] == 'stream':
            b = bytearray(bytes([self.filler(cid)]) * n)
            for k, v in self.cells.get(cid, {}).items():
                if o <= k < o + n: b[k - o] = v
            return b
        if d[0] == 'fill': return bytes([d[1]]) * n
        if d[0] in ('rope', 'cstr'):
            t = self.text(d[1])
            if o < 0 or o + n > len(t): raise No('outside')
            return t[o:o + n]
        if d[0] == 'dec':
            t = str(self.val(d[1])).encode()
            if o + n > len(t): raise No('outside')
            return t[o:o + n]
        if d[0] == 'tolower': return bytes(self.span(d[1], o, n)).lower()
        if d[0] == 'toupper': return bytes(self.span(d[1], o, n)).upper()
        raise No('content')
    # ---- placement
    avoid = {}
    def want_not(self, r, chars):
        for p in r:
            if p[0] != 'S': continue
            d = CIDS[p[1]].d
            if d is None or d[0] == 'stream': self.avoid.setdefault(p[1], set()).update(chars)
            elif d[0] in ('rope', 'cstr'): self.want_not(d[1], chars)
            elif d[0] in ('tolower', 'toupper'):
                self.want_not((('S', d[1], 0, 0),), set(chars) | set(bytes(chars).lower()) | set(bytes(chars).upper()))
    def place(self, s, v):
        d = SYM_DEF[s]; op = d[0]
        if op == 'byt':
            o = self.val(d[2])
            for i, b in enumerate(unsg(v, 8 * d[3]).to_bytes(d[3], 'little')): self.put(self.cell(d[1], o + i), b)
        elif op == 'byr':
            pos = self.val(d[2])
            n = self.length(d[1])
            for i, b in enumerate(unsg(v, 8 * d[3]).to_bytes(d[3], 'little')):
                if pos + i == n and b == 0: continue
                self.put(self.at(d[1], pos + i), b)
        elif op == 'seq':
            if v != 1: return
            a, b = d[1], d[2]
            n = self.length(a)
            if n != self.length(b): raise No('length')
            if n > 65536: raise No('long')
            for i in range(n):
                x = self.at(a, i); y = self.at(b, i)
                if x == y: continue
                p = self.get(x); q = self.get(y)
                if p is None and q is None:
                    q = 120
                    if x[0] == 'b': q = self.pick(x, y)
                    self.put(x, q); self.put(y, q)
                elif p is None: self.put(x, q)
                else: self.put(y, p)
        elif op in ('find', 'rfind'):
            if v < 0:
                nd = self.text(d[2])
                self.want_not(d[1], nd[:1]); return
            nd = self.text(d[2])
            self.want_not(d[1], nd)
            for i, b in enumerate(nd): self.put(self.at(d[1], v + i), b)
        elif op in FIND:
            nd = self.text(d[2]); n = self.length(d[1]); p = self.val(d[3])
            p = p & ((1 << 64) - 1)
            first = 'first' in op
            rng = range(min(p, n), v if v >= 0 else n) if first else range(min(p, n - 1), v if v >= 0 else -1, -1)
            if 'not' in op:
                if len(rng) > 65536: raise No('long')
                for k in rng:
                    x = self.at(d[1], k)
                    if self.get(x) is None: self.put(x, nd[0])
                if v >= 0: self.want_not(d[1], nd)
            else:
                self.want_not(d[1], nd)
                if v >= 0:
                    x = self.at(d[1], v)
                    if self.get(x) is None: self.put(x, nd[0])
        elif op in ('sto', 'sto?'): pass
        elif op == 'strlen':
            self.want_not(d[1], b'\0')
            if v < self.length(d[1]):
                x = self.at(d[1], v)
                if self.get(x) is None: self.put(x, 0)
    def pick(self, x, y):
        for q in b'xyA0 _\x01abcdefghijklmnopqrstuvwxz123456789':
            ok = True
            for z in (x, y):
                c = CIDS[z[1]]
                if z[3]:
                    if 'tolower' in z[3] and 65 <= q <= 90 or 'toupper' in z[3] and 97 <= q <= 122: ok = False
                if q in c.no or c.lower and 65 <= q <= 90: ok = False
            if ok: return q
        raise No('pick')
    def numbers(self, terms):
        seen = {}
        for s in terms:
            d = SYM_DEF[s]
            if d[0] == 'sto?': seen.setdefault((d[1], d[2], d[3]), [None, None])[0] = self.val(Lin(0, ((s, 1),)))
            if d[0] == 'sto': seen.setdefault((d[1], d[2], d[3]), [None, None])[1] = self.val(Lin(0, ((s, 1),)))
        for (r, bb, k), (how, v) in seen.items():
            n = self.length(r)
            if how in (0, None) and v is not None:
                u = v & ((1 << 64) - 1) if k in ('stoul', 'stoull') else v
                t = base(u, bb)
                if len(t) > n and k in ('stoul', 'stoull') and v < 0: t = base(v, bb)
                if len(t) > n: raise No('number')
                if n > 4096:
                    t = t + b' '
                else: t = (b'-' if t[:1] == b'-' else b'') + b'0' * (n - len(t)) + t.lstrip(b'-')
            elif how == 1:
                if n == 0: continue
                t = b'x' if bb < 34 else b'_'
            elif how == 2:
                if n < 20: raise No('number')
                t = b'9' * min(n, 40)
            else: continue
            for i, b in enumerate(t):
                x = self.at(r, i)
                if self.get(x) is None:
                    if how == 1:
                        for q in b'xyz_~: ,;A':
                            try: self.put(x, q); break
                            except No: continue
                    else: self.put(x, b)
    def result(self, s):
        d = SYM_DEF[s]; op = d[0]
        if op in FIND:
            return find_value(op, self.text(d[1]), self.text(d[2]), self.val(d[3]))
        if op == 'seq': return int(self.text(d[1]) == self.text(d[2]))
        if op == 'slt': return int(self.text(d[1]) < self.text(d[2]))
        if op == 'cmp3':
            a, b = self.text(d[1]), self.text(d[2]); return (a > b) - (a < b)
        if op in ('sto', 'sto?'):
            z = number(self.text(d[1]), d[2], d[3])
            if op == 'sto?': return {'ok': 0, 'inv': 1, 'oor': 2}[z[0]]
            return z[1] if z[0] == 'ok' else None
        if op == 'strlen':
            t = self.text(d[1]); k = t.find(b'\0'); return len(t) if k < 0 else k
        if op == 'byt':
            b = self.span(d[1], self.val(d[2]), d[3]); return sgn(int.from_bytes(b, 'little'), 8 * d[3])
        if op == 'byr':
            t = self.text(d[1]) + b'\0'; p = self.val(d[2])
            if p < 0 or p + d[3] > len(t): return None
            return sgn(int.from_bytes(t[p:p + d[3]], 'little'), 8 * d[3])
    def run(self, terms):
        self.avoid = {}
        order = sorted(terms)
        rank = {'byt': 0, 'byr': 0, 'seq': 1}
        order.sort(key=lambda s: rank.get(SYM_DEF[s][0], 2))
        v = {s: self.val(Lin(0, ((s, 1),))) for s in order}
        for s in order:
            if SYM_DEF[s][0] in ('byt', 'byr', 'find', 'rfind', 'seq') and (SYM_DEF[s][0] != 'seq' or v[s] == 1): self.place(s, v[s])
        self.numbers(order)
        for s in order:
            if SYM_DEF[s][0] == 'strlen' or SYM_DEF[s][0] in FIND and SYM_DEF[s][0] not in ('find', 'rfind'): self.place(s, v[s])
        for s in order:
            r = self.result(s)
            if r is None:
                if SYM_DEF[s][0] == 'sto': continue      # no number there, its value is not used
                raise No('%s undefined' % SYM_DEF[s][0])
            if r != v[s]: raise No('%s is %s not %s' % (SYM_DEF[s][0], r, v[s]))
        return self

def realise(store, m, terms, tries=10, why=None):
    for mode in range(tries):
        try: return Real(store, m, random.Random(mode * 131 + 7), mode).run(terms)
        except No as e:
            if why is not None: why.append(str(e))
            if str(e) in ('imprecise', 'no value', 'long', 'negative length'): return None
    return None
