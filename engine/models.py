"""Models of the C/C++ run-time library and of the analysis intrinsics (vf_*)."""
import re
from state import *
import bitops, witness, match
from interp import *

NPOS = -1
U64 = 1 << 64
MAXLEN = 1 << 40

EX = {}        # exact symbol name -> model
def model(*names):
    def d(f):
        for n in names: EX[n] = f
        return f
    return d

def install(I):
    I.ex_region = None
    I.alloc_limit = None
    I.reports = {}

def R(st, v=None): return [(st, 'ret', v)]

def lookup(name, dm, has_body):
    m = EX.get(name)
    if m is not None: return m
    if name.startswith('vf_'):
        m = EX.get(name.split('.')[0])
        if m: return m
    if name.startswith('llvm.'): return llvm(name)
    return cxx(name, dm, has_body)

# =================================================================== helpers
def S(I, st, p):
    p = I.toptr(st, p)
    return I.get_str(st, p)
def setS(I, st, p, rope, n=None):
    p = I.toptr(st, p)
    if p.__class__ is not Ptr or p.b <= 0:
        if p.__class__ is Ptr and p.b == 0: I.fail(st, 'null-dereference', 'string operation on a null pointer')
        st.taint('string at unknown address'); return False
    r = I.region(st, p, 'string write')
    if r is None: return False
    if n is None: n = rope_len(rope)
    n = st.st.norm(n)
    I.put(st, p.b, p.o, 32, StrVal(rope, n))
    return True

def alloc_check(I, st, n, what):
    """allocation-size hook; False when the path ends"""
    if I.alloc_limit is not None:
        lim, prop, msg = I.alloc_limit(st)
        if lim is not None:
            return I.oblige(st, prop, [lsub(lim, n)], lambda: msg + ' (%s of %s bytes)' % (what, n))
    return True

def throw(I, st, tname, msg=''):
    if I.ex_region is None or I.ex_region not in st.regs:
        r = Reg('global', 1 << 20, 'unk', 'std exception vtable'); r.ro = True
        for k in range(0, 64, 8): r.cells[k] = (8, FnP('vf_what'))
        if I.ex_region is None: I.ex_region = new_rid()
        st.regs[I.ex_region] = r
    r = Reg('exc', 64, 'unk', 'std exception'); r.cells[0] = (8, Ptr(I.ex_region, 0))
    b = st.add(r)
    st.note('throws %s %s at %s' % (tname, msg, I.loc()))
    return (st, 'exc', (tname, Ptr(b, 0)))

def seq_cond(I, st, r1, n1, r2, n2):
    """condition: two contents are equal"""
    S = st.st
    n1 = S.norm(n1); n2 = S.norm(n2)
    r1 = norm_rope(S, r1); r2 = norm_rope(S, r2)
    if r1 == r2: return Lit(1)
    l1 = rope_lit(r1); l2 = rope_lit(r2)
    if l1 is not None and l2 is not None: return Lit(1 if l1 == l2 else 0)
    d = S.decide_eq(lsub(n1, n2))
    if d is False: return Lit(0)
    a = list(r1); b = list(r2)
    # strip equal pieces at both ends
    while a and b and a[0] == b[0]: a.pop(0); b.pop(0)
    while a and b and a[-1] == b[-1]: a.pop(); b.pop()
    if a and b and a[0][0] == 'L' and b[0][0] == 'L':
        x, y = a[0][1], b[0][1]
        m = min(len(x), len(y))
        if x[:m] != y[:m]: return Lit(0)
        if len(a) == 1 or len(b) == 1: pass
    if a and b and a[-1][0] == 'L' and b[-1][0] == 'L':
        x, y = a[-1][1], b[-1][1]
        m = min(len(x), len(y))
        if m and x[-m:] != y[-m:]: return Lit(0)
    if not a and not b: return Lit(1)
    if not a or not b:
        rest = tuple(a or b)
        n = S.norm(rope_len(rest))
        return I.mkcmp(st, 'eq', n, 0, 64)
    ta, tb = tuple(a), tuple(b)
    # literal against content that cannot be it
    for x, y in ((ta, tb), (tb, ta)):
        lx = rope_lit(x)
        if lx is not None and not match.can_equal(S, y, lx): return Lit(0)
    xa, xb = short_bytes(S, ta), short_bytes(S, tb)
    if xa is not None and xb is not None and len(xa) == len(xb):
        df = [(x, y) for x, y in zip(xa, xb) if x != y]
        if not df: return Lit(1)
        if len(df) == 1: return I.mkcmp(st, 'eq', df[0][0], df[0][1], 8)
    if len(ta) == 1 and len(tb) == 1 and ta[0][0] == 'V' and tb[0][0] == 'V' and ta[0][1] == tb[0][1]:
        return I.mkcmp(st, 'eq', ta[0][2], tb[0][2], 8 * ta[0][1])
    k = (ta, tb) if repr(ta) < repr(tb) else (tb, ta)
    lossy = rope_lossy(ta) or rope_lossy(tb) or any(rope_num_lossy(st, x) for x in (ta, tb))
    t = S.norm(term('seq', k, 0, 1, 'eq', lossy))
    if t.__class__ is not Lin: return Lit(t)
    same = [('eq', ladd(t, -1)), ('eq', lsub(n1, n2))]
    if d is not True:
        # the same comparison once the lengths are known to be equal
        la, lb = S.norm(rope_len(ta)), S.norm(rope_len(tb))
        for x, y, ly in ((ta, tb, lb), (tb, ta, la)):
            if len(x) == 1 and x[0][0] == 'S' and S.norm(x[0][3]) != ly and S.norm(x[0][3]).__class__ is Lin:
                x2 = (('S', x[0][1], x[0][2], ly),)
                k2 = (x2, y) if repr(x2) < repr(y) else (y, x2)
                t2 = S.norm(term('seq', k2, 0, 1, 'eq', lossy))
                if t2.__class__ is Lin: same.append(('eq', ladd(t2, -1)))
                break
    for x, y in ((ta, tb), (tb, ta)):
        ly = rope_lit(y)
        if ly is not None and len(ly) <= 16 and len(x) == 1 and x[0][0] == 'S' and CIDS[x[0][1]].d is None and S.norm(x[0][3]).__class__ is Lin:
            # the characters of content that equals a known text are those
            for k, c in enumerate(ly):
                v = view_byte(S, x[0][1], S.norm(ladd(x[0][2], k)))
                if v.__class__ is Lin: same.append(('eq', ladd(v, -(c - 256 if c > 127 else c))))
    return Cond([same], [[('eq', t)]])
def view_byte(S, cid, o):
    d = CIDS[cid].d
    if d is not None and d[0] in ('tolower', 'toupper'):
        b = view_byte(S, d[1], o)
        if b.__class__ is not Lin: return CHARS[d[0]](int(b))
        return S.norm(term(d[0], (b,), -128, 127, d[0], bitops.lossy(b)))
    return S.norm(bitops.content(cid, o, 1, CIDS[cid].lossy))
CHARS = {'tolower': lambda v: v + 32 if 65 <= v <= 90 else v, 'toupper': lambda v: v - 32 if 97 <= v <= 122 else v}
def short_bytes(S, r, cap=16):
    """content of known short length as a list of byte values"""
    out = []
    for p in r:
        if p[0] == 'L': out += [b - 256 if b > 127 else b for b in p[1]]
        elif p[0] == 'V':
            if p[1] == 1: out.append(p[2])
            else: out += [S.norm(bitops.ext(p[2], 8 * p[1], k, 1)) for k in range(p[1])]
        else:
            n = S.norm(p[3])
            if n.__class__ is Lin or n > cap: return None
            out += [view_byte(S, p[1], S.norm(ladd(p[2], k))) for k in range(int(n))]
        if len(out) > cap: return None
    return out
def rope_num_lossy(st, r):
    for p in r:
        if p[0] == 'V' and st.st.is_lossy(p[2]): return True
        if p[0] == 'S' and (st.st.is_lossy(p[2]) or st.st.is_lossy(p[3])): return True
    return False
def norm_rope(S, r):
    ch = False; out = []
    for p in r:
        if p[0] == 'V' and p[2].__class__ is Lin:
            v = S.norm(p[2])
            if v is not p[2]: p = ('V', p[1], v); ch = True
        elif p[0] == 'S':
            a = S.norm(p[2]); b = S.norm(p[3])
            if a is not p[2] or b is not p[3]: p = ('S', p[1], a, b); ch = True
        out.append(p)
    return rope_cat(tuple(out)) if ch else r

def cstr(I, st, p, cap=None):
    """rope of the C string at p, or None if the path ends"""
    p = I.toptr(st, p)
    if p is UNK or p.__class__ is not Ptr:
        return (('S', new_cid('cstr', lossy=True, base=True), 0, sym(0, MAXLEN, 'len', True)),)
    r = I.region(st, p, 'read')
    if r is None: return None
    S_ = st.st
    if r.__class__ is int:
        b, o = SD[r]
        sv = I.get_str(st, Ptr(b, S_.norm(o)))
        if sv is None: return None
        rp = I.rope_slice(st, sv.r, sv.n, p.o, lsub(sv.n, p.o)) if not (p.o.__class__ is not Lin and p.o == 0) else sv.r
        l = rope_lit(rp)
        if l is not None: return (('L', l.split(b'\0')[0]),) if l.split(b'\0')[0] else ()
        if rope_no(rp, 0): return rp
        out = ()
        for q in rp:
            if q[0] == 'L':
                if b'\0' in q[1]: return rope_cat(out, (('L', q[1].split(b'\0')[0]),))
                out = rope_cat(out, (q,))
            elif q[0] == 'S' and 0 in CIDS[q[1]].no: out = rope_cat(out, (q,))
            else: break
        cid = new_cid('cstr', lossy=rope_lossy(rp), lower=rope_lower(rp), no=I.rope_noset(rp) | {0}, d=('cstr', rp))
        n = term('strlen', (rp,), 0, MAXLEN, 'strlen', rope_lossy(rp))
        if not S_.add_ge(lsub(lsub(sv.n, p.o), n)): return None
        return (('S', cid, 0, S_.norm(n)),)
    # character array: collect bytes until NUL
    o = S_.norm(p.o)
    if o.__class__ is not Lin:
        out = b''; pos = o
        for k in range(4096):
            c = None
            hit = None
            for o2 in r.cells:
                if o2.__class__ is Lin: continue
                s2 = r.cells[o2][0]
                if s2.__class__ is not Lin and o2 <= pos < o2 + s2: hit = o2; break
            if hit is None:
                if any(x.__class__ is Lin or y[0].__class__ is Lin for x, y in r.cells.items()): break
                if r.fill == 'zero': return (('L', out),) if out else ()
                if r.fill == 'undef' and r.size.__class__ is int and pos < r.size:
                    I.fail(st, 'uninitialised', 'the text at %s is not terminated within the bytes that were written' % (r.label or r.kind))
                    return None
                break
            s2, v2 = r.cells[hit]
            rp = I.cell_rope(s2, v2)
            l = rope_lit(rp) if rp is not None else None
            if l is None: break
            seg = l[pos - hit:]
            if b'\0' in seg:
                out += seg.split(b'\0')[0]
                return (('L', out),) if out else ()
            out += seg; pos = hit + s2
    for o2, (s2, v2) in r.cells.items():
        if v2.__class__ is Bytes and S_.decide_eq(lsub(o2, o)) is True:
            rp = v2.r
            # content followed by NUL
            if rp and rp[-1][0] == 'L' and rp[-1][1].startswith(b'\0') and rope_no(rp[:-1], 0): return rp[:-1]
    size = r.size
    if o.__class__ is not Lin and size.__class__ is int and 0 < size - o <= 64:
        rp = I.read_bytes(st, Ptr(p.b, o), size - o)
        if rp is not None and not rope_lossy(rp):
            cid = new_cid('cstr', lower=rope_lower(rp), no=I.rope_noset(rp) | {0}, d=('cstr', rp))
            n = term('strlen', (rp,), 0, size - o, 'strlen', False)
            return (('S', cid, 0, S_.norm(n)),)
    n = sym(0, MAXLEN, 'strlen', True)
    return (('S', new_cid('cstr', lossy=True, base=True, no=frozenset([0])), 0, n),)

def heap(I, st, n, label='heap', fill='undef'):
    r = Reg('heap', n, fill, label, I.loc())
    return Ptr(st.add(r), 0)

# =================================================================== intrinsics
@model('vf_int')
def vf_int(I, st, a, i, name):
    lo = int(I.toint(st, a[0])); hi = int(I.toint(st, a[1]))
    return R(st, sym(lo, hi, 'v'))
@model('vf_bool')
def vf_bool(I, st, a, i, name):
    s2 = st.copy(); 
    return [(st, 'ret', Lit(0)), (s2, 'ret', Lit(1))]
@model('vf_choice')
def vf_choice(I, st, a, i, name):
    n = int(I.toint(st, a[0])); out = []
    for k in range(n):
        s = st if k == n - 1 else st.copy()
        out.append((s, 'ret', Lit(k)))
    return out
@model('vf_anybool')
def vf_anybool(I, st, a, i, name):
    return R(st, free_cond_sym(st))
def free_cond_sym(st):
    t = sym(0, 1, 'nb')
    return Cond([[('eq', ladd(t, -1))]], [[('eq', t)]])
@model('vf_assume')
def vf_assume(I, st, a, i, name):
    return [(s, 'ret', None) for s in I.assume(st, a[0], True)]
@model('vf_note')
def vf_note(I, st, a, i, name):
    t = rope_lit(cstr(I, st, a[0]) or ())
    st.note((t or b'').decode())
    return R(st)
@model('vf_notev')
def vf_notev(I, st, a, i, name):
    t = rope_lit(cstr(I, st, a[0]) or ())
    st.note('%s %s' % ((t or b'').decode(), I.toint(st, a[1])))
    return R(st)
def lit_of(I, st, p):
    return (rope_lit(cstr(I, st, p) or ()) or b'?').decode()
@model('vf_assert')
def vf_assert(I, st, a, i, name):
    rule = lit_of(I, st, a[1]); msg = lit_of(I, st, a[2])
    c = a[0]
    if I.cond_lossy(st, c) and c.__class__ is Cond:
        t, f = I.split(st, c)
        if f: I.obl.setdefault((rule, msg), [0, 0, 0])[2] += 1
        elif t: I.obl.setdefault((rule, msg), [0, 0, 0])[0] += 1
        return [(s, 'ret', None) for s in t]
    t, f = I.split(st, c)
    rec = I.obl.setdefault((rule, msg), [0, 0, 0])
    if not f: rec[0] += 1
    out = list(t)
    for s in f:
        if s.lossy or a_related(s, c): 
            rec[2] += 1
            w = s.why or 'imprecise value'
            I.taints[w] = I.taints.get(w, 0) + 1
        elif not I.confirm(s): rec[2] += 1
        else:
            rec[1] += 1; I.alarm(s, rule, msg, I.loc())
            if not t: out.append(s)      # always false here: report, and look at what follows
    return [(s, 'ret', None) for s in out]
@model('vf_always')
def vf_always(I, st, a, i, name):
    """an assertion that every run of the client comes to (for one driver): besides what vf_assert reports, it is violated when
    every abstract state that reaches it refutes it, over-approximated or not"""
    rule = lit_of(I, st, a[1]); msg = lit_of(I, st, a[2])
    t, f = I.split(st.copy(), a[0])
    rec = I.always.setdefault((rule, msg, I.loc()), [0, 0, I.callpath(), I.backtrace(), st.tr()])
    rec[0 if t else 1] += 1
    return vf_assert(I, st, a, i, name)
def a_related(s, c):
    if c.__class__ is not Cond: return False
    for conj in c.neg:
        for k, v in conj:
            if s.st.related_lossy(v): return True
    return False
@model('vf_string')
def vf_string(I, st, a, i, name):
    n = sym(0, 1 << 32, 'len')
    cid = new_cid('in', base=True)
    setS(I, st, a[0], (('S', cid, 0, n),), n)
    return R(st)
@model('vf_string_n')
def vf_string_n(I, st, a, i, name):
    n = st.st.norm(I.toint(st, a[1]))
    cid = new_cid('in', base=True)
    setS(I, st, a[0], (('S', cid, 0, n),) if not (n.__class__ is not Lin and n == 0) else (), n)
    return R(st)
@model('vf_string_no')
def vf_string_no(I, st, a, i, name):
    n = sym(0, 1 << 32, 'len')
    no = rope_lit(cstr(I, st, a[1])) or b''
    cid = new_cid('in', base=True, no=frozenset(no) | {0})
    if len(a) > 2 and a[2] is not None:
        n2 = st.st.norm(I.toint(st, a[2]))
        if not (n2.__class__ is not Lin and n2 < 0): n = n2
    setS(I, st, a[0], (('S', cid, 0, n),), n)
    return R(st)
@model('vf_string_of')
def vf_string_of(I, st, a, i, name):
    n = sym(0, 1 << 32, 'len')
    al = rope_lit(cstr(I, st, a[1])) or b''
    cid = new_cid('of', base=True, no=frozenset(range(256)) - frozenset(al), lower=not any(65 <= c <= 90 for c in al))
    n2 = st.st.norm(I.toint(st, a[2]))
    if not (n2.__class__ is not Lin and n2 < 0): n = n2
    setS(I, st, a[0], (('S', cid, 0, n),) if not (n.__class__ is not Lin and n == 0) else (), n)
    return R(st)
@model('vf_string_token')
def vf_string_token(I, st, a, i, name):
    """a non-empty lower-case alphanumeric word"""
    n = sym(1, 1 << 20, 'len')
    no = frozenset(c for c in range(256) if not (97 <= c <= 122 or 48 <= c <= 57))
    cid = new_cid('tok', base=True, lower=True, no=no)
    setS(I, st, a[0], (('S', cid, 0, n),), n)
    return R(st)
@model('vf_alloc')
def vf_alloc(I, st, a, i, name):
    n = st.st.norm(I.toint(st, a[0]))
    r = Reg('heap', n, 'unk', 'buffer')
    b = st.add(r)
    cid = new_cid('buf', base=True)
    if not (n.__class__ is not Lin and n == 0): r.cells[0] = (n, Bytes((('S', cid, 0, n),)))
    if n.__class__ is Lin: r.ver = 1
    return R(st, Ptr(b, 0))
@model('vf_free')
def vf_free(I, st, a, i, name):
    p = I.toptr(st, a[0])
    if p.__class__ is Ptr and p.b in st.regs: st.wr(p.b).alive = False
    return R(st)
@model('vf_fill')
def vf_fill(I, st, a, i, name):
    """overwrite n bytes with fresh content"""
    n = st.st.norm(I.toint(st, a[1]))
    if n.__class__ is not Lin and n == 0: return R(st)
    p = I.toptr(st, a[0])
    cid = new_cid('recv', base=True)
    if not I.write_bytes(st, p, n, (('S', cid, 0, n),)): return []
    return R(st)
@model('vf_copy_stream')
def vf_copy_stream(I, st, a, i, name):
    """vf_copy_stream(dst, stream id, stream offset, n): bytes [off, off+n) of a fixed unknown stream"""
    sid = int(I.toint(st, a[1])); off = st.st.norm(I.toint(st, a[2])); n = st.st.norm(I.toint(st, a[3]))
    if n.__class__ is not Lin and n == 0: return R(st)
    cid = new_cid('stream%d' % sid, base=True, d=('stream', sid))
    p = I.toptr(st, a[0])
    if not I.write_bytes(st, p, n, (('S', cid, off, n),)): return []
    return R(st)
@model('vf_stream_is')
def vf_stream_is(I, st, a, i, name):
    """assertion: memory [p,p+n) holds bytes [off,off+n) of stream sid"""
    sid = int(I.toint(st, a[1])); off = st.st.norm(I.toint(st, a[2])); n = st.st.norm(I.toint(st, a[3]))
    rule = lit_of(I, st, a[4]); msg = lit_of(I, st, a[5])
    cid = new_cid('stream%d' % sid, base=True, d=('stream', sid))
    want = (('S', cid, off, n),)
    if n.__class__ is not Lin and n == 0: want = ()
    got = I.read_bytes(st, I.toptr(st, a[0]), n)
    if got is None: return [] if not st.lossy else R(st)
    same_report(I, st, got, want, n, rule, msg)
    return R(st)
def unview(I, st, r):
    """resolve views into interned ropes whose bounds are known now"""
    S_ = st.st
    out = ()
    for p in r:
        if p[0] == 'S':
            d = CIDS[p[1]].d
            if d is not None and d[0] == 'rope':
                rr = norm_rope(S_, d[1]); n = S_.norm(rope_len(rr))
                if S_.prove(p[2]) and S_.prove(lsub(n, ladd(p[2], p[3]))):
                    x = I.rope_slice(st, rr, n, p[2], p[3])
                    out = rope_cat(out, x); continue
        out = rope_cat(out, (p,))
    return norm_rope(S_, out)
def ropes_equal(I, st, r1, r2, n, depth=0):
    """True / False (contents can differ) / None (imprecise)"""
    S_ = st.st
    r1 = unview(I, st, norm_rope(S_, r1)); r2 = unview(I, st, norm_rope(S_, r2))
    if len(r1) == 1 and len(r2) == 1 and r1[0][0] == 'S' and r2[0][0] == 'S' and depth < 3:
        d1 = CIDS[r1[0][1]].d; d2 = CIDS[r2[0][1]].d
        if d1 is not None and d2 is not None and d1[0] == 'rope' and d2[0] == 'rope' and S_.decide_eq(lsub(r1[0][2], r2[0][2])) is True and S_.decide_eq(lsub(r1[0][3], r2[0][3])) is True:
            if ropes_equal(I, st, d1[1], d2[1], None, depth + 1) is True: return True
    c = seq_cond(I, st, r1, rope_len(r1), r2, rope_len(r2))
    if c.__class__ is not Cond:
        if int(c): return True
        if rope_lossy(r1) or rope_lossy(r2) or rope_num_lossy(st, r1) or rope_num_lossy(st, r2): return None
        return False
    # piecewise comparison with provably equal pieces
    a = list(r1); b = list(r2)
    while a and b:
        p, q = a[0], b[0]
        if p == q: a.pop(0); b.pop(0); continue
        if p[0] == 'S' and q[0] == 'S' and p[1] == q[1] and S_.decide_eq(lsub(p[2], q[2])) is True:
            d = lsub(p[3], q[3])
            e = S_.decide_eq(d)
            if e is True: a.pop(0); b.pop(0); continue
            if S_.prove(d):
                a[0] = ('S', p[1], ladd(p[2], q[3]), d); b.pop(0); continue
            if S_.prove(lneg(d)):
                b[0] = ('S', q[1], ladd(q[2], p[3]), lneg(d)); a.pop(0); continue
            break
        if p[0] == 'S' and S_.decide_eq(p[3]) is True: a.pop(0); continue
        if q[0] == 'S' and S_.decide_eq(q[3]) is True: b.pop(0); continue
        # bytes against bytes
        n1 = plen(p); n2 = plen(q)
        if n1.__class__ is not Lin and n2.__class__ is not Lin and n1 <= 8 and n2 <= 8 or (p[0] == 'V' or q[0] == 'V'):
            m = n1 if n2.__class__ is Lin else (n2 if n1.__class__ is Lin else min(n1, n2))
            if m.__class__ is Lin: break
            x = I.rope_read(st, tuple(a), rope_len(tuple(a)), 0, m) if can_read(S_, a, m) else None
            y = I.rope_read(st, tuple(b), rope_len(tuple(b)), 0, m) if can_read(S_, b, m) else None
            if x is None or y is None: break
            if S_.norm(x) == S_.norm(y) or S_.decide_eq(lsub(x, y)) is True:
                a = list(drop(I, st, tuple(a), m)); b = list(drop(I, st, tuple(b), m)); continue
        break
    if all(p[0] == 'S' and S_.decide_eq(p[3]) is True for p in a + b): return True
    if rope_lossy(r1) or rope_lossy(r2) or rope_num_lossy(st, r1) or rope_num_lossy(st, r2): return None
    return False
def can_read(S_, a, m):
    n = 0
    for p in a:
        L = plen(p)
        if L.__class__ is Lin: return S_.prove(ladd(ladd(L, n), -m))
        n += L
        if n >= m: return True
    return False
def drop(I, st, r, m):
    x = I.rope_locate(st, r, m)
    return x[1] if x is not None else (('S', new_cid('x', lossy=True), 0, ladd(rope_len(r), -m)),)
def bytewise(st, r):
    out = []
    for p in norm_rope(st.st, r):
        if p[0] == 'L': out += [Lit(x if x < 128 else x - 256) + 0 for x in p[1]]
        elif p[0] == 'V': out += bitops.byteterms(p[2], p[1])
        else: out.append(p)
    return out
def same_report(I, st, got, want, n, rule, msg):
    rec = I.obl.setdefault((rule, msg), [0, 0, 0])
    q = ropes_equal(I, st, got, want, n)
    if q is True or q is False and bytewise(st, got) == bytewise(st, want): rec[0] += 1
    elif q is None or st.lossy:
        rec[2] += 1
        w = st.why or 'imprecise content'
        I.taints[w] = I.taints.get(w, 0) + 1
    elif not witness.ropes_differ(st.st, got, want, CIDS):
        rec[2] += 1
        w = 'no concrete difference found at ' + I.loc()
        I.taints[w] = I.taints.get(w, 0) + 1
    else:
        rec[1] += 1
        st.note('content %s, expected %s' % (str(got)[:160], str(want)[:160]))
        I.alarm(st, rule, msg, I.loc())
@model('vf_same_bytes')
def vf_same_bytes(I, st, a, i, name):
    """vf_same_bytes(p, q, n, rule, msg): contents must be the same"""
    n = st.st.norm(I.toint(st, a[2])); rule = lit_of(I, st, a[3]); msg = lit_of(I, st, a[4])
    x = I.read_bytes(st, I.toptr(st, a[0]), n); y = I.read_bytes(st, I.toptr(st, a[1]), n)
    if x is None or y is None: return [] if not st.lossy else R(st)
    same_report(I, st, x, y, n, rule, msg)
    return R(st)
@model('vf_same_str')
def vf_same_str(I, st, a, i, name):
    """vf_same_str(const std::string*, const std::string*, rule, msg)"""
    rule = lit_of(I, st, a[2]); msg = lit_of(I, st, a[3])
    x = S(I, st, a[0]); y = S(I, st, a[1])
    if x is None or y is None: return R(st)
    same_report(I, st, x.r, y.r, None, rule, msg)
    return R(st)
@model('vf_be')
def vf_be(I, st, a, i, name):
    """vf_be(p, n, value, rule, msg): n bytes at p are value, most significant first"""
    n = int(I.toint(st, a[1])); v = st.st.norm(I.toint(st, a[2])); rule = lit_of(I, st, a[3]); msg = lit_of(I, st, a[4])
    x = I.read_bytes(st, I.toptr(st, a[0]), n)
    if x is None: return [] if not st.lossy else R(st)
    w = ()
    for k in range(n):
        w = rope_cat(w, (('V', 1, bitops.ext(v, 64, n - 1 - k, 1)),))
    same_report(I, st, x, w, n, rule, msg)
    return R(st)
@model('vf_le')
def vf_le(I, st, a, i, name):
    n = int(I.toint(st, a[1])); v = st.st.norm(I.toint(st, a[2])); rule = lit_of(I, st, a[3]); msg = lit_of(I, st, a[4])
    x = I.read_bytes(st, I.toptr(st, a[0]), n)
    if x is None: return [] if not st.lossy else R(st)
    w = ()
    for k in range(n): w = rope_cat(w, (('V', 1, bitops.ext(v, 64, k, 1)),))
    same_report(I, st, x, w, n, rule, msg)
    return R(st)
@model('vf_limit')
def vf_limit(I, st, a, i, name):
    """vf_limit(n, rule, msg): allocations above n bytes from here on violate rule (n<0: off)"""
    n = st.st.norm(I.toint(st, a[0]))
    rule = lit_of(I, st, a[1]); msg = lit_of(I, st, a[2])
    f = [x for x in st.facts if x[0] != 'limit']
    if not (n.__class__ is not Lin and n < 0): f.append(('limit', n, rule, msg))
    st.facts = tuple(f)
    def lim(s):
        for x in s.facts:
            if x[0] == 'limit': return x[1:]
        return None, None, None
    I.alloc_limit = lim
    return R(st)
@model('vf_require_lower')
def vf_require_lower(I, st, a, i, name):
    """from here on every key reaching a string->string map inside [p, p+n) must be lower case"""
    p = I.toptr(st, a[0])
    st.facts = st.facts + (('lower', p.b, lit_of(I, st, a[1]), lit_of(I, st, a[2])),)
    return R(st)
@model('vf_dump')
def vf_dump(I, st, a, i, name):
    print('DUMP', [x if not isinstance(x, Ptr) else x for x in a], 'lossy' if st.lossy else '', st.why or '')
    for x in a:
        if x.__class__ is Ptr:
            p = x
            if p.b > 0: print('   ', st.regs[p.b].cells)
    return R(st)
@model('vf_is_lossy')
def vf_is_lossy(I, st, a, i, name): return R(st, Lit(1 if st.lossy else 0))
@model('vf_what')
def vf_what(I, st, a, i, name):
    r = Reg('global', 1 << 20, 'unk', 'what()'); r.ro = True
    n = sym(0, 200, 'whatlen'); cid = new_cid('what', base=True, no=frozenset([0]))
    r.cells[0] = (ladd(n, 1), Bytes((('S', cid, 0, n), ('L', b'\0')))); r.ver = 1
    return R(st, Ptr(st.add(r), 0))
@model('vf_vararg')
def vf_vararg(I, st, a, i, name):
    va = I.varargs.get(id(I.stack[-1]), [])
    k = int(I.toint(st, a[0]))
    if k < len(va): return R(st, I.toint(st, va[k]))
    return R(st, sym(-(1 << 63), (1 << 63) - 1, 'vararg', lossy=True))
@model('vf_leak_begin')
def vf_leak_begin(I, st, a, i, name):
    st.facts = tuple(x for x in st.facts if x[0] != 'leak') + (('leak', cur_rid()),)
    return R(st)
@model('vf_leak_end')
def vf_leak_end(I, st, a, i, name):
    rule = lit_of(I, st, a[0]); msg = lit_of(I, st, a[1])
    wm = None
    for x in st.facts:
        if x[0] == 'leak': wm = x[1]
    if wm is None: return R(st)
    st.facts = tuple(x for x in st.facts if x[0] != 'leak')
    # regions reachable from globals stay alive legitimately
    seen = set(); todo = [b for b in st.regs if st.regs[b].kind == 'global']
    while todo:
        b = todo.pop()
        if b in seen or b not in st.regs: continue
        seen.add(b)
        for o, (s2, v) in st.regs[b].cells.items():
            if v.__class__ is Ptr:
                if v.b > 0: todo.append(v.b)
            elif v.__class__ is MapVal:
                todo += [r for k, r in v.e]
    rec = I.obl.setdefault((rule, msg), [0, 0, 0])
    bad = [b for b, r in st.regs.items() if b > wm and r.kind in ('heap', 'heaparr') and r.alive and b not in seen]
    if not bad: rec[0] += 1
    elif st.lossy or not I.confirm(st): rec[2] += 1
    else:
        rec[1] += 1
        r = st.regs[bad[0]]
        I.alarm(st, rule, msg + ' (allocated at %s)' % r.site, r.site if r.site and r.site != '?' else I.loc())
    return R(st)
@model('vf_stop')
def vf_stop(I, st, a, i, name): return []
@model('vf_member_of')
def vf_literal(I, st, a, i, name): return R(st, Lit(0))
@model('vf_known')
def vf_known(I, st, a, i, name):
    v = I.toint(st, a[0])
    return R(st, Lit(0 if v.__class__ is Lin else 1))
@model('vf_string_known')
def vf_string_known(I, st, a, i, name):
    s = S(I, st, a[0])
    return R(st, Lit(1 if s is not None and rope_lit(s.r) is not None else 0))

# =================================================================== LLVM intrinsics
def llvm(name):
    n = name.split('.')[1]
    if n == 'memcpy' or n == 'memmove': return m_memcpy
    if n == 'memset': return m_memset
    if n == 'bswap': return m_bswap
    if name.startswith('llvm.eh.typeid'): return m_typeid
    if n == 'threadlocal': return lambda I, st, a, i, nm: R(st, a[0])
    if n == 'trap': return m_trap
    if n in ('dbg', 'lifetime', 'assume', 'experimental', 'donothing', 'va_start', 'va_end', 'invariant'): return lambda I, st, a, i, nm: R(st)
    if n == 'expect': return lambda I, st, a, i, nm: R(st, a[0])
    if n == 'objectsize': return lambda I, st, a, i, nm: R(st, Lit(-1))
    if n in ('umin', 'umax', 'smin', 'smax'): return m_minmax
    if n == 'abs': return m_abs
    if name.endswith('.with.overflow.i64') or '.with.overflow.' in name: return m_ovf
    if n in ('fshl', 'fshr'): return m_fsh
    return None
def m_memcpy(I, st, a, i, name):
    if not I.memcpy(st, a[0], a[1], a[2]): return []
    return R(st, a[0])
def m_memset(I, st, a, i, name):
    n = I.toint(st, a[2]); c = I.toint(st, a[1], 8); d = I.toptr(st, a[0])
    S_ = st.st; n = S_.norm(n)
    if n.__class__ is not Lin and n == 0: return R(st, a[0])
    if d.__class__ is not Ptr: st.taint('memset of unknown'); return R(st, a[0])
    if n.__class__ is not Lin and d.b > 0:
        r = I.check(st, d, n, True)
        if r is None: return R(st, a[0]) if st.lossy else []
        w = st.wr(d.b)
        I.kill(st, w, d.o, n)
        if c.__class__ is not Lin and c == 0 and d.o.__class__ is not Lin and d.o == 0 and w.size == n:
            w.cells = {}; w.fill = 'zero'; w.ver = 0
        elif c.__class__ is not Lin and n <= 4096: w.cells[d.o] = (n, Bytes((('L', bytes([c & 255]) * n),)))
        else: w.cells[d.o] = (n, Bytes((('S', new_cid('set', lossy=True), 0, n),)))
        return R(st, a[0])
    if c.__class__ is not Lin:
        cid = new_cid('fill%d' % c, base=True, d=('fill', int(c) & 255), no=frozenset(x for x in range(256) if x != (int(c) & 255)))
        rp = (('S', cid, 0, n),)
    else: rp = (('S', new_cid('set', lossy=True), 0, n),)
    if not I.write_bytes(st, d, n, rp): return []
    return R(st, a[0])
def m_bswap(I, st, a, i, name):
    n = int(name.split('.i')[-1]) // 8
    return R(st, st.st.norm(bitops.bswap(st.st.norm(I.toint(st, a[0], 8 * n)), n)))
def m_typeid(I, st, a, i, name):
    p = a[0]
    if p.__class__ is Ptr and p.b in I.globals: return R(st, Lit(I.tid(I.globals[p.b][4:])))
    if p.__class__ is Ptr and p.b == 0: return R(st, Lit(I.tid('*')))
    if p.__class__ is FnP: return R(st, Lit(I.tid(p.n[4:])))
    return R(st, Lit(-7))
def m_trap(I, st, a, i, name): return []
def m_minmax(I, st, a, i, name):
    x, y = I.toint(st, a[0]), I.toint(st, a[1]); n = name.split('.')[1]
    c = I.mkcmp(st, n[0] + 'lt', x, y, 64)
    t, f = I.split(st, c)
    lo = n.endswith('min')
    return [(s, 'ret', x if lo else y) for s in t] + [(s, 'ret', y if lo else x) for s in f]
def m_abs(I, st, a, i, name):
    x = I.toint(st, a[0])
    t, f = I.split(st, I.mkcmp(st, 'slt', x, 0, 64))
    return [(s, 'ret', s.st.norm(lneg(x))) for s in t] + [(s, 'ret', x) for s in f]
def m_ovf(I, st, a, i, name):
    op = name.split('.')[1]; w = int(name.split('.i')[-1])
    x = I.toint(st, a[0], w); y = I.toint(st, a[1], w)
    if op[0] == 's' or True:
        o = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[op[1:]]
        out = []
        for s, v in I.binop(st, o, x, y, w): out.append((s, 'ret', Agg([v, lossy_cond()])))
        return out
def m_fsh(I, st, a, i, name):
    w = int(name.split('.i')[-1]); M = 1 << (w - 1)
    return R(st, sym(-M, M - 1, 'rot', True))

# =================================================================== C library
@model('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t')
def m_new(I, st, a, i, name):
    S_ = st.st
    n = S_.norm(I.toint(st, a[0]))
    q = S_.decide_ge(n)
    out = []
    if q is not True:
        # a size above 2^63 cannot be allocated
        s2 = st.copy()
        if q is None:
            if s2.st.add_ge(ladd(lneg(n), -1)): out.append(throw(I, s2, 'St9bad_alloc'))
            if not st.st.add_ge(n): return out
        else: return [throw(I, st, 'St9bad_alloc')]
    if not alloc_check(I, st, n, 'allocation'): return out
    return out + R(st, heap(I, st, n))
@model('calloc')
def m_calloc(I, st, a, i, name):
    n = lscale(I.toint(st, a[0]), int(I.toint(st, a[1])))
    return R(st, heap(I, st, n, fill='zero'))
@model('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t')
def m_free(I, st, a, i, name):
    p = I.toptr(st, a[0])
    if p is UNK or p.__class__ is not Ptr: st.taint('free of unknown pointer'); return R(st)
    if p.b == 0: return R(st)
    r = st.regs.get(p.b)
    if r is None:
        I.fail(st, 'double-free', 'delete of an object whose lifetime has ended'); return []
    if not r.alive:
        I.fail(st, 'double-free', 'memory is released twice'); return []
    if r.kind != 'heap':
        I.fail(st, 'bad-free', 'delete of memory that was not allocated with new (%s)' % r.label); return []
    w = st.wr(p.b); w.alive = False; w.cells = {}
    return R(st)
@model('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def m_memcpy2(I, st, a, i, name): return m_memcpy(I, st, a, i, name)
@model('memset')
def m_memset2(I, st, a, i, name): return m_memset(I, st, a, i, name)
@model('strlen')
def m_strlen(I, st, a, i, name):
    r = cstr(I, st, a[0])
    if r is None: return [] if not st.lossy else R(st, sym(0, MAXLEN, 'strlen', True))
    return R(st, st.st.norm(rope_len(r)))
@model('strcpy')
def m_strcpy(I, st, a, i, name):
    r = cstr(I, st, a[1])
    if r is None: return []
    r = rope_cat(r, (('L', b'\0'),))
    if not I.write_bytes(st, I.toptr(st, a[0]), st.st.norm(rope_len(r)), r): return []
    return R(st, a[0])
def nth_bytes(I, st, r, n):
    """the first n bytes of a rope, filled up with zeros (n a number)"""
    L = rope_len(r)
    if L.__class__ is Lin: return None
    return I.rope_slice(st, r, L, 0, n) if L >= n else rope_cat(r, (('L', b'\0' * (n - L)),))
@model('strncpy')
def m_strncpy(I, st, a, i, name):
    r = cstr(I, st, a[1]); n = st.st.norm(I.toint(st, a[2]))
    if r is None: return []
    q = nth_bytes(I, st, r, n) if n.__class__ is not Lin else None
    if q is None:
        st.taint('strncpy of unknown length')
        q = (('S', new_cid('strncpy', lossy=True), 0, n),)
    if (n.__class__ is Lin or n > 0) and not I.write_bytes(st, I.toptr(st, a[0]), n, q): return []
    return R(st, a[0])
@model('strcat')
def m_strcat(I, st, a, i, name):
    d = cstr(I, st, a[0]); r = cstr(I, st, a[1])
    if d is None or r is None: return []
    p = I.toptr(st, a[0])
    r = rope_cat(r, (('L', b'\0'),))
    if not I.write_bytes(st, Ptr(p.b, st.st.norm(ladd(p.o, rope_len(d)))), st.st.norm(rope_len(r)), r): return []
    return R(st, a[0])
def formatted(I, st, a):
    """[(state, rope)] of a printf format with its arguments, or None"""
    f = cstr(I, st, a[0])
    f = rope_lit(f) if f is not None else None
    if f is None: return None
    sts = [(st, ())]; k = 1; pos = 0
    for m in re.finditer(rb'%(%|s|c|(l|ll|z|h|hh)?([diu])|)', f):
        lit = f[pos:m.start()]; pos = m.end()
        if m.group(1) == b'': return None
        if m.group(1) == b'%': lit += b'%'
        if lit: sts = [(s, rope_cat(r, (('L', lit),))) for s, r in sts]
        if m.group(1) == b'%': continue
        if k >= len(a): return None
        new = []
        for s, r in sts:
            if m.group(1) == b's':
                q = cstr(I, s, a[k])
                if q is not None: new.append((s, rope_cat(r, q)))
                continue
            v = s.st.norm(I.toint(s, a[k]))
            if m.group(1) == b'c':
                if v.__class__ is Lin: return None
                new.append((s, rope_cat(r, (('L', bytes([v & 255])),)))); continue
            w = 64 if m.group(2) in (b'l', b'll', b'z') else 32
            if m.group(2) in (b'h', b'hh'): return None
            if v.__class__ is not Lin:
                new.append((s, rope_cat(r, (('L', str(bitops.unsg(v, w) if m.group(3) == b'u' else int(v)).encode()),)))); continue
            for s2, z in (list(I.zext(s, v, w, 65)) if m.group(3) == b'u' else [(s, v)]):
                ln = term('declen', (z,), 1, 20, 'ndigits')
                cid = new_cid('dec', lower=True, no=frozenset(c for c in range(256) if c not in b'-0123456789'), d=('dec', z), lossy=bitops.lossy(z))
                new.append((s2, rope_cat(r, (('S', cid, 0, ln),))))
        sts = new; k += 1
    if f[pos:]: sts = [(s, rope_cat(r, (('L', f[pos:]),))) for s, r in sts]
    return sts
@model('snprintf', 'sprintf', '__snprintf_chk', '__sprintf_chk')
def m_snprintf(I, st, a, i, name):
    bounded = 'snprintf' in name
    at = (2 if bounded else 1) + (2 if name.startswith('__') else 0)
    cap = st.st.norm(I.toint(st, a[1])) if bounded else None
    d = I.toptr(st, a[0])
    fs = formatted(I, st, a[at:]) if cap.__class__ is not Lin else None
    if fs is None:
        st.taint('formatted output that is not followed')
        if d.__class__ is Ptr and d.b > 0 and d.b in st.regs and not st.regs[d.b].ro: r = st.wr(d.b); r.cells = {}; r.fill = 'lossy'; r.ver = 0
        return R(st, sym(0, (1 << 31) - 1, 'printf', True))
    out = []
    for s, r in fs:
        L = s.st.norm(rope_len(r))
        parts = []
        if cap is None: parts.append((s, True))
        elif L.__class__ is not Lin: parts.append((s, L < cap))
        else:
            s2 = s.copy()
            if s.st.add_ge(ladd(lneg(L), cap - 1)): parts.append((s, True))
            if s2.st.add_ge(ladd(L, -cap)): parts.append((s2, False))
        for s, fits in parts:
            if fits: q = rope_cat(r, (('L', b'\0'),)); n = ladd(rope_len(r), 1)
            elif cap == 0: out += R(s, s.st.norm(L)); continue
            else:
                q = rope_cat(I.rope_slice(s, r, L, 0, cap - 1), (('L', b'\0'),)) if cap > 1 else (('L', b'\0'),); n = cap
            if I.write_bytes(s, I.toptr(s, a[0]), s.st.norm(n), q): out += R(s, s.st.norm(rope_len(r)))
    return out
@model('memcmp', 'bcmp')
def m_memcmp(I, st, a, i, name):
    n = st.st.norm(I.toint(st, a[2]))
    if n.__class__ is not Lin and n == 0: return R(st, Lit(0))
    x = I.read_bytes(st, I.toptr(st, a[0]), n); y = I.read_bytes(st, I.toptr(st, a[1]), n)
    if x is None or y is None: return [] if not st.lossy else R(st, sym(-1, 1, 'cmp', True))
    return cmp_result(I, st, x, n, y, n)
def cmp_result(I, st, x, n, y, m):
    lx, ly = rope_lit(x), rope_lit(y)
    if lx is not None and ly is not None:
        return R(st, Lit((lx > ly) - (lx < ly)))
    c = seq_cond(I, st, x, n, y, m)
    t, f = I.split(st, c)
    out = [(s, 'ret', Lit(0)) for s in t]
    for s in f:
        L = rope_lossy(x) or rope_lossy(y)
        v = s.st.norm(term('cmp3', (norm_rope(s.st, x), norm_rope(s.st, y)), -1, 1, 'cmp', L))
        if v.__class__ is not Lin:
            if v != 0: out.append((s, 'ret', v))
            continue
        if s.st.add_ne(v): out.append((s, 'ret', v))
    return out
@model('strcmp', 'strncmp', 'strcasecmp')
def m_strcmp(I, st, a, i, name):
    x = cstr(I, st, a[0]); y = cstr(I, st, a[1])
    if x is None or y is None: return []
    if name != 'strcmp':
        lx, ly = rope_lit(x), rope_lit(y)
        if lx is not None and ly is not None and name == 'strcasecmp': return R(st, Lit((lx.lower() > ly.lower()) - (lx.lower() < ly.lower())))
        return R(st, sym(-1, 1, 'cmp', True))
    return cmp_result(I, st, x, rope_len(x), y, rope_len(y))
def case_source(v):
    """the character a case conversion of v is a conversion of: lower(upper(c)) is lower(c), for a character of a converted content too"""
    d = defn(v)
    if d is None: return v
    if d[0] == 'zext':
        w = case_source(d[1])
        return v if w is d[1] else term('zext', (w,) + d[2:], 0, (1 << d[2]) - 1, 'zext', False)
    if d[0] in ('tolower', 'toupper'): return case_source(d[1])
    if d[0] == 'byt' and d[3] == 1:
        c = CIDS[d[1]]
        if c.d is not None and c.d[0] in ('tolower', 'toupper') and not c.lossy:
            return case_source(bitops.content(c.d[1], d[2], 1))
    return v
@model('tolower', 'toupper')
def m_tolower(I, st, a, i, name):
    v = st.st.norm(I.toint(st, a[0], 32))
    if v.__class__ is not Lin:
        v = int(v)
        if name == 'tolower': return R(st, v + 32 if 65 <= v <= 90 else v)
        return R(st, v - 32 if 97 <= v <= 122 else v)
    v = case_source(v)
    d = defn(v)
    if d is not None and d[0] == name: return R(st, v)
    # known lower-case content
    if name == 'tolower':
        if d is not None and d[0] == 'byt' and CIDS[d[1]].lower: return R(st, v)
        if d is not None and d[0] == 'byr' and rope_lower(d[1]): return R(st, v)
        if d is not None and d[0] == 'zext':
            e = defn(d[1])
            if e is not None and (e[0] == 'byt' and CIDS[e[1]].lower or e[0] == 'byr' and rope_lower(e[1])): return R(st, v)
    lo, hi = st.st.bounds(v)
    return R(st, st.st.norm(term(name, (v,), min(lo, -128), max(hi, 127), name, bitops.lossy(v))))
@model('isalnum', 'isalpha', 'isdigit', 'isspace', 'isxdigit', 'isupper', 'islower', 'isprint', 'ispunct')
def m_isx(I, st, a, i, name):
    v = st.st.norm(I.toint(st, a[0], 32))
    if v.__class__ is not Lin and 0 <= v < 128:
        c = chr(v)
        r = {'isalnum': c.isalnum(), 'isalpha': c.isalpha(), 'isdigit': c.isdigit(), 'isspace': c in ' \t\n\r\v\f', 'isxdigit': c in '0123456789abcdefABCDEF',
             'isupper': c.isupper(), 'islower': c.islower(), 'isprint': 32 <= v < 127, 'ispunct': 32 < v < 127 and not c.isalnum()}[name]
        return R(st, Lit(1 if r else 0))
    t = st.st.norm(term(name, (v,), 0, 1, name, bitops.lossy(v)))
    return R(st, t)
@model('__cxa_atexit', 'signal_unused')
def m_atexit(I, st, a, i, name): return R(st, Lit(0))
@model('__cxa_guard_acquire')
def m_guard(I, st, a, i, name):
    p = I.toptr(st, a[0])
    v = I.load_reg(st, p.b, st.regs[p.b], p.o, 1, 'i8')
    if v.__class__ in (int, Lit) and v == 0: return R(st, Lit(1))
    return R(st, Lit(0))
@model('__cxa_guard_release')
def m_guardr(I, st, a, i, name):
    p = I.toptr(st, a[0]); I.put(st, p.b, p.o, 1, Lit(1)); return R(st)
@model('__cxa_guard_abort')
def m_guarda(I, st, a, i, name): return R(st)
@model('__cxa_allocate_exception')
def m_allocexc(I, st, a, i, name):
    r = Reg('exc', int(I.toint(st, a[0])), 'undef', 'exception'); return R(st, Ptr(st.add(r), 0))
@model('__cxa_free_exception')
def m_freeexc(I, st, a, i, name): return R(st)
@model('__cxa_throw')
def m_throw(I, st, a, i, name):
    p = a[1]
    if p.__class__ is Ptr and p.b in I.globals: n = I.globals[p.b][4:]
    elif p.__class__ is FnP: n = p.n[4:]
    else: n = '?'
    st.note('throws %s at %s' % (n, I.loc()))
    return [(st, 'exc', (n, a[0]))]
@model('__cxa_begin_catch')
def m_begin(I, st, a, i, name):
    if st.exc:
        e = st.exc[-1]; st.exc = st.exc[:-1]; st.caught = st.caught + (e,)
    return R(st, a[0])
@model('__cxa_end_catch')
def m_end(I, st, a, i, name):
    st.caught = st.caught[:-1]; return R(st)
@model('__cxa_rethrow')
def m_rethrow(I, st, a, i, name):
    e = st.caught[-1] if st.caught else ('?', NULL)
    return [(st, 'exc', e)]
@model('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_call_terminate')
def m_term(I, st, a, i, name):
    I.fail(st, 'terminate', 'std::terminate is reached (exception leaves a noexcept function or destructor)'); return []
@model('__cxa_pure_virtual')
def m_pure(I, st, a, i, name):
    I.fail(st, 'pure-virtual', 'pure virtual call'); return []
@model('__cxa_bad_cast')
def m_badcast(I, st, a, i, name): return [throw(I, st, 'St8bad_cast')]
@model('__dynamic_cast')
def m_dyncast(I, st, a, i, name):
    p = I.toptr(st, a[0])
    if p.__class__ is not Ptr: st.taint('dynamic_cast of unknown'); return R(st, UNK)
    if p.b == 0: return R(st, NULL)
    v = I.load(st, p, 8, 'ptr')
    v = I.toptr(st, v) if v is not None else UNK
    if v.__class__ is Ptr and v.b in I.globals and I.globals[v.b].startswith('_ZTV') and a[2].__class__ is Ptr and a[2].b in I.globals:
        if I.ti_isa(I.globals[v.b][4:], I.globals[a[2].b][4:]): return R(st, p)
        return R(st, NULL)
    st.taint('dynamic_cast'); return R(st, UNK)
@model('getenv', 'strerror', 'gai_strerror')
def m_strerr(I, st, a, i, name): return vf_what(I, st, a, i, name)
@model('time')
def m_time(I, st, a, i, name): return R(st, sym(0, 1 << 40, 'time'))
@model('rand', 'random')
def m_rand(I, st, a, i, name): return R(st, sym(0, (1 << 31) - 1, 'rand'))
@model('srand', 'srandom', 'usleep', 'sleep', 'sched_yield')
def m_nop(I, st, a, i, name): return R(st, Lit(0))
@model('htons', 'ntohs')
def m_htons(I, st, a, i, name): return R(st, st.st.norm(bitops.bswap(st.st.norm(I.toint(st, a[0], 16)), 2)))
@model('htonl', 'ntohl')
def m_htonl(I, st, a, i, name): return R(st, st.st.norm(bitops.bswap(st.st.norm(I.toint(st, a[0], 32)), 4)))
@model('_ZN9__gnu_cxx19__is_single_threadedEv')
def m_single(I, st, a, i, name): return R(st, Lit(1))
@model('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_once')
def m_mutex(I, st, a, i, name): return R(st, Lit(0))

# =================================================================== C++ library
THROWS = {'std::__throw_out_of_range(': 'St12out_of_range', 'std::__throw_out_of_range_fmt(': 'St12out_of_range', 'std::__throw_length_error(': 'St12length_error',
          'std::__throw_bad_alloc(': 'St9bad_alloc', 'std::__throw_bad_array_new_length(': 'St20bad_array_new_length', 'std::__throw_invalid_argument(': 'St16invalid_argument',
          'std::__throw_logic_error(': 'St11logic_error', 'std::__throw_bad_function_call(': 'St17bad_function_call', 'std::__throw_runtime_error(': 'St13runtime_error',
          'std::__throw_system_error(': 'St12system_error', 'std::__throw_bad_cast(': 'St8bad_cast', 'std::__throw_domain_error(': 'St12domain_error'}

def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        elif ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def parse_dm(dm):
    """(qualified name, [arg types]) of a demangled function"""
    d = 0; k = dm.rfind(')')
    if k < 0: return dm, []
    j = k
    while j >= 0:
        if dm[j] == ')': d += 1
        elif dm[j] == '(':
            d -= 1
            if d == 0: break
        j -= 1
    return dm[:j], split_args(dm[j + 1:k])

def cxx(name, dm, has_body):
    for k, t in THROWS.items():
        if dm.startswith(k):
            return lambda I, st, a, i, nm, t=t: [throw(I, st, t)]
    q, args = parse_dm(dm)
    q = q.replace('[abi:cxx11]', '')
    if q.startswith('string::'):
        return string_method(q[8:], args, dm)
    # strip a leading return type of templates:  "std::basic_ostream<...>& std::operator<<..."
    m = re.match(r'^(?:.*[ &*])?(std::operator(==|!=|<|>|<=|>=|\+|<<|>>))<', q)
    if m and m.group(2) in ('==', '!=') and args and all(a in ('string const&', 'char const*', 'string const*') for a in args[:2]) and any('string' in a for a in args):
        neg = m.group(2) == '!='
        return lambda I, st, a, i, nm: str_eq(I, st, a, args, neg)
    if m and m.group(2) in ('<', '>', '<=', '>=') and args and all(a in ('string const&', 'char const*') for a in args[:2]) and any('string' in a for a in args):
        op = m.group(2)
        return lambda I, st, a, i, nm: str_lt(I, st, a, args, op)
    if 'basic_ostream' in dm or dm.startswith('std::ostream::') or dm.startswith('std::basic_ostream'):
        if 'operator<<' in dm or 'std::endl' in dm or 'flush' in dm or 'std::ostream::' in dm or '::write' in dm or '::put' in dm:
            return lambda I, st, a, i, nm: R(st, a[0])
    if dm.startswith('std::ios_base::Init::') or dm.startswith('std::ios_base::'):
        return lambda I, st, a, i, nm: R(st, a[0] if a else None)
    mm = re.match(r'^std::(logic_error|runtime_error|invalid_argument|out_of_range|length_error|exception|bad_alloc|domain_error|overflow_error|range_error|system_error)::(~?)', dm)
    if mm:
        if mm.group(2): return lambda I, st, a, i, nm: R(st)
        if '::what' in dm: return vf_what
        return exc_ctor
    mm = re.match(r'^(?:std::)?(?:__cxx11::)?(?:std::)?(sto[iluf]\w*|stod)\(', dm)
    if mm and args and args[0] == 'string const&':
        k = mm.group(1)
        return lambda I, st, a, i, nm: sto(I, st, a, k)
    if re.match(r'^string std::operator\+<char\b.*\(string&&, string&&\)$', dm): return str_plus
    mm = re.match(r'^std::to_string\((.*)\)$', dm)
    if mm: 
        ty = mm.group(1)
        return lambda I, st, a, i, nm: to_string(I, st, a, ty)
    if dm.startswith('std::basic_istringstream<') or dm.startswith('std::basic_stringstream<') or dm.startswith('std::istringstream') or dm.startswith('std::stringstream'):
        if '::basic_istringstream(' in dm or '::basic_stringstream(' in dm: return iss_ctor
        if '::~' in dm: return lambda I, st, a, i, nm: R(st)
        return None if not has_body else None
    if dm.startswith('std::istream::read('): return is_read
    if dm.startswith('std::istream::gcount('): return is_gcount
    if dm.startswith('std::_Hash_bytes('): return lambda I, st, a, i, nm: R(st, sym(-(1 << 63), (1 << 63) - 1, 'hash'))
    if dm.startswith('std::_Rb_tree_increment('): return rb_inc
    if dm.startswith('std::chrono::_V2::') and '::now' in dm: return lambda I, st, a, i, nm: R(st, sym(0, 1 << 62, 'now'))
    if dm.startswith('std::random_device::'): return lambda I, st, a, i, nm: R(st, sym(-(1 << 31), (1 << 31) - 1, 'rnd') if i['t'] == 'i32' else None)
    r = container(q, args, dm)
    if r is not None: return r
    r = algo(q, args, dm)
    if r is not None: return r
    return None

B64 = frozenset(range(256)) - frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=')
UF = {}
def uninterpreted(dm, which):
    """text -> text functions whose result is a fixed but unknown function of their argument: only these facts are used of Base64 and SHA-1"""
    m = re.match(r'^fr::(Base64::encode|Sha1::sha1_digest)\(', dm)
    if m is None or m.group(1).split('::')[0] not in which: return None
    b64 = m.group(1)[0] == 'B'
    def f(I, st, a, i, name):
        x = S(I, st, a[1])
        if x is None: st.taint('uninterpreted function of unknown text'); setS(I, st, a[0], (('S', new_cid('uf', lossy=True), 0, sym(0, 1 << 32, 'len', True)),)); return R(st)
        r = norm_rope(st.st, x.r); n = st.st.norm(x.n)
        key = (b64, r)
        if not b64: ln = 20
        elif n.__class__ is not Lin: ln = (int(n) + 2) // 3 * 4
        else: ln = term('uflen', key, (max(0, st.st.bounds(n)[0]) + 2) // 3 * 4, 1 << 33, 'len', bitops.lossy(n))
        cid = UF.get(key)
        if cid is None: cid = UF[key] = new_cid('uf', base=True, no=B64 if b64 else frozenset(), lossy=rope_lossy(r))
        setS(I, st, a[0], (('S', cid, 0, ln),) if ln.__class__ is Lin or ln else (), ln)
        return R(st)
    return f
def exc_ctor(I, st, a, i, name):
    p = I.toptr(st, a[0])
    if I.ex_region is None or I.ex_region not in st.regs:
        _ = throw(I, st, 'St9exception'); st.trace = st.trace[1]
    if p.__class__ is Ptr and p.b in st.regs: I.put(st, p.b, p.o, 8, Ptr(I.ex_region, 0))
    return R(st)

# ------------------------------------------------------------------- strings
def src_rope(I, st, ty, a):
    """rope from a source argument"""
    if ty.startswith('string'):
        s = S(I, st, a)
        return None if s is None else s.r
    if ty in ('char const*', 'char*'): return cstr(I, st, a)
    if ty == 'char':
        v = I.toint(st, a, 8)
        return (('V', 1, st.st.norm(v)),) if v.__class__ is Lin else (('L', bytes([int(v) & 255])),)
    return None
def repeat(I, st, n, ch):
    n = st.st.norm(I.toint(st, n)); ch = st.st.norm(I.toint(st, ch, 8))
    if n.__class__ is not Lin and 0 <= n <= 4096 and ch.__class__ is not Lin:
        return (('L', bytes([int(ch) & 255]) * int(n)),) if n else ()
    if ch.__class__ is not Lin:
        c = int(ch) & 255
        cid = new_cid('fill', base=True, d=('fill', c), no=frozenset(x for x in range(256) if x != c), lower=not 65 <= c <= 90)
    else: cid = new_cid('fill', lossy=True)
    return (('S', cid, 0, n),)

def src_args(I, st, types, a):
    """list of (state, rope | None, exc) for the source arguments of assign/append/insert/..."""
    if not types: return [(st, (), None)]
    t0 = types[0]
    if len(types) == 1 or (len(types) == 2 and 'allocator' in types[1]):
        if 'initializer_list' in t0:
            r = I.read_bytes(st, I.toptr(st, a[0]), I.toint(st, a[1]))
            return [(st, r, None)]
        return [(st, src_rope(I, st, t0, a[0]), None)]
    if t0 in ('char const*', 'char*') and types[1] == 'unsigned long':
        n = I.toint(st, a[1])
        q = st.st.decide_ge(n)
        if q is not True:
            s2 = st.copy(); out = []
            if s2.st.add_ge(ladd(lneg(n), -1)): out.append((s2, None, 'St12length_error'))
            if st.st.add_ge(n):
                r = I.read_bytes(st, I.toptr(st, a[0]), st.st.norm(n)); out.append((st, r, None))
            return out
        return [(st, I.read_bytes(st, I.toptr(st, a[0]), n), None)]
    if t0 == 'unsigned long' and types[1] == 'char':
        n = st.st.norm(I.toint(st, a[0]))
        out = []
        q = st.st.decide_ge(n)
        if q is not True:
            s2 = st.copy()
            if s2.st.add_ge(ladd(lneg(n), -1)): out.append((s2, None, 'St12length_error'))
            if not st.st.add_ge(n): return out
        return out + [(st, repeat(I, st, n, a[1]), None)]
    if t0.startswith('string') and types[1] == 'unsigned long':
        s = S(I, st, a[0])
        if s is None: return [(st, None, None)]
        if len(types) >= 3 and types[2] == 'unsigned long':
            return sub_rope_(I, st, s, a[1], a[2])
        return sub_rope_(I, st, s, a[1], Lit(-1))
    # iterator pair
    if len(types) >= 2 and types[0] == types[1]:
        p = iterval(I, st, a[0]); q = iterval(I, st, a[1])
        if p.__class__ is Ptr and q.__class__ is Ptr and p.b == q.b:
            n = st.st.norm(lsub(q.o, p.o))
            if st.st.decide_ge(n) is False:
                I.fail(st, 'bounds-read', 'iterator range is reversed'); return []
            r = I.read_bytes(st, p, n)
            return [(st, r, None)]
    return [(st, None, None)]
def iterval(I, st, v):
    """pointer held by a char iterator (passed by value as ptr)"""
    return I.toptr(st, v)

def umin_len(I, st, avail, cnt):
    """min(avail, cnt) with cnt an unsigned 64-bit value in signed view: list of (state, n)"""
    S_ = st.st
    cnt = S_.norm(cnt); avail = S_.norm(avail)
    if cnt.__class__ is not Lin and cnt < 0: return [(st, avail)]
    q = S_.decide_ge(cnt)
    out = []
    if q is None:
        s2 = st.copy()
        if s2.st.add_ge(ladd(lneg(cnt), -1)): out.append((s2, s2.st.norm(avail)))
        if not st.st.add_ge(cnt): return out
    elif q is False: return [(st, avail)]
    d = S_.decide_ge(lsub(avail, cnt))
    if d is True: return out + [(st, st.st.norm(cnt))]
    if d is False: return out + [(st, st.st.norm(avail))]
    s2 = st.copy()
    if s2.st.add_ge(ladd(lsub(cnt, avail), -1)): out.append((s2, s2.st.norm(avail)))
    if st.st.add_ge(lsub(avail, cnt)): out.append((st, st.st.norm(cnt)))
    return out
def check_pos(I, st, n, pos):
    """fork on pos > n: (ok states, throwing states)"""
    S_ = st.st
    pos = S_.norm(I.toint(st, pos)); n = S_.norm(n)
    c = I.mkcmp(st, 'ugt', pos, n, 64)
    t, f = I.split(st, c)
    return f, t
def sub_rope_(I, st, s, pos, cnt):
    ok, bad = check_pos(I, st, s.n, pos)
    out = [(b, None, 'St12out_of_range') for b in bad]
    for o in ok:
        p = o.st.norm(I.toint(o, pos))
        for s2, n in umin_len(I, o, lsub(s.n, p), I.toint(o, cnt)):
            out.append((s2, I.rope_slice(s2, norm_rope(s2.st, s.r), s.n, p, n), None))
    return out

def apply_src(I, st, types, a, f):
    """run f(state, rope) for every outcome of the source arguments"""
    out = []
    for s, r, e in src_args(I, st, types, a):
        if e is not None: out.append(throw(I, s, e)); continue
        if r is None:
            if s.lossy: r = (('S', new_cid('src', lossy=True), 0, sym(0, MAXLEN, 'len', True)),)
            else:
                if not getattr(I, '_dead', 0): s.taint('string source'); r = (('S', new_cid('src', lossy=True), 0, sym(0, MAXLEN, 'len', True)),)
        out += f(s, r)
    return out

def string_method(nm, args, dm):
    """model of std::string::nm(args)"""
    base = nm.split('<')[0]
    if base == 'basic_string':
        if not args or args[0].startswith('std::allocator'):
            return lambda I, st, a, i, n: (setS(I, st, a[0], (), 0), R(st))[1]
        if args[0] == 'string&&':
            return s_move
        def ctor(I, st, a, i, n):
            def f(s, r):
                setS(I, s, a[0], r); return R(s)
            return apply_src(I, st, args, a[1:], f)
        return ctor
    if base == '~basic_string':
        return s_dtor
    if base == 'operator=' or base == 'assign':
        if args and args[0] == 'string&&': return s_move_assign
        def asg(I, st, a, i, n):
            def f(s, r):
                setS(I, s, a[0], r); return R(s, a[0])
            return apply_src(I, st, args, a[1:], f)
        return asg
    if base in ('append', 'operator+='):
        def app(I, st, a, i, n):
            def f(s, r):
                x = S(I, s, a[0])
                if x is None: return R(s, a[0]) if s.lossy else []
                nn = s.st.norm(ladd(x.n, rope_len(r)))
                if not alloc_check(I, s, nn, 'string growth'): return []
                setS(I, s, a[0], rope_cat(x.r, r), nn)
                return R(s, a[0])
            return apply_src(I, st, args, a[1:], f)
        return app
    if base == 'push_back':
        def pb(I, st, a, i, n):
            x = S(I, st, a[0])
            if x is None: return R(st) if st.lossy else []
            setS(I, st, a[0], rope_cat(x.r, src_rope(I, st, 'char', a[1])), st.st.norm(ladd(x.n, 1)))
            return R(st)
        return pb
    if base in ('size', 'length'):
        def sz(I, st, a, i, n):
            x = S(I, st, a[0])
            return R(st, st.st.norm(x.n)) if x is not None else (R(st, sym(0, MAXLEN, 'n', True)) if st.lossy else [])
        return sz
    if base == 'empty':
        def em(I, st, a, i, n):
            x = S(I, st, a[0])
            if x is None: return R(st, lossy_cond()) if st.lossy else []
            return R(st, I.mkcmp(st, 'eq', st.st.norm(x.n), 0, 64))
        return em
    if base in ('c_str', 'data', 'begin', 'cbegin'):
        return lambda I, st, a, i, n: data_ptr(I, st, a[0], 0)
    if base in ('end', 'cend'):
        def en(I, st, a, i, n):
            x = S(I, st, a[0])
            if x is None: return R(st, UNK) if st.lossy else []
            return data_ptr(I, st, a[0], st.st.norm(x.n))
        return en
    if base in ('operator[]', 'at'):
        def idx(I, st, a, i, n):
            x = S(I, st, a[0])
            if x is None: return R(st, UNK) if st.lossy else []
            k = st.st.norm(I.toint(st, a[1]))
            if base == 'at':
                ok, bad = check_pos(I, st, ladd(x.n, -1), k)
                return [throw(I, b, 'St12out_of_range') for b in bad] + sum((data_ptr(I, o, a[0], o.st.norm(k)) for o in ok), [])
            # str[size()] refers to the terminator
            if not I.oblige(st, 'bounds-read', [k, lsub(x.n, k)], lambda: 'index %s of a string of size %s' % (k, x.n)): return []
            return data_ptr(I, st, a[0], st.st.norm(k))
        return idx
    if base in ('front', 'back'):
        def fb(I, st, a, i, n):
            x = S(I, st, a[0])
            if x is None: return R(st, UNK) if st.lossy else []
            if not I.oblige(st, 'bounds-read', [ladd(x.n, -1)], lambda: '%s() of a string of size %s' % (base, x.n)): return []
            return data_ptr(I, st, a[0], 0 if base == 'front' else st.st.norm(ladd(x.n, -1)))
        return fb
    if base == 'pop_back':
        def ppb(I, st, a, i, n):
            x = S(I, st, a[0])
            if x is None: return R(st) if st.lossy else []
            if not I.oblige(st, 'bounds-write', [ladd(x.n, -1)], 'pop_back() of an empty string'): return []
            nn = st.st.norm(ladd(x.n, -1))
            setS(I, st, a[0], I.rope_slice(st, x.r, x.n, 0, nn), nn)
            return R(st)
        return ppb
    if base == 'clear':
        return lambda I, st, a, i, n: (setS(I, st, a[0], (), 0), R(st))[1]
    if base in ('reserve', 'shrink_to_fit'):
        def rs(I, st, a, i, n):
            if base == 'reserve' and len(a) > 1:
                v = st.st.norm(I.toint(st, a[1])); out = []
                q = st.st.decide_ge(v)
                if q is not True:
                    s2 = st.copy()
                    if s2.st.add_ge(ladd(lneg(v), -1)): out.append(throw(I, s2, 'St12length_error'))
                    if not st.st.add_ge(v): return out
                if not alloc_check(I, st, v, 'reserve'): return out
                return out + R(st)
            return R(st)
        return rs
    if base == 'capacity':
        return lambda I, st, a, i, n: R(st, sym(0, MAXLEN, 'cap', True))
    if base == 'max_size': return lambda I, st, a, i, n: R(st, (1 << 62) - 1)
    if base == 'get_allocator': return lambda I, st, a, i, n: R(st)
    if base in ('_M_data', '_M_local_data'): return lambda I, st, a, i, n: data_ptr(I, st, a[0], 0)
    if base == '_M_length': return string_method('size', args, dm)
    if base == 'substr':
        def ss(I, st, a, i, n):
            x = S(I, st, a[1])
            if x is None: return R(st) if st.lossy else []
            out = []
            for s, r, e in sub_rope_(I, st, x, a[2], a[3]):
                if e: out.append(throw(I, s, e)); continue
                setS(I, s, a[0], r); out += R(s)
            return out
        return ss
    if base == 'erase':
        return lambda I, st, a, i, n: s_erase(I, st, a, args)
    if base == 'resize':
        return s_resize
    if base == 'insert':
        return lambda I, st, a, i, n: s_insert(I, st, a, args)
    if base == 'replace':
        return lambda I, st, a, i, n: s_replace(I, st, a, args)
    if base == 'compare':
        return lambda I, st, a, i, n: s_compare(I, st, a, args)
    if base in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        return lambda I, st, a, i, n: s_find(I, st, a, args, base)
    if base == 'swap':
        def sw(I, st, a, i, n):
            x = S(I, st, a[0]); y = S(I, st, a[1])
            if x is None or y is None: return R(st) if st.lossy else []
            setS(I, st, a[0], y.r, y.n); setS(I, st, a[1], x.r, x.n); return R(st)
        return sw
    if base == 'copy':
        def cp(I, st, a, i, n):
            x = S(I, st, a[0])
            if x is None: return []
            out = []
            for s, r, e in sub_rope_(I, st, x, a[3], a[2]):
                if e: out.append(throw(I, s, e)); continue
                L = s.st.norm(rope_len(r))
                if I.write_bytes(s, I.toptr(s, a[1]), L, r): out += R(s, L)
            return out
        return cp
    def unknown(I, st, a, i, n):
        I.unmodelled[dm] = I.unmodelled.get(dm, 0) + 1
        st.taint('unmodelled ' + dm[:80])
        for v in a:
            if v.__class__ is Ptr and v.b in st.regs:
                c = st.regs[v.b].cells.get(v.o)
                if c is not None and c[1].__class__ is StrVal: setS(I, st, v, (('S', new_cid('?', lossy=True), 0, sym(0, MAXLEN, 'n', True)),))
        return R(st, I.unk_ret(i['t']))
    return unknown

def data_ptr(I, st, p, off):
    p = I.toptr(st, p)
    if p.__class__ is not Ptr or p.b <= 0:
        x = I.get_str(st, p) if p.__class__ is Ptr else None
        if st.lossy: return R(st, UNK)
        if p.__class__ is not Ptr: st.taint('string at unknown address'); return R(st, UNK)
        return []
    x = I.get_str(st, p)
    if x is None: return R(st, UNK) if st.lossy else []
    return R(st, Ptr(sd_id(p.b, st.st.norm(p.o)), off))

def s_dtor(I, st, a, i, n):
    p = I.toptr(st, a[0])
    if p.__class__ is Ptr and p.b > 0:
        r = I.region(st, p, 'string destruction')
        if r is None: return R(st) if st.lossy else []
        c = r.cells.get(p.o)
        if c is not None and c[1].__class__ is StrVal:
            w = st.wr(p.b); del w.cells[p.o]
    return R(st)
def s_move(I, st, a, i, n):
    x = S(I, st, a[1])
    if x is None: return R(st) if st.lossy else []
    setS(I, st, a[0], x.r, x.n)
    setS(I, st, a[1], (), 0)
    return R(st)
def s_move_assign(I, st, a, i, n):
    p = I.toptr(st, a[0]); q = I.toptr(st, a[1])
    if p == q: return R(st, a[0])
    x = S(I, st, a[1])
    if x is None: return R(st, a[0]) if st.lossy else []
    setS(I, st, a[0], x.r, x.n); setS(I, st, a[1], (), 0)
    return R(st, a[0])
def s_resize(I, st, a, i, n):
    x = S(I, st, a[0])
    if x is None: return R(st) if st.lossy else []
    k = st.st.norm(I.toint(st, a[1]))
    ch = a[2] if len(a) > 2 else Lit(0)
    out = []
    q = st.st.decide_ge(k)
    if q is not True:
        s2 = st.copy()
        if s2.st.add_ge(ladd(lneg(k), -1)): out.append(throw(I, s2, 'St12length_error'))
        if q is False or not st.st.add_ge(k): return out
        k = st.st.norm(k)
    c = I.mkcmp(st, 'sle', k, x.n, 64)
    t, f = I.split(st, c)
    for s in t:
        r = I.rope_slice(s, norm_rope(s.st, x.r), s.st.norm(x.n), 0, s.st.norm(k))
        setS(I, s, a[0], r, s.st.norm(k)); out += R(s)
    for s in f:
        k2 = s.st.norm(k)
        if not alloc_check(I, s, k2, 'resize'): continue
        d = s.st.norm(lsub(k2, x.n))
        setS(I, s, a[0], rope_cat(x.r, repeat(I, s, d, ch)), k2); out += R(s)
    return out
def s_erase(I, st, a, args):
    x = S(I, st, a[0])
    if x is None: return R(st, UNK) if st.lossy else []
    if args and args[0] == 'unsigned long':
        ok, bad = check_pos(I, st, x.n, a[1])
        out = [throw(I, b, 'St12out_of_range') for b in bad]
        for o in ok:
            p = o.st.norm(I.toint(o, a[1]))
            for s, n in umin_len(I, o, lsub(x.n, p), I.toint(o, a[2])):
                do_erase(I, s, a[0], x, p, n); out += R(s, a[0])
        return out
    p = I.toptr(st, a[1])
    if len(args) == 1:
        n = 1
    else:
        q = I.toptr(st, a[2])
        if p.__class__ is not Ptr or q.__class__ is not Ptr: st.taint('erase'); return R(st, UNK)
        n = st.st.norm(lsub(q.o, p.o))
    if p.__class__ is not Ptr: st.taint('erase'); return R(st, UNK)
    if not I.oblige(st, 'bounds-write', [p.o, n, lsub(x.n, ladd(p.o, n))], lambda: 'erase of %s characters at %s of a string of size %s' % (n, p.o, x.n)): return []
    do_erase(I, st, a[0], x, p.o, n)
    return R(st, p)
def do_erase(I, s, ptr, x, p, n):
    S_ = s.st
    r = norm_rope(S_, x.r); xn = S_.norm(x.n); p = S_.norm(p); n = S_.norm(n)
    left = I.rope_slice(s, r, xn, 0, p); e = S_.norm(ladd(p, n))
    right = I.rope_slice(s, r, xn, e, S_.norm(lsub(xn, e)))
    setS(I, s, ptr, rope_cat(left, right), S_.norm(lsub(xn, n)))
def s_insert(I, st, a, args):
    x = S(I, st, a[0])
    if x is None: return R(st, a[0]) if st.lossy else []
    if args and args[0] == 'unsigned long':
        ok, bad = check_pos(I, st, x.n, a[1])
        out = [throw(I, b, 'St12out_of_range') for b in bad]
        for o in ok:
            def f(s, r):
                p = s.st.norm(I.toint(s, a[1])); xr = norm_rope(s.st, x.r)
                left = I.rope_slice(s, xr, x.n, 0, p); right = I.rope_slice(s, xr, x.n, p, s.st.norm(lsub(x.n, p)))
                setS(I, s, a[0], rope_cat(left, r, right), s.st.norm(ladd(x.n, rope_len(r))))
                return R(s, a[0])
            out += apply_src(I, o, args[1:], a[2:], f)
        return out
    p = I.toptr(st, a[1])
    if p.__class__ is not Ptr: st.taint('insert'); return R(st, UNK)
    def g(s, r):
        left = I.rope_slice(s, x.r, x.n, 0, p.o); right = I.rope_slice(s, x.r, x.n, p.o, s.st.norm(lsub(x.n, p.o)))
        setS(I, s, a[0], rope_cat(left, r, right), s.st.norm(ladd(x.n, rope_len(r))))
        return R(s, p)
    return apply_src(I, st, args[1:], a[2:], g)
def s_replace(I, st, a, args):
    x = S(I, st, a[0])
    if x is None: return R(st, a[0]) if st.lossy else []
    if args and args[0] == 'unsigned long':
        ok, bad = check_pos(I, st, x.n, a[1])
        out = [throw(I, b, 'St12out_of_range') for b in bad]
        for o in ok:
            p = o.st.norm(I.toint(o, a[1]))
            for o2, n in umin_len(I, o, lsub(x.n, p), I.toint(o, a[2])):
                def f(s, r):
                    xr = norm_rope(s.st, x.r)
                    left = I.rope_slice(s, xr, x.n, 0, p); e = s.st.norm(ladd(p, n))
                    right = I.rope_slice(s, xr, x.n, e, s.st.norm(lsub(x.n, e)))
                    setS(I, s, a[0], rope_cat(left, r, right)); return R(s, a[0])
                out += apply_src(I, o2, args[2:], a[3:], f)
        return out
    st.taint('replace'); setS(I, st, a[0], (('S', new_cid('?', lossy=True), 0, sym(0, MAXLEN, 'n', True)),))
    return R(st, a[0])
def s_compare(I, st, a, args):
    x = S(I, st, a[0])
    if x is None: return R(st, sym(-1, 1, 'c', True)) if st.lossy else []
    if args[0] == 'unsigned long':
        out = []
        for s, r, e in sub_rope_(I, st, x, a[1], a[2]):
            if e: out.append(throw(I, s, e)); continue
            for s2, y, e2 in src_args(I, s, args[2:], a[3:]):
                if e2: out.append(throw(I, s2, e2)); continue
                if y is None: s2.taint('compare'); out += R(s2, sym(-1, 1, 'c', True)); continue
                out += cmp_result(I, s2, r, rope_len(r), y, rope_len(y))
        return out
    y = src_rope(I, st, args[0], a[1])
    if y is None: return []
    return cmp_result(I, st, x.r, x.n, y, rope_len(y))
def str_eq(I, st, a, args, neg):
    x = src_rope(I, st, args[0], a[0]); y = src_rope(I, st, args[1], a[1])
    if x is None or y is None: return R(st, lossy_cond()) if st.lossy else []
    c = seq_cond(I, st, x, st.st.norm(rope_len(x)), y, st.st.norm(rope_len(y)))
    if neg:
        c = c.inv() if c.__class__ is Cond else Lit(1 - int(c))
    return R(st, c)
def str_lt(I, st, a, args, op):
    x = src_rope(I, st, args[0], a[0]); y = src_rope(I, st, args[1], a[1])
    if x is None or y is None: return R(st, lossy_cond()) if st.lossy else []
    lx, ly = rope_lit(x), rope_lit(y)
    if lx is not None and ly is not None: return R(st, Lit({'<': lx < ly, '>': lx > ly, '<=': lx <= ly, '>=': lx >= ly}[op]))
    if x == y: return R(st, Lit(1 if '=' in op else 0))
    t = term('slt', (x, y), 0, 1, 'lt', rope_lossy(x) or rope_lossy(y))
    return R(st, Cond([[('eq', ladd(t, -1))]], [[('eq', t)]]))

def s_find(I, st, a, args, base):
    x = S(I, st, a[0])
    if x is None: return R(st, sym(-1, MAXLEN, 'pos', True)) if st.lossy else []
    S_ = st.st
    nd = src_rope(I, st, args[0], a[1])
    if nd is None: return []
    if len(args) >= 3 and args[1] == 'unsigned long':
        # (ptr, pos, n)
        n3 = I.toint(st, a[3])
        nd = I.read_bytes(st, I.toptr(st, a[1]), n3)
        if nd is None: return []
    pos = S_.norm(I.toint(st, a[2])) if len(a) > 2 else Lit(0 if not base.startswith('r') else -1)
    r = norm_rope(S_, x.r); n = S_.norm(x.n)
    lit = rope_lit(nd)
    lr = rope_lit(r)
    if lit is not None and lr is not None and pos.__class__ is not Lin:
        p = int(pos) & (U64 - 1)
        v = -1
        if base == 'find': v = lr.find(lit, p) if p <= len(lr) else -1
        elif base == 'rfind': v = lr.rfind(lit, 0, min(p, len(lr)) + len(lit))
        else:
            rngk = range(min(p, len(lr)), len(lr)) if 'first' in base else range(min(p, len(lr) - 1), -1, -1)
            want = 'not' not in base
            for k in rngk:
                if (lr[k] in lit) == want: v = k; break
        return R(st, v)
    z = ('?',)
    if lit is not None and (len(lit) > 0 or base.endswith('of')):
        if base in ('find', 'find_first_of', 'find_first_not_of'):
            y = ((), r) if pos.__class__ is not Lin and pos == 0 else I.rope_locate(st, r, pos)
            if y is not None:
                z = match.find(S_, lit, y[1]) if base == 'find' else match.find_set(S_, lit, y[1], base == 'find_first_not_of')
                if z[0] == 'at': return R(st, S_.norm(ladd(pos, z[1])))
        elif pos.__class__ is not Lin and pos == -1:
            z = match.rfind(S_, lit, r) if base == 'rfind' else match.find_set(S_, lit, r, base == 'find_last_not_of', True)
            if z[0] == 'at': return R(st, S_.norm(z[1]))
        if z[0] == 'no': return R(st, -1)
    L = rope_lossy(r) or rope_lossy(nd) or S_.is_lossy(pos)
    m = S_.norm(rope_len(nd)) if base in ('find', 'rfind') else 1
    t = S_.norm(term(base, (r, nd, pos), -1, MAXLEN, base, L))
    if t.__class__ is not Lin: return R(st, t)
    out = []
    s2 = st.copy()
    if not (len(z) > 1 and z[2] is not None) and s2.st.add_eq(ladd(t, 1)): out += R(s2, -1)
    if len(z) > 1 and base in ('find', 'find_first_of', 'find_first_not_of'):
        if not S_.add_ge(lsub(t, ladd(pos, z[1]))): return out
        if z[2] is not None and not S_.add_ge(lsub(ladd(pos, z[2]), t)): return out
    ok = S_.add_ge(t) and S_.add_ge(lsub(n, ladd(t, m)))
    if ok:
        pp = S_.norm(pos)
        if base in ('find', 'find_first_of', 'find_first_not_of'):
            if S_.decide_ge(pp) is True: ok = S_.add_ge(lsub(t, pp))
            elif S_.decide_ge(pp) is False: ok = False
            else: ok = S_.add_ge(pp) and S_.add_ge(lsub(t, pp))
        elif pp.__class__ is Lin or pp >= 0:
            if S_.decide_ge(pp) is True: ok = S_.add_ge(lsub(pp, t))
    if ok:
        if base == 'find_first_of' or True:
            pass
        out += R(st, S_.norm(t))
    return out

# ------------------------------------------------------------------- numbers <-> strings
RNG = {'stoi': (-(1 << 31), (1 << 31) - 1), 'stol': (-(1 << 63), (1 << 63) - 1), 'stoll': (-(1 << 63), (1 << 63) - 1),
       'stoul': (-(1 << 63), (1 << 63) - 1), 'stoull': (-(1 << 63), (1 << 63) - 1)}
def sto(I, st, a, k):
    x = S(I, st, a[0])
    if x is None: return R(st, sym(-1, 1, 'n', True)) if st.lossy else []
    idx = I.toptr(st, a[1]); basep = I.toint(st, a[2]) if len(a) > 2 else 10
    if k not in RNG: st.taint(k); return R(st, UNK)
    lo, hi = RNG[k]
    l = rope_lit(x.r)
    bb = int(basep) if basep.__class__ is not Lin else 10
    out = []
    if l is not None:
        m = re.match(rb'[ \t\n\v\f\r]*([+-]?)(0[xX])?([0-9a-zA-Z]*)', l)
        import string as _s
        digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:bb]
        txt = l.decode('latin1'); j = len(txt) - len(txt.lstrip(' \t\n\v\f\r')); s0 = j
        neg = False
        if j < len(txt) and txt[j] in '+-': neg = txt[j] == '-'; j += 1
        if bb == 16 and txt[j:j + 2].lower() == '0x' and txt[j + 2:j + 3].lower() in digs and txt[j + 2:j + 3]: j += 2
        b0 = j
        while j < len(txt) and txt[j].lower() in digs: j += 1
        if j == b0: return [throw(I, st, 'St16invalid_argument')]
        v = int(txt[b0:j], bb)
        if neg: v = -v
        if k in ('stoul', 'stoull'):
            if abs(v) >= U64: return [throw(I, st, 'St12out_of_range')]
            v = bitops.sgn(v, 64)
        elif not lo <= v <= hi: return [throw(I, st, 'St12out_of_range')]
        if idx.__class__ is Ptr and idx.b: I.store(st, idx, 8, j)
        return R(st, v)
    # text made by to_string, behind white space and before anything that is no digit
    q = x.r
    if q and q[0][0] == 'L' and not q[0][1].strip(b' \t\n\v\f\r'): skip = len(q[0][1]); q = q[1:]
    else: skip = 0
    if q and q[0][0] == 'S' and (len(q) == 1 or q[1][0] == 'L' and q[1][1][:1] not in b'0123456789'):
        d = CIDS[q[0][1]].d
        if d is not None and d[0] == 'dec' and bb == 10 and q[0][2] == 0 and st.st.norm(q[0][3]) == st.st.norm(term('declen', (d[1],), 1, 20)):
            v = st.st.norm(d[1])
            l_, h_ = st.st.bounds(v)
            if lo <= l_ and h_ <= hi:
                if idx.__class__ is Ptr and idx.b: I.store(st, idx, 8, ladd(q[0][3], skip))
                return R(st, v)
    t0 = x.r[0] if x.r else None
    first_bad = t0 is not None and t0[0] == 'L' and t0[1][:1].decode('latin1').lower() not in ' \t\n\v\f\r+-' + '0123456789abcdefghijklmnopqrstuvwxyz'[:bb]
    if not x.r or first_bad: return [throw(I, st, 'St16invalid_argument')]
    L = rope_lossy(x.r)
    key = (norm_rope(st.st, x.r), bb, k)
    ok = st.st.norm(term('sto?', key, 0, 2, 'sto', L))
    v = term('sto', key, lo, hi, 'num', L)
    for c in (1, 2):
        s2 = st.copy()
        if s2.st.add_eq(ladd(ok, -c)):
            if L: s2.taint('number conversion of imprecise text')
            out.append(throw(I, s2, 'St16invalid_argument' if c == 1 else 'St12out_of_range'))
    if st.st.add_eq(ok):
        if not st.st.add_ge(ladd(x.n, -1)): return out
        if idx.__class__ is Ptr and idx.b: I.store(st, idx, 8, sym(1, MAXLEN, 'idx', True))
        out += R(st, st.st.norm(v))
    return out
def str_plus(I, st, a, i, name):
    """operator+(string &&, string &&): which operand's storage is used is not observable"""
    x = S(I, st, a[1]); y = S(I, st, a[2])
    if x is None or y is None: return R(st) if st.lossy else []
    n = ladd(x.n, y.n)
    if not alloc_check(I, st, n, 'string'): return []
    if not setS(I, st, a[0], rope_cat(norm_rope(st.st, x.r), norm_rope(st.st, y.r)), st.st.norm(n)): return R(st)
    setS(I, st, a[1], (), 0)
    return R(st)
def to_string(I, st, a, ty):
    v = st.st.norm(I.toint(st, a[1]))
    unsigned = ty.startswith('unsigned')
    w = 64 if 'long' in ty else 32
    if v.__class__ is not Lin:
        t = str(bitops.unsg(v, w) if unsigned else int(v)).encode()
        setS(I, st, a[0], (('L', t),)); return R(st)
    out = []
    if unsigned:
        for s, z in I.zext(st, v, w, 65): out.append((s, z))
    else: out = [(st, v)]
    res = []
    for s, z in out:
        n = term('declen', (z,), 1, 20, 'ndigits')
        no = frozenset(c for c in range(256) if c not in b'-0123456789')
        cid = new_cid('dec', lower=True, no=no, d=('dec', z), lossy=bitops.lossy(z))
        setS(I, s, a[0], (('S', cid, 0, n),), n)
        res += R(s)
    return res

# ------------------------------------------------------------------- string streams
def iss_ctor(I, st, a, i, name):
    p = I.toptr(st, a[0])
    q, args = parse_dm(I.p.decls.get(name, ('',))[0] if name in I.p.decls else I.p.fns[name].dm)
    r = ()
    if args and args[0].startswith('string'):
        s = S(I, st, a[1])
        if s is None: return []
        r = s.r
    if p.__class__ is Ptr and p.b in st.regs: I.put(st, p.b, p.o, 8, StreamVal(r, 0))
    return R(st)
def stream_at(I, st, p):
    p = I.toptr(st, p)
    if p.__class__ is Ptr and p.b in st.regs:
        c = st.regs[p.b].cells.get(p.o)
        if c is not None and c[1].__class__ is StreamVal: return p, c[1]
    return p, None
def is_read(I, st, a, i, name):
    p, v = stream_at(I, st, a[0])
    n = st.st.norm(I.toint(st, a[2]))
    if v is None: st.taint('istream::read'); return R(st, a[0])
    total = st.st.norm(rope_len(v.rem))
    out = []
    c = I.mkcmp(st, 'sle', n, total, 64)
    t, f = I.split(st, c)
    for s, full in [(x, True) for x in t] + [(x, False) for x in f]:
        k = s.st.norm(n) if full else s.st.norm(total)
        rp = I.rope_slice(s, norm_rope(s.st, v.rem), s.st.norm(total), 0, k)
        if not (k.__class__ is not Lin and k == 0):
            if not I.write_bytes(s, I.toptr(s, a[1]), k, rp): continue
        rest = I.rope_slice(s, norm_rope(s.st, v.rem), s.st.norm(total), k, s.st.norm(lsub(total, k)))
        I.put(s, p.b, p.o, 8, StreamVal(rest, k))
        out += R(s, a[0])
    return out
def is_gcount(I, st, a, i, name):
    p, v = stream_at(I, st, a[0])
    if v is None: st.taint('istream::gcount'); return R(st, sym(0, MAXLEN, 'gcount', True))
    return R(st, st.st.norm(v.cnt))

# ------------------------------------------------------------------- associative containers
def tmpl(q, k):
    """template argument text starting at index k ('<'): (args, end)"""
    d = 0; j = k
    while j < len(q):
        if q[j] == '<': d += 1
        elif q[j] == '>':
            d -= 1
            if d == 0: break
        j += 1
    return split_args(q[k + 1:j]), j + 1
SIZES = {'string': 32, 'unsigned long': 8, 'long': 8, 'int': 4, 'unsigned int': 4, 'bool': 1, 'char': 1, 'unsigned char': 1, 'unsigned short': 2}
def tsize(t):
    t = t.replace(' const', '').strip()
    if t in SIZES: return SIZES[t]
    if t.endswith('*'): return 8
    if t.startswith('fr::') and ('Scheme' in t or 'TransferEncoding' in t or 'RequestType' in t or 'Status' in t or 'Opcode' in t): return 4
    return None

def container(q, args, dm):
    m = re.match(r'^(?:.*? )?(std::(?:unordered_map|map|set|unordered_set|unordered_multimap|multimap))<', q)
    if not m or 'std::operator' in q[:m.start(1)]: return None
    kind = m.group(1)[5:]
    if kind not in ('unordered_map', 'map', 'set', 'unordered_set'): return None
    ta, e = tmpl(q, m.end() - 1)
    rest = q[e:]
    if not rest.startswith('::'): return None
    meth = rest[2:]
    base = meth.split('<')[0]
    if '::' in base: return None       # nested types
    K = ta[0].strip(); V = ta[1].strip() if 'map' in kind else None
    ks = tsize(K); vs = tsize(V) if V is not None else 0
    off = 8 if kind.startswith('unordered') else 32
    C = Cont(kind, K, V, ks, vs, off)
    f = getattr(C, 'm_' + base.replace('operator[]', 'index').replace('operator=', 'assign').replace('~', 'dtor_'), None)
    if base == kind: f = C.ctor
    elif base == '~' + kind: f = C.dtor
    if f is None:
        def unk(I, st, a, i, n):
            I.unmodelled[dm] = I.unmodelled.get(dm, 0) + 1
            st.taint('unmodelled ' + dm[:80]); return R(st, I.unk_ret(i['t']))
        return unk
    return lambda I, st, a, i, n: f(I, st, a, i, args)

class Cont:
    def __init__(self, kind, K, V, ks, vs, off):
        self.kind = kind; self.K = K; self.V = V; self.ks = ks; self.vs = vs; self.off = off
        self.un = kind.startswith('unordered')
        al = 8
        if ks is None: ks = 64
        self.voff = off + ((ks + 7) // 8 * 8 if V is not None and (vs is None or vs >= 8) else ((ks + 3) // 4 * 4))
    def get(self, I, st, p):
        p = I.toptr(st, p)
        r = I.region(st, p, 'container access')
        if r is None or r.__class__ is int: return None, None
        c = r.cells.get(p.o)
        if c is not None and c[1].__class__ is MapVal: return p, c[1]
        if r.fill == 'zero' or c is None and r.fill != 'unk':
            st.taint('container of unknown content')
        mv = MapVal((), frozenset(), 1 if r.fill == 'unk' else 2, self.kind)
        self.set(I, st, p, mv)
        return p, mv
    def set(self, I, st, p, mv): I.put(st, p.b, p.o, 48, mv)
    def end(self, p): return NULL if self.un else Ptr(p.b, ladd(p.o, 8))
    def key(self, I, st, kp):
        """key token at a pointer: rope or int"""
        kp = I.toptr(st, kp)
        if self.K == 'string':
            s = I.get_str(st, kp)
            return None if s is None else norm_rope(st.st, s.r)
        if self.ks:
            v = I.load(st, kp, self.ks, 'ptr' if self.K.endswith('*') else 'i%d' % (8 * self.ks))
            if v is None: return None
            v = I.toint(st, v, 8 * self.ks)
            return st.st.norm(v)
        return None
    def keyeq(self, I, st, a, b):
        if self.K == 'string': return seq_cond(I, st, a, rope_len(a), b, rope_len(b))
        return I.mkcmp(st, 'eq', st.st.norm(a), st.st.norm(b), 64)
    def lower_rule(self, I, st, p, k):
        if self.K != 'string' or self.V != 'string': return
        for f in st.facts:
            if f[0] == 'lower' and f[1] == p.b:
                rec = I.obl.setdefault((f[2], I.loc()), [0, 0, 0])
                if rope_lower(k): rec[0] += 1
                elif st.lossy or rope_lossy(k): rec[2] += 1
                else:
                    rec[1] += 1
                    st.note('key %s' % (str(k)[:120],))
                    I.alarm(st, f[2], f[3], I.loc())
    def new_elem(self, I, st, k, value=None, fill='unk'):
        size = self.voff + (self.vs or 64) if self.V is not None else self.off + (self.ks or 32)
        r = Reg('node', size, fill, self.kind + ' element')
        b = st.add(r)
        if self.K == 'string': I.put(st, b, self.off, 32, StrVal(k))
        else: I.put(st, b, self.off, self.ks or 8, k)
        if self.V == 'string' and value is None and fill == 'unk':
            n = sym(0, 1 << 32, 'vlen'); I.put(st, b, self.voff, 32, StrVal((('S', new_cid('mapval', base=True), 0, n),), n))
        return b
    def lookup(self, I, st, p, mv, k):
        """list of (state, region | None, mapval): entries equal to the key, forking where undetermined"""
        out = []
        self.lower_rule(I, st, p, k)
        cur = st
        for ek, er in mv.e:
            c = self.keyeq(I, cur, k, ek)
            t, f = I.split(cur, c)
            for s in t: out.append((s, er, mv))
            if not f: return out
            cur = f[0]
            for s in f[1:]: out += self.lookup_rest(I, s, p, mv, k, ek)
        if mv.more == 0 or k in mv.absent:
            out.append((cur, None, mv)); return out
        # possibly one of the unknown elements
        s2 = cur.copy()
        if mv.more == 2: s2.taint('map with imprecise content'); cur.taint('map with imprecise content')
        mv1 = MapVal(mv.e, mv.absent | {k}, mv.more, mv.kind)
        self.set(I, cur, p, mv1)
        out.append((cur, None, mv1))
        b = self.new_elem(I, s2, k)
        mv2 = MapVal(mv.e + ((k, b),), mv.absent, mv.more, mv.kind)
        self.set(I, s2, p, mv2)
        out.append((s2, b, mv2))
        return out
    def lookup_rest(self, I, st, p, mv, k, after):
        idx = [x for x, _ in mv.e].index(after)
        sub = MapVal(mv.e[idx + 1:], mv.absent, mv.more, mv.kind)
        res = []
        for s, r, m in self.lookup(I, st, p, sub, k):
            res.append((s, r, MapVal(mv.e[:idx + 1] + m.e, m.absent, m.more, mv.kind)))
        return res
    # ---- elements of class type are constructed and destroyed by the analysed code of their pair
    def pairfn(self, I, kind, args=None):
        if self.V is None or self.V == 'string' or self.vs is not None: return None
        idx = getattr(I.p, 'pairidx', None)
        if idx is None:
            idx = I.p.pairidx = {}
            for n, F in I.p.fns.items():
                if F.dm.startswith('std::pair<'):
                    ta, e = tmpl(F.dm, 9)
                    rest = F.dm[e:]
                    if rest.startswith('::pair') or rest.startswith('::~pair'):
                        idx.setdefault(F.dm[:e], []).append((F, rest.startswith('::~'), [x.replace(' ', '') for x in parse_dm(F.dm)[1]]))
        kc = self.K if self.K.endswith(' const') else self.K + ' const'
        for F, d, fa in idx.get('std::pair<%s, %s>' % (kc, self.V), ()):
            if kind == '~' and d: return F
            if kind == '' and not d and fa == [x.replace(' ', '') for x in args]: return F
        return None
    def destroy(self, I, st, regs):
        D = self.pairfn(I, '~')
        states = [st]
        for r in regs:
            nxt = []
            for s in states:
                if r not in s.regs: nxt.append(s); continue
                if D is None: ss = [s]
                else: ss = [x for x, k, v in I.call(s, D, [Ptr(r, self.off)]) if k == 'ret']
                for x in ss:
                    x.wr(r).alive = False; nxt.append(x)
            states = nxt
        return states
    # ---- members
    def ctor(self, I, st, a, i, args):
        p = I.toptr(st, a[0])
        if args and args[0].startswith('std::' + self.kind + '<') and (args[0].endswith('&&') or args[0].endswith('const&')):
            q, mv = self.get(I, st, a[1])
            if mv is None: return []
            if args[0].endswith('&&'):
                self.set(I, st, p, mv); self.set(I, st, q, MapVal(kind=self.kind)); return R(st)
            self.copy_to(I, st, p, mv); return R(st)
        if not args or 'allocator' in args[0] or args[0] == 'unsigned long' or ('less' in args[0] and len(args) <= 2):
            self.set(I, st, p, MapVal(kind=self.kind)); return R(st)
        if 'initializer_list' in args[0]:
            self.set(I, st, p, MapVal(kind=self.kind))
            return self.insert_range(I, st, p, I.toptr(st, a[1]), I.toint(st, a[2]))
        st.taint('container constructor'); self.set(I, st, p, MapVal((), frozenset(), 2, self.kind)); return R(st)
    def copy_to(self, I, st, p, mv):
        e = []
        for k, r in mv.e:
            old = st.regs[r]
            n = old.clone(); b = st.add(n); e.append((k, b))
        self.set(I, st, p, MapVal(tuple(e), mv.absent, mv.more, mv.kind))
    def insert_range(self, I, st, p, src, n):
        esz = self.voff - self.off + (self.vs or 0) if self.V is not None else (self.ks or 8)
        if self.V is not None: esz = (esz + 7) // 8 * 8 if self.K == 'string' or (self.vs or 8) == 8 else esz
        if n.__class__ is Lin: st.taint('initializer list of unknown length'); return R(st)
        states = [st]
        for k in range(int(n)):
            nxt = []
            for s in states:
                for s2, knd, v in self.emplace_from(I, s, p, Ptr(src.b, ladd(src.o, k * esz))):
                    nxt.append(s2)
            states = nxt
        return [(s, 'ret', None) for s in states]
    def emplace_from(self, I, st, p, pair, move=False):
        """insert a copy of the pair (or key) at 'pair'; returns (state,'ret',(iter,inserted))"""
        q, mv = self.get(I, st, p)
        if mv is None: return []
        k = self.key(I, st, pair)
        if k is None: return [(st, 'ret', Agg([UNK, lossy_cond()]))] if st.lossy else []
        out = []
        for s, r, m in self.lookup(I, st, q, mv, k):
            if r is not None: out.append((s, 'ret', Agg([Ptr(r, 0), Lit(0)]))); continue
            b = self.new_elem(I, s, k, value=1, fill='undef')
            pf = self.pairfn(I, '', ['std::pair<%s const, %s>%s' % (self.K, self.V, '&&' if move else ' const&')])
            if pf:
                s.wr(b).cells.clear()
                self.set(I, s, q, MapVal(m.e + ((k, b),), m.absent - {k}, m.more, m.kind))
                for s2, kd, v in I.call(s, pf, [Ptr(b, self.off), pair]):
                    out.append((s2, 'ret', Agg([Ptr(b, 0), Lit(1)])) if kd == 'ret' else (s2, kd, v))
                continue
            if self.V is not None:
                self.copy_val(I, s, Ptr(pair.b, ladd(pair.o, self.voff - self.off)), Ptr(b, self.voff), move)
            m2 = MapVal(m.e + ((k, b),), m.absent - {k}, m.more, m.kind)
            self.set(I, s, q, m2)
            out.append((s, 'ret', Agg([Ptr(b, 0), Lit(1)])))
        return out
    def copy_val(self, I, st, src, dst, move=False):
        if self.V == 'string':
            s = I.get_str(st, src)
            if s is not None: setS(I, st, dst, s.r, s.n)
            if move and s is not None: setS(I, st, src, (), 0)
        elif self.vs: I.memcpy(st, dst, src, self.vs)
        else:
            st.taint('container value type'); I.memcpy(st, dst, src, 64)
    def dtor(self, I, st, a, i, args):
        p = I.toptr(st, a[0])
        if p.__class__ is Ptr and p.b in st.regs:
            c = st.regs[p.b].cells.get(p.o)
            if c is not None and c[1].__class__ is MapVal:
                w = st.wr(p.b); del w.cells[p.o]
                return [(s, 'ret', None) for s in self.destroy(I, st, [r for k, r in c[1].e])]
        return R(st)
    def m_clear(self, I, st, a, i, args):
        p, mv = self.get(I, st, a[0])
        if mv is None: return []
        self.set(I, st, p, MapVal(kind=self.kind))
        return [(s, 'ret', None) for s in self.destroy(I, st, [r for k, r in mv.e])]
    def m_find(self, I, st, a, i, args):
        p, mv = self.get(I, st, a[0])
        if mv is None: return []
        k = self.key(I, st, a[1])
        if k is None: return R(st, UNK) if st.lossy else []
        return [(s, 'ret', Ptr(r, 0) if r is not None else self.end(p)) for s, r, m in self.lookup(I, st, p, mv, k)]
    def m_count(self, I, st, a, i, args):
        p, mv = self.get(I, st, a[0])
        if mv is None: return []
        k = self.key(I, st, a[1])
        if k is None: return R(st, UNK) if st.lossy else []
        return [(s, 'ret', Lit(1 if r is not None else 0)) for s, r, m in self.lookup(I, st, p, mv, k)]
    m_contains = m_count
    def m_at(self, I, st, a, i, args):
        p, mv = self.get(I, st, a[0])
        if mv is None: return []
        k = self.key(I, st, a[1])
        if k is None: return R(st, UNK) if st.lossy else []
        out = []
        for s, r, m in self.lookup(I, st, p, mv, k):
            if r is None: out.append(throw(I, s, 'St12out_of_range'))
            else: out.append((s, 'ret', Ptr(r, self.voff)))
        return out
    def m_index(self, I, st, a, i, args):
        p, mv = self.get(I, st, a[0])
        if mv is None: return []
        kp = I.toptr(st, a[1])
        k = self.key(I, st, kp)
        if k is None: return R(st, UNK) if st.lossy else []
        out = []
        for s, r, m in self.lookup(I, st, p, mv, k):
            if r is not None: out.append((s, 'ret', Ptr(r, self.voff))); continue
            b = self.new_elem(I, s, k, value=1, fill='zero')
            if self.V == 'string': setS(I, s, Ptr(b, self.voff), (), 0)
            self.set(I, s, p, MapVal(m.e + ((k, b),), m.absent - {k}, m.more, m.kind))
            s.note('%s creates a new element at %s' % (self.kind, I.loc()))
            out.append((s, 'ret', Ptr(b, self.voff)))
        return out
    def m_emplace(self, I, st, a, i, args):
        rest = a[1:]
        if len(rest) == 1: return self.emplace_from(I, st, a[0], I.toptr(st, rest[0]), True)
        if len(rest) == 2 and self.V is not None:
            kt = args[0].rstrip('&').strip(); 
            # key and value given separately
            kp = I.toptr(st, rest[0])
            q, mv = self.get(I, st, a[0])
            if mv is None: return []
            k = None
            if self.K == 'string' and kt.replace(' const', '') == 'string': k = self.key(I, st, kp)
            elif self.K == 'string' and 'char' in kt: k = cstr(I, st, kp if '(' in kt or '[' in kt else I.load(st, kp, 8, 'ptr'))
            elif self.K != 'string':
                kk = kt.replace(' const', '')
                n = tsize(kk) or self.ks
                v = I.load(st, kp, n, 'ptr' if kk.endswith('*') else 'i%d' % (8 * n))
                if v is None: return []
                v = I.toint(st, v, 8 * n)
                k = st.st.norm(v)
                if n < self.ks and kk.startswith('unsigned') and k.__class__ is not Lin: k = bitops.unsg(k, 8 * n)
            if k is None: st.taint('emplace'); return R(st, Agg([UNK, lossy_cond()]))
            vt = args[1].rstrip('&').strip()
            out = []
            for s, r, m in self.lookup(I, st, q, mv, k):
                if r is not None: out.append((s, 'ret', Agg([Ptr(r, 0), Lit(0)]))); continue
                b = self.new_elem(I, s, k, value=1, fill='undef')
                vp = I.toptr(s, rest[1])
                if self.V == 'string':
                    if vt.replace(' const', '') == 'string':
                        x = I.get_str(s, vp)
                        if x is not None: setS(I, s, Ptr(b, self.voff), x.r, x.n)
                        if x is not None and args[1].strip() in ('string&&', 'string'): setS(I, s, vp, (), 0)
                    else:
                        x = cstr(I, s, vp if '(' in vt or '[' in vt else I.load(s, vp, 8, 'ptr'))
                        if x is not None: setS(I, s, Ptr(b, self.voff), x)
                elif self.vs:
                    I.memcpy(s, Ptr(b, self.voff), vp, self.vs)
                elif self.pairfn(I, '', args):
                    s.wr(b).cells.clear()
                    self.set(I, s, q, MapVal(m.e + ((k, b),), m.absent - {k}, m.more, m.kind))
                    for s2, kd, v in I.call(s, self.pairfn(I, '', args), [Ptr(b, self.off), kp, vp]):
                        out.append((s2, 'ret', Agg([Ptr(b, 0), Lit(1)])) if kd == 'ret' else (s2, kd, v))
                    continue
                else:
                    s.taint('container value type')
                    sz = s.regs[vp.b].size if vp.__class__ is Ptr and vp.b in s.regs and s.regs[vp.b].size.__class__ is not Lin else 64
                    w = s.wr(b); w.size = self.voff + max(64, sz)
                    I.memcpy(s, Ptr(b, self.voff), vp, min(64, sz))
                self.set(I, s, q, MapVal(m.e + ((k, b),), m.absent - {k}, m.more, m.kind))
                out.append((s, 'ret', Agg([Ptr(b, 0), Lit(1)])))
            return out
        st.taint('emplace'); return R(st, Agg([UNK, lossy_cond()]))
    def m_insert(self, I, st, a, i, args):
        if len(a) == 2: return self.emplace_from(I, st, a[0], I.toptr(st, a[1]), args and args[0].endswith('&&'))
        if args and 'initializer_list' in args[0]: return self.insert_range(I, st, I.toptr(st, a[0]), I.toptr(st, a[1]), I.toint(st, a[2]))
        st.taint('insert'); return R(st, I.unk_ret(i['t']))
    def m_erase(self, I, st, a, i, args):
        p, mv = self.get(I, st, a[0])
        if mv is None: return []
        if args and 'iterator' in args[0]:
            v = a[1]
            it = I.toptr(st, v)
            if it.__class__ is Ptr:
                ids = [r for k, r in mv.e]
                if it.b in ids:
                    j = ids.index(it.b)
                    e = mv.e[:j] + mv.e[j + 1:]
                    self.set(I, st, p, MapVal(e, mv.absent | {mv.e[j][0]}, mv.more, mv.kind))
                    return [(s, 'ret', Ptr(e[j][1], 0) if j < len(e) else self.end(p)) for s in self.destroy(I, st, [it.b])]
                if it == self.end(p):
                    I.fail(st, 'bad-iterator', 'erase(end())'); return []
            st.taint('erase'); return R(st, UNK)
        k = self.key(I, st, a[1])
        if k is None: return R(st, UNK) if st.lossy else []
        out = []
        for s, r, m in self.lookup(I, st, p, mv, k):
            if r is None: out.append((s, 'ret', Lit(0))); continue
            ids = [x for _, x in m.e]; j = ids.index(r)
            self.set(I, s, p, MapVal(m.e[:j] + m.e[j + 1:], m.absent | {k}, m.more, m.kind))
            out += [(s2, 'ret', Lit(1)) for s2 in self.destroy(I, s, [r])]
        return out
    def m_begin(self, I, st, a, i, args):
        p, mv = self.get(I, st, a[0])
        if mv is None: return []
        states = [(st, mv)]
        if mv.more:
            # one representative of the unknown elements, or none
            s2 = st.copy()
            st.taint('iteration over a map with unknown elements')
            if self.K == 'string':
                n = sym(0, 1 << 32, 'klen'); k = (('S', new_cid('key', base=True), 0, n),)
            else: k = sym(-(1 << 63), (1 << 63) - 1, 'key')
            b = self.new_elem(I, st, k)
            m2 = MapVal(mv.e + ((k, b),), mv.absent, mv.more, mv.kind); self.set(I, st, p, m2)
            if not mv.e: states = [(st, m2), (s2, MapVal(mv.e, mv.absent, 0, mv.kind))]; self.set(I, s2, p, states[1][1])
            else: states = [(st, m2), (s2, mv)]
            if mv.more == 2: s2.taint('map with imprecise content')
        out = []
        for s, m in states:
            ids = [r for k, r in m.e]
            for j, r in enumerate(ids):
                I.put(s, r, 0, 8, Ptr(ids[j + 1], 0) if j + 1 < len(ids) else self.end(p))
            out.append((s, 'ret', Ptr(ids[0], 0) if ids else self.end(p)))
        return out
    m_cbegin = m_begin
    def m_end(self, I, st, a, i, args):
        p = I.toptr(st, a[0])
        if p.__class__ is not Ptr: return R(st, UNK)
        return R(st, self.end(p))
    m_cend = m_end
    def m_empty(self, I, st, a, i, args):
        p, mv = self.get(I, st, a[0])
        if mv is None: return []
        if mv.e: return R(st, Lit(0))
        if mv.more == 0: return R(st, Lit(1))
        return R(st, lossy_cond() if mv.more == 2 else free_cond_sym(st))
    def m_size(self, I, st, a, i, args):
        p, mv = self.get(I, st, a[0])
        if mv is None: return []
        if mv.more == 0: return R(st, len(mv.e))
        return R(st, sym(len(mv.e), MAXLEN, 'msize', True))
    def m_assign(self, I, st, a, i, args):
        q, mv = self.get(I, st, a[1])
        p = I.toptr(st, a[0])
        if mv is None: return []
        if p == q: return R(st, a[0])
        if args and args[0].endswith('&&'):
            self.set(I, st, p, mv); self.set(I, st, q, MapVal(kind=self.kind))
        else: self.copy_to(I, st, p, mv)
        return R(st, a[0])
    def m_swap(self, I, st, a, i, args):
        p, x = self.get(I, st, a[0]); q, y = self.get(I, st, a[1])
        if x is None or y is None: return []
        self.set(I, st, p, y); self.set(I, st, q, x); return R(st)
    def m_reserve(self, I, st, a, i, args): return R(st)
    m_rehash = m_reserve

def rb_inc(I, st, a, i, name):
    p = I.toptr(st, a[0])
    if p.__class__ is Ptr and p.b in st.regs:
        v = I.load(st, Ptr(p.b, 0), 8, 'ptr')
        return R(st, v)
    st.taint('map iterator'); return R(st, UNK)

# ------------------------------------------------------------------- algorithms
def algo(q, args, dm):
    m = re.match(r'^(?:.*? )?std::(transform|toupper|tolower|fill|fill_n|copy|distance)<', q)
    if not m: return None
    if m.group(1) == 'transform' and 'normal_iterator<char' in dm: return alg_transform
    return None
def alg_transform(I, st, a, i, name):
    # std::transform(first, last, out, f) over characters with tolower
    p = I.toptr(st, a[0]); e = I.toptr(st, a[1]); d = I.toptr(st, a[2]); f = a[3]
    F = I.p.fns.get(name)
    if f.__class__ is FnP and f.n in ('tolower', 'toupper') and p.__class__ is Ptr and e.__class__ is Ptr and p.b == e.b and d.__class__ is Ptr:
        n = st.st.norm(lsub(e.o, p.o))
        r = I.read_bytes(st, p, n)
        if r is None: return []
        if not I.write_bytes(st, d, n, map_case(st, r, f.n, n)): return []
        return R(st, Ptr(d.b, st.st.norm(ladd(d.o, n))))
    return I.call(st, F, a)
def map_case(st, r, fn, n):
    if fn == 'tolower' and rope_lower(r): return r
    out = []
    for p in r:
        if p[0] == 'L': out.append(('L', p[1].lower() if fn == 'tolower' else p[1].upper()))
        elif p[0] == 'S':
            c = CIDS[p[1]]
            if fn == 'tolower' and c.lower: out.append(p)
            else:
                if c.d is not None and c.d[0] in ('tolower', 'toupper') and c.d[0] != fn:
                    # upper case of lower case and the like: the case of the characters below does not matter
                    out += list(map_case(st, (('S', c.d[1], p[2], p[3]),), fn, n)); continue
                no = frozenset()
                if c.no:
                    can = bytes(q for q in range(256) if q not in c.no)
                    no = frozenset(range(256)) - frozenset(can.lower() if fn == 'tolower' else can.upper())
                cid = new_cid('lower', lossy=c.lossy, lower=fn == 'tolower', no=no, d=(fn, p[1]))
                out.append(('S', cid, p[2], p[3]))
        else:
            b = p[2]
            if p[1] == 1: out.append(('V', 1, term(fn, (b,), -128, 127, fn, bitops.lossy(b))))
            else: out.append(('S', new_cid('lower', lossy=True, lower=fn == 'tolower'), 0, p[1]))
    return rope_cat(tuple(out))
