"""Path-sensitive abstract interpreter over LLVM IR (typestate / property simulation).

Abstract values are hash-consed linear expressions over opaque symbols; a path state holds an
abstract store (exact cells + region defaults), interval/disequality facts on linear forms and
the typestate components the clients track (locks, heap blocks, resources, storage results).
Calls to functions that have a body are entered (context sensitive); everything outside the
program - libc, the VFS underneath, FatFs, littlefs - is described by contracts (contracts.py).
Loops converge by widening at the loop header, never by counting iterations; branch conditions are
decided by the interval domain only. Nothing is executed and no solver is involved.
"""
import sys, time
from llparse import Instr, BIN, CAST
sys.setrecursionlimit(20000)

INF = float('inf')

# ------------------------------------------------------------------ terms
class T:
    __slots__ = ('op', 'a', 'id', '_syms', 'root')
    def __repr__(self):
        return show(self)

_tab = {}
_n = [0]

def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._syms = None
        t.root = None
        _tab[k] = t
    return t

def C(n):
    return mk('c', n)

ZERO = C(0)
ONE = C(1)

def show(t):
    if t.op == 'c':
        return str(t.a[0])
    if t.op == 'lin':
        s = '+'.join(('%r' % x if k == 1 else '%d*%r' % (k, x)) for x, k in t.a[1])
        return '(%s%+d)' % (s, t.a[0]) if t.a[0] else '(%s)' % s
    if t.op == 's':
        return '%s<%s>' % (t.a[0], '.'.join(str(x) for x in t.a[2:]) )
    if t.op == 'obj':
        return '&%s' % (t.a[-1],)
    if t.op == 'init':
        return '*%r' % t.a[0]
    return '%s(%s)' % (t.op, ','.join(map(repr, t.a)))

def syms(t):
    """atoms (renamable symbols) a term is built from"""
    r = t._syms
    if r is not None:
        return r
    if t.op in ('c', 'undef'):
        r = frozenset()
    elif t.op == 'lin':
        r = frozenset().union(*[syms(x) for x, _ in t.a[1]])
    elif t.op == 's':
        r = frozenset((t,))
    elif t.op == 'obj':
        r = frozenset((t,)) if t.a[0] in ('heap', 'alloca') else frozenset()
    else:
        r = frozenset()
        for x in t.a:
            if isinstance(x, T):
                r = r | syms(x)
    t._syms = r
    return r

def lin_parts(t):
    if t.op == 'c':
        return t.a[0], ()
    if t.op == 'lin':
        return t.a
    return 0, ((t, 1),)

def mklin(c, items):
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', c, tuple(items))

def lincomb(t, u, k):
    """t + k*u"""
    c1, i1 = lin_parts(t)
    c2, i2 = lin_parts(u)
    if not i2:
        return mklin(c1 + k * c2, i1)
    d = dict(i1)
    for x, n in i2:
        v = d.get(x, 0) + k * n
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return mklin(c1 + k * c2, tuple(sorted(d.items(), key=lambda p: p[0].id)))

def add(t, u):
    return lincomb(t, u, 1)

def sub(t, u):
    return lincomb(t, u, -1)

def scale(t, k):
    if k == 0:
        return ZERO
    c, it = lin_parts(t)
    return mklin(c * k, tuple((x, n * k) for x, n in it))

def root(t):
    """pointer root of an address term"""
    if t.op != 'lin':
        return t
    if t.root is not None:
        return t.root
    objs = [x for x, k in t.a[1] if k == 1 and x.op == 'obj']
    if objs:
        return objs[0]
    one = [x for x, k in t.a[1] if k == 1]
    return one[0] if one else t.a[1][0][0]

def off_of(t):
    """(root, constant offset or None)"""
    if t.op != 'lin':
        return t, 0
    r = root(t)
    if len(t.a[1]) == 1:
        return r, t.a[0]
    return r, None

def subst(t, m, memo):
    """replace atoms by the map m"""
    s = syms(t)
    if not any(x in m for x in s):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op == 'lin':
        r = C(t.a[0])
        for x, k in t.a[1]:
            r = lincomb(r, subst(x, m, memo), k)
        if r.op == 'lin' and r.root is None and t.root is not None:
            r.root = subst(t.root, m, memo)
    else:
        r = mk(t.op, *[subst(x, m, memo) if isinstance(x, T) else x for x in t.a])
    memo[t] = r
    return r

def norm(n, w):
    """signed value of an integer of width w"""
    if w is None:
        return n
    m = 1 << w
    n &= m - 1
    if w > 1 and n >= m >> 1:
        n -= m
    return n

# ------------------------------------------------------------------ state
def step_lo(v):
    """the lower bound a falling one is widened to"""
    return 1 if v >= 1 else 0 if v >= 0 else -INF

class State:
    __slots__ = ('mem', 'reg', 'facts', 'locks', 'heap', 'res', 'io', 'ev', 'x', 'gen')

    def __init__(self):
        self.gen = 0         # entries run before this one, so that what they made is not taken for what this one makes
        self.mem = {}       # address -> value
        self.reg = {}       # root -> ((lo,hi,kind),...)   most recent first
        self.facts = {}     # linear form -> (lo,hi,ne)
        self.locks = {}     # lock address -> depth
        self.heap = {}      # heap object -> 'live' | 'freed'
        self.res = {}       # resource term -> kind
        self.io = {}        # result term -> (what, line)
        self.ev = ()        # event trace (only for clients that ask for one)
        self.x = {}         # client extras

    def copy(self):
        s = State.__new__(State)
        s.mem = self.mem.copy()
        s.reg = self.reg.copy()
        s.facts = self.facts.copy()
        s.locks = self.locks.copy()
        s.heap = self.heap.copy()
        s.res = self.res.copy()
        s.io = self.io.copy()
        s.ev = self.ev
        s.x = self.x.copy()
        s.gen = self.gen
        return s

    def client_key(self):
        return (frozenset(self.locks.items()), frozenset(self.heap.items()),
                frozenset(self.res.items()), frozenset(self.io.items()), self.ev,
                frozenset(self.x.items()))

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.reg.items()),
                frozenset(self.facts.items())) + self.client_key()

    # ---- substitution of atoms
    def rename(self, m):
        memo = {}
        f = lambda t: subst(t, m, memo)
        def dirty(t):
            return any(x in m for x in syms(t))
        ch = [(k, v) for k, v in self.mem.items() if dirty(k) or dirty(v)]
        for k, v in ch:
            del self.mem[k]
        for k, v in ch:
            self.mem[f(k)] = f(v)
        ch = [(k, v) for k, v in self.reg.items() if dirty(k)]
        for k, v in ch:
            del self.reg[k]
            self.reg[f(k)] = v
        for k in [k for k in self.facts if dirty(k)]:
            v = self.facts.pop(k)
            nk = f(k)
            if nk.op == 'c' or nk.op == 'lin' and nk.a[0]:
                continue
            # an 'old' symbol may stand for several earlier values: keep a fact only if fresh
            if nk in self.facts and self.facts[nk] != v:
                self.facts.pop(nk)
            else:
                self.facts[nk] = v
        for name in ('locks', 'heap', 'res', 'io'):
            d = getattr(self, name)
            for k in [k for k in d if dirty(k)]:
                v = d.pop(k)
                if name == 'io' and v[2] is not None:
                    v = v[:2] + (f(v[2]),)
                nk = f(k)
                if name == 'heap' and nk in d and d[nk] != v:
                    v = 'esc'
                d[nk] = v
        if self.ev:
            self.ev = tuple(tuple(f(y) if isinstance(y, T) else y for y in e) if isinstance(e, tuple) else e for e in self.ev)
        for k, v in list(self.x.items()):
            if isinstance(v, T):
                self.x[k] = f(v)
            elif isinstance(v, tuple):
                self.x[k] = tuple(f(y) if isinstance(y, T) else y for y in v)

    # ---- numeric facts
    def canon(self, t):
        """t = c + s*L  ->  (c, s, L)"""
        c, it = lin_parts(t)
        if not it:
            return c, 0, None
        if len(it) == 1:
            return c, it[0][1], it[0][0]
        if it[0][1] < 0:
            return c, -1, mk('lin', 0, tuple((x, -k) for x, k in it))
        return c, 1, mk('lin', 0, it)

    def atom_rng(self, t):
        f = self.facts.get(t)
        if f:
            return f[0], f[1]
        return atom_default(t, self)

    def rng(self, t):
        if t.op == 'c':
            return t.a[0], t.a[0]
        c, s, L = self.canon(t)
        if L.op == 'lin':
            lo = hi = 0
            for x, k in L.a[1]:
                a, b = self.atom_rng(x)
                if k < 0:
                    a, b = b, a
                lo = lo + a * k if abs(a) != INF else -INF
                hi = hi + b * k if abs(b) != INF else INF
            f = self.facts.get(L)
            if f:
                lo = max(lo, f[0]); hi = min(hi, f[1])
        else:
            lo, hi = self.atom_rng(L)
        if s < 0:
            lo, hi = hi, lo
        lo = c + s * lo if abs(lo) != INF else -INF
        hi = c + s * hi if abs(hi) != INF else INF
        return lo, hi

    def const_of(self, t):
        if t.op == 'c':
            return t.a[0]
        lo, hi = self.rng(t)
        if lo == hi:
            return lo
        return None

    def nonzero(self, t):
        """True / False / None"""
        if t.op == 'c':
            return t.a[0] != 0
        lo, hi = self.rng(t)
        if lo > 0 or hi < 0:
            return True
        if lo == 0 and hi == 0:
            return False
        c, s, L = self.canon(t)
        f = self.facts.get(L)
        if f and s in (1, -1) and (-c * s) in f[2]:
            return True
        r = root(t)
        if r.op == 'obj':
            return True
        if r is not t and t.op == 'lin' and off_of(t)[1] is not None and t.a[1][0][1] == 1 and isptr(r):
            if t.a[0] or self.nonzero(r):
                return True          # a member of an object that exists
        return None

    def limit(self, t, lo, hi):
        """assume lo <= t <= hi; False when infeasible"""
        if t.op == 'c':
            return lo <= t.a[0] <= hi
        c, s, L = self.canon(t)
        lo -= c
        hi -= c
        if s < 0:
            lo, hi = -hi, -lo
        k = abs(s)
        if k != 1:
            lo = -((-lo) // k) if abs(lo) != INF else lo
            hi = hi // k if abs(hi) != INF else hi
        cur = self.facts.get(L)
        if cur is None:
            if L.op == 'lin':
                a, b = self.rng(L)
            else:
                a, b = atom_default(L, self)
            ne = frozenset()
        else:
            a, b, ne = cur
            if L.op == 'lin':
                a2, b2 = self.rng(L)
                a = max(a, a2); b = min(b, b2)
        a = max(a, lo)
        b = min(b, hi)
        while a in ne:
            a += 1
        while b in ne:
            b -= 1
        if a > b:
            return False
        if (a, b) != (-INF, INF) or ne:
            self.facts[L] = (a, b, frozenset(x for x in ne if a <= x <= b))
        # propagate to the members of a two-term form when everything else is known
        if L.op == 'lin':
            for x, kx in L.a[1]:
                rest_lo = rest_hi = 0
                for y, ky in L.a[1]:
                    if y is x:
                        continue
                    p, q = self.atom_rng(y)
                    if ky < 0:
                        p, q = q, p
                    rest_lo = rest_lo + p * ky if abs(p) != INF else -INF
                    rest_hi = rest_hi + q * ky if abs(q) != INF else INF
                if len(L.a[1]) > 2:     # what is known about the rest as a whole
                    p, q = self.rng(sub(L, scale(x, kx)))
                    rest_lo = max(rest_lo, p)
                    rest_hi = min(rest_hi, q)
                nlo = a - rest_hi
                nhi = b - rest_lo
                if kx == 1:
                    pass
                elif kx == -1:
                    nlo, nhi = -nhi, -nlo
                else:
                    continue
                p, q = self.atom_rng(x)
                if nlo > p or nhi < q:
                    f = self.facts.get(x)
                    ne2 = f[2] if f else frozenset()
                    p, q = max(p, nlo), min(q, nhi)
                    if p > q:
                        return False
                    self.facts[x] = (p, q, ne2)
        return True

    def exclude(self, t, n):
        """assume t != n"""
        if t.op == 'c':
            return t.a[0] != n
        c, s, L = self.canon(t)
        v = n - c
        if v % s:
            return True
        v //= s
        cur = self.facts.get(L)
        if cur is None:
            a, b = self.rng(L)
            ne = frozenset()
        else:
            a, b, ne = cur
        if a == v:
            a += 1
        elif b == v:
            b -= 1
        else:
            if not (a < v < b):
                return True
            ne = ne | {v}
        while a in ne:
            a += 1
        while b in ne:
            b -= 1
        if a > b:
            return False
        self.facts[L] = (a, b, ne)
        return True


PTR_SYMS = set()

def isptr(t):
    return t.op == 'obj' or t in PTR_SYMS

DEFAULT_RNG = {}

def atom_default(t, st=None):
    op = t.op
    if op == 'obj':
        return 1, INF
    r = DEFAULT_RNG.get(t)
    if r:
        return r
    if op == 'cmp':
        return 0, 1
    if op == 'and':
        for x in t.a:
            if x.op == 'c' and x.a[0] >= 0:
                return 0, x.a[0]
    if op == 'urem' and t.a[1].op == 'c' and t.a[1].a[0] > 0:
        return 0, t.a[1].a[0] - 1
    if op == 'or' and st is not None:
        for x in t.a:
            if st.nonzero(x) and st.rng(x)[0] >= 0:
                return 1, INF
    return -INF, INF


def neg_cmp(t):
    p, d = t.a
    if p == 'eq':
        return mk('cmp', 'ne', d)
    if p == 'ne':
        return mk('cmp', 'eq', d)
    if p == 'lt':      # !(d<0) == d>=0 == -d<=0
        return mk('cmp', 'le', scale(d, -1))
    return mk('cmp', 'lt', scale(d, -1))


I64 = ('i', 64)

def beside(addr):
    r = add(addr, C(4))
    if r.op == 'lin' and r.root is None:
        r.root = root(addr)
    return r

class Abort(Exception):
    pass

class Incomplete(Exception):
    pass

# ------------------------------------------------------------------ program
class Program:
    def __init__(self, tus, config):
        self.tus = tus
        self.config = config
        self.ext = {}
        for tu in tus:
            for f in tu.functions.values():
                if not f.internal:
                    self.ext.setdefault(f.name, f)
        self.gext = {}
        for tu in tus:
            for g in tu.globals.values():
                if not g.internal and not g.external:
                    self.gext.setdefault(g.name, g)
        self._slots = {}
        for tu in tus:
            for f in tu.functions.values():
                prepare(f)

    def find(self, tu, name):
        f = tu.functions.get(name)
        if f:
            return f
        return self.ext.get(name)

    def fn(self, dname, file=None):
        out = [f for tu in self.tus for f in tu.functions.values()
               if f.dname == dname and (file is None or tu.name.endswith(file))]
        return out

    def glob(self, tu, name):
        g = tu.globals.get(name)
        if g and not g.external:
            return g
        return self.gext.get(name, g)


def prepare(f):
    # which blocks lie on a cycle, and back edges
    f.loopheads = {b.name for b in f.order if b.isheader}
    succ = {b.name: b.succs for b in f.order}
    reach = {}
    for b in f.order:
        seen = set()
        st = list(succ[b.name])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(succ[x])
        reach[b.name] = seen
    f.text = (reach,)
    f.counters = {}
    for b in f.order:
        if b.isheader:
            f.counters[b.name] = counters(f, b)
    for b in f.order:
        b.preds = b.preds


TURNS = 16      # the most turns of a counted loop that are followed one by one

def counters(f, head):
    """the phis of a loop head that step by a constant and are compared with a constant where
    the loop is left: [(phi, step or None for pointers, [(predicate, on next, bound, stay if true)])]"""
    body = {x for x in f.text[0][head.name] if head.name in f.text[0][x]} | {head.name}
    defs = {}
    for x in body:
        for i in f.blocks[x].instrs:
            if i.dst:
                defs[i.dst] = i
    out = []
    for ph in head.phis:
        nx = {repr(v): v for p, v in ph.a[0].items() if p in body}
        if len(nx) != 1:
            continue
        nx = list(nx.values())[0]
        d = defs.get(nx[1]) if nx[0] == 'l' else None
        if d is None:
            continue
        if d.op in ('add', 'sub') and d.a[0] == ('l', ph.dst) and d.a[1][0] == 'c':
            step = d.a[1][1] if d.op == 'add' else -d.a[1][1]
        elif d.op == 'getelementptr' and d.a[0][1] == ('l', ph.dst) and all(v[0] == 'c' for _, v in d.a[1:]):
            step = None
        else:
            continue
        tests = []
        for x in body:
            t = f.blocks[x].instrs[-1]
            if t.op != 'br' or t.a[0] is None or (t.a[1] in body) == (t.a[2] in body):
                continue
            c = defs.get(t.a[0][1]) if t.a[0][0] == 'l' else None
            if c is None or c.op != 'icmp':
                continue
            v, k = c.a[1], c.a[2]
            while v[0] == 'l' and v[1] in defs and defs[v[1]].op in ('zext', 'sext', 'trunc'):
                v = defs[v[1]].a[0]
            if v in (('l', ph.dst), nx) and k[0] in ('c', 'ce', 'g'):
                if step is None or k[0] == 'c':
                    tests.append((c.a[0], v == nx, k[1], t.a[1] in body))
        if tests:
            out.append((ph.dst, step, tests))
    return out

PRED = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
for _p, _f in (('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b)):
    PRED['s' + _p] = PRED['u' + _p] = _f

def counted(cs, env):
    """does a counter that starts from what env holds leave the loop within TURNS turns?"""
    for dst, step, tests in cs:
        v = env.get(dst)
        if v is None:
            continue
        if step is None:
            if isptr(root(v)):
                return True
            continue
        if v.op != 'c':
            continue
        x = v.a[0]
        for n in range(TURNS + 1):
            if any(PRED[p](x + step if nxt else x, k) != stay for p, nxt, k, stay in tests):
                return True
            x += step
    return False

def inloop(f, bname):
    return bname in f.text[0][bname]

def backedge(f, src, dst):
    # src is inside the loop headed by dst
    return dst in f.loopheads and src in f.text[0][dst] and dst in f.text[0][src]


# ------------------------------------------------------------------ engine
class Engine:
    PRECISION = 0
    split_loops = False
    keep_flags = False      # a flag set in a loop stays recognisable as set
    unroll = 0              # loop turns followed as they are before values are widened
    CAPS = [[(16, 32), (12, 16), (6, 8)], [(12, 16), (6, 6), (3, 4)], [(8, 12), (3, 4), (2, 2)], [(5, 8), (2, 2), (1, 1)]]
    STATE_CAP = 16       # distinct states per join point before joining
    EXIT_CAP = 32
    SCALE = 1            # multiplies the caps (small functions followed path by path)
    MAX_DEPTH = 40

    def __init__(self, prog, models, step_limit=3000000):
        self.prog = prog
        self.models = models
        models.eng = self
        self.diags = {}
        self.stack = []
        self.typed = None
        self.steps = 0
        self.step_limit = step_limit
        self.calls_seen = {}
        self.objmeta = {}
        self.entered = set()
        self.slotname = {}    # T -> (struct, field index)
        self.joins = 0
        self.deadline = None
        self.instrs_seen = set()

    # ---- diagnostics
    def report(self, kind, detail, st=None, fn=None, line=None, msg=None):
        if fn is None:
            fn = self.stack[-1][0]
        if line is None:
            line = self.line
        k = (kind, fn.tu.name, fn.dname, detail)
        if k not in self.diags:
            self.diags[k] = dict(kind=kind, file=fn.tu.name, func=fn.dname, detail=detail, line=line,
                                 entry=self.entry.dname if getattr(self, 'entry', None) else fn.dname,
                                 via=[x[0].dname for x in self.stack],
                                 msg=msg or detail)

    # ---- values
    def val(self, v, env, tu):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        if k == 'c':
            return C(v[1])
        if k == 'g':
            return self.globref(tu, v[1])
        if k == 'undef':
            return mk('undef')
        if k == 'zero':
            return ZERO
        if k == 'ce':
            if v[1] == 'gep':
                base = self.val(v[3][0][1], env, tu)
                return self.gep(tu, v[2], base, [(t, self.val(x, env, tu)) for t, x in v[3][1:]])
            if v[1] == 'cast':
                return self.val(v[2], env, tu)
            a = self.val(v[2], env, tu)
            b = self.val(v[3], env, tu)
            return add(a, b) if v[1] == 'add' else sub(a, b)
        if k == 'agg':
            return mk('agg', *[self.val(x, env, tu) for _, x in v[1]])
        return mk('undef')

    def globref(self, tu, name):
        f = self.prog.find(tu, name)
        if f:
            return mk('obj', 'fn', f.tu.name, f.name, f.dname)
        g = self.prog.glob(tu, name)
        if g is None:
            return mk('obj', 'extfn', name)
        if g.external:
            o = mk('obj', 'glob', 'ext', name)
        else:
            o = mk('obj', 'glob', g.tu.name, name)
        self.objmeta[o] = g
        return o

    def gep(self, tu, sty, base, idx):
        r = root(base)
        t, i0 = idx[0]
        res = base
        sz = tu.sizeof(sty)
        if i0.op == 'c':
            res = add(res, C(i0.a[0] * sz))
        else:
            res = lincomb(res, i0, sz)
        ty = sty
        for it, iv in idx[1:]:
            ty = tu.resolve(ty)
            if ty[0] == 'anon':
                off, ty = tu.field_off(ty, iv.a[0])
                res = add(res, C(off))
            elif ty[0] == 'arr':
                ty = ty[2]
                n = tu.sizeof(ty)
                if iv.op == 'c':
                    res = add(res, C(iv.a[0] * n))
                else:
                    res = lincomb(res, iv, n)
            else:
                raise Abort('gep into %r' % (ty,))
        if res.op == 'lin' and res.root is None:
            res.root = r
        return res

    # ---- symbols
    def sym(self, kind, ctx, uid, rng=None, ptr=False):
        s = mk('s', kind, ctx, uid)
        if rng:
            DEFAULT_RNG[s] = rng
        if ptr:
            PTR_SYMS.add(s)
        return s

    # ---- memory
    def const_load(self, g, off, ty):
        """value of a constant global's initialiser at a byte offset, or None"""
        tu = g.tu
        t = g.ty
        v = g.init
        if v is None:
            return None
        while True:
            if v[0] == 'zero':
                return ZERO
            if v[0] == 'undef':
                return mk('undef')
            t = tu.resolve(t)
            if v[0] == 'bytes':
                if ty == ('i', 8) and 0 <= off < len(v[1]):
                    b = v[1][off]
                    return C(b - 256 if b > 127 else b)
                return None
            if t[0] == 'arr' and v[0] == 'agg':
                n = tu.sizeof(t[2])
                i = off // n
                if not 0 <= i < len(v[1]):
                    return None
                off -= i * n
                t, v = v[1][i]
            elif t[0] == 'anon' and v[0] == 'agg':
                k = None
                for i in range(len(t[1])):
                    o, e = tu.field_off(t, i)
                    if o <= off:
                        k, ko = i, o
                if k is None:
                    return None
                off -= ko
                t, v = v[1][k]
            else:
                if off:
                    return None
                return self.val(v, {}, tu)

    def load(self, st, addr, ty, tu, ins, ctx):
        r, off = off_of(addr)
        self.models.on_access(st, addr, r, ins, False)
        v = st.mem.get(addr)
        if v is not None:
            if ty == I64:
                h = st.mem.get(beside(addr))
                if h is not None:
                    return self.pack(v, h)
            return v
        if r.op == 'obj' and r.a[0] == 'glob':
            g = self.objmeta.get(r)
            if g is not None and g.const and off is not None:
                v = self.const_load(g, off, ty)
                if v is not None:
                    return v
            if g is not None and g.const:
                return self.sym('ldx', ctx, ins.uid, ptr=ty == ('ptr',))
            # mutable global: an unmodified table is still its initialiser
            if g is not None and off is not None and g.init is not None and self.models.immutable_global(r):
                v = self.const_load(g, off, ty)
                if v is not None:
                    return v
        regs = st.reg.get(r)
        if regs:
            for lo, hi, kind in regs:
                if off is None:
                    if kind == 'uninit':
                        continue
                    return self.ldx(ctx, ins, ty)
                if lo <= off < hi:
                    if kind == 'zero':
                        return ZERO
                    if kind == 'uninit':
                        if r.op == 'obj' and any(off_of(k)[1] is None for k in st.mem if root(k) is r):
                            return self.ldx(ctx, ins, ty)
                        # a wider/narrower store may cover this address
                        for k in st.mem:
                            if root(k) is r:
                                o2 = off_of(k)[1]
                                if o2 is not None and o2 < off < o2 + 8:
                                    return self.ldx(ctx, ins, ty)
                        self.models.on_uninit(st, r, off, ins)
                        v = mk('uninit', r, off)
                        return v
                    if kind[0] == 'cpy':
                        # the initial content of what was copied
                        a = add(kind[1], C(off + kind[2]))
                        if a.op == 'lin' and a.root is None:
                            a.root = kind[1]
                        v = mk('init', a)
                    else:
                        v = self.const_load(self.objmeta[kind[1]], off + kind[2], ty) if kind[0] == 'cst' else None
                        if v is None:
                            v = mk('m', kind, r, off)
                    if ty == ('ptr',):
                        PTR_SYMS.add(v)
                    return v
            if off is None and all(k == 'uninit' for _, _, k in regs):
                return self.ldx(ctx, ins, ty)
        if off is None and not self.models.stable_sym_index:
            return self.ldx(ctx, ins, ty)
        v = mk('init', addr)
        if ty == ('ptr',):
            PTR_SYMS.add(v)
        return v

    def ldx(self, ctx, ins, ty):
        return self.sym('ldx', ctx, ins.uid, ptr=ty == ('ptr',))

    def store(self, st, addr, v, ins, size=8):
        r, off = off_of(addr)
        self.models.on_access(st, addr, r, ins, True)
        self.models.on_store(st, addr, v, ins)
        if v.op == 'pack':
            st.mem[beside(addr)] = v.a[1]
            v = v.a[0]
        elif ins.op == 'store' and ins.ty == I64:
            st.mem.pop(beside(addr), None)
        st.mem[addr] = v
        if off is None:
            self.clobber_uninit(st, r, ('sx', ins.fn.dname, ins.uid))

    def clobber_uninit(self, st, r, tag):
        regs = st.reg.get(r)
        if regs and any(k == 'uninit' for _, _, k in regs):
            st.reg[r] = tuple((lo, hi, tag if k == 'uninit' else k) for lo, hi, k in regs)

    def set_region(self, st, addr, size, kind):
        """[addr, addr+size) now holds `kind` (size None: unbounded)"""
        r, off = off_of(addr)
        if off is None:
            self.clobber_uninit(st, r, kind)
            st.mem.pop(addr, None)
            return
        hi = off + size if size is not None else INF
        for k in [k for k in st.mem if root(k) is r]:
            o = off_of(k)[1]
            if o is None or off <= o < hi:
                v = st.mem.pop(k)
                if isinstance(kind, tuple) and isptr(root(v)):
                    # an abstraction forgot who owns the block: it is no longer tracked
                    v = root(v)
                    if st.heap.get(v) == 'live':
                        st.heap[v] = 'esc'
        old = [x for x in st.reg.get(r, ()) if not (off <= x[0] and x[1] <= hi)]
        st.reg[r] = tuple([(off, hi, kind)] + old)

    def havoc_obj(self, st, addr, tag, size=None):
        self.set_region(st, addr, size, tag)

    def copy_region(self, st, dst, src, size, tag):
        rs, os_ = off_of(src)
        rd, od = off_of(dst)
        if os_ is None or od is None or size is None:
            self.set_region(st, dst, size, tag)
            return
        cells = [(off_of(k)[1] - os_, v) for k, v in st.mem.items()
                 if root(k) is rs and off_of(k)[1] is not None and os_ <= off_of(k)[1] < os_ + size]
        regs = [x for x in st.reg.get(rs, ()) if x[0] < os_ + size and x[1] > os_]
        g = self.objmeta.get(rs)
        self.set_region(st, dst, size, tag)
        if regs:
            new = tuple((max(lo, os_) - os_ + od, min(hi, os_ + size) - os_ + od, k) for lo, hi, k in regs)
            rest = st.reg[rd]
            st.reg[rd] = new + rest
        elif not (rs.op == 'obj' and rs.a[0] in ('alloca', 'heap')):
            # unmodified external memory: lazily the same content
            if g is not None and g.const and g.init is not None:
                k = ('cst', rs, os_ - od)
            else:
                k = ('cpy', rs, os_ - od)
            st.reg[rd] = ((od, od + size, k),) + st.reg[rd]
        for o, v in cells:
            a = add(dst, C(o))
            if a.op == 'lin' and a.root is None:
                a.root = rd
            st.mem[a] = v

    # ---- conditions
    def cond(self, pred, a, b, w, st):
        if a.op == 'undef' or b.op == 'undef' or a.op == 'uninit' or b.op == 'uninit':
            self.models.on_undef_use(st, a if a.op in ('undef', 'uninit') else b)
            return self.sym('undefcmp', (), 0, rng=(0, 1))
        if pred[0] == 'u':
            if a.op == 'c' and a.a[0] < 0 and w:
                a = C(a.a[0] + (1 << w))
            if b.op == 'c' and b.a[0] < 0 and w:
                b = C(b.a[0] + (1 << w))
        p = pred[-2:]
        if pred in ('eq', 'ne'):
            d = sub(a, b)
            # comparing a boolean with 0/1
            if d.op == 'cmp' or (d.op == 'lin' and d.a[0] in (-1, 0) and len(d.a[1]) == 1 and d.a[1][0][0].op == 'cmp'):
                c0 = d if d.op == 'cmp' else d.a[1][0][0]
                cst = 0 if d.op == 'cmp' else -d.a[0]
                if d.op == 'lin' and d.a[1][0][1] != 1:
                    cst = -cst
                want = (cst == 1) if pred == 'eq' else (cst == 0)
                return c0 if want else neg_cmp(c0)
            # canonical sign for symmetric predicates
            c, it = lin_parts(d)
            if it and it[0][1] < 0:
                d = scale(d, -1)
            t = mk('cmp', pred, d)
        else:
            k = p
            if k == 'lt':
                t = mk('cmp', 'lt', sub(a, b))
            elif k == 'le':
                t = mk('cmp', 'le', sub(a, b))
            elif k == 'gt':
                t = mk('cmp', 'lt', sub(b, a))
            else:
                t = mk('cmp', 'le', sub(b, a))
        return t

    def truth(self, st, t):
        """True/False/None"""
        if t.op == 'cmp':
            p, d = t.a
            if p in ('eq', 'ne'):
                nz = st.nonzero(d)
                if nz is None:
                    nz = distinct(d)
                if nz is None:
                    return None
                return nz if p == 'ne' else not nz
            lo, hi = st.rng(d)
            if p == 'lt':
                if hi < 0:
                    return True
                if lo >= 0:
                    return False
            else:
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
            return None
        if t.op == 'not':
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        if t.op in ('band', 'bor'):
            a = self.truth(st, t.a[0]); b = self.truth(st, t.a[1])
            if t.op == 'band':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
                return None
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        return st.nonzero(t)

    def assume(self, st, t, val):
        """refine st in place; False when infeasible"""
        k = self.truth(st, t)
        if k is not None:
            return k == val
        if t.op == 'cmp':
            if not val:
                t = neg_cmp(t)
            p, d = t.a
            if p == 'eq':
                ok = st.limit(d, 0, 0)
                if ok:
                    self.eq_sub(st, d)
                return ok
            if p == 'ne':
                return st.exclude(d, 0)
            if p == 'lt':
                return st.limit(d, -INF, -1)
            return st.limit(d, -INF, 0)
        if t.op == 'not':
            return self.assume(st, t.a[0], not val)
        if t.op == 'band' and val or t.op == 'bor' and not val:
            return self.assume(st, t.a[0], val) and self.assume(st, t.a[1], val)
        if t.op in ('band', 'bor'):
            return True
        if val:
            ok = st.exclude(t, 0)
        else:
            ok = st.limit(t, 0, 0)
        return ok

    def eq_sub(self, st, d):
        pass

    # ---- expressions
    def pack(self, lo, hi):
        """two 32-bit values next to each other (how small structures are passed and returned)"""
        if lo.op == 'c' and hi.op == 'c':
            return C(norm((lo.a[0] & 0xffffffff) | (hi.a[0] << 32), 64))
        return mk('pack', lo, hi)

    def repack(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if op == 'or':
                if x.op == 'undef' and y.op != 'shl':
                    return y
                if x.op == 'shl' and x.a[1] is C(32):
                    return self.pack(y, x.a[0])
                if x.op == 'pack' and x.a[0].op in ('undef', 'uninit') or x.op == 'pack' and x.a[0] is ZERO:
                    return self.pack(y, x.a[1])
                if x.op == 'c' and x.a[0] and not x.a[0] & 0xffffffff and y.op != 'c':
                    return self.pack(y, C(norm(x.a[0] >> 32, 32)))
            elif op == 'and' and y.op == 'c':
                if y.a[0] == -4294967296:
                    if x.op == 'shl' and x.a[1] is C(32):
                        return x
                    if x.op == 'pack':
                        return self.pack(ZERO, x.a[1])
                elif y.a[0] == 0xffffffff and x.op == 'pack':
                    return x.a[0]
        if op in ('lshr', 'ashr') and b is C(32):
            if a.op == 'pack':
                return a.a[1]
            if a.op == 'init':
                v = add(a.a[0], C(4))
                if v.op == 'lin' and v.root is None:
                    v.root = root(a.a[0])
                return mk('init', v)
        return None

    def binop(self, op, a, b, w, st):
        if w == 64 and op in ('or', 'and', 'lshr', 'ashr'):
            r = self.repack(op, a, b)
            if r is not None:
                return r
        if a.op in ('undef', 'uninit') or b.op in ('undef', 'uninit'):
            return mk('undef')
        ca, cb = st.const_of(a), st.const_of(b)
        if ca is not None and cb is not None:
            ua, ub = ca & ((1 << w) - 1), cb & ((1 << w) - 1)
            try:
                if op == 'add': r = ca + cb
                elif op == 'sub': r = ca - cb
                elif op == 'mul': r = ca * cb
                elif op == 'and': r = ua & ub
                elif op == 'or': r = ua | ub
                elif op == 'xor': r = ua ^ ub
                elif op == 'shl': r = ua << ub if ub < w else 0
                elif op == 'lshr': r = ua >> ub
                elif op == 'ashr': r = ca >> ub
                elif op == 'udiv': r = ua // ub
                elif op == 'urem': r = ua % ub
                elif op == 'sdiv': r = int(ca / cb) if abs(ca) < 2**52 else ca // cb
                elif op == 'srem': r = ca - cb * int(ca / cb)
                return C(norm(r, w))
            except ZeroDivisionError:
                return mk('undef')
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            if cb is not None:
                return scale(a, cb)
            if ca is not None:
                return scale(b, ca)
            if self.models.track_io:
                (p, q), (x, y) = [(0, INF) if r == (-INF, INF) else r for r in (st.rng(a), st.rng(b))]
                if p >= 0 and x >= 0:       # sizes and positions do not wrap
                    if b.id < a.id:
                        a, b = b, a
                    r = mk('mul', a, b)
                    st.limit(r, p * x, q * y if INF not in (q, y) else INF)
                    return r
        if op == 'shl' and cb is not None and cb < 32:
            return scale(a, 1 << cb)
        if op == 'and':
            if ca == 0 or cb == 0:
                return ZERO
            if w == 1:
                return mk('band', a, b)
            if cb is not None and cb == 1 and st.rng(a)[0] >= 0 and st.rng(a)[1] <= 1:
                return a
            if ca is not None:
                a, b = b, a
            if cb is not None or ca is not None:
                m = (cb if cb is not None else ca)
                if m < 0:
                    m &= (1 << w) - 1
                # and(and(x,m1),m2)
                if a.op == 'and' and a.a[1].op == 'c':
                    return self.binop('and', a.a[0], C(norm(a.a[1].a[0] & m, w)), w, st)
                if a.op == 'or' and a.a[1].op == 'c':
                    if (a.a[1].a[0] & m) == m:
                        return C(norm(m, w))
                    if (a.a[1].a[0] & m) == 0:
                        return self.binop('and', a.a[0], C(norm(m, w)), w, st)
                if a.op in ('lshr', 'ashr') and a.a[1].op == 'c' and m << a.a[1].a[0] < 1 << w:
                    t = self.binop('and', a.a[0], C(norm(m << a.a[1].a[0], w)), w, st)
                    if t.op == 'c':
                        return C((t.a[0] & ((1 << w) - 1)) >> a.a[1].a[0])
                if m == (1 << w) - 1:
                    return a
                return mk('and', a, C(norm(m, w)))
        if op == 'or':
            if ca == 0:
                return b
            if cb == 0:
                return a
            if w == 1:
                return mk('bor', a, b)
            if ca is not None:
                a, b = b, a
        if op == 'xor' and w == 1:
            if cb == 1:
                return neg_cmp(a) if a.op == 'cmp' else (a.a[0] if a.op == 'not' else mk('not', a))
        if op in ('lshr', 'ashr') and cb == 0:
            return a
        if op in ('udiv', 'sdiv') and cb == 1:
            return a
        if op in ('ashr', 'lshr') and a.op == 'lin' and a.a[0] == 0 and len(a.a[1]) == 1 and cb is not None:
            x, k = a.a[1][0]
            if k == 1 << cb:
                # sign-extension idiom for bit fields
                return mk('sx', x, w - cb) if x.op == 'and' or True else x
        if op in ('and', 'or', 'xor', 'mul') and a.id > b.id and b.op != 'c':
            a, b = b, a
        r = mk(op, a, b)
        if op == 'urem' and self.models.track_io and cb is None and st.rng(b)[0] in (-INF, 0, 1):
            st.limit(r, 0, INF)
            st.limit(sub(r, b), -INF, -1)
        return r

    def cast(self, op, st_ty, v, dt, st):
        if v.op in ('undef', 'uninit'):
            return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return v
        c = st.const_of(v)
        if op == 'zext':
            if c is not None:
                return C(c & ((1 << st_ty[1]) - 1))
            if self.models.track_io and st_ty[1] == 32 and st.rng(v) == (-INF, INF):
                st.limit(v, 0, 2**32 - 1)       # nothing is known about it but that it is used as an unsigned number
            return v
        if op == 'sext':
            if c is not None:
                return C(norm(c, st_ty[1]))
            if st_ty[1] == 1:
                return scale(v, -1)
            return v
        if op == 'trunc':
            if v.op == 'pack':
                v = v.a[0]
                c = st.const_of(v)
            if c is not None:
                return C(norm(c, dt[1])) if dt[1] > 1 else C(c & 1)
            if dt[1] == 1:
                if v.op in ('cmp', 'not', 'band', 'bor'):
                    return v
                return v
            if dt[1] in (8, 16):
                lo, hi = st.rng(v)
                if lo >= -(1 << (dt[1]-1)) and hi < (1 << dt[1]):
                    return v
                return mk('trunc', v, dt[1])
            return v
        return v

    # ---- driver
    def run(self, fn, args, st, ctx=()):
        self.entry = fn
        self.stack = []
        self.steps = 0
        self.line = fn.line
        ex = self.exec_fn(fn, args, st, ctx + (-1,) * st.gen)
        for ret, s in ex:
            s.gen = st.gen + 1
        return ex

    def exec_fn(self, fn, args, st, ctx):
        if len(self.stack) >= self.MAX_DEPTH:
            raise Incomplete('depth')
        self.entered.add((fn.tu.name, fn.name))
        self.stack.append((fn, self.line if self.stack else fn.line))
        try:
            return self._exec_fn(fn, args, st, ctx)
        finally:
            self.stack.pop()

    def _exec_fn(self, fn, args, st, ctx):
        tu = fn.tu
        env = {}
        for (name, ty), v in zip(fn.params, args):
            if name in fn.byval:
                o = mk('obj', 'alloca', ctx, 'byval', name)
                self.copy_region(st, o, v, tu.sizeof(fn.byval[name]), ('bv', ctx))
                v = o
            env[name] = v
        exits = []
        visited = {}
        work = [(fn.entry, None, env, st, {}, frozenset())]
        while work:
            blk, prev, env, st, hist, execd = work.pop()
            # phis
            if blk.phis:
                vals = []
                for ph in blk.phis:
                    iv = ph.a[0].get(prev.name)
                    if iv is None:
                        raise Abort('phi without incoming')
                    vals.append(self.val(iv, env, tu))
                env = {k: v for k, v in env.items() if k in blk.livein}
                for ph, v in zip(blk.phis, vals):
                    env[ph.dst] = v
            elif len(blk.preds) > 1 or blk.isheader:
                env = {k: v for k, v in env.items() if k in blk.livein}
            for h in self.models.hooks:
                if hasattr(h, 'settle'):
                    h.settle(self, st)
            if blk.isheader:
                back = backedge(fn, prev.name, blk.name) if prev else False
                hk = blk.name
                if self.split_loops:    # what the clients recorded tells iterations apart
                    ck = st.client_key()
                    snaps = hist.get((blk.name, 'keys'), ())
                    if ck in snaps or len(snaps) < 6:
                        hk = (blk.name, ck)
                if back:
                    snap = hist.get(hk)
                    turns = hist.get((blk.name, 'turns'), 0)
                    if snap is not None and turns >= (TURNS if hist.get((blk.name, 'counted')) else self.unroll):
                        env, st = self.widen(snap, env, st, ctx, fn, blk)
                    self.models.on_backedge(st, fn, blk, ctx)
                else:
                    self.models.on_loop_enter(st, fn, blk, ctx)
                hist = dict(hist)
                cs = fn.counters[blk.name]
                if cs and not back:
                    hist[(blk.name, 'counted')] = counted(cs, env)
                if self.unroll or cs:
                    hist[(blk.name, 'turns')] = turns + 1 if back else 0
                hist[hk] = (env, st.copy())
                if hk is not blk.name:
                    hist[(blk.name, 'keys')] = snaps + ((ck,) if ck not in snaps else ())
            if len(blk.preds) > 1 or blk.isheader:
                self.prune(env, st, ctx)
                key = (frozenset(env.items()), st.key())
                vs = visited.setdefault(blk.name, {})
                if key in vs:
                    continue
                if len(vs) >= self.caps()[0]:
                    # join with the stored state that has the same client component
                    r = self.join_into(vs, env, st, ctx, fn, blk)
                    if r is None:
                        continue
                    env, st = r
                    key = (frozenset(env.items()), st.key())
                    if key in vs:
                        continue
                vs[key] = (env, st.copy())
            self.exec_block(fn, blk, env, st, ctx, hist, execd, work, exits)
        return self.finish_exits(fn, exits, ctx)

    def caps(self):
        c = self.CAPS[self.PRECISION]
        a, b = c[min(len(self.stack) - 1, len(c) - 1)]
        return a * self.SCALE, b * self.SCALE

    def finish_exits(self, fn, exits, ctx):
        depth = len(ctx)
        out = {}
        for ret, st in exits:
            if depth or True:
                self.gc(st, ret, ctx)
            k = (ret, st.key())
            if k not in out:
                out[k] = (ret, st)
        res = list(out.values())
        if len(self.stack) > 1 and len(res) > self.caps()[1]:
            groups = {}
            for ret, st in res:
                rc = ret.a[0] if ret is not None and ret.op == 'c' else ('t', None if ret is None else (st.nonzero(ret), st.rng(ret)[1] < 0))
                groups.setdefault((rc, st.client_key()), []).append((ret, st))
            res = []
            for (rc, ck), lst in groups.items():
                ret, st = lst[0]
                if len(lst) > 1:
                    self.joins += 1
                env = {'ret': ret}
                for r2, s2 in lst[1:]:
                    env, st = self.join(env, st, {'ret': r2}, s2, ('x', ctx, fn.dname), 'exit')
                res.append((env['ret'], st))
        return res

    def gc(self, st, ret, ctx):
        """forget what only the finished frame could name"""
        dead = [k for k in st.mem if self.is_local(root(k), ctx)]
        if dead:
            for k in dead:
                del st.mem[k]
        for k in [k for k in st.reg if self.is_local(k, ctx)]:
            del st.reg[k]
        used = set()
        for k, v in st.mem.items():
            used |= syms(k)
            used |= syms(v)
        if ret is not None:
            used |= syms(ret)
        for d in (st.locks, st.heap, st.res, st.io):
            for k in d:
                used |= syms(k)
        for v in st.io.values():
            if v[2] is not None:
                used |= syms(v[2])
        for e in st.ev:
            if isinstance(e, tuple):
                for y in e:
                    if isinstance(y, T):
                        used |= syms(y)
        n = len(ctx)
        for L in list(st.facts):
            for s in syms(L):
                if s not in used and sym_ctx(s)[:n] == ctx and s.a[0] != 'arg':
                    del st.facts[L]
                    break

    def drop_dead(self, env, st):
        """forget released blocks and resources nothing names any more"""
        dead = [o for o, v in st.heap.items() if v == 'freed']
        deadr = [o for o, v in st.res.items() if v == 'closed']
        if not dead and not deadr:
            return
        used = set()
        for k, v in st.mem.items():
            if k.op == 'obj' or root(k) not in st.heap or st.heap[root(k)] != 'freed':
                used |= syms(v)
        for v in env.values():
            used |= syms(v)
        for o in dead:
            if o not in used:
                del st.heap[o]
                for k in [k for k in st.mem if root(k) is o]:
                    del st.mem[k]
                st.reg.pop(o, None)
        for o in deadr:
            y = syms(o)
            if y and not (y & used) and not any(q.op == 's' and q.a[0] == 'arg' for q in y):
                del st.res[o]

    def prune(self, env, st, ctx):
        """drop facts about symbols of this frame nothing refers to any more"""
        if len(self.stack) == 1 and (st.heap or st.res):
            self.drop_dead(env, st)
        for r, v in list(st.io.items()):
            # known to have succeeded
            if st.rng(r)[0] >= 0 and (v[2] is None or st.rng(sub(r, v[2]))[0] >= 0):
                del st.io[r]
        if not st.facts:
            return
        n = len(ctx)
        cand = []
        for L in st.facts:
            for s in syms(L):
                c = sym_ctx(s)
                if c[:n] == ctx and s.a[0] != 'arg':
                    cand.append(L)
                    break
        if not cand:
            return
        used = set()
        for k, v in st.mem.items():
            used |= syms(k)
            used |= syms(v)
        for v in env.values():
            used |= syms(v)
        for d in (st.locks, st.heap, st.res, st.io):
            for k in d:
                used |= syms(k)
        for v in st.io.values():
            if v[2] is not None:
                used |= syms(v[2])
        for e in st.ev:
            if isinstance(e, tuple):
                for y in e:
                    if isinstance(y, T):
                        used |= syms(y)
        for v in st.x.values():
            if isinstance(v, T):
                used |= syms(v)
            elif isinstance(v, tuple):
                for y in v:
                    if isinstance(y, T):
                        used |= syms(y)
        for L in cand:
            for s in syms(L):
                c = sym_ctx(s)
                if s not in used and c[:n] == ctx and s.a[0] != 'arg':
                    del st.facts[L]
                    break

    def is_local(self, o, ctx):
        return o.op == 'obj' and o.a[0] == 'alloca' and o.a[1][:len(ctx)] == ctx

    # ---- joins
    def join_into(self, vs, env, st, ctx, fn, blk):
        ck = st.client_key()
        for k, (e2, s2) in vs.items():
            if s2.client_key() == ck:
                self.joins += 1
                nenv, nst = self.join(e2, s2, env, st, ('j', ctx, fn.dname), blk.name)
                k2 = (frozenset(nenv.items()), nst.key())
                if k2 in vs:
                    return None
                del vs[k]
                return nenv, nst
        if len(vs) > 2 * self.caps()[0] + 4:
            # under pressure forget the heap and resource typestate the two disagree about
            for k, (e2, s2) in vs.items():
                if s2.locks == st.locks and s2.ev == st.ev and s2.x == st.x:
                    self.joins += 1
                    self.forced = getattr(self, 'forced', 0) + 1
                    a = s2.copy()
                    b = st.copy()
                    for name in ('heap', 'res', 'io'):
                        da, db = getattr(a, name), getattr(b, name)
                        m = {x: v for x, v in da.items() if db.get(x) == v}
                        setattr(a, name, m)
                        setattr(b, name, dict(m))
                    nenv, nst = self.join(e2, a, env, b, ('j', ctx, fn.dname), blk.name)
                    k2 = (frozenset(nenv.items()), nst.key())
                    if k2 in vs:
                        return None
                    del vs[k]
                    return nenv, nst
        if len(vs) > 6 * 16 * self.SCALE:
            raise Incomplete('state explosion in %s' % fn.dname)
        return env, st

    def hull(self, s1, v1, s2, v2, J, s):
        a, b = s1.rng(v1)
        c, d = s2.rng(v2)
        lo, hi = min(a, c), max(b, d)
        nz = s1.nonzero(v1) and s2.nonzero(v2)
        ne = frozenset((0,)) if nz and lo <= 0 <= hi else frozenset()
        if lo != -INF or hi != INF or ne:
            s.facts[J] = (lo, hi, ne)
        if isptr(v1) or isptr(v2) or v1.op == 'obj':
            PTR_SYMS.add(J)

    def join(self, e1, s1, e2, s2, tag, where):
        s = s1.copy()
        s.facts = {}
        for L, f in s1.facts.items():
            g = s2.facts.get(L)
            if g is None:
                a, b = s2.rng(L)
                nz2 = s2.nonzero(L)
                g = (a, b, frozenset((0,)) if nz2 else frozenset())
            lo, hi = min(f[0], g[0]), max(f[1], g[1])
            ne = f[2] & g[2]
            if lo != -INF or hi != INF or ne:
                s.facts[L] = (lo, hi, ne)
        env = {}
        for k, v in e1.items():
            w = e2.get(k)
            if v is w or v is None or w is None:
                env[k] = v
            else:
                J = mk('s', 'join', tag[1], (tag[0], tag[2], where, k))
                self.hull(s1, v, s2, w, J, s)
                env[k] = J
                self.unnamed(s, v, w)
        s.mem = {}
        for k, v in s1.mem.items():
            w = s2.mem.get(k)
            if w is None:
                continue
            if v is w:
                s.mem[k] = v
            else:
                J = mk('s', 'join', tag[1], (tag[0], tag[2], where, k))
                self.hull(s1, v, s2, w, J, s)
                s.mem[k] = J
                self.unnamed(s, v, w)
        for k in set(s1.mem) ^ set(s2.mem):
            J = mk('s', 'join', tag[1], (tag[0], tag[2], where, k))
            s.mem[k] = J
            self.unnamed(s, s1.mem.get(k), s2.mem.get(k))
        for k in set(s1.reg) | set(s2.reg):
            if s1.reg.get(k) != s2.reg.get(k):
                s.reg[k] = ((0, INF, ('jr',) + tag[1:]),)
        return env, s

    def unnamed(self, st, *vals):
        """a block only a merged value names from here on: whether it is released can no longer be told"""
        if not st.heap:
            return
        for v in vals:
            for o in syms(v) if v is not None else ():
                if st.heap.get(o) == 'live':
                    del st.heap[o]

    def widen(self, snap, env, st, ctx, fn, blk):
        e0, s0 = snap
        st = st.copy()
        # values that change from one iteration to the next become opaque
        # (except that the result of a failed operation stays recognisable as that)
        keep = {v for v in st.io if st.rng(v)[1] < 0}
        if st.io:
            keep |= {C(-k) for k in range(1, 64)}
        if self.keep_flags:
            keep |= {ONE} | {C(-k) for k in range(1, 64)}
        gone = lambda v, w: v is ZERO and w is not None and (isptr(w) or (w.op == 'lin' and isptr(root(w))))    # a pointer that is null now: keep that it is
        changed_env = [k for k, v in env.items() if e0.get(k) is not v and v not in keep and not gone(v, e0.get(k))]
        # what happened to the value of the previous iteration is not true of the new one
        hit = {}
        for k in [k for k in st.mem if s0.mem.get(k) is not None and s0.mem[k] is not st.mem[k] and st.mem[k] not in keep and not gone(st.mem[k], s0.mem[k])] + changed_env:
            J = mk('s', 'wid', ctx, (fn.dname, blk.name, k))
            if J in st.heap or J in st.res or J in st.io:
                hit[J] = o = mk('s', 'old', (), J)
                if J in PTR_SYMS:
                    PTR_SYMS.add(o)
        if hit:
            st.rename(hit)
            memo = {}
            env = {k: subst(v, hit, memo) for k, v in env.items()}
        newenv = dict(env)
        for k in changed_env:
            J = mk('s', 'wid', ctx, (fn.dname, blk.name, k))
            v = env[k]
            f = self.widen_fact(s0, e0.get(k), st, v, J)
            if isptr(v) or (v.op == 'lin' and isptr(root(v))):
                PTR_SYMS.add(J)
            newenv[k] = J
            self.unnamed(st, v)
            if f:
                st.facts[J] = f
            elif J in st.facts:
                del st.facts[J]
        for k in list(st.mem):
            v = st.mem[k]
            w = s0.mem.get(k)
            if w is not v and w is not None and v not in keep and not gone(v, w):
                J = mk('s', 'wid', ctx, (fn.dname, blk.name, k))
                f = self.widen_fact(s0, w, st, v, J)
                if isptr(v):
                    PTR_SYMS.add(J)
                st.mem[k] = J
                self.unnamed(st, v)
                if f:
                    st.facts[J] = f
                elif J in st.facts:
                    del st.facts[J]
        # linear facts: keep bounds that did not move
        for L in list(st.facts):
            if L in s0.facts and L not in keep:
                lo, hi, ne = st.facts[L]
                a, b, n0 = s0.facts[L]
                if (lo, hi, ne) != (a, b, n0):
                    lo2 = a if lo >= a else step_lo(lo)
                    hi2 = b if hi <= b else INF
                    ne2 = ne & n0
                    if lo2 == -INF and hi2 == INF and not ne2:
                        del st.facts[L]
                    else:
                        st.facts[L] = (lo2, hi2, ne2)
        return newenv, st

    def widen_fact(self, s0, v0, s1, v1, J):
        if v0 is None:
            return None
        a, b = s0.rng(v0)
        c, d = s1.rng(v1)
        lo = a if c >= a else step_lo(c)
        hi = b if d <= b else INF
        nz = s0.nonzero(v0) and s1.nonzero(v1)
        ne = frozenset((0,)) if nz and lo <= 0 <= hi else frozenset()
        if lo != -INF or hi != INF or ne:
            return (lo, hi, ne)
        return None

    # ---- redefinition of symbols inside loops
    def redefine(self, st, env, ctx, uid):
        pre = ctx + (uid,)
        n = len(pre)
        hit = {}
        def scan(t):
            for s in syms(t):
                c = sym_ctx(s)
                if (c == ctx and sym_uid(s) == uid) or c[:n] == pre:
                    if s.op != 's' or s.a[0] != 'old':
                        hit[s] = None
        for k, v in st.mem.items():
            scan(k); scan(v)
        for d in (st.reg, st.facts, st.locks, st.heap, st.res, st.io):
            for k in d:
                scan(k)
        for v in env.values():
            scan(v)
        for v in st.x.values():
            if isinstance(v, T):
                scan(v)
            elif isinstance(v, tuple):
                for y in v:
                    if isinstance(y, T):
                        scan(y)
        if not hit:
            return
        for s in hit:
            if s.op == 'obj':
                o = mk('obj', s.a[0], (), ('old',) + s.a[1:], s.a[-1])
                hit[s] = o
            else:
                o = mk('s', 'old', (), s)
                hit[s] = o
                if s in PTR_SYMS:
                    PTR_SYMS.add(o)
                r = DEFAULT_RNG.get(s)
                if r:
                    DEFAULT_RNG[o] = r
        st.rename(hit)
        memo = {}
        for k in list(env):
            env[k] = subst(env[k], hit, memo)

    # ---- blocks
    def exec_block(self, fn, blk, env, st, ctx, hist, execd, work, exits):
        if self.deadline and time.time() > self.deadline:
            raise Incomplete('time limit')
        todo = [(0, env, st, execd)]
        tu = fn.tu
        loop = inloop(fn, blk.name)
        while todo:
            i, env, st, execd = todo.pop()
            instrs = blk.instrs
            n = len(instrs)
            dead = False
            while i < n:
                ins = instrs[i]
                op = ins.op
                self.steps += 1
                if self.steps > self.step_limit:
                    raise Incomplete('step limit')
                self.line = ins.line or self.line
                if loop and ins.dst is not None or op == 'call':
                    if loop:
                        if ins.uid in execd:
                            if op in ('call', 'load', 'alloca'):
                                if op == 'call':
                                    for h in self.models.hooks:
                                        if hasattr(h, 'again'):
                                            h.again(self, st, ctx + (ins.uid,))
                                self.redefine(st, env, ctx, ins.uid)
                        elif op in ('call', 'load', 'alloca'):
                            execd = execd | {ins.uid}
                try:
                    if op == 'load':
                        addr = self.val(ins.a[0], env, tu)
                        if self.check_ptr(st, addr, ins):
                            dead = True; break
                        v = self.load(st, addr, ins.ty, tu, ins, ctx)
                        c = None
                        if v.op in ('init', 's', 'm') :
                            if ins.ty == ('ptr',):
                                self.note_slot(v, ins, fn)
                            else:
                                c = st.const_of(v)
                                if c is not None:
                                    v = C(c)
                        env[ins.dst] = v
                    elif op == 'store':
                        v = self.val(ins.a[0], env, tu)
                        addr = self.val(ins.a[1], env, tu)
                        if self.check_ptr(st, addr, ins):
                            dead = True; break
                        self.store(st, addr, v, ins)
                    elif op == 'getelementptr':
                        base = self.val(ins.a[0][1], env, tu)
                        if base.op in ('undef', 'uninit'):
                            self.models.on_undef_use(st, base)
                            dead = True; break
                        idx = [(t, self.val(x, env, tu)) for t, x in ins.a[1:]]
                        if any(x.op in ('undef', 'uninit') for _, x in idx):
                            self.models.on_undef_use(st, base)
                            dead = True; break
                        v = self.gep(tu, ins.ty, base, idx)
                        if self.typed and ins.ty[0] == 's':
                            self.typed(base, tu, ins.ty[1])
                        env[ins.dst] = v
                    elif op == 'icmp':
                        a = self.val(ins.a[1], env, tu)
                        b = self.val(ins.a[2], env, tu)
                        w = ins.ty[1] if ins.ty[0] == 'i' else None
                        t = self.cond(ins.a[0], a, b, w, st)
                        k = self.truth(st, t)
                        env[ins.dst] = t if k is None else (ONE if k else ZERO)
                    elif op == 'call':
                        rs = self.do_call(ins, env, st, ctx, fn)
                        if not rs:
                            dead = True; break
                        for ret, s2 in rs[1:]:
                            e2 = env.copy()
                            if ins.dst:
                                e2[ins.dst] = ret if ret is not None else mk('undef')
                            todo.append((i + 1, e2, s2, execd))
                        ret, st = rs[0]
                        if ins.dst:
                            env[ins.dst] = ret if ret is not None else mk('undef')
                    elif op == 'br':
                        if ins.a[0] is None:
                            work.append((fn.blocks[ins.a[1]], blk, env, st, hist, execd))
                        else:
                            c = self.val(ins.a[0], env, tu)
                            if c.op in ('undef', 'uninit'):
                                self.models.on_undef_use(st, c)
                                c = self.sym('undefbr', ctx, ins.uid)
                            k = self.truth(st, c)
                            self.models.on_branch(st, c, ins)
                            if k is not False:
                                s1 = st.copy() if k is None else st
                                if k or self.assume(s1, c, True):
                                    work.append((fn.blocks[ins.a[1]], blk, env.copy() if k is None else env, s1, hist, execd))
                            if k is not True:
                                if k is False or self.assume(st, c, False):
                                    work.append((fn.blocks[ins.a[2]], blk, env, st, hist, execd))
                        dead = True; break
                    elif op == 'switch':
                        v = self.val(ins.a[0], env, tu)
                        if v.op in ('undef', 'uninit'):
                            self.models.on_undef_use(st, v)
                            dead = True; break
                        c = st.const_of(v)
                        if c is not None:
                            tgt = ins.a[1]
                            for n_, l in ins.a[2]:
                                if n_ == c:
                                    tgt = l
                            work.append((fn.blocks[tgt], blk, env, st, hist, execd))
                        else:
                            for n_, l in ins.a[2]:
                                s1 = st.copy()
                                if s1.limit(v, n_, n_):
                                    work.append((fn.blocks[l], blk, env.copy(), s1, hist, execd))
                            ok = True
                            for n_, l in ins.a[2]:
                                ok = ok and st.exclude(v, n_)
                            if ok:
                                work.append((fn.blocks[ins.a[1]], blk, env, st, hist, execd))
                        dead = True; break
                    elif op == 'ret':
                        v = None if ins.a[0] is None else self.val(ins.a[0], env, tu)
                        if v is not None and v.op in ('undef', 'uninit'):
                            self.models.on_undef_use(st, v)
                        if v is not None and v.op != 'agg' and fn.rty != ('ptr',):
                            c = st.const_of(v) if v.op not in ('undef', 'uninit') else None
                            if c is not None:
                                v = C(c)
                        exits.append((v, st))
                        dead = True; break
                    elif op == 'unreachable':
                        dead = True; break
                    elif op == 'select':
                        c = self.val(ins.a[0], env, tu)
                        a = self.val(ins.a[1], env, tu)
                        b = self.val(ins.a[2], env, tu)
                        k = self.truth(st, c)
                        if k is None and a is not b:
                            if a is ONE and b is ZERO:
                                env[ins.dst] = c
                            else:
                                s2 = st.copy()
                                if self.assume(s2, c, False):
                                    e2 = env.copy()
                                    e2[ins.dst] = b
                                    todo.append((i + 1, e2, s2, execd))
                                if not self.assume(st, c, True):
                                    dead = True; break
                                env[ins.dst] = a
                        else:
                            env[ins.dst] = a if k or a is b else b
                    elif op in BIN:
                        a = self.val(ins.a[0], env, tu)
                        b = self.val(ins.a[1], env, tu)
                        if op in ('udiv', 'sdiv', 'urem', 'srem'):
                            self.models.on_div(st, a, b, ins)
                        env[ins.dst] = self.binop(op, a, b, ins.ty[1], st) if ins.ty[0] == 'i' else mk('undef')
                        if self.models.narrow is not None and ins.ty in (('i', 16), ('i', 32)) and op in ('mul', 'shl', 'add', 'sub') and env[ins.dst].op != 'c':
                            self.models.narrow.add(env[ins.dst])
                    elif op in CAST:
                        v = self.val(ins.a[1], env, tu)
                        env[ins.dst] = self.cast(op, ins.a[0], v, ins.ty, st)
                    elif op == 'alloca':
                        o = mk('obj', 'alloca', ctx, ins.uid, ins.dst)
                        self.objmeta[o] = ('alloca', tu, ins.ty)
                        for k in [k for k in st.mem if root(k) is o]:
                            del st.mem[k]
                        st.reg[o] = ((0, INF, 'uninit'),)
                        env[ins.dst] = o
                    elif op == 'extractvalue':
                        v = self.val(ins.a[0], env, tu)
                        if v.op == 'agg' and ins.a[1][0] < len(v.a):
                            env[ins.dst] = v.a[ins.a[1][0]]
                        else:
                            env[ins.dst] = mk('xv', v, ins.a[1][0]) if v.op != 'undef' else mk('undef')
                    elif op == 'insertvalue':
                        v = self.val(ins.a[0], env, tu)
                        e = self.val(ins.a[1], env, tu)
                        els = list(v.a) if v.op == 'agg' else [mk('undef')] * len(tu.resolve(ins.ty)[1])
                        els[ins.a[2][0]] = e
                        env[ins.dst] = mk('agg', *els)
                    elif op == 'va_arg':
                        env[ins.dst] = self.sym('va', ctx, ins.uid, ptr=ins.ty == ('ptr',))
                    elif op == 'float':
                        env[ins.dst] = self.sym('fl', ctx, ins.uid)
                    else:
                        raise Abort('op %s' % op)
                except KeyError as e:
                    raise
                i += 1
            if not dead and i >= n:
                raise Abort('fell off block')

    def note_slot(self, v, ins, fn):
        a = ins.a[0]
        if a[0] == 'l':
            d = defs_of(fn).get(a[1])
            if d is not None and d.op == 'getelementptr' and d.ty[0] == 's' and len(d.a) == 3:
                k = d.a[2][1]
                if k[0] == 'c':
                    nm = d.ty[1]
                    fl = fn.tu.di_fields(nm)
                    if fl and k[1] < len(fl):
                        self.slotname[v] = (nm.split('.')[1] if '.' in nm else nm, fl[k[1]][1])

    def check_ptr(self, st, addr, ins):
        """True when the access cannot proceed"""
        if addr.op in ('undef', 'uninit'):
            self.models.on_undef_use(st, addr)
            return True
        r = root(addr)
        if r.op in ('undef', 'uninit'):
            self.models.on_undef_use(st, r)
            return True
        c = addr
        if c.op == 'c' and 0 <= c.a[0] < 4096:
            self.models.on_null(st, addr, ins)
            return True
        if r.op == 'c':
            self.models.on_null(st, addr, ins)
            return True
        if st.rng(r) == (0, 0):
            return True          # infeasible: the caller tested it
        if r.op != 'obj' and st.nonzero(r) is None:
            st.exclude(r, 0)
        return self.models.check_access(st, addr, r, ins)

    # ---- calls
    def known_as(self, st, fv):
        """the functions a path compared this value with and found equal"""
        for L, (lo, hi, ne) in st.facts.items():
            if lo == hi == 0 and L.op == 'lin' and not L.a[0] and len(L.a[1]) == 2:
                (x, a), (y, b) = L.a[1]
                if a + b == 0 and (x is fv or y is fv):
                    o = y if x is fv else x
                    if o.op == 'obj' and o.a[0] in ('fn', 'extfn'):
                        return [o]
        return []
    def do_call(self, ins, env, st, ctx, fn):
        tu = fn.tu
        callee = ins.a[0]
        args = [self.val(v, env, tu) for _, v in ins.a[1]]
        if callee[0] == 'g':
            name = callee[1][1:]
            tgt = self.prog.find(tu, callee[1])
            fv = None
        else:
            fv = self.val(callee, env, tu)
            if fv.op in ('undef', 'uninit'):
                self.models.on_undef_use(st, fv)
                return []
            if fv.op == 'c':
                self.models.on_null(st, fv, ins)
                return []
            if fv.op != 'obj':
                for o in self.known_as(st, fv):
                    fv = o
            if fv.op == 'obj' and fv.a[0] == 'fn':
                tgt = next(t for t in self.prog.tus if t.name == fv.a[1]).functions[fv.a[2]]
                name = tgt.name[1:]
            elif fv.op == 'obj' and fv.a[0] == 'extfn':
                tgt = None
                name = fv.a[1][1:]
            else:
                tgt = None
                name = None
        cctx = ctx + (ins.uid,)
        line = self.line
        try:
            if name is None:
                slot = self.slotname.get(fv)
                return self.models.indirect(st, ins, fv, slot, args, ctx, fn)
            r = self.models.call(st, ins, name, tgt, args, ctx, fn)
            if r is not None:
                return r
            if tgt is not None:
                if any(x[0] is tgt for x in self.stack):
                    return self.models.recursive(st, ins, tgt, args, ctx, fn)
                return self.exec_fn(tgt, args, st, cctx)
            return self.models.external(st, ins, name, args, ctx, fn)
        finally:
            self.line = line


def sym_ctx(s):
    if s.op == 's':
        return s.a[1]
    if s.op == 'obj':
        return s.a[1] if isinstance(s.a[1], tuple) else ()
    return ()

def sym_uid(s):
    return s.a[2] if len(s.a) > 2 else None

_defs = {}
def defs_of(fn):
    d = _defs.get(fn)
    if d is None:
        d = {}
        for b in fn.order:
            for i in b.phis + b.instrs:
                if i.dst:
                    d[i.dst] = i
        _defs[fn] = d
    return d

def distinct(d):
    """is a pointer difference known to be non-zero because the objects are distinct?"""
    c, it = lin_parts(d)
    if len(it) == 2 and sorted(k for _, k in it) == [-1, 1]:
        a, b = it[0][0], it[1][0]
        oa, ob = a.op == 'obj', b.op == 'obj'
        if oa and ob:
            if 'old' in (str(a.a[2])[:6], str(b.a[2])[:6]):
                return None
            return True
        if oa and a.a[0] in ('alloca', 'heap') and b.op in ('init', 's'):
            if b.op == 's' and b.a[0] in ('join', 'wid', 'old', 'ldx'):
                return None
            return True
        if ob and b.a[0] in ('alloca', 'heap') and a.op in ('init', 's'):
            if a.op == 's' and a.a[0] in ('join', 'wid', 'old', 'ldx'):
                return None
            return True
    return None
