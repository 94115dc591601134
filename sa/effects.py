"""Interprocedural mod/ref and effect summaries (flow insensitive, bottom up over the call graph).

A function without interesting effects (no locks, heap, storage or indirect calls anywhere below it)
that loops is abstracted by what it may write through its parameters; everything else is entered.
"""
from llparse import CAST

WRITES0 = {'strcpy', 'strncpy', 'strcat', 'strlcpy', 'strlcat', 'memcpy', 'memmove', 'memset', 'sprintf',
           'snprintf', 'vsnprintf', 'vsprintf'}
NEUTRAL = WRITES0 | {'strlen', 'strnlen', 'strcmp', 'strncmp', 'strspn', 'strcspn', 'strchr', 'strrchr',
           'strtol', 'strtoul', 'toupper', 'tolower', 'memcmp', '__ctype_b_loc', 'evfs__err_printf',
           'evfs__dbg_printf', 'printf', 'fprintf', 'vfprintf', 'putc', 'puts', 'putchar', 'strstr',
           'strcasecmp', 'memchr', 'isdigit', 'abort', '__assert_fail', '__errno_location', 'abs'}

class Effects:
    def __init__(self, prog):
        self.prog = prog
        self._pure = {}
        self._loop = {}
        self._mods = {}
        self._gm = {}
        self._busy = set()
        self._gstores = None
        self._slots = None

    def callees(self, f):
        for b in f.order:
            for i in b.instrs:
                if i.op == 'call':
                    c = i.a[0]
                    if c[0] == 'g':
                        yield i, c[1][1:], self.prog.find(f.tu, c[1])
                    else:
                        yield i, None, None

    def pure(self, f, stack=()):
        r = self._pure.get(f)
        if r is not None:
            return r
        if f in stack:
            return True
        ok = True
        for i, n, t in self.callees(f):
            if n is None:
                ok = False
            elif n in NEUTRAL or n.startswith('llvm.'):
                continue
            elif t is None:
                ok = False
            elif not self.pure(t, stack + (f,)):
                ok = False
            if not ok:
                break
        if not stack or not ok:
            self._pure[f] = ok
        return ok

    def loops(self, f, stack=()):
        r = self._loop.get(f)
        if r is not None:
            return r
        if f in stack:
            return True
        r = any(b.isheader for b in f.order)
        if not r:
            for i, n, t in self.callees(f):
                if t is not None and n not in NEUTRAL and self.loops(t, stack + (f,)):
                    r = True
                    break
        self._loop[f] = r
        return r

    def opaque(self, f):
        return self.pure(f) and self.loops(f)

    # ---- origins of pointers
    def origins(self, f):
        """ssa name -> set of (base, depth, off);  base = parameter index | ('a',alloca) | ('g',name)"""
        org = {}
        cont = {}        # alloca -> origins stored in it
        for k, (n, ty) in enumerate(f.params):
            if ty == ('ptr',):
                if n in f.byval:
                    org[n] = {(('a', n), 0, 0)}
                else:
                    org[n] = {(k, 0, 0)}
        def of(v):
            if v[0] == 'l':
                return org.get(v[1], set())
            if v[0] == 'g':
                return {(('g', v[1]), 0, 0)}
            if v[0] == 'ce' and v[1] == 'gep':
                return {(b, d, None) for b, d, o in of(v[3][0][1])}
            if v[0] == 'ce' and v[1] == 'cast':
                return of(v[2])
            return set()
        tu = f.tu
        changed = True
        n = 0
        while changed and n < 12:
            changed = False
            n += 1
            for b in f.order:
                for i in b.phis + b.instrs:
                    new = None
                    if i.op == 'alloca':
                        new = {(('a', i.dst), 0, 0)}
                    elif i.op == 'getelementptr':
                        co = 0
                        ty = i.ty
                        first = True
                        for t, x in i.a[1:]:
                            if x[0] != 'c':
                                co = None
                                break
                            if first:
                                co += x[1] * tu.sizeof(i.ty)
                                first = False
                                continue
                            ty = tu.resolve(ty)
                            if ty[0] == 'anon':
                                o, ty = tu.field_off(ty, x[1])
                                co += o
                            else:
                                ty = ty[2]
                                co += x[1] * tu.sizeof(ty)
                        new = set()
                        for bb, d, o in of(i.a[0][1]):
                            if d == 0:
                                new.add((bb, 0, None if co is None or o is None else o + co))
                            else:
                                new.add((bb, d, o))
                    elif i.op == 'phi':
                        new = set()
                        for v in i.a[0].values():
                            new |= of(v)
                    elif i.op == 'select':
                        new = of(i.a[1]) | of(i.a[2])
                    elif i.op in CAST:
                        new = of(i.a[1])
                    elif i.op == 'load' and i.ty == ('ptr',):
                        new = set()
                        for bb, d, o in of(i.a[0]):
                            if isinstance(bb, tuple) and bb[0] == 'a':
                                new |= cont.get(bb[1], set())
                            elif d == 0:
                                new.add((bb, 1, o))
                            else:
                                new.add((bb, 2, o))
                    elif i.op == 'store':
                        for bb, d, o in of(i.a[1]):
                            if isinstance(bb, tuple) and bb[0] == 'a':
                                s = cont.setdefault(bb[1], set())
                                k = len(s)
                                s |= {x for x in of(i.a[0])}
                                if len(s) != k:
                                    changed = True
                    elif i.op == 'call' and i.dst and i.ty == ('ptr',):
                        new = set()
                        for _, v in i.a[1]:
                            new |= {(bb, d, None if d == 0 else o) for bb, d, o in of(v)}
                    if new and i.dst:
                        if len(new) > 24:
                            new = {(bb, d, None) for bb, d, o in new}
                        old = org.get(i.dst, set())
                        if not new <= old:
                            org[i.dst] = old | new
                            changed = True
        return org, cont, of

    def mods(self, f):
        r = self._mods.get(f)
        if r is not None:
            return r
        if f in self._busy:
            return set()
        self._busy.add(f)
        org, cont, of = self.origins(f)
        out = set()
        gm = set()
        def rec(o3, size):
            b, d, o = o3
            if isinstance(b, tuple):
                if b[0] == 'g' and d == 0:
                    gm.add(b[1])
                return
            if d == 0:
                out.add((b, 0, o, size if o is not None else None))
            else:
                out.add((b, d, o, None))
        tu = f.tu
        for b in f.order:
            for i in b.instrs:
                if i.op == 'store':
                    vt = i.ty if i.ty else None
                    try:
                        sz = tu.sizeof(vt)
                    except Exception:
                        sz = 8
                    for x in of(i.a[1]):
                        rec(x, sz)
                elif i.op == 'call' and i.a[0][0] == 'g':
                    n = i.a[0][1][1:]
                    t = self.prog.find(tu, i.a[0][1])
                    if n in WRITES0 or n.startswith('llvm.mem') or n.startswith('llvm.va_'):
                        sz = None
                        if (n in ('memcpy', 'memset', 'memmove') or n.startswith('llvm.mem')) and i.a[1][2][1][0] == 'c':
                            sz = i.a[1][2][1][1]
                        if n.startswith('llvm.va_'):
                            sz = 24
                        for x in of(i.a[1][0][1]):
                            rec(x, sz)
                    elif n in ('strtol', 'strtoul'):
                        for x in of(i.a[1][1][1]):
                            rec(x, 8)
                    elif t is not None and n not in NEUTRAL:
                        for (pi, d, o, sz) in self.mods(t):
                            if pi >= len(i.a[1]):
                                continue
                            for (bb, d2, o2) in of(i.a[1][pi][1]):
                                if isinstance(bb, tuple):
                                    if bb[0] == 'a' and d >= 1:
                                        for y in cont.get(bb[1], ()):
                                            rec((y[0], y[1], None if y[1] == 0 else y[2]), None)
                                    elif bb[0] == 'g' and d == 0 and d2 == 0:
                                        gm.add(bb[1])
                                    continue
                                if d2 == 0 and d == 0:
                                    oo = None if o is None or o2 is None else o + o2
                                    rec((bb, 0, oo), sz)
                                elif d2 == 0:
                                    rec((bb, d, None if o is None or o2 is None else o + o2), None)
                                else:
                                    rec((bb, d2, o2), None)
                        gm |= self.gmods(t)
        self._busy.discard(f)
        self._mods[f] = out
        self._gm[f] = gm
        return out

    def gmods(self, f):
        self.mods(f)
        return self._gm.get(f, set())

    # ---- functions ever stored in a function pointer field
    def slot_candidates(self):
        if self._slots is not None:
            return self._slots
        out = {}
        edges = []
        def key(tu, sname, k):
            fl = tu.di_fields(sname)
            if fl and k < len(fl):
                nm = sname.split('.')[1] if '.' in sname else sname
                return (nm.strip('"'), fl[k][1])
            return None
        def put(tu, kk, v):
            if kk is None or v[0] != 'g':
                return
            t = self.prog.find(tu, v[1])
            if t is not None:
                l = out.setdefault(kk, [])
                if t not in l:
                    l.append(t)
        for tu in self.prog.tus:
            for f in tu.functions.values():
                gep = {}
                ld = {}
                for b in f.order:
                    for i in b.instrs:
                        if i.op == 'getelementptr' and i.ty[0] == 's' and len(i.a) == 3 and i.a[2][1][0] == 'c':
                            gep[i.dst] = key(tu, i.ty[1], i.a[2][1][1])
                        elif i.op == 'load' and i.a[0][0] == 'l' and gep.get(i.a[0][1]):
                            ld[i.dst] = gep[i.a[0][1]]
                        elif i.op == 'store' and i.a[1][0] == 'l' and gep.get(i.a[1][1]):
                            if i.a[0][0] == 'g':
                                put(tu, gep[i.a[1][1]], i.a[0])
                            elif i.a[0][0] == 'l' and i.a[0][1] in ld:
                                edges.append((ld[i.a[0][1]], gep[i.a[1][1]]))
            for g in tu.globals.values():
                if g.ty and g.ty[0] == 's' and g.init and g.init[0] == 'agg':
                    for k, (t, v) in enumerate(g.init[1]):
                        put(tu, key(tu, g.ty[1], k), v)
        for _ in range(4):
            for a, b in edges:
                for t in out.get(a, ()):
                    l = out.setdefault(b, [])
                    if t not in l:
                        l.append(t)
        self._slots = out
        return out

    # ---- globals never written by the program
    def unmodified_global(self, tuname, name):
        if self._gstores is None:
            self._gstores = set()
            for tu in self.prog.tus:
                for f in tu.functions.values():
                    org, cont, of = self.origins(f)
                    for b in f.order:
                        for i in b.instrs:
                            ps = []
                            if i.op == 'store':
                                ps = [i.a[1]]
                            elif i.op == 'call' and i.a[0][0] == 'g':
                                n = i.a[0][1][1:]
                                if n in WRITES0 or n.startswith('llvm.mem'):
                                    ps = [i.a[1][0][1]]
                                else:
                                    t = self.prog.find(tu, i.a[0][1])
                                    if t is not None and n not in NEUTRAL:
                                        for (pi, d, o, sz) in self.mods(t):
                                            if pi < len(i.a[1]) and d == 0:
                                                ps.append(i.a[1][pi][1])
                                    elif t is None and not n.startswith('llvm.'):
                                        ps = [v for _, v in i.a[1]]
                            elif i.op == 'call':
                                ps = [v for _, v in i.a[1]]
                            for v in ps:
                                for bb, d, o in of(v):
                                    if d == 0 and isinstance(bb, tuple) and bb[0] == 'g':
                                        g = self.prog.glob(tu, bb[1])
                                        if g is not None:
                                            self._gstores.add((g.tu.name, g.name))
        return (tuname, name) not in self._gstores
