"""Where a pointer given to the library can end up: a flow-insensitive, field-sensitive propagation of
one set of source pointers over the whole program (assignments, address arithmetic, calls through
names and method slots, results, fields of records), and the instructions that store through it."""
from llparse import BIN, CAST
import suite

WRITE_ARG = {'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'strlcpy': 0, 'strlcat': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0,
             'sprintf': 0, 'snprintf': 0, 'vsnprintf': 0, 'vsprintf': 0, 'fread': 0, 'fgets': 0, 'read': 1, 'pread': 1, 'realpath': 1,
             'getcwd': 0, 'strtok': 0, 'strtok_r': 0, 'qsort': 0}
WRITE_SLOT = {('EvfsFileMethods', 'm_read'): 1}

class Flow:
    def __init__(self, w, sources, scope):
        self.w = w
        self.funcs = [f for f in w.funcs if scope(f)]
        self.keep = set(self.funcs)
        self.val = {}           # (function, ssa name) -> why
        self.cell = {}          # memory key -> why
        self.ret = {}           # function -> why
        self.callers = {}
        self.deps = {}
        self.keymemo = {}
        self.defs = {}
        for f in self.funcs:
            d = {}
            for b in f.order:
                for i in b.phis + b.instrs:
                    if i.dst:
                        d[i.dst] = i
            self.defs[f] = d
        self.slots = {}
        for f in self.funcs:
            gep = {}
            for b in f.order:
                for i in b.phis + b.instrs:
                    if i.op == 'call':
                        for t in self.targets(f, i):
                            self.callers.setdefault(t, []).append((f, i))
        for f, k in sources:
            self.val[(f, f.params[k][0])] = 'parameter %d of %s' % (k + 1, f.dname)
        self.run()

    def slot_of(self, f, v):
        if v[0] != 'l':
            return None
        d = self.defs[f].get(v[1])
        if d is None or d.op != 'load' or d.a[0][0] != 'l':
            return None
        g = self.defs[f].get(d.a[0][1])
        if g is None or g.op != 'getelementptr' or g.ty[0] != 's' or len(g.a) != 3 or g.a[2][1][0] != 'c':
            # first field: the load goes through the record itself
            return None
        fl = f.tu.di_fields(g.ty[1])
        k = g.a[2][1][1]
        return (suite.re_struct(g.ty[1]), fl[k][1]) if fl and k < len(fl) else None

    def targets(self, f, i):
        c = i.a[0]
        if c[0] == 'g':
            t = self.w.prog.find(f.tu, c[1])
            return [t] if t in self.keep else []
        s = self.slot_of(f, c)
        if s is None:
            return []
        return [t for t in self.w.eff.slot_candidates().get(s, ()) if t in self.keep]

    def key(self, f, v, n=0):
        """name of the memory an address denotes"""
        if v[0] == 'g':
            return ('g', v[1])
        if v[0] != 'l' or n > 8:
            return None
        d = self.defs[f].get(v[1])
        if d is None:
            for k, (pn, ty) in enumerate(f.params):
                if pn == v[1]:
                    return ('p', f, k)
            return None
        if d.op == 'alloca':
            return ('a', f, d.dst)
        if d.op == 'getelementptr':
            if d.ty[0] in ('s', 'anon') and len(d.a) >= 3:
                return ('f', suite.re_struct(d.ty[1]) if d.ty[0] == 's' else str(d.ty), tuple(x[1] if x[0] == 'c' else '*' for _, x in d.a[2:]))
            return self.key(f, d.a[0][1], n + 1)
        if d.op in CAST:
            return self.key(f, d.a[1], n + 1)
        if d.op == 'load':
            k = self.key(f, d.a[0], n + 1)
            return ('d', k) if k else None
        return None

    def is_t(self, f, v):
        if v[0] == 'l':
            return self.val.get((f, v[1]))
        if v[0] == 'ce':
            if v[1] == 'gep':
                return self.is_t(f, v[3][0][1])
            if v[1] == 'cast':
                return self.is_t(f, v[2])
        return None

    def run(self):
        w = self.w
        changed = True
        def mark(d, k, why):
            nonlocal changed
            if k is not None and k not in d:
                d[k] = why
                changed = True
        while changed:
            changed = False
            for f in self.funcs:
                for b in f.order:
                    for i in b.phis + b.instrs:
                        op = i.op
                        if op == 'getelementptr':
                            y = self.is_t(f, i.a[0][1])
                            if y: mark(self.val, (f, i.dst), y)
                        elif op == 'phi':
                            for v in i.a[0].values():
                                y = self.is_t(f, v)
                                if y: mark(self.val, (f, i.dst), y)
                        elif op == 'select':
                            y = self.is_t(f, i.a[1]) or self.is_t(f, i.a[2])
                            if y: mark(self.val, (f, i.dst), y)
                        elif op in CAST:
                            y = self.is_t(f, i.a[1])
                            if y: mark(self.val, (f, i.dst), y)
                        elif op in BIN:
                            pass
                        elif op == 'load':
                            if i.ty == ('ptr',):
                                k = self.key(f, i.a[0])
                                if k in self.cell:
                                    mark(self.val, (f, i.dst), self.cell[k])
                        elif op == 'store':
                            y = self.is_t(f, i.a[0])
                            if y: mark(self.cell, self.key(f, i.a[1]), y)
                        elif op == 'ret':
                            if i.a[0] is not None:
                                y = self.is_t(f, i.a[0])
                                if y: mark(self.ret, f, y)
                        elif op == 'insertvalue':
                            y = self.is_t(f, i.a[0]) or self.is_t(f, i.a[1])
                            if y: mark(self.val, (f, i.dst), y)
                        elif op == 'extractvalue':
                            y = self.is_t(f, i.a[0])
                            if y: mark(self.val, (f, i.dst), y)
                        elif op == 'call':
                            ts = self.targets(f, i)
                            for t in ts:
                                for k, (ty, v) in enumerate(i.a[1]):
                                    if k >= len(t.params):
                                        break
                                    y = self.is_t(f, v)
                                    if y: mark(self.val, (t, t.params[k][0]), y)
                                    kk = self.key(f, v)
                                    if kk is not None:
                                        pk = ('p', t, k)
                                        if pk in self.cell: mark(self.cell, kk, self.cell[pk])
                                        if kk in self.cell and kk[0] in 'ap': mark(self.cell, pk, self.cell[kk])
                                if i.dst and t in self.ret:
                                    mark(self.val, (f, i.dst), self.ret[t])
                            if not ts and i.a[0][0] == 'g' and i.dst and i.ty == ('ptr',):
                                n = i.a[0][1][1:]
                                if n in ('strchr', 'strrchr', 'strstr', 'memchr', 'strpbrk', 'strtok'):
                                    y = self.is_t(f, i.a[1][0][1])
                                    if y: mark(self.val, (f, i.dst), y)

    def stores(self):
        """(function, instruction, what) of every write through a source pointer"""
        for f in self.funcs:
            for b in f.order:
                for i in b.instrs:
                    if i.op == 'store':
                        if self.is_t(f, i.a[1]):
                            yield f, i, 'stores'
                    elif i.op == 'call':
                        c = i.a[0]
                        if c[0] == 'g':
                            n = c[1][1:]
                            if n.startswith('llvm.mem'):
                                n = n.split('.')[1]
                            k = WRITE_ARG.get(n)
                            if k is not None and self.w.prog.find(f.tu, c[1]) is None and k < len(i.a[1]) and self.is_t(f, i.a[1][k][1]):
                                yield f, i, n
                        else:
                            s = self.slot_of(f, c)
                            k = WRITE_SLOT.get(s)
                            if k is not None and k < len(i.a[1]) and self.is_t(f, i.a[1][k][1]):
                                yield f, i, s[1]

    def reached(self):
        return len(self.val)
