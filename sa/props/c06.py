"""Archive filesystems cannot be changed through the library."""
import itertools
import flow
from suite import *
from trace import Rec, evstr
from labels import label

UNITS = ('src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/romfs_fs.c')
HELPERS = ('src/tar_iter.c', 'src/tar_iter_rsrc.c', 'src/romfs_common.c')
SHARED = ('src/util/range_strings.c', 'src/util/bsd_string.c', 'src/evfs_path.c')
RESOURCE = {'evfs_register_rsrc_romfs': 1, 'evfs_register_tar_rsrc_fs': 1}
ASSUME = ['what an image file does when it is read, positioned or closed is its own filesystem\'s matter',
          'the bytes of a resource are followed as the memory a registration was given']
CHANGING = {'EvfsFileMethods': {'m_write', 'm_truncate'}, 'Evfs': {'m_delete', 'm_rename', 'm_make_dir'}}
CHANGING_API = {'evfs_file_write', 'evfs_file_truncate', 'evfs_file_puts', 'evfs_file_printf', 'evfs_file_vprintf', 'evfs_copy_to_file',
                'evfs_copy_to_file_ex', 'evfs_delete_ex', 'evfs_rename_ex', 'evfs_make_dir_ex', 'evfs_make_path_ex', 'evfs_make_path_range_ex',
                'evfs_vfs_make_path', 'evfs_delete', 'evfs_rename', 'evfs_make_dir', 'evfs_make_path',
                'fwrite', 'fputs', 'fputc', 'write', 'pwrite', 'remove', 'unlink', 'rename', 'mkdir', 'rmdir', 'truncate', 'ftruncate'}

def slot_of(w, f, ins, gep):
    c = ins.a[0]
    return gep.get(c[1]) if c[0] == 'l' else None

def virtual_calls(w, f):
    """(instruction, struct, field) of the calls through a method slot in f"""
    tu = f.tu
    gep, ld = {}, {}
    for b in f.order:
        for i in b.phis + b.instrs:
            if i.op == 'getelementptr' and i.ty[0] == 's' and len(i.a) == 3 and i.a[2][1][0] == 'c':
                fl = tu.di_fields(i.ty[1])
                k = i.a[2][1][1]
                if fl and k < len(fl):
                    gep[i.dst] = (re_struct(i.ty[1]), fl[k][1])
            elif i.op == 'load' and i.a[0][0] == 'l' and i.a[0][1] in gep:
                ld[i.dst] = gep[i.a[0][1]]
            elif i.op == 'call' and i.a[0][0] == 'l' and i.a[0][1] in ld:
                yield i, ld[i.a[0][1]][0], ld[i.a[0][1]][1]

def reach_calls(w, entry):
    seen, work = {entry: None}, [entry]
    while work:
        f = work.pop()
        yield f, seen
        for i, n, t in w.eff.callees(f):
            if t is not None and t not in seen and t.dname not in CHANGING_API:
                seen[t] = f
                work.append(t)

def chain(seen, f):
    out = [f.dname]
    while seen[f] is not None:
        f = seen[f]
        out.append(f.dname)
    return ' <- '.join(out)

def depth(t):
    n = 0
    while True:
        t = root(t)
        if t.op == 'init':
            n += 1
            t = t.a[0]
        elif t.op == 'm' and isinstance(t.a[1], T):
            t = t.a[1]
        else:
            return n, t

def refuses(r, w, f, what, args, st, kind='accepted'):
    """every path ends in an error and performs nothing that changes a file"""
    for prec in (0, 1, 2, 3, 'helpers by their effects'):
        e, m = make(w, [Rec(calls=())] + ([Effects(w, m_units=UNITS)] if prec == 'helpers by their effects' else []))
        e.PRECISION = prec if isinstance(prec, int) else 2
        e.step_limit = 400000
        try:
            ex = e.run(f, args, st.copy())
            break
        except Incomplete as x:
            why = str(x)
    else:
        r.incomplete.append('%s %s: %s' % (label(w, f), what, why))
        return
    for ret, s in ex:
        lo, hi = s.rng(ret)
        ok = hi < 0
        bad = [x for x in s.ev if x[1].split('.')[-1] in CHANGING['EvfsFileMethods'] | CHANGING['Evfs']]
        r.obl(ok and not bad)
        if not ok:
            r.violation(label(w, f), kind, what, '%s:%d %s: %s can return %s instead of an error' % (f.tu.name, f.line, f.dname, what, show(ret)))
        elif bad:
            r.violation(label(w, f), 'changes', what, '%s:%d %s: %s performs %s' % (f.tu.name, f.line, f.dname, what, evstr(bad[0])))

class Later:
    """what a worker has to report"""
    def __init__(self):
        self.rec, self.incomplete = [], []
    def obl(self, *a):
        self.rec.append(('obl', a))
    def violation(self, *a):
        self.rec.append(('violation', a))

def check(r):
    r.rule = ('opening with each combination of flags that asks for more than reading, writing, truncating, and the operations that change a '
              'directory end in an error on every path; nothing reachable from the archive filesystems calls an operation that changes a file, '
              'and no method stores into the resource it was given.')
    w = r.world('default')
    names = ['EVFS_READ', 'EVFS_WRITE', 'EVFS_NO_EXIST', 'EVFS_OPEN_OR_NEW', 'EVFS_OVERWRITE', 'EVFS_APPEND']
    bits = dict(zip(names, w.const(*names)))
    asks = bits['EVFS_WRITE'] | bits['EVFS_OPEN_OR_NEW'] | bits['EVFS_OVERWRITE'] | bits['EVFS_APPEND']
    combos = []
    for n in range(len(names) + 1):
        for c in itertools.combinations(names, n):
            v = 0
            for x in c:
                v |= bits[x]
            if v & asks:
                combos.append((v, ' | '.join(x for x in names if x in c)))
    dflt = w.slots_of('src/evfs.c')
    for tu in UNITS:
        if tu not in w.vfs_slots:
            raise Broken('%s registers no filesystem' % tu)
        slots = w.slots_of(tu)
        f = slots['m_open']
        r.count('flag combinations', len(combos))
        def job(i):
            o = Later()
            for v, what in combos[i::16]:
                args = arg_syms(f)
                args[3] = C(v)
                refuses(o, w, f, 'opening with ' + what, args, State())
            return o.rec, o.incomplete
        for rec, inc in pool(job, list(range(16))):
            for n, a in rec:
                getattr(r, n)(*a)
            r.incomplete += inc
        tabs = w.tables_of(tu, 'EvfsFileMethods')
        if not tabs:
            raise Broken('%s has no file methods' % tu)
        for tab in tabs:
            for slot in ('m_write', 'm_truncate'):
                f = tab.get(slot)
                if f is None:
                    r.violation('%s:EvfsFileMethods.%s' % (tu.split('/')[-1], slot), 'missing', slot, '%s has no %s' % (tu, slot))
                    continue
                r.count('changing methods')
                refuses(r, w, f, slot, arg_syms(f), State())
        for slot in ('m_delete', 'm_rename', 'm_make_dir'):
            f = slots.get(slot) or dflt.get(slot)
            if f is None:
                raise Broken('no %s for %s and no default' % (slot, tu))
            r.count('changing methods')
            refuses(r, w, f, slot, arg_syms(f), State())
    # nothing the archives do reaches an operation that changes a file
    for f in w.funcs:
        if f.tu.name not in UNITS + HELPERS or f.internal and f not in w.roles:
            continue
        r.count('entry points')
        for g, seen in reach_calls(w, f):
            for i, n, t in w.eff.callees(g):
                r.obl()
                if n in CHANGING_API:
                    r.discharged -= 1
                    r.violation(label(w, f), 'changes', n, '%s:%d %s reaches %s (%s)' % (g.tu.name, i.line, f.dname, n, chain(seen, g)))
            for i, s, fld in virtual_calls(w, g):
                if fld in CHANGING.get(s, ()):
                    r.discharged -= 1
                    r.obl()
                    r.violation(label(w, f), 'changes', fld, '%s:%d %s reaches a call of %s (%s)' % (g.tu.name, i.line, f.dname, fld, chain(seen, g)))
    # methods store only into their own objects and the caller's buffers
    for tu in UNITS:
        ms = set(w.slots_of(tu).values())
        for kind in ('EvfsFileMethods', 'EvfsDirMethods'):
            for tab in w.tables_of(tu, kind):
                ms |= {x for x in tab.values() if x is not None}
        for f in sorted(ms, key=lambda f: f.dname):
            r.count('methods followed')
            for prec in (1, 2, 3):
                args = arg_syms(f)
                h = Stores(args[0])
                e, m = make(w, [h])
                bind_self(w, m, f, args)
                e.PRECISION = prec
                e.step_limit = 150000 if prec < 3 else 2000000
                try:
                    e.run(f, args, State())
                    break
                except Incomplete as x:
                    why = str(x)
            else:
                r.incomplete.append('%s: %s' % (label(w, f), why))
                continue
            r.obl(not h.bad, max(h.n, 1))
            for line, where, fn in h.bad:
                r.violation(label(w, f), 'writes-image', fn, '%s:%d %s stores into %s, memory the archive only refers to' % (f.tu.name, line, fn, where))
    # memory handed over as an archive is never stored to, wherever the pointer travels
    src = []
    for f in w.registers:
        k = RESOURCE.get(f.dname)
        if k is not None:
            if k >= len(f.params) or f.params[k][1] != ('ptr',):
                raise Broken('%s takes no memory at position %d' % (f.dname, k + 1))
            src.append((f, k))
    fl = flow.Flow(w, src, lambda f: f.tu.name in UNITS + HELPERS + SHARED)
    r.count('resources followed', len(src))
    r.count('values that can point into a resource', fl.reached())
    bad = list(fl.stores())
    r.obl(not bad, fl.reached())
    for f, i, what in bad:
        r.violation(label(w, f), 'writes-image', f.dname, '%s:%d %s %s through a pointer into the memory the archive was registered with' % (f.tu.name, i.line, f.dname, what))
    r.need('resources followed', 2)
    r.need('flag combinations', 100)
    r.need('changing methods', 15)
    r.need('entry points', 30)
    r.need('methods followed', 45)

class Stores:
    """stores through a pointer the archive keeps to somebody else's memory"""
    def __init__(self, recv):
        self.recv = recv
        self.n = 0
        self.bad = []
    def look(self, eng, addr, ins):
        self.n += 1
        d, b = depth(addr)
        if b is self.recv and d >= 2 and len(eng.stack):
            fn = eng.stack[-1][0]
            if fn.tu.name in UNITS + HELPERS and (eng.line, show(addr), fn.dname) not in self.bad:
                self.bad.append((eng.line, show(addr), fn.dname))
    def store(self, eng, st, addr, v, ins):
        self.look(eng, addr, ins)
    def access(self, eng, st, addr, r, ins, is_store):
        if is_store:
            self.look(eng, addr, ins)

class Effects:
    """functions of other units by what they may change, whatever they return"""
    def __init__(self, w, m_units):
        self.units = m_units
    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        if tgt is not None and tgt.tu.name not in self.units:
            return eng.models.summary(st, ins, tgt, args, ctx, fn)
        return None
