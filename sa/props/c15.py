"""What opening, mounting and registering acquire, closing, unmounting and unregistering release."""
from suite import *
from labels import label
import re

ASSUME = ['the host libraries release what their open calls acquired when their close calls are made, whatever these return',
          'keys stored in a hash table are released with it']
W = {}
PAIRS = []          # (kind, acquiring function, releasing function, commands)

def owned(st):
    """resources and memory held in this state"""
    return [('resource', o, v) for o, v in st.res.items() if v != 'closed' and not merged(st, o)] + [('memory', o, o.a[3]) for o, v in st.heap.items() if v == 'live']

def merged(st, o):
    """only a merged value names it any more"""
    r, inside = parts(o)
    return inside and r.op == 'obj' and r.a[0] == 'heap' and r not in st.heap

def reach(st, drop):
    """heap objects and values something other than the released object refers to"""
    by, vals, out, work = {}, set(), set(), []
    def visit(v):
        if not isinstance(v, T):
            return
        for s in syms(v):
            vals.add(s)
            if s.op == 'obj' and s.a[0] == 'heap' and s not in out and s is not drop and st.heap.get(s) != 'freed':
                out.add(s)
                work.append(s)
    for k, v in st.mem.items():
        r = root(k)
        if r is drop:
            continue
        if r.op == 'obj' and r.a[0] in ('heap', 'alloca'):
            by.setdefault(r, []).append(v)
        else:
            visit(v)
    while work:
        for v in by.get(work.pop(), ()):
            visit(v)
    return out, vals

def parts(o):
    """the objects a resource is named by"""
    if o.op in ('lockres', 'dh', 'lfs', 'fat', 'open'):
        return root(o.a[0]), True
    return o, False

def blurred(st):
    return any(v.op == 's' and v.a[0] in ('join', 'wid', 'old') and v in PTR_SYMS for k, v in st.mem.items() if isinstance(v, T))

def left(st, mine, drop):
    """what is still held though nothing but the released object names it"""
    out, vals = reach(st, drop)
    res = []
    for kind, o, what in mine:
        if kind == 'resource':
            if st.res.get(o) in (None, 'closed'):
                continue
            r, inside = parts(o)
            if what == 'given':
                pass
            elif inside:
                if r.op == 'obj' and r.a[0] == 'heap':
                    if r in out:
                        continue
                elif r is not drop and not (r.op == 'obj' and r.a[0] == 'alloca'):
                    continue
            elif o in vals:
                continue
            res.append(NAMES.get(what, what))
        elif st.heap.get(o) == 'live' and o not in out:
            res.append('memory from %s' % what)
    return sorted(set(res))

NAMES = {'FILE': 'an open file of the C library', 'DIR': 'an open directory of the C library', 'file': 'an open file', 'dir': 'an open directory',
         'lock': 'a lock', 'hash': 'a hash table', 'open': 'an open FatFs file', 'opendir': 'an open FatFs directory',
         'lfs_file_open': 'an open littlefs file', 'lfs_dir_open': 'an open littlefs directory', 'given': 'the image file it was given'}

def start(w, f, null=()):
    e, m = make(w, modular=True)
    args = api_args(w, f)
    for k in null:
        args[k] = ZERO
    bind_self(w, m, f, args)
    return e, m, args

class Gone:
    """remembers what was released on the way"""
    def freed(self, eng, st, p):
        self.note(st, root(p))
    def released(self, eng, st, r):
        self.note(st, r)
    def note(self, st, o):
        g = st.x.get('gone', ())
        if o not in g:
            st.x['gone'] = g + (o,)

class Lost:
    """a call through a pointer whose value was merged away: what it does is not known"""
    def icall(self, eng, st, ins, fv, slot, args, ctx, fn):
        if fv.op == 's' and fv.a[0] in ('join', 'wid', 'old'):
            st.x['lost'] = 1
        return None

def run1(w, f, args, st, levels=(0, 2), setup=None, secs=120, hooks=()):
    for p in levels:
        e, m = make(w, hooks, modular=True)
        bind_self(w, m, f, args)
        if setup:
            setup(e, m)
        e.PRECISION = p
        e.deadline = time.time() + secs
        e.step_limit = 3000000
        try:
            return e, e.run(f, args, st.copy())
        except Incomplete as x:
            why = str(x)
    raise Incomplete(why)

def failed(st, f, ret):
    if ret is None:
        return False
    lo, hi = st.rng(ret)
    if f.rty == ('i', 1):
        return hi == 0
    if f.rty == ('ptr',):
        return (lo, hi) == (0, 0)
    return hi < 0 or (f.rty == ('i', 32) and st.nonzero(ret))

def job(j):
    kind, ka, kb, via = j
    w = W['w']
    fa = next(x for x in w.funcs if slotfn(x) == ka)
    fb = next(x for x in w.funcs if slotfn(x) == kb)
    fm = next(x for x in w.funcs if slotfn(x) == via) if via else None
    out = Out(j)
    n = [0, 0, 0]
    t0 = time.time()
    args = api_args(w, fa)
    st0 = State()
    if kind == 'alone':
        # an operation nothing is paired with keeps nothing open, whatever it answers
        e, ex = run1(w, fa, args, st0)
        for ret, st in ex:
            n[0] += 1
            for x in sorted({NAMES.get(v, v) for k, o, v in owned(st) if k == 'resource' and v != 'lock'}):
                out.diag('kept-open', fa.tu.name, fa.dname, 'leaves %s behind' % x, fa.line, fa.dname)
        out.exits = n[0]
        out.facts.update(failing=n[0], held=0, kept=0)
        return out
    if kind == 'register':
        for k in W['files'].get(ka, ()):
            st0.res[mk('open', args[k])] = 'given'
    e, ex = run1(w, fa, args, st0)
    seen = set()
    for ret, st in ex:
        obj = st.x.get('registered') if kind == 'register' else args[2] if kind in ('file', 'dir') else None
        if failed(st, fa, ret) or (kind == 'register' and obj is None):
            if via:
                continue
            n[0] += 1
            mine = [x for x in owned(st) if x[2] != 'given']
            if kind == 'register' and any(x[0] == 'resource' for x in mine):
                for x in left(st, mine, None):
                    out.diag('kept-after-failure', fa.tu.name, fa.dname, 'keeps %s although it fails' % x, fa.line, fa.dname)
            elif kind == 'mount':
                # wherever the image keeps it: nobody unmounts what was never mounted
                for x in sorted({NAMES.get(v, v) for k, o, v in mine if k == 'resource' and v != 'lock'}):
                    out.diag('kept-after-failure', fa.tu.name, fa.dname, 'keeps %s although it fails' % x, fa.line, fa.dname)
            elif kind in ('file', 'dir'):
                for x in left(st, mine, obj):
                    out.diag('kept-after-failure', fa.tu.name, fa.dname, 'keeps %s although it fails' % x, fa.line, fa.dname)
            continue
        if fm is not None and time.time() - t0 > 60:
            out.facts['skipped'] = out.facts.get('skipped', 0) + 1
            continue
        mids = [(None, st)]
        if fm is not None:
            am = arg_syms(fm)
            am[0] = obj
            s = st.copy()
            s.ev = ()
            try:
                e2, mids = run1(w, fm, am, s, setup=lambda e2, m2: e2.objmeta.update(e.objmeta), secs=20)
            except Incomplete:
                out.facts['skipped'] = out.facts.get('skipped', 0) + 1
                continue
        for _, s in mids:
            key = (frozenset((o, v) for o, v in s.res.items()), frozenset((o, v) for o, v in s.heap.items()))
            if fm is not None and (key in seen or not any(v != 'closed' for v in s.res.values())):
                continue
            seen.add(key)
            mine = owned(s)
            if fm is not None and not any(x[0] == 'resource' for x in mine):
                continue
            s = s.copy()
            s.ev = ()
            s.x = {}
            if kind in ('file', 'dir', 'register'):
                b = arg_syms(fb)
                b[0] = obj
            else:
                b = api_args(w, fb)
                for k, (nm, ty) in enumerate(fb.params):
                    for q, (na, ta) in enumerate(fa.params):
                        if na == nm and ta == ty:
                            b[k] = args[q]
            todo = [(b, s, 'release')]
            if kind == 'register':
                b[1] = C(W['unreg'])
                if fm is None:
                    b2 = list(b)
                    b2[1] = arg_syms(fb)[1]
                    s2 = s.copy()
                    s2.exclude(b2[1], W['unreg'])
                    todo.append((b2, s2, 'keep'))
            for b, s, what in todo:
                def setup(e2, m2):
                    e2.objmeta.update(e.objmeta)
                    if kind == 'register':
                        m2.self_vfs = obj
                        m2.self_slots = w.slots_of(fa.tu.name)
                e2, ex2 = run1(w, fb, b, s, setup=setup, hooks=[Gone()] if what == 'keep' else [Lost()])
                if not ex2:
                    out.diag('no-answer', fb.tu.name, fb.dname, 'never returns', fb.line, fb.dname)
                for r2, s2 in ex2:
                    n[1] += len(mine)
                    if what == 'keep':
                        n[2] += 1
                        gone = [NAMES.get(v, v) for k, o, v in mine if o in s2.x.get('gone', ())]
                        for x in sorted(set(gone)):
                            out.diag('released-early', fb.tu.name, fb.dname, 'releases %s on a command other than unregistering' % (x if x in NAMES.values() else 'memory from ' + x), fb.line, fb.dname)
                        continue
                    if blurred(s2) and kind != 'register' or s2.x.get('lost'):
                        out.facts['blurred'] = out.facts.get('blurred', 0) + 1
                        continue
                    for x in left(s2, mine, obj):
                        out.diag('not-released', fb.tu.name, fb.dname, 'does not release %s %s acquired' % (x, via[1] if via else fa.dname), fb.line, fb.dname)
                    if kind == 'register' and failed(s2, fb, r2):
                        out.diag('unregister-fails', fb.tu.name, fb.dname, 'answers being unregistered with an error', fb.line, fb.dname)
                    if kind == 'register':
                        o = root(obj)
                        if o.op == 'obj' and o.a[0] == 'heap' and s2.heap.get(o) == 'live':
                            out.diag('not-released', fb.tu.name, fb.dname, 'does not release the filesystem object', fb.line, fb.dname)
    out.exits = n[0] + n[1]
    out.facts.update(failing=n[0], held=n[1], kept=n[2])
    return out

def file_params(w, f):
    """parameters that are open files handed over"""
    return [k for k, t in enumerate(f.tu.param_pointees(f)) if t in ('EvfsFile', 'EvfsFile_s')]

def check(r):
    r.rule = ('for every backend: from every state a successful opening, opening of a directory, mounting or registration ends in, closing, unmounting or unregistering leaves nothing held '
              '(memory, locks, tables, host files and directories, the image file handed over) that only the released object named; a failing one keeps nothing; '
              'no other command releases what the filesystem needs.')
    w = W['w'] = r.world('pthread')
    W['unreg'] = w.const('EVFS_CMD_UNREGISTER')
    W['files'] = {slotfn(f): file_params(w, f) for f in w.registers}
    jobs = []
    for tu in w.backend_tus():
        sl = w.slots_of(tu)
        for kind, op, tk in (('file', 'm_open', 'EvfsFileMethods'), ('dir', 'm_open_dir', 'EvfsDirMethods')):
            f = sl.get(op)
            for d in w.tables_of(tu, tk):
                c = d.get('m_close')
                if f is not None and c is not None:
                    jobs.append((kind, slotfn(f), slotfn(c), None))
                    r.count('handle kinds')
                    for nm, g in sorted(d.items()):
                        if g is not None and g is not c and any(t is not None and t.dname in ('evfs_vfs_open', 'evfs_open_ex', 'evfs_vfs_open_dir') for t in closure(w, g)):
                            jobs.append((kind, slotfn(f), slotfn(c), slotfn(g)))
    for f in w.registers:
        c = w.slots_of(f.tu.name).get('m_vfs_ctrl')
        if c is None:
            r.violation(label(w, f), 'not-released', 'no m_vfs_ctrl', '%s:%d %s registers a filesystem that is never told when it is unregistered' % (f.tu.name, f.line, f.dname))
            continue
        jobs.append(('register', slotfn(f), slotfn(c), None))
        r.count('registrations')
    for tu in w.tus:
        fs = {f.dname: f for f in tu.functions.values() if not f.internal}
        for n, f in fs.items():
            if '_mount_' in n and n.replace('_mount_', '_unmount_') in fs:
                jobs.append(('mount', slotfn(f), slotfn(fs[n.replace('_mount_', '_unmount_')]), None))
                r.count('mounts')
            elif '_unmount_' not in n and any(t is not None and t.dname in OPENS for i, c, t in w.eff.callees(f)) and f.rty == ('i', 32) and tu.name not in w.vfs_slots:
                jobs.append(('alone', slotfn(f), slotfn(f), None))
                r.count('operations that open for themselves')
    for o in pool(job, sorted(jobs, key=lambda j: ('rotate' not in j[1][0] and 'romfs' not in j[1][0], str(j)))):
        kind, ka, kb, via = o.job
        fb = next(x for x in w.funcs if slotfn(x) == kb)
        lab = label(w, fb)
        name = kb[1] if kind == 'alone' else '%s after %s%s' % (kb[1], ka[1], ', ' + via[1] if via else '')
        if o.incomplete:
            r.incomplete.append('%s: %s' % (name, o.incomplete))
            continue
        for k in ('failing', 'held', 'kept'):
            r.obligations += o.facts[k]
            if not o.diags:
                r.discharged += o.facts[k]
        r.count('things held', o.facts['held'])
        if o.facts.get('skipped') or o.facts.get('blurred'):
            r.notes.append('%s: %d states not followed, %d merged states not judged' % (name, o.facts.get('skipped', 0), o.facts.get('blurred', 0)))
        r.sample('%s: %d things held' % (name, o.facts['held']))
        for k, file, func, detail, line, entry, v in sorted(set(o.diags)):
            r.violation(lab if k != 'kept-after-failure' and kind != 'alone' else label(w, next(x for x in w.funcs if slotfn(x) == ka)), k, detail, '%s:%d %s: %s (%s)' % (file, line, func, detail, name))
    r.need('registrations', 8)
    r.need('handle kinds', 14)

OPENS = ('evfs_open', 'evfs_open_ex', 'evfs_vfs_open', 'evfs_open_dir', 'evfs_open_dir_ex', 'evfs_vfs_open_dir')

def closure(w, f, seen=None):
    seen = seen if seen is not None else set()
    for i, n, t in w.eff.callees(f):
        if t is not None and t not in seen:
            seen.add(t)
            if t.tu is f.tu:
                closure(w, t, seen)
    return seen
