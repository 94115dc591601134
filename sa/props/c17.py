"""Nothing is reached through a null pointer or read before something was stored in it."""
from suite import *
from labels import label
import props.c15 as c15
import contracts
c15_add = contracts.add_root

ASSUME = ['the host libraries fill what they document to fill when their calls succeed',
          'structures a caller hands over (ranges, configurations) hold values',
          'string, number and hash table utilities (src/util) keep their contracts']
KINDS = {'null', 'uninit'}
W = {}
RANGES = ('StringRange', 'AppendRange')
BOUND = ('getopt_r.c', 'intmath.c', 'dhash.c')

def take(out, e, f, entry):
    for d in e.diags.values():
        if d['kind'] in KINDS:
            out.diag(d['kind'], d['file'], d['func'], d['detail'], d['line'], entry, d['via'])

def fresh(what, size=None):
    """memory the library allocated for a handle: nothing is stored in it yet"""
    return mk('obj', 'heap', ('handle',), 'handle', what)

def defaults(w, f, st, vfs):
    """registering fills in the methods the filesystem leaves out (C16)"""
    for off, slot in W['slots']:
        a = c15_add(vfs, off)
        d = w.vfs_slots.get('src/evfs.c', {}).get(slot)
        v = st.mem.get(a)
        if d and (v is ZERO or (v is None and any(lo <= off_of(a)[1] < hi and k == 'zero' for lo, hi, k in st.reg.get(root(a), ())))):
            st.mem[a] = mk('obj', 'fn', d[0].tu.name, d[0].name, d[0].dname)

def no_methods(v):
    return v is None or v is ZERO or v.op in ('uninit', 'undef')

def job(j):
    cfg, kind, key, via = j
    w = W[cfg]
    f = next(x for x in w.funcs if slotfn(x) == key)
    out = Out(j)
    if kind == 'call':
        def build(p):
            e, m = make(w, modular=True)
            args = api_args(w, f)
            bind_self(w, m, f, args)
            st = State()
            for k, t in enumerate(f.tu.param_pointees(f)):
                if t and t.split('.')[-1] in RANGES and args[k].op != 'c':
                    a = mk('s', 'in', (), 'start', k)
                    PTR_SYMS.add(a)
                    DEFAULT_RNG[a] = (1, INF)
                    st.mem[args[k]] = a         # a range a caller hands over is one
            return e, m, args, st
        run_entry(w, f, out, build, lambda e, m, x: None, precs=(2, 0), kinds=KINDS)
        return out
    # a handle or filesystem as opening or registering left it, then one method
    t0 = time.time()
    args = api_args(w, f)
    st0 = State()
    if kind in ('file', 'dir'):
        h = args[2] = fresh(kind)
        st0.heap[h] = 'live'
        st0.reg[h] = ((0, INF, 'uninit'),)
    prep = lambda e2, m2: e2.objmeta.setdefault(args[2], ('heap', None, f)) if kind != 'register' else None
    e, ex = c15.run1(w, f, args, st0, setup=prep)
    methods = [x for x in w.funcs if slotfn(x) in via]
    memo = []
    def other():
        """what the same opening ends in with states merged otherwise"""
        if not memo:
            try:
                memo.extend(c15.run1(w, f, args, st0, setup=prep, levels=(2,))[1])
            except Incomplete:
                pass
        return memo
    out.facts['states'] = 0
    out.facts['ran'] = 0
    best = {}
    seen = set()
    for ret, st in ex:
        obj = st.x.get('registered') if kind == 'register' else args[2]
        if c15.failed(st, f, ret) or obj is None:
            continue
        out.facts['states'] += 1
        if kind == 'register':
            defaults(w, f, st, obj)
        if kind != 'register':
            v = st.mem.get(obj)
            if no_methods(v) and (not other() or any(no_methods(s2.mem.get(obj)) and not c15.failed(s2, f, r2) for r2, s2 in other())):
                out.diag('no-methods', f.tu.name, f.dname, 'succeeds without giving the %s its methods' % kind, f.line, f.dname)
        for g in methods:
            if time.time() - t0 > 100:
                out.facts['skipped'] = out.facts.get('skipped', 0) + 1
                continue
            a = arg_syms(g)
            a[0] = obj
            s = st.copy()
            s.ev = ()
            s.x = {}
            def setup(e2, m2):
                e2.objmeta.update(e.objmeta)
                if kind == 'register':
                    m2.self_vfs = obj
                    m2.self_slots = w.slots_of(f.tu.name)
            both = None
            done = False
            for p in (2, 0):
                try:
                    e2, ex2 = c15.run1(w, g, a, s, levels=(p,), setup=setup, secs=20)
                except Incomplete:
                    continue
                done = True
                d = {(x['kind'], x['file'], x['func'], x['detail']): x for x in e2.diags.values() if x['kind'] in KINDS}
                both = d if both is None else {k: v for k, v in both.items() if k in d}
                if not both:
                    break
            if not done:
                out.facts['skipped'] = out.facts.get('skipped', 0) + 1
                continue
            out.facts['ran'] += 1
            for x in both.values():
                out.diag(x['kind'], x['file'], x['func'], x['detail'], x['line'], '%s after %s' % (g.dname, f.dname), x['via'])
    out.exits = out.facts['ran']
    return out

def calls_malloc(w, f):
    return any(n and 'malloc' in n for g in {f} | c15.closure(w, f) for i, n, t in w.eff.callees(g))

def check(r):
    r.rule = ('null and definite-initialisation analysis of every entry point with every call below it failing or succeeding, and of every method in every state a successful opening '
              'or registration ends in, with nothing stored yet in the handle; every method table is complete.')
    w = W['default'] = r.world('default')
    W['slots'] = [(o, n) for o, n in w.fn('evfs_register').tu.di_fields('%struct.Evfs') if n.startswith('m_')]
    W['plain'] = r.world('plain')
    jobs = [('plain', 'call', slotfn(f), None) for f in W['plain'].entries() if f.tu.name in W['plain'].vfs_slots and calls_malloc(W['plain'], f) and 'rotate' not in f.tu.name]
    r.count('entries without shared buffers', len(jobs))
    jobs += [('default', 'call', slotfn(f), None) for f in w.entries() if not f.tu.name.endswith(BOUND)]
    for tu in w.backend_tus():
        sl = w.slots_of(tu)
        for kind, op, tk in (('file', 'm_open', 'EvfsFileMethods'), ('dir', 'm_open_dir', 'EvfsDirMethods')):
            f = sl.get(op)
            for d in w.tables_of(tu, tk) or [{}]:
                for k, g in sorted(d.items()):
                    r.obligations += 1
                    if g is None:
                        r.violation('%s:%s.%s' % (tu.split('/')[-1], tk, k), 'no-method', 'null', '%s: the %s of its files has no %s: calling it goes through a null pointer' % (tu, tk, k))
                    else:
                        r.discharged += 1
                if f is not None:
                    jobs.append(('default', kind, slotfn(f), tuple(sorted(slotfn(g) for g in d.values() if g is not None))))
                    r.count('handle kinds')
    for f in w.registers:
        sl = w.slots_of(f.tu.name)
        jobs.append(('default', 'register', slotfn(f), tuple(sorted(slotfn(g) for k, g in sl.items()))))
        r.count('registrations')
    for o in pool(job, sorted(jobs, key=lambda j: (j[1] == 'call', 'rotate' not in j[2][0] and 'romfs' not in j[2][0] and 'path' not in j[2][1], str(j)))):
        cfg, kind, key, via = o.job
        f = next(x for x in w.funcs if slotfn(x) == key)
        lab = label(w, f)
        if o.incomplete:
            r.incomplete.append('%s: %s' % (lab, o.incomplete))
            continue
        r.obligations += o.exits
        if not o.diags:
            r.discharged += o.exits
        if kind == 'call':
            r.count('entries')
            r.count('paths', o.exits)
        else:
            r.count('histories', o.exits)
            r.sample('%s: %d states, %d methods followed' % (f.dname, o.facts['states'], o.facts['ran']))
            if o.facts.get('skipped'):
                r.notes.append('%s: %d methods not followed' % (f.dname, o.facts['skipped']))
        for k, file, func, detail, line, entry, v in sorted(set(o.diags)):
            r.violation(lab, k, '%s %s' % (func, detail), '%s:%d in %s: %s\nentry %s, call path %s' % (file, line, func, detail, entry, ' > '.join(v)))
    r.need('handle kinds', 14)
    r.need('registrations', 8)
    r.need('histories', 100)
