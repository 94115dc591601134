"""The registry holds exactly the filesystems that were registered, and one of them is the default."""
from suite import *
import itertools

ASSUME = ['lists of up to five registered filesystems stand for longer ones (eight in the thorough tier)',
          'a filesystem does not call the registry while it is being unregistered']
W = {}
FILE = 'src/evfs.c'

def node(n):
    return mk('obj', 'heap', (), ('vfs', n), 'vfs%s' % n)

def name(c, n):
    return mk('obj', 'glob', 'name', c, n)

class Hook:
    """names are equal when they are of the same class; filesystems record what they are told and go away when unregistered"""
    def call(self, eng, st, ins, fname, tgt, args, ctx, fn):
        if fname in ('strcmp', 'strncmp', 'memcmp') and len(args) >= 2:
            a, b = args[0], args[1]
            if a.op == 'obj' and b.op == 'obj' and a.a[1] == 'name' and b.a[1] == 'name':
                if a.a[2] == b.a[2]:
                    return [(ZERO, st)]
                r = eng.models.fresh('cmp', ctx, ins)
                if fname == 'strcmp':
                    st.exclude(r, 0)
                return [(r, st)]
        return None

    def icall(self, eng, st, ins, fv, slot, args, ctx, fn):
        v = root(args[0]) if args else None
        if v is not None and v.op == 'obj' and isinstance(v.a[2], tuple) and v.a[2][0] == 'vfs':
            k = [i for i, f in W['slots'].items() if fv is mk('obj', 'glob', 'method', i, v)]
            st.ev = st.ev + (('told', k[0] if k else '?', args[0]) + tuple(args[1:2]),)
            if k == ['m_vfs_ctrl'] and st.const_of(args[1]) == W['unreg']:
                st.heap[v] = 'freed'
            return [(eng.models.fresh('told', ctx, ins), st)]
        return None

def shape(n, default, extra=None):
    """a registry of n filesystems, the default being number `default`; extra: (number, name class) of one that is not in it"""
    st = State()
    o = W['off']
    def cell(v, f):
        return v if not o[f] else add_root(v, o[f])
    vs = [node(k) for k in range(n)]
    for k, v in enumerate(vs):
        st.mem[cell(v, 'next')] = vs[k + 1] if k + 1 < n else ZERO
    allv = [(v, k) for k, v in enumerate(vs)]
    if extra is not None:
        v = node('new')
        allv.append((v, extra))
        st.mem[cell(v, 'next')] = ZERO
    for v, c in allv:
        st.heap[v] = 'live'
        st.mem[cell(v, 'vfs_name')] = name(c, v.a[2][1])
        for f in W['slots']:
            st.mem[cell(v, f)] = mk('obj', 'glob', 'method', f, v)
    st.mem[W['head']] = vs[0] if n else ZERO
    st.mem[W['dflt']] = vs[default] if n else ZERO
    return st, vs, cell

def add_root(v, k):
    a = add(v, C(k))
    if a.op == 'lin' and a.root is None:
        a.root = v
    return a

def zero(st, v):
    return st.rng(v) == (0, 0)

def contents(st):
    """(registered filesystems in order, problem)"""
    out = []
    v = st.mem.get(W['head'], None)
    while v is not None and not zero(st, v):
        if v.op != 'obj':
            return out, 'holds something that is no filesystem (%s)' % show(v)
        if v in out:
            return out, 'runs in a circle'
        if st.heap.get(v) == 'freed':
            return out, 'holds a filesystem that has been told it is gone'
        out.append(v)
        v = st.mem.get(add_root(v, W['off']['next']) if W['off']['next'] else v)
    if v is None:
        return out, 'is lost'
    return out, None

def run1(w, f, args, st):
    for p in (0, 2):
        e, m = make(w, [Hook()], opaque=False)
        m.inline_all = True
        e.PRECISION = p
        e.unroll = 20
        e.deadline = time.time() + 60
        e.step_limit = 2000000
        try:
            return e, e.run(f, args, st)
        except Incomplete as x:
            why = str(x)
    raise Incomplete(why)

def judge(out, w, f, args, st, what, want):
    """want(state, result, contents, default) -> [complaint]"""
    before, _ = contents(st)
    e, ex = run1(w, f, args, st)
    n = 0
    if not ex:
        out.diag('no-answer', FILE, f.dname, 'does not return', f.line, f.dname, (what,))
    for d in e.diags.values():
        if d['kind'] in ('uaf', 'null', 'double-free'):
            out.diag(d['kind'], d['file'], f.dname, d['detail'], d['line'], f.dname, (what,))
    for ret, s in ex:
        n += 1
        now, bad = contents(s)
        if bad:
            out.diag('registry-broken', FILE, f.dname, 'the registry %s' % bad, f.line, f.dname, (what,))
            continue
        dv = s.mem.get(W['dflt'], ZERO)
        if zero(s, dv):
            dv = ZERO
        if dv is ZERO and now:
            out.diag('no-default', FILE, f.dname, 'no filesystem is the default though some are registered', f.line, f.dname, (what,))
        elif dv is not ZERO and dv not in now:
            out.diag('stale-default', FILE, f.dname, 'the default is a filesystem that is not registered', f.line, f.dname, (what,))
        else:
            for c in want(s, ret, now, dv):
                out.diag('registry', FILE, f.dname, c, f.line, f.dname, (what,))
    out.exits += n
    out.facts['n'] = out.facts.get('n', 0) + n

def told(s):
    return [(x[2], s.const_of(x[3])) if x[1] == 'm_vfs_ctrl' and len(x) > 3 else (x[2], x[1]) for x in s.ev if x[0] == 'told']

def job(j):
    cfg, op, n, d, who, md = j
    w = W['cfg ' + cfg]
    out = Out(j)
    out.facts['n'] = 0
    setup(w)
    show_ = '%d registered, default %d' % (n, d)
    if op == 'register':
        f = w.fn('evfs_register')
        # who: number of the registered one with the same name, 'self<k>' for a registered one itself, None for a new name
        if who is not None and who >= 10:
            st, vs, cell = shape(n, d)
            new, hit = vs[who - 10], vs[who - 10]
        else:
            st, vs, cell = shape(n, d, 'new' if who is None else who)
            new, hit = node('new'), None if who is None else vs[who]
        old = vs[d] if n else None
        def want(s, ret, now, dv):
            r = []
            if told(s):
                r.append('a filesystem is told something')
            if s.rng(ret)[1] < 0:
                if now != vs or dv is not (old or ZERO):
                    r.append('fails and changes the registry')
                return r
            if not (s.rng(ret) == (0, 0)):
                r.append('does not answer with EVFS_OK')
            if hit is not None:
                if now != vs:
                    r.append('changes the registry although the name is registered')
                if md and dv is not hit:
                    r.append('does not make the registered filesystem of that name the default')
                if not md and old is not hit and dv is not old:
                    r.append('changes the default')
                if not md and old is hit and n > 1 and dv is hit:
                    r.append('leaves a filesystem the default that should no longer be')
            else:
                if sorted(now, key=str) != sorted(vs + [new], key=str) or len(set(now)) != n + 1:
                    r.append('does not leave the registry with what it held and the new filesystem')
                if (md or not n) and dv is not new:
                    r.append('does not make the new filesystem the default')
                if not md and n and dv is not old:
                    r.append('changes the default')
            return r
        judge(out, w, f, [new, C(md)], st, '%s, %s, default wanted %d' % (show_, 'a new name' if hit is None else 'a registered name', md), want)
    elif op == 'methods':
        f = w.fn('evfs_register')
        st, vs, cell = shape(n, d, 'new')
        new = node('new')
        unset = W['optional'] if who is None else [W['optional'][who]]
        for x in unset:
            st.mem[cell(new, x)] = ZERO
        def want(s, ret, now, dv):
            if s.rng(ret)[1] < 0:
                return []
            r = []
            for x in sorted(W['slots']):
                v = s.mem.get(cell(new, x))
                if v is None or not (v.op == 'obj' or s.nonzero(v)):
                    r.append('%s stays without an implementation' % x)
                elif x not in unset and v is not mk('obj', 'glob', 'method', x, new):
                    r.append('%s is replaced though the filesystem has it' % x)
            return r
        judge(out, w, f, [new, C(md)], st, '%s, %s not provided' % (show_, ', '.join(unset)), want)
    elif op == 'unregister':
        f = w.fn('evfs_unregister')
        st, vs, cell = shape(n, d, 'new')
        v = node('new') if who is None else vs[who]
        def want(s, ret, now, dv):
            r = []
            if who is None:
                if now != vs or dv is not (vs[d] if n else ZERO) or told(s):
                    r.append('changes something for a filesystem that is not registered')
                if s.rng(ret)[1] >= 0:
                    r.append('does not report that the filesystem is not registered')
                return r
            if now != [x for x in vs if x is not v]:
                r.append('does not leave the registry with just the others')
            nx = s.mem.get(cell(v, 'next'), ZERO)
            if not zero(s, nx):
                r.append('leaves the filesystem linked to others')
            if told(s) != [(v, W['unreg'])]:
                r.append('does not tell just that filesystem, once, that it is unregistered')
            if s.rng(ret) != (0, 0):
                r.append('does not answer with EVFS_OK')
            if who != d and dv is not vs[d]:
                r.append('changes the default')
            return r
        judge(out, w, f, [v], st, '%s, %s' % (show_, 'one that is not' if who is None else 'number %d' % who), want)
    elif op == 'all':
        f = w.fn('evfs_unregister_all')
        st, vs, cell = shape(n, d)
        def want(s, ret, now, dv):
            r = []
            if now:
                r.append('leaves filesystems registered')
            if sorted(told(s), key=str) != sorted([(v, W['unreg']) for v in vs], key=str):
                r.append('does not tell every filesystem once that it is unregistered')
            return r
        judge(out, w, f, [], st, show_, want)
    elif op == 'find':
        f = w.fn('evfs_find_vfs')
        st, vs, cell = shape(n, d)
        def want(s, ret, now, dv):
            r = []
            if now != vs or dv is not (vs[d] if n else ZERO) or told(s):
                r.append('changes the registry')
            if who is None:
                if not zero(s, ret):
                    r.append('finds a filesystem for a name that is not registered')
            elif ret is not vs[who]:
                r.append('does not find the filesystem of that name')
            return r
        judge(out, w, f, [name('asked' if who is None else who, 'q')], st, '%s, %s' % (show_, 'an unknown name' if who is None else 'the name of number %d' % who), want)
    elif op == 'default':
        f = w.fn('evfs_default_vfs_name')
        st, vs, cell = shape(n, d)
        def want(s, ret, now, dv):
            r = []
            if now != vs or dv is not (vs[d] if n else ZERO) or told(s):
                r.append('changes the registry')
            if n and ret is not name(d, d):
                r.append('is not the name of the default filesystem')
            return r
        judge(out, w, f, [], st, show_, want)
    return out

def setup(w):
    if W.get('set') is w:
        return
    W['set'] = w
    tu = next(t for t in w.tus if t.name.endswith(FILE))
    st = next(k for k in tu.structs if re_struct(k) in ('Evfs', 'Evfs_s'))
    W['off'] = {n: o for o, n in tu.di_fields(st)}
    W['slots'] = {n: o for o, n in tu.di_fields(st) if n.startswith('m_')}
    W['optional'] = [n for n in W['slots'] if n not in ('m_open', 'm_stat')]
    def loads(f, seen):
        out = set()
        if f in seen:
            return out
        seen.add(f)
        for b in f.blocks.values():
            for i in b.instrs:
                if i.op == 'load' and i.ty == ('ptr',) and i.a[0][0] == 'g':
                    g = w.prog.glob(tu, i.a[0][1])
                    if g is not None and not g.external and not g.const:
                        out.add(i.a[0][1])
        for i, nm, t in w.eff.callees(f):
            if t is not None and t.tu is tu:
                out |= loads(t, seen)
        return out
    a = loads(w.fn('evfs_find_vfs'), set())
    b = loads(w.fn('evfs_default_vfs_name'), set()) - a
    if len(a) != 1 or len(b) != 1:
        raise Broken('the registry was not recognised (%s; %s)' % (sorted(a), sorted(b)))
    W['head'], W['dflt'] = [mk('obj', 'glob', tu.name, min(x)) for x in (a, b)]

def check(r):
    r.rule = ('each registry operation from every list of up to %d registered filesystems, every default among them, every position and both answers to "is the name registered": '
              'the list afterwards, the default, who was told what, and the answer are exactly what the operation stands for; no filesystem is touched after it was told it is gone; '
              'after registration every method has an implementation.' % (8 if r.tier == "thorough" else 5))
    jobs = []
    top = 8 if r.tier == "thorough" else 5
    for cfg in ('default', 'pthread'):
        w = W['cfg ' + cfg] = r.world(cfg)
        W['unreg'] = w.const('EVFS_CMD_UNREGISTER')
        setup(w)
        for fn in ('evfs_register', 'evfs_unregister', 'evfs_unregister_all', 'evfs_find_vfs', 'evfs_default_vfs_name'):
            if w.fn(fn) is None:
                raise Broken('%s not found' % fn)
        for n in range(top + 1):
            for d in range(max(n, 1)):
                for md in (0, 1):
                    for who in [None] + list(range(n)) + [10 + k for k in range(n)]:
                        jobs.append((cfg, 'register', n, d, who, md))
                for who in [None] + list(range(n)):
                    jobs.append((cfg, 'unregister', n, d, who, 0))
                    jobs.append((cfg, 'find', n, d, who, 0))
                jobs.append((cfg, 'all', n, d, None, 0))
                jobs.append((cfg, 'default', n, d, None, 0))
        for n in (0, 1):
            for who in [None] + list(range(len(W['optional']))):
                jobs.append((cfg, 'methods', n, 0, who, 0))
    for o in pool(job, jobs):
        if o.incomplete:
            if getattr(o, 'error', False):
                raise Broken(o.incomplete)
            r.incomplete.append('%s: %s' % (o.job, o.incomplete))
            continue
        r.count('shapes')
        r.count('outcomes', o.facts['n'])
        r.obligations += o.facts['n']
        if not o.diags:
            r.discharged += o.facts['n']
        for k, file, func, detail, line, entry, via in sorted(set(o.diags)):
            r.violation('%s:%s' % (FILE.split('/')[-1], func), k, detail, '%s:%d %s: %s (%s)' % (file, line, func, detail, ', '.join(via)))
    r.need('shapes', 100)
    r.need('outcomes', 100)
