"""What threads share is used only under its lock."""
from suite import *
from labels import label
import contracts
import props.c16 as c16

ASSUME = ['filesystems are configured, and their current directory set, before several threads use them',
          'one handle is used by one thread at a time; the host libraries serialise themselves']
W = {}
REG = 'src/evfs.c'
LOCKS = ('pthread_mutex_t', 'mtx_t', 'EvfsLock')
ORDINARY_NOT = ('m_vfs_ctrl', 'm_set_cur_dir')

def structs(w):
    """structure -> (offset of its lock or None, [(offset, field)], size)"""
    out = {}
    for tu in w.tus:
        for n in tu.structs:
            fl = tu.di_fields(n)
            t = tu.resolve(('s', n))
            if not fl or t[0] != 'anon':
                continue
            lock = [tu.field_off(t, k)[0] for k, x in enumerate(t[1]) if x[0] == 's' and re_struct(x[1]) in LOCKS]
            out[(tu.name, n)] = (lock[0] if lock else None, fl, tu.sizeof(t))
    return out

class Watch:
    def __init__(self, w, f):
        self.w, self.f = w, f
        self.inst = {}          # root -> {offset: structure}
        self.acc = set()
        self.reg = set()
        self.io = set()
        self.own = set()        # structures a filesystem keeps its own state in
        self.added = set()

    # ---- which object is of which structure
    def typed(self, eng, base, tu, name):
        k = (tu.name, name)
        r, off = off_of(base)
        if k not in W['structs'] or off is None or r.op == 'obj' and r.a[0] in ('alloca', 'heap', 'glob'):
            return
        self.inst.setdefault(r, {})[off] = k
        if off == 0 and eng.slotname.get(r) == ('Evfs', 'fs_data'):
            self.own.add(k)

    def find(self, a):
        """the known structures around an address, innermost first, each with the field the address is in"""
        r, off = off_of(a)
        out = []
        for o, k in sorted(self.inst.get(r, {}).items(), reverse=True):
            d = o if off is None else off
            if o <= d < o + W['structs'][k][2]:
                fld = [x for x in W['structs'][k][1] if x[0] <= d - o]
                out.append((k, r, o, fld[-1][1] if fld else '?'))
        return out

    def held(self, st, r):
        return any(root(a) is r for a in st.locks)

    def where(self, eng):
        fn = eng.stack[-1][0]
        return fn.tu.name, fn.dname, eng.line

    def touch(self, eng, st, addr, write, how):
        if isinstance(addr, T) and addr.op not in ('c', 'undef', 'uninit'):
            for k, r, o, fld in self.find(addr):
                lock = W['structs'][k][0]
                if lock is not None and off_of(addr)[1] == o + lock:
                    return
                self.acc.add((k, fld, write, self.held(st, r), how) + self.where(eng))

    def access(self, eng, st, addr, r, ins, is_store):
        self.touch(eng, st, addr, is_store, 'writes' if is_store else 'reads')
        self.registry(eng, st, addr, is_store)

    def store(self, eng, st, addr, v, ins):
        if addr is W['head'] and v.op == 's' and v.a[0] == 'arg':
            self.added.add((bool(st.x.get('look')), st.x.get('cmp', 0)) + self.where(eng))

    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        if name in COMPARE and fn.tu.name == REG:
            st.x['cmp'] = st.x.get('cmp', 0) | (3 if self.reglocked(st) else 1)
        if tgt is None and not hasattr(eng.models, 'c_' + name) and not name.startswith('llvm.'):
            self.passed(eng, st, args, True)
        return None

    def icall(self, eng, st, ins, fv, slot, args, ctx, fn):
        if slot and slot[0] in ('Evfs', 'EvfsFileMethods', 'EvfsDirMethods'):
            self.passed(eng, st, args[1:], False)
        if slot and slot[0] == 'EvfsFileMethods' and args:
            self.shared_io(eng, st, slot[1], args[0])
        return None

    def pathcall(self, eng, st, name, args, ins):
        out = contracts.PATHAPI[name]
        for k, a in enumerate(args):
            self.passed(eng, st, [a], k == out)

    def passed(self, eng, st, args, write):
        for a in args:
            if isinstance(a, T) and a.op not in ('c', 'undef', 'uninit'):
                r, off = off_of(a)
                if r.op == 'obj' and r.a[0] == 'alloca':
                    a = st.mem.get(a)           # a range: what it refers to is passed on
                self.touch(eng, st, a, write, 'passes on')

    # ---- the registry
    def reglocked(self, st):
        return any(root(a).op == 'obj' and root(a).a[0] == 'glob' for a in st.locks)

    def registry(self, eng, st, addr, write):
        r, off = off_of(addr)
        what = None
        if r is W['head'] or r is W['dflt']:
            what = r.a[2]
            if r is W['head'] and self.reglocked(st):
                st.x['look'] = 1
        elif off is not None:
            g = self.find(addr)
            if g and g[0][0] == (REG, W['evfs']) and eng.stack[-1][0].tu.name == REG and (g[0][3] == 'next' or write):
                what = g[0][3]
        if what:
            self.reg.add((what, write, self.reglocked(st)) + self.where(eng))

    # ---- a file several operations read from
    def shared_io(self, eng, st, m, h):
        g = self.find(h.a[0]) if h.op == 'init' else None
        if not g or m not in ('m_seek', 'm_read', 'm_write', 'm_truncate'):
            return
        held = self.held(st, g[0][1])
        pos = st.x.get('pos', frozenset())
        for k, r, o, fld in g:
            self.io.add((k, fld, m, held, m == 'm_seek' or h in pos) + self.where(eng))
        st.x['pos'] = pos | {h} if m == 'm_seek' and held else pos - {h}

    def unlocked(self, eng, st, a):
        for k in ('pos', 'look'):
            st.x.pop(k, None)
        if st.x.get('cmp'):
            st.x['cmp'] = 1

COMPARE = ('strcmp', 'strncmp', 'strcasecmp', 'memcmp')

def visit(f, w, level, fallback=()):
    data = {}
    out = Out(None)
    def build(p):
        h = data['h'] = Watch(w, f)
        e, m = make(w, [h])
        m.accesses = True
        m.inline = {g.dname for g in w.funcs if g.tu.name == REG}
        e.typed = lambda b, tu, n: h.typed(e, b, tu, n)
        args = api_args(w, f)
        bind_self(w, m, f, args)
        return e, m, args, State()
    for p in (level,) + tuple(fallback):
        run_entry(w, f, out, build, lambda e, m, ex: None, precs=(p,), kinds=(), deadline=200)
        if not out.incomplete:
            break
    return out, data['h']

def use(cfg):
    for k in ('structs', 'head', 'dflt', 'evfs'):
        W[k] = W[k, cfg]
    return W['worlds'][cfg]

def job(j):
    cfg, key, level = j
    w = use(cfg)
    f = next(x for x in w.funcs if slotfn(x) == key)
    out, h = visit(f, w, level, (3,) if level else ())
    out.job = j
    out.data = (h.acc, h.reg, h.io, h.own, h.added)
    return out

def judge(w, f, data, scratch, own):
    """{(kind, detail): (file, function, line)}"""
    acc, reg, io, _, added = data
    out = {}
    n = 0
    for k, fld, write, held, how, file, fn, line in acc:
        if (k, fld) in scratch:
            n += 1
            if not held:
                out['unlocked', 'uses %s.%s, which other threads use too, without a lock' % (re_struct(k[1]), fld)] = file, fn, line
    for what, write, held, file, fn, line in reg:
        n += 1
        if not held:
            out['unlocked', '%s the registry (%s) without its lock' % ('changes' if write else 'reads', what.lstrip('@'))] = file, fn, line
    for k, fld, m, held, placed, file, fn, line in io:
        if k not in own:
            continue
        n += 1
        if not held:
            out['shared file', '%s on a file in %s.%s, which other threads use, without the lock' % (m[2:], re_struct(k[1]), fld)] = file, fn, line
        elif not placed:
            out['shared file', '%s on a file in %s.%s not positioned since the lock was taken' % (m[2:], re_struct(k[1]), fld)] = file, fn, line
    for look, cmp, file, fn, line in added:
        n += 1
        if not look or cmp == 1:
            out['stale look', 'enters a filesystem in the registry on what was seen there before the lock was taken'] = file, fn, line
    return out, n

def ordinary(w, f):
    return not any(fld in ORDINARY_NOT for s, fld in w.roles.get(f, ()))

def check(r):
    r.rule = ('lockset: what an ordinary operation writes in the state of a filesystem, every access to it has that object\'s lock held; a file kept in such state is positioned and read in one '
              'lock hold; the registry is reached with its lock held and entered in the hold that looked it through.')
    W['worlds'] = {}
    cfgs = ['pthread', 'plain-pthread'] + (['c11'] if r.tier == 'thorough' else [])
    jobs = []
    for cfg in cfgs:
        w = W['worlds'][cfg] = r.world(cfg)
        W['structs', cfg] = structs(w)
        reg = w.fn('evfs_register')
        W['evfs', cfg] = next(n for n in reg.tu.structs if re_struct(n) == 'Evfs')
        c16.setup(w)
        W['head', cfg], W['dflt', cfg] = c16.W['head'], c16.W['dflt']
        for f in w.entries():
            if cfg == 'plain-pthread' and f.tu.name not in w.vfs_slots:
                continue
            ro = w.roles.get(f, ())
            if any(s in ('Evfs', 'EvfsFileMethods', 'EvfsDirMethods') for s, _ in ro) or not f.internal and f.tu.name == REG:
                jobs.append((cfg, slotfn(f), 2))
    data = {}
    for o in pool(job, sorted(jobs, key=lambda j: ('rotate' not in j[1][0], str(j)))):
        if o.incomplete:
            r.incomplete.append('%s %s: %s' % (o.job[0], o.job[1][1], o.incomplete))
            continue
        data[o.job[:2]] = o.data
        r.count('paths', o.exits)
    for cfg in cfgs:
        w = use(cfg)
        own = {k for k, v in W['structs'].items() if v[0] is not None}
        for (c, key), d in data.items():
            if c == cfg:
                own |= d[3]
        fns = {slotfn(f): f for f in w.funcs}
        scratch = {(k, fld) for (c, key), d in data.items() if c == cfg and ordinary(w, fns[key])
                   for k, fld, write, held, how, *_ in d[0] if write and k in own}
        r.sample('%s: %s' % (cfg, ', '.join(sorted('%s.%s' % (re_struct(k[1]), f) for k, f in scratch))))
        r.count('shared fields', len(scratch))
        r.count('structures with a lock', len([1 for v in W['structs'].values() if v[0] is not None]))
        bad = {}
        for (c, key), d in sorted(data.items()):
            if c == cfg:
                b, n = judge(w, fns[key], d, scratch, own)
                r.obligations += n
                r.discharged += n - len(b)
                if b:
                    bad[key] = b
        if not bad:
            continue
        confirm = {}
        for o in pool(job, [(cfg, key, 0) for key in sorted(bad)]):
            confirm[o.job[1]] = None if o.incomplete else judge(w, fns[o.job[1]], o.data, scratch, own)[0]
        for key, b in sorted(bad.items()):
            for (kind, detail), (file, fn, line) in sorted(b.items()):
                if confirm.get(key) is None or (kind, detail) in confirm[key]:
                    r.violation(label(w, fns[key]), kind, detail, '%s:%d in %s: %s\nentry %s (configuration %s)' % (file, line, fn, detail, key[1], cfg))
    r.need('shared fields', 5)
    r.need('structures with a lock', 5)
