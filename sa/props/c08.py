"""Every path a jail passes on lies behind its root."""
from suite import *
from trace import Rec, evstr, same
from labels import label
from props.c04 import PATHARG, shims, derived

ASSUME = ['the text evfs_vfs_path_absolute produces is its own matter (not decided here)',
          'the jail is the shim that keeps a root directory converted at its registration']
add_root = contracts.add_root
TEXT = {'range_cat_str': (0, 1), 'range_cat_str_no_nul': (0, 1), 'range_cat_range': (0, 1), 'range_copy_str': (0, 1), 'range_cat_fmt': (0, None), 'range_cat_vfmt': (0, None), 'range_cat_char': (0, None), 'range_cat_char_no_nul': (0, None)}

def add_root_t(p, t):
    v = add(p, t)
    if v.op == 'lin' and v.root is None:
        v.root = root(p)
    return v

class H(Rec):
    """text written into buffers, in order, besides the virtual calls"""
    def text(self, st, d, s):
        st.ev = st.ev + (('text', 'text', ZERO, d, s),)
    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        if name in TEXT and not any(x[0].dname in TEXT for x in eng.stack):
            d = eng.load(st, args[0], ('ptr',), fn.tu, ins, ctx) if args[0].op not in ('undef', 'uninit', 'c') else ZERO
            k = TEXT[name][1]
            s = args[k] if k is not None else ZERO
            if name == 'range_cat_range':
                s = eng.load(st, s, ('ptr',), fn.tu, ins, ctx) if s.op not in ('undef', 'uninit', 'c') else ZERO
            self.text(st, d, s)
            if name.startswith('range_cat') and d.op not in ('c', 'undef', 'uninit'):
                # appends: the start of the range moves on by what was added
                n = eng.sym('cat', ctx + (ins.uid,), ins.uid, rng=(0, 2 ** 31 - 1))
                eng.store(st, args[0], add_root_t(d, n), ins)
                return [(eng.sym('catst', ctx + (ins.uid,), ins.uid), st)]
        return Rec.call(self, eng, st, ins, name, tgt, args, ctx, fn)
    def copy(self, eng, st, d, s, n, ins):
        if not any(x[0].dname in TEXT for x in eng.stack) and st.const_of(n) not in (8, 16, 24):
            self.text(st, d, s)
    def strcopy(self, eng, st, d, s, ins):
        self.text(st, d, s)
    def pathok(self, eng, st, name, args, ins):
        k = contracts.PATHAPI[name]
        out = st.mem.get(args[k], ZERO)
        st.ev = st.ev + (('path', name, ONE, args[0], args[1], out, args[k]),)
    def pathfail(self, eng, st, name, args, ins):
        st.ev = st.ev + (('path', name, ZERO, args[0], args[1], ZERO, args[contracts.PATHAPI[name]]),)

def writers(w, memo={}):
    """functions of the library that put text into a buffer"""
    if id(w) not in memo:
        fs = [f for f in w.funcs if f.dname not in TEXT and not f.tu.name.endswith('range_strings.c')]
        out = set()
        while True:
            new = {f.dname for f in fs if f.dname not in out and any(n in TEXT or (t is not None and t.dname in out) for i, n, t in w.eff.callees(f))}
            if not new:
                break
            out |= new
        memo[id(w)] = out
    return memo[id(w)]

def run(w, f, args, st=None, calls=(), skip=('m_path_root_component',)):
    h = H(calls=calls, skip=skip, free=False)
    e, m = make(w, [h], opaque=True)
    m.modular = True
    m.inline = writers(w)
    e.PRECISION = 0
    e.SCALE = 8
    e.step_limit = 800000
    return e, e.run(f, args, st or State())

def within(buf, p):
    """p points into the buffer starting at buf"""
    if p is buf:
        return True
    return root(p) is root(buf)

def check(r):
    r.rule = ('on every path of every jail operation that takes a path: the text handed to the wrapped filesystem is a buffer that first received the jail\'s root and then, '
              'behind it, the caller\'s path converted successfully against the jail itself; after a failed conversion nothing is passed on and an error is returned. '
              'A jail is only registered with a root that was converted successfully against the wrapped filesystem.')
    w = r.world('default')
    found = 0
    for tu in shims(w):
        for f in w.registers:
            if f.tu.name == tu:
                off = registration(r, w, f)
                if off is None:
                    continue
                found += 1
                operations(r, w, tu, off)
    if not found:
        raise Broken('no filesystem keeps a converted root directory')
    r.need('operations', 6)
    r.need('paths passed on', 7)

def registration(r, w, f):
    """offset, in the filesystem's data, of the pointer to its root; None when it keeps none"""
    args = api_args(w, f)
    try:
        e, ex = run(w, f, args)
    except Incomplete as x:
        r.incomplete.append('%s: %s' % (label(w, f), x))
        return None
    used = any(x[0] == 'path' and x[1] == 'evfs_vfs_path_absolute' and x[4] in args for ret, st in ex for x in st.ev)
    if not used:
        return None
    fsd = None
    for tuu in w.tus:
        for k in tuu.structs:
            if re_struct(k) == 'Evfs_s' or re_struct(k) == 'Evfs':
                for o, n in tuu.di_fields(k) or ():
                    if n == 'fs_data':
                        fsd = o
    offs = set()
    for ret, st in ex:
        conv = [x for x in st.ev if x[0] == 'path' and x[4] in args]
        obj = st.x.get('registered')
        r.obl()
        def bad(kind, detail):
            r.discharged -= 1
            r.violation(label(w, f), kind, detail, '%s:%d %s: %s' % (f.tu.name, f.line, f.dname, detail))
        if any(x[2] is ZERO for x in conv):
            if obj is not None or st.rng(ret)[1] >= 0:
                bad('root-unconverted', 'goes on with a root directory that could not be converted')
            continue
        if obj is None:
            continue
        if not conv:
            bad('root-unconverted', 'registers with a root directory that was not converted')
            continue
        r.count('registrations')
        data = st.mem.get(add_root(obj, fsd))
        if data is None:
            raise Broken('%s: private data not found' % f.dname)
        base = None
        for x in st.ev:
            if x[0] == 'path' and x[4] in args:
                src, vfs = x[5], x[3]
                # converted against the wrapped filesystem
                kept = [k for k, v in st.mem.items() if v is vfs and k.op in ('lin', 'obj') and within(data, k)]
                if not kept:
                    bad('root-other-fs', 'converts the root directory against another filesystem than it wraps')
                for y in st.ev:
                    if y[0] == 'text' and within(src, y[4]) and not within(src, y[3]):
                        for k, v in st.mem.items():
                            if v is y[3] or (isinstance(v, T) and v.op not in ('undef', 'uninit', 'agg') and same(st, v, y[3])):
                                d = sub(k, data) if k.op in ('lin', 'obj', 'init', 's') else None
                                if d is not None and d.op == 'c':
                                    offs.add(d.a[0])
    if len(offs) != 1:
        if any(st.x.get('registered') is not None for ret, st in ex):
            r.violation(label(w, f), 'root-lost', 'does not keep the converted root', '%s:%d %s does not keep the converted root directory with the filesystem it registers' % (f.tu.name, f.line, f.dname))
        return None
    r.sample('%s keeps its root at offset %d of its data' % (label(w, f), min(offs)))
    return (fsd, offs.pop())

def operations(r, w, tu, where):
    fsd, off = where
    for slot, f in sorted(w.slots_of(tu).items()):
        if slot not in PATHARG:
            continue
        lab = label(w, f)
        args = arg_syms(f)
        rootp = mk('init', add_root(mk('init', add_root(args[0], fsd)), off))
        try:
            e, ex = run(w, f, args)
        except Incomplete as x:
            r.incomplete.append('%s: %s' % (lab, x))
            continue
        r.count('operations')
        for ret, st in ex:
            r.obl()
            def bad(kind, detail):
                r.discharged -= 1
                r.violation(lab, kind, detail, '%s:%d %s: %s; events on this path: %s' % (f.tu.name, f.line, f.dname, detail, '; '.join(evstr(x) for x in st.ev) or 'none'))
            ops = [x for x in st.ev if x[0] == 'v' and x[1] == 'Evfs.' + slot]
            failed = [x for x in st.ev if x[0] == 'path' and x[2] is ZERO]
            if failed and ops:
                bad('passed-on', 'passes a path on although it could not be converted')
                continue
            if failed and st.rng(ret)[1] >= 0:
                bad('no-error', 'reports success although a path could not be converted')
                continue
            fine = True
            for x in ops:
                i = st.ev.index(x)
                for k in PATHARG[slot]:
                    p = x[3 + k]
                    why = buffer(st, st.ev[:i], p, args, k, rootp)
                    if why and fine:
                        fine = False
                        bad(*why)
                    if not why:
                        r.count('paths passed on')

def buffer(st, ev, p, args, k, rootp):
    if any(p is a for a in args):
        return 'raw-path', 'passes the caller\'s own path on'
    conv = [n for n, x in enumerate(ev) if x[0] == 'path' and x[1] == 'evfs_vfs_path_absolute' and (x[5] is not ZERO) and close(p, x[5])]
    if not conv:
        return 'unconverted', 'passes a path on that was not converted'
    c = ev[conv[-1]]
    if c[4] is not args[k]:
        return 'other-path', 'converts another path than the caller\'s for this argument'
    if c[3] is not args[0]:
        return 'other-fs', 'converts the path against another filesystem than the jail'
    if same(st, c[5], p):
        return 'no-root', 'the converted path is not behind the jail\'s root'
    text = [(n, x) for n, x in enumerate(ev) if x[0] == 'text' and close(p, x[3])]
    start = [n for n, x in text if same(st, x[3], p) and n < conv[-1]]
    if not start or not same(st, ev[start[-1]][4], rootp):
        return 'no-root', 'the path passed on does not start with the jail\'s root'
    for n, x in text:
        if n > conv[-1] and not close(p, x[4]):
            return 'overwritten', 'writes other text into the path after converting it'
    return None

def close(p, q):
    """q lies in the buffer at p (the buffers of one object are told apart by constant distance)"""
    if q.op in ('c', 'undef', 'uninit'):
        return False
    if root(p) is not root(q):
        return False
    d = sub(q, p)
    if d.op == 'c':
        return 0 <= d.a[0] < 256
    return True
