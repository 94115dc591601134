"""A path or name that does not fit is an error, and is never used cut short."""
from suite import *
from labels import label
import contracts
from props.c14 import success, failures, internal
from engine import syms

add_root = contracts.add_root
ASSUME = ['memory the library allocates for a text has the size of that text: how it is computed is not judged here',
          'the append functions of util/range_strings report with a negative result that a text did not fit']
APPEND = {n: n.endswith(('_no_nul', 'fmt', 'vfmt')) for n in ('range_cat_str', 'range_cat_str_no_nul', 'range_cat_range', 'range_cat_range_no_nul', 'range_cat_char', 'range_cat_char_no_nul',
          'range_copy_str', 'range_cat_fmt', 'range_cat_vfmt', 'range_cat_uint', 'range_cat_int')}
LCPY = ('strlcpy', 'strlcat', 'evfs_strlcpy', 'bsd_strlcpy')
USES = ('m_open', 'm_stat', 'm_delete', 'm_rename', 'm_make_dir', 'm_open_dir', 'm_set_cur_dir')
W = {}

class Cut:
    """every append to a text of limited size either fits or leaves the text cut short"""
    def __init__(self):
        self.total = 0
        self.allocated = set()

    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        if name not in APPEND or not args or args[0].op in ('undef', 'uninit', 'c') or any(x[0].dname in APPEND for x in eng.stack):
            return None
        m = eng.models
        d = eng.load(st, args[0], ('ptr',), fn.tu, ins, ctx)
        if d.op in ('undef', 'uninit', 'c'):
            return None
        if name == 'range_copy_str' and st.const_of(args[2]) == 1:
            return None
        src = args[1] if len(args) > 1 else ZERO
        if name.startswith('range_cat_range') and src.op not in ('undef', 'uninit', 'c'):
            src = eng.load(st, src, ('ptr',), fn.tu, ins, ctx)
        end = eng.load(st, add_root(args[0], 8), ('ptr',), fn.tu, ins, ctx)
        own = any(root(x).op == 'obj' and root(x).a[0] == 'heap' for x in (d, end))
        if own and args[0].op == 'obj' and args[0].a[0] == 'alloca':
            self.allocated.add(args[0])     # a local range; going round a loop it loses where it started
        own = own or args[0] in self.allocated
        m.fill(st, d, None, ('app', ctx, ins.uid))
        if not name.startswith('range_copy'):
            eng.store(st, args[0], moved(d, m.fresh('appn', ctx, ins, rng=(0, 2 ** 30))), ins)
        self.total += 1
        good = m.fresh('app', ctx, ins, rng=(0, 2 ** 30))
        if own:
            return [(good, st)]
        bad = m.fresh('appf', ctx, ins, rng=(-2 ** 30, -1))
        return m.fork(st, (bad, lambda s: self.failed(s, eng.stack[-1][0].dname, root(d))), (good, None))

    def failed(self, st, where, text):
        st.x['failed'] = tuple(sorted(set(st.x.get('failed', ())) | {where}))
        if text is not None and text not in st.x.get('cut', ()):
            st.x['cut'] = st.x.get('cut', ()) + (text,)

    def pathfail(self, eng, st, name, args, ins):
        if name not in ('evfs_vfs_path_absolute', 'evfs_vfs_path_normalize', 'evfs_vfs_path_join'):
            return          # the others deliver no text; how the rotating log joins its chunk paths is not judged
        b = st.mem.get(args[contracts.PATHAPI[name]])
        self.failed(st, name, root(b) if isinstance(b, T) and b.op not in ('c', 'undef', 'uninit') else None)

    def hostdone(self, eng, st, name, args, ret, ins):
        if name == 'getcwd' and ret is ZERO or name == 'f_getcwd' and ret is not ZERO:
            self.failed(st, name, root(args[0]))

    def icall(self, eng, st, ins, fv, slot, args, ctx, fn):
        if slot is not None and slot[0] == 'Evfs' and slot[1] in USES:
            for b in st.x.get('cut', ()):
                if any(root(a) is b for a in args[1:]):
                    eng.report('used-cut', 'hands a text to %s that %s may have cut short' % (slot[1], st.x['failed'][0]), st)
        return None

def moved(d, n):
    v = add(d, n)
    if v.op == 'lin' and v.root is None:
        v.root = root(d)
    return v

def job(key):
    w = W['w']
    f = next(x for x in w.funcs if slotfn(x) == key)
    out = Out(key)
    n = [0]
    h = []
    keep = [True]
    def build(p):
        h[:] = [Cut()]
        e, m = make(w, h, modular=True)
        m.track_io = True
        e.keep_flags = keep[0]
        m.io_ignore = ALL
        args = api_args(w, f)
        bind_self(w, m, f, args)
        return e, m, args, State()
    def judge(e, m, exits):
        n[0] = 0
        for ret, st in exits:
            if f.rty[0] == 'i' and ret is not None:
                for where in st.x.get('failed', ()):
                    n[0] += 1
                    if success(w, f, st, ret, e) or (ret.op == 's' and st.rng(ret)[0] < 0 <= st.rng(ret)[1]):
                        out.diag('cut', f.tu.name, f.dname, 'succeeds with a text that did not fit in %s' % where, f.line, f.dname)
            for r, (what, where, asked) in st.io.items():
                n[0] += 1
                if ret is None or f.rty[0] != 'i' or ret is r:
                    continue
                for s, how in failures(f, st, r, what, asked):
                    if success(w, f, s, ret, e):
                        out.diag('cut', f.tu.name, f.dname, 'succeeds with a text that did not fit in %s' % where, f.line, f.dname)
    run_entry(w, f, out, build, judge, precs=(2, 0), kinds={'used-cut'}, deadline=120)
    if out.incomplete:
        keep[0] = False
        run_entry(w, f, out, build, judge, precs=(2, 0), kinds={'used-cut'}, deadline=120)
    out.facts['n'] = h[0].total + n[0]
    return out

class Everything:
    def __contains__(self, x):
        return x != 'get_cur_dir'
ALL = Everything()

def check(r):
    r.rule = ('at every exit of every operation: no append to a buffer of fixed size or given by the caller can have failed while the result says that the operation worked; '
              'at every call of a filesystem method: the text it is handed has been found to fit.')
    w = W['w'] = r.world('default')
    hide = internal(w)
    jobs = []
    for f in w.entries():
        if f.tu.name.endswith(('range_strings.c', 'dhash.c', 'getopt_r.c', 'glob.c', 'intmath.c', 'search.c')) or (f not in w.roles and f.dname in hide):
            continue
        if reaches(w, f):
            jobs.append(slotfn(f))
    for o in pool(job, sorted(jobs, key=lambda j: ('path' not in j[1], str(j)))):
        f = next(x for x in w.funcs if slotfn(x) == o.job)
        lab = label(w, f)
        if o.incomplete:
            r.incomplete.append('%s: %s' % (lab, o.incomplete))
            continue
        k = o.facts.get('n', 0) + 1
        r.obligations += k
        if not o.diags:
            r.discharged += k
        r.count('operations')
        r.count('appends on paths', o.facts.get('n', 0))
        if o.facts.get('n'):
            r.sample('%s: %d appends on %d paths' % (lab, o.facts['n'], o.exits))
        if o.secs > 10:
            r.notes.append('%s took %.0f s' % (lab, o.secs))
        for k, file, func, detail, line, entry, via in sorted(set(o.diags)):
            r.violation(lab, k, detail, '%s:%d %s: %s' % (file, line, func, detail))
    r.need('appends on paths', 20)

def reaches(w, f, seen=None):
    """does f, or a function of the library it calls, append to a text?"""
    seen = seen if seen is not None else set()
    for i, n, t in w.eff.callees(f):
        if n in APPEND or n in ('getcwd', 'f_getcwd') or n in contracts.PATHAPI:
            return True
        if t is not None and t not in seen:
            seen.add(t)
            if reaches(w, t, seen):
                return True
    return False
