"""No operation reports success when a storage operation it needed failed."""
from suite import *
from labels import label
import host, re

ASSUME = ['whether a path exists is asked with m_stat, so a failing m_stat is an answer there; methods and functions that are the stat operation itself have to report it',
          'syncing a file nothing was written to on the way, closing such a file that was opened there and closing a directory lose nothing when they fail (operations that are the sync itself have to report it)',
          'a filesystem that is being unregistered goes away whatever its methods answer']
PROBE = {'stat', 'dir_close', 'vfs_ctrl', 'close of an unwritten file', 'sync of an unwritten file'}
TEXT = {'close': 'closing a file', 'dir_read': 'reading a directory', 'open_dir': 'opening a directory', 'get_cur_dir': 'getting the current directory',
        'set_cur_dir': 'setting the current directory', 'make_dir': 'making a directory', 'fclose': 'closing a stream'}

def internal(world):
    """functions only the library's own headers declare"""
    import build_ir
    out = set()
    d = os.path.join(build_ir.REPO, 'src')
    for n in os.listdir(d):
        if n.endswith('.h'):
            out |= set(re.findall(r'\b(\w+)\s*\(', open(os.path.join(d, n), errors='replace').read()))
    return out

def success(w, f, st, ret, e=None):
    """does this result tell the caller that it worked?"""
    if ret is None:
        return False
    if f.rty == ('i', 1):
        return st.const_of(ret) == 1
    if e is not None and ret.op in ('cmp', 'not', 'band', 'bor'):
        for v in (True, False):
            s = st.copy()
            if e.assume(s, ret, v) is not False and success(w, f, s, C(int(v))):
                return True
        return False
    lo, hi = st.rng(ret)
    if f.dname.startswith('disk_'):
        return (lo, hi) == (0, 0)       # RES_OK; FatFs numbers its errors upwards
    if lo < 0 <= hi and ret.op == 's' and (ret.a[0] if ret.a[0] != 'old' else ret.a[2].a[0] if ret.a[2].op == 's' else 'join').startswith(('st_', 'n_', 'o_')):
        return host.outcomes(st, ret, 0, INF) is not None       # what another call of the storage said, whatever it was
    return lo >= 0

def failures(f, st, r, what, asked):
    s = host.outcomes(st, r, -INF, -1)
    if s is not None:
        yield s, 'failing'
    if what == 'write' and asked is not None and f.rty in (('i', 32), ('i', 1)):
        s = st.copy()
        if s.limit(sub(r, asked), -INF, -1) is not False and s.limit(r, 0, INF) is not False:
            a, b = s.rng(r)
            c, d = s.rng(asked)
            if a <= b and c <= d and a < d:
                yield s, 'storing only a part of the data'

W = {}

def indexless(st):
    """a Romfs that came out without an index: the index saves time, no more"""
    return not any(v.op == 'obj' and v.a[0] == 'fn' and v.a[3] in W['lookup'] - W['walk'] for v in st.mem.values())

def job(key):
    cfg, slot = key
    w = W[cfg]
    f = next(x for x in w.funcs if slotfn(x) == slot)
    out = Out(key)
    n = [0]
    unreg = W['unreg']
    statop = any(x[1] == 'm_stat' for x in w.roles.get(f, ())) or f.dname.startswith(('evfs_stat', 'evfs_vfs_stat'))
    syncop = any(x[1] == 'm_sync' for x in w.roles.get(f, ())) or 'sync' in f.dname or f.dname == 'disk_ioctl'
    def build(p):
        e, m = make(w, modular=True)
        m.track_io = True
        m.io_asked = f.rty in (('i', 32), ('i', 1))
        m.io_ignore = {x for x in PROBE if not (x == 'stat' and statop) and not (x.startswith('sync') and syncop)}
        args = api_args(w, f)
        bind_self(w, m, f, args)
        st = State()
        if ('Evfs', 'm_vfs_ctrl') in w.roles.get(f, ()):
            st.exclude(args[1], unreg)
        return e, m, args, st
    def judge(e, m, exits):
        n[0] = 0
        for ret, st in exits:
            if ret is None or f.rty[0] != 'i':
                continue
            for r, (what, where, asked) in st.io.items():
                if cfg == 'default' and what in ('read', 'seek') and ('Romfs', 'lookup_abs_path') not in w.roles.get(f, ()) and slot[0].endswith(('romfs_common.c', 'romfs_fs.c')) and f not in w.roles and indexless(st):
                    continue
                if what.startswith('sync of') and where == 'evfs_file_size':
                    continue
                n[0] += 1
                if ret is r:
                    continue        # handed to the caller as it is
                for s, how in failures(f, st, r, what, asked):
                    if success(w, f, s, ret, e):
                        out.diag('success-after-failure', f.tu.name, f.dname, '%s %s in %s is not reported' % (TEXT.get(what, what), how, where), f.line, f.dname)
    run_entry(w, f, out, build, judge, precs=(2, 0), kinds=set(), deadline=150)
    out.facts['n'] = n[0]
    return out

def check(r):
    r.rule = ('at every exit of every operation that returns a status, a count or a truth value: no storage operation performed on the way to it can have failed '
              '(or stored only a part of the data) while the result says that the operation worked.')
    jobs = []
    for cfg in ('noindex', 'default'):
        w = W[cfg] = r.world(cfg)
        hide = internal(w)
        W['lookup' if cfg == 'default' else 'walk'] = {f.dname for f in w.funcs if ('Romfs', 'lookup_abs_path') in w.roles.get(f, ())}
        # without its index Romfs reads no more than it has to
        jobs += [(cfg, slotfn(f)) for f in w.entries() if (cfg == 'default' or 'romfs' in f.tu.name) and 'dhash' not in f.tu.name and 'getopt' not in f.tu.name
                 and f.rty[0] == 'i' and not (f not in w.roles and f.dname in hide)]
    W['unreg'] = W['default'].const('EVFS_CMD_UNREGISTER')
    for o in pool(job, sorted(jobs, key=lambda j: ('rotate' not in j[1][1] and 'romfs' not in j[1][1], j))):
        w = W[o.job[0]]
        f = next(x for x in w.funcs if slotfn(x) == o.job[1])
        lab = label(w, f)
        if o.incomplete:
            r.incomplete.append('%s: %s' % (lab, o.incomplete))
        r.obligations += o.facts.get('n', 0) + 1
        if not o.diags:
            r.discharged += o.facts.get('n', 0) + 1
        r.count('operations')
        r.count('paths', o.exits)
        if o.secs > 10:
            r.notes.append('%s took %.0f s (level %s, %d steps)' % (lab, o.secs, o.prec, o.steps))
        for k, file, func, detail, line, entry, via in sorted(set(o.diags)):
            r.violation(lab, k, detail, '%s:%d %s: %s' % (file, line, func, detail))
    r.need('operations', 150)
