"""The current directory a filesystem keeps is one it found to exist."""
from suite import *
from trace import evstr, same
from labels import label
import props.c08 as c08

ASSUME = ['the text the path functions produce is not decided here; a filesystem that leaves its current directory to the host (stdio, FAT) is not covered']
add_root = contracts.add_root
CHECKS = {'evfs__vfs_existing_dir'}

class H(c08.H):
    cell = None
    def pathok(self, eng, st, name, args, ins):
        k = contracts.PATHAPI[name]
        ins_ = []
        for n, a in enumerate(args):
            if n == 0:
                continue
            if n == k:
                continue
            r = root(a)
            v = st.mem.get(a)
            ins_.append(v if name == 'evfs_vfs_path_join' and v is not None else a)
        out = st.mem.get(args[k], ZERO)
        st.ev = st.ev + (('path', name, ONE, args[0], out) + tuple(ins_),)
    def pathfail(self, eng, st, name, args, ins):
        out = st.mem.get(args[contracts.PATHAPI[name]], ZERO)
        st.ev = st.ev + (('path', name, ZERO, args[0], out),)
    def store(self, eng, st, addr, v, ins):
        if self.cell is not None and root(addr) is root(self.cell):
            d = sub(addr, self.cell)
            if d.op != 'c' or 0 <= d.a[0] < self.size:
                st.ev = st.ev + (('store', 'store', ZERO, addr, v),)

def run(w, f, args, cell=None, size=0):
    h = H(calls=CHECKS, free=False)
    h.cell, h.size = cell, size
    e, m = make(w, [h], opaque=True)
    m.modular = True
    m.inline = c08.writers(w)
    e.PRECISION = 0
    e.SCALE = 8
    e.step_limit = 800000
    return e, e.run(f, args, State())

def check(r):
    r.rule = ('on every path of the operation that changes the current directory: it ends in success only after the filesystem itself found the directory to exist, and then '
              'the text kept is that directory (as given, joined behind the old one, or normalised); on an error nothing was written to it. The operation that '
              'reports it copies it out and writes nothing to it.')
    w = r.world('default')
    for name in sorted(CHECKS):
        existence(r, w, name)
    for tu in w.backend_tus():
        sl = w.slots_of(tu)
        g, f = sl.get('m_get_cur_dir'), sl.get('m_set_cur_dir')
        if g is None or f is None:
            continue
        args = arg_syms(g)
        e, ex = run(w, g, args)
        cells = {}
        for ret, st in ex:
            for x in st.ev:
                if x[0] == 'text' and root(x[4]).op == 'init' and x[4] is not root(x[4]) and x[3] is mk('init', args[1]):
                    cells[x[4]] = 1
        if not cells:
            continue
        if len(cells) != 1:
            r.violation(label(w, g), 'other-text', 'reports more than one text', '%s:%d %s reports texts from several places' % (g.tu.name, g.line, g.dname))
            continue
        cell = list(cells)[0]
        r.count('filesystems')
        # reporting
        e, ex = run(w, g, args, cell, 128)
        for ret, st in ex:
            r.obl()
            tx = [x for x in st.ev if x[0] == 'text' and same(st, x[4], cell)]
            if any(x[0] == 'store' for x in st.ev):
                r.discharged -= 1
                r.violation(label(w, g), 'changes', 'asking changes it', '%s:%d %s writes to the current directory it reports' % (g.tu.name, g.line, g.dname))
            elif not tx and st.rng(ret)[1] >= 0:
                r.discharged -= 1
                r.violation(label(w, g), 'not-reported', 'success without the text', '%s:%d %s reports success without delivering the current directory' % (g.tu.name, g.line, g.dname))
        # changing
        lab = label(w, f)
        fargs = arg_syms(f)
        memo = {}
        cell = subst(cell, {args[0]: fargs[0]}, memo)
        try:
            e, ex = run(w, f, fargs, cell, 128)
        except Incomplete as x:
            r.incomplete.append('%s: %s' % (lab, x))
            continue
        good = 0
        for ret, st in ex:
            r.obl()
            r.count('paths')
            def bad(kind, detail):
                r.discharged -= 1
                r.violation(lab, kind, detail, '%s:%d %s: %s; events on this path: %s' % (f.tu.name, f.line, f.dname, detail, '; '.join(
                    ('failed ' if x[0] == 'path' and x[2] is ZERO else '') + evstr(x) for x in st.ev) or 'none'))
            writes = [x for x in st.ev if x[0] == 'text' and near(x[3], cell)] + \
                     [x for x in st.ev if x[0] == 'path' and near(x[4], cell)] + \
                     [x for x in st.ev if x[0] == 'store']
            lo, hi = st.rng(ret)
            if hi < 0:
                if writes:
                    bad('changed-on-error', 'changes the current directory although it fails')
                continue
            good += 1
            tests = [x for x in st.ev if x[1] in CHECKS and st.const_of(x[2]) == 1 or x[1] == 'Evfs.m_stat' and same(st, x[2], ZERO)]
            tests = [x for x in tests if x[3] is fargs[0]]
            if not tests:
                bad('unchecked', 'accepts a directory without having found it to exist')
                continue
            ok = [t for t in tests if from_caller(st, st.ev[:st.ev.index(t)], t[4], fargs[1], cell)]
            if not ok:
                bad('other-path', 'looks for another directory than the one asked for')
                continue
            if any(x[0] == 'path' and x[2] is ZERO for x in st.ev):
                bad('failure-ignored', 'goes on although the path could not be joined or normalised')
                continue
            sets = [x for x in st.ev if x[0] == 'text' and same(st, x[3], cell)]
            norm = [x for x in st.ev if x[0] == 'path' and same(st, x[4], cell)]
            if not sets and not norm:
                bad('unchanged', 'reports success without changing the current directory')
                continue
            q = sets[-1][4] if sets else norm[-1][5]
            if not any(linked(st, st.ev, t[4], q) for t in ok):
                bad('other-text', 'keeps another directory than the one it checked')
        r.obl(good > 0)
        if not good:
            r.violation(lab, 'never', 'never succeeds', '%s:%d %s never changes the current directory' % (f.tu.name, f.line, f.dname))
        r.sample('%s keeps its current directory at %s' % (tu, show(cell)))
    r.need('filesystems', 5)

def existence(r, w, name):
    """the test itself: true exactly for what the filesystem reports as a directory"""
    f = w.fn(name)
    if f is None:
        return
    DIR = w.const('EVFS_FILE_DIR')
    off = None
    for tu in w.tus:
        for k in tu.structs:
            if re_struct(k) in ('EvfsInfo', 'EvfsInfo_s'):
                for o, n in tu.di_fields(k) or ():
                    if n == 'type':
                        off = o
    if off is None:
        raise Broken('the type field of a directory entry was not found')
    for kind, status, type_, want in (('a directory', 0, DIR, 1), ('a file', 0, 0, 0), ('nothing (failure)', None, DIR, 0)):
        args = arg_syms(f)
        def stat(rec, eng, st, res, a, ins, ctx):
            eng.store(st, add_root(a[2], off), C(type_), ins, 1)
            if status is None:
                st.limit(res, -99, -1)
            else:
                st.limit(res, 0, 0)
            return [(res, st)]
        h = c08.Rec(calls=(), values={'m_stat': stat}, free=False)
        e, m = make(w, [h])
        m.inline_all = True
        e.PRECISION = 0
        for ret, st in e.run(f, args, State()):
            r.obl()
            ops = [x for x in st.ev if x[1] == 'Evfs.m_stat']
            good = len(ops) == 1 and ops[0][3] is args[0] and ops[0][4] is args[1]
            lo, hi = st.rng(ret)
            if not good or (want and (lo, hi) != (1, 1)) or (not want and (lo, hi) != (0, 0)):
                r.discharged -= 1
                r.violation(label(w, f), 'existence', kind, '%s:%d %s answers %s for %s' % (f.tu.name, f.line, f.dname, show(ret), kind))

def near(p, cell):
    if p.op in ('c', 'undef', 'uninit') or root(p) is not root(cell):
        return False
    d = sub(p, cell)
    return d.op != 'c' or 0 <= d.a[0] < 128

def linked(st, evs, p, q):
    """q holds the text checked at p, directly or normalised"""
    s = [p]
    for x in evs:
        if x[0] == 'path' and x[2] is ONE and x[1] in ('evfs_vfs_path_normalize', 'evfs_vfs_path_absolute'):
            if any(same(st, y, x[5]) for y in s):
                s.append(x[4])
        elif x[0] == 'text' and any(same(st, y, x[4]) for y in s):
            s.append(x[3])
    return any(same(st, y, q) for y in s)

def from_caller(st, evs, p, path, cell):
    if p is path:
        return True
    hold = [path]
    for x in evs:
        if x[0] == 'path' and x[2] is ONE:
            if x[1] == 'evfs_vfs_path_join' and len(x) >= 7:
                if same(st, x[5], cell) and any(same(st, y, x[6]) for y in hold):
                    hold.append(x[4])
            elif x[1] == 'evfs_vfs_path_join_str' and len(x) >= 7:
                if same(st, x[5], cell) and any(same(st, y, x[6]) for y in hold):
                    hold.append(x[4])
            elif x[1] in ('evfs_vfs_path_normalize', 'evfs_vfs_path_absolute') and any(same(st, y, x[5]) for y in hold):
                hold.append(x[4])
        elif x[0] == 'text' and any(same(st, y, x[4]) for y in hold):
            hold.append(x[3])
    return any(same(st, y, p) for y in hold)
