"""A shim hands every operation on to the filesystem it wraps, unchanged."""
from suite import *
from trace import Rec, same, evstr
from labels import label

ASSUME = ['paths a jail passes on are the subject of the confinement property, not of this one',
          'container files of the rotate shim have semantics of their own; its ordinary files are covered']
FM, DM = 'EvfsFileMethods', 'EvfsDirMethods'
OWN = {  # operations a shim answers itself, by design
    'jail': {'m_get_cur_dir', 'm_set_cur_dir', 'm_path_root_component'},
}
PATHARG = {'m_open': (1,), 'm_stat': (1,), 'm_delete': (1,), 'm_rename': (1, 2), 'm_make_dir': (1,), 'm_open_dir': (1,)}

def field(w, tuname, struct, name):
    for tu in w.tus:
        if tu.name == tuname:
            for k in tu.structs:
                if re_struct(k) == struct:
                    for o, n in tu.di_fields(k) or ():
                        if n == name:
                            return o
    return None

def derived(x, base, depth):
    """x was loaded through `depth` levels of pointers starting at the receiver"""
    for _ in range(depth):
        if x.op != 'init':
            return False
        x = root(x.a[0])
    return x is base

def shims(w):
    out = []
    for f in w.registers:
        if w.reaches(f, 'evfs_find_vfs', same_tu=True) and f.tu.name in w.vfs_slots:
            out.append(f.tu.name)
    return sorted(set(out))

def run(w, f, args, st=None, own=()):
    h = Rec(calls=())
    h.own = own
    e, m = make(w, [h], opaque=False)
    m.inline_all = True
    e.PRECISION = 0
    e.step_limit = 800000
    e.SCALE = 8
    st = st or State()
    return e, e.run(f, args, st)

def judge(r, w, f, slot, name, e, ex, args, recv, expect, extra_ok, unless=None):
    """expect: argument terms after the receiver (None: anything)"""
    lab = label(w, f)
    hit = 0
    for ret, st in ex:
        if unless and unless(ret, st):
            continue
        r.obl()
        def bad(kind, detail):
            r.discharged -= 1
            r.violation(lab, kind, detail, '%s:%d %s: %s; calls on this path: %s' %
                        (f.tu.name, f.line, f.dname, detail, '; '.join(evstr(x) for x in st.ev) or 'none'))
        ops = [x for x in st.ev if x[0] == 'v' and x[1] == name]
        other = [x for x in st.ev if x[0] == 'v' and x[1] != name]
        if other and not extra_ok:
            bad('extra-call', 'also performs %s' % ', '.join(sorted({x[1] for x in other})))
            continue
        if len(ops) != 1:
            if not ops and ret is not None and slot in PATHARG and (st.rng(ret)[1] < 0 or extra_ok and st.nonzero(ret)):
                continue        # rejected before reaching the wrapped filesystem
            bad('not-forwarded', 'does not forward %s exactly once' % name)
            continue
        hit += 1
        ev = ops[0]
        got = ev[3:]
        if not recv(got[0]):
            bad('wrong-receiver', '%s is not sent to the wrapped object' % name)
            continue
        wrong = [k for k, x in enumerate(expect) if x is not None and not (got[k + 1] is x or same(st, got[k + 1], x))]
        if wrong:
            bad('wrong-argument', 'argument %d of %s differs from what the caller passed' % (wrong[0] + 1, name))
            continue
        if ret is not None and not same(st, ret, ev[2]):
            ok = False
            if slot in ('m_open', 'm_open_dir') and st.const_of(ev[2]) == 0 and st.rng(ret)[1] < 0:
                inner = got[{'m_open': 2, 'm_open_dir': 2}[slot]]
                ms = st.mem.get(inner, mk('init', inner))
                ok = st.const_of(ms) == 0
            if slot == 'm_open' and extra_ok and st.const_of(ev[2]) != 0 and st.rng(ret)[1] < 0 and not same(st, ev[2], ZERO):
                ok = False
            if not ok:
                bad('result-changed', 'does not return the result of %s' % name)
                continue
        touched = [k for k in st.mem for n, a in enumerate(args[1:], 1)
                   if root(k) is a and f.params[n][1] == ('ptr',) and not (slot in ('m_open', 'm_open_dir') and n == 2)]
        if touched:
            bad('data-changed', 'changes the data passing through')
            continue
    r.count('operations')
    if not hit:
        r.violation(lab, 'not-forwarded', 'never forwards %s' % name, '%s:%d %s never calls %s of the wrapped filesystem' % (f.tu.name, f.line, f.dname, name))
    r.sample('%s forwards %s on %d paths' % (lab, name, hit))

def check(r):
    r.rule = ('every path of every method of a shim is followed with virtual calls recorded: exactly one call of the same operation on the wrapped '
              'object (loaded from the shim\'s own state), the caller\'s arguments in place, its result returned, the buffers passing through not written.')
    w = r.world('default')
    tus = shims(w)
    if len(tus) < 3:
        raise Broken('expected three shims, found %s' % tus)
    unreg = w.const('EVFS_CMD_UNREGISTER')
    for tu in tus:
        jail = 'jail' in tu
        rot = 'rotate' in tu
        own = OWN['jail'] if jail else set()
        # file and directory methods
        for kind in (FM, DM):
            for tab in w.tables_of(tu, kind):
                for slot, f in sorted(tab.items()):
                    if f is None:
                        continue
                    args = arg_syms(f)
                    st = State()
                    if rot and kind == FM:
                        off = field(w, tu, 'RotateFile', 'rot_state')
                        if off is None:
                            r.notes.append('rotate handle layout not recognised; its ordinary files were not checked')
                            continue
                        st.mem[contracts.add_root(args[0], off)] = ZERO
                    e, ex = run(w, f, args, st)
                    judge(r, w, f, slot, kind + '.' + slot, e, ex, args, lambda x: derived(x, args[0], 1), args[1:], False)
        # filesystem methods
        for slot, f in sorted(w.slots_of(tu).items()):
            if slot in own:
                continue
            args = arg_syms(f)
            own_slots = ()
            h_exp = list(args[1:])
            if jail:
                for k in PATHARG.get(slot, ()):
                    h_exp[k - 1] = None
            if slot in ('m_open', 'm_open_dir'):
                h_exp[1] = None
            extra = rot and slot in ('m_open', 'm_delete', 'm_open_dir') or jail
            unless = None
            st = State()
            if slot == 'm_vfs_ctrl':
                st.exclude(args[1], unreg)
                if rot:
                    st.exclude(args[1], w.const('EVFS_CMD_SET_ROTATE_CFG'))
            if rot and slot == 'm_open':
                # containers are opened by the shim itself
                name = 'Evfs.m_open'
                unless = lambda ret, s: not [x for x in s.ev if x[1] == name and root(x[5]) is args[2]]
            try:
                e, ex = (run_jail if jail else run)(w, f, args, st)
            except Incomplete as x:
                r.incomplete.append('%s: %s' % (label(w, f), x))
                continue
            if rot and slot in ('m_open', 'm_delete', 'm_open_dir'):
                ex = [(ret, keep(s, slot, args)) for ret, s in ex]
            if jail:
                ex = [(ret, drop(s, 'm_path_root_component', 'm_get_cur_dir')) for ret, s in ex]
            judge(r, w, f, slot, 'Evfs.' + slot, e, ex, args, lambda x: derived(x, args[0], 2), h_exp, extra, unless)
    r.need('operations', 55)

def keep(st, slot, args):
    """the container bookkeeping of the rotate shim aside, what is left of the trace"""
    s = st.copy()
    def mine(x):
        if x[1] != 'Evfs.' + slot:
            return False
        if slot == 'm_delete':
            return x[4] is args[1]
        return root(x[5]) is args[2]
    s.ev = tuple(x for x in st.ev if mine(x))
    return s

def drop(st, *names):
    s = st.copy()
    s.ev = tuple(x for x in st.ev if x[1].split('.')[-1] not in names)
    return s

class J(Rec):
    def result(self, eng, st, name, ins, ctx):
        r = Rec.result(self, eng, st, name, ins, ctx)
        if name == 'evfs_vfs_path_absolute':
            st.limit(r, -99, 0)
        return r

def run_jail(w, f, args, st):
    h = J(calls={'evfs_vfs_path_absolute'})
    e, m = make(w, [h])
    e.PRECISION = 0
    e.step_limit = 800000
    e.SCALE = 8
    return e, e.run(f, args, st)
