"""A filesystem set read-only changes nothing until it is set writable again."""
from suite import *
from labels import label
import host
from host import UNITS, FM, DM, calls, show_calls, modifies

ASSUME = ['the host libraries (C library and POSIX, littlefs, FatFs) do what their documentation says',
          'data written before the filesystem was set read-only may still be flushed, by sync and close']
CHANGING = ('m_write', 'm_truncate', 'm_delete', 'm_rename', 'm_make_dir')
FLAGS = ('READ', 'WRITE', 'OPEN_OR_NEW', 'NO_EXIST', 'OVERWRITE', 'APPEND')

def set_mode(w, tu, f, st, vfs, cmd, value):
    """the states after the control operation has set the mode"""
    out = []
    a = host.args_for(f, vfs)
    a[1] = C(cmd)
    s = st.copy()
    s.mem[a[2]] = C(value)
    s.ev = ()
    p, e, ex = host.run(w, f, a, s)
    for ret, s in ex:
        if s.rng(ret)[1] >= 0:
            s = s.copy()
            s.ev = ()
            out.append(s)
    return out

def check(r):
    r.rule = ('history: a file is opened read-write, the filesystem is set read-only (with several nonzero values), then each method: no path of any method makes a host call that changes '
              'something, and no path of a changing operation, or of an opening with a changing flag, succeeds; reading stays possible; setting it writable again restores the rest.')
    w = r.world('default')
    cmd, dots = w.const('EVFS_CMD_SET_READONLY', 'EVFS_CMD_SET_NO_DIR_DOTS')
    bits = dict(zip(FLAGS, w.const(*['EVFS_' + f for f in FLAGS])))
    for tu in UNITS:
        if tu not in w.vfs_slots:
            raise Broken('%s registers no filesystem' % tu)
        slots = w.slots_of(tu)
        ctrl = slots.get('m_vfs_ctrl')
        if ctrl is None:
            r.violation('%s:Evfs.m_vfs_ctrl' % tu.split('/')[-1], 'missing', 'no control operation', tu)
            continue
        of = host.opened(w, tu, 'm_open', bits['READ'] | bits['WRITE'])
        od = host.opened(w, tu, 'm_open_dir')
        if not of or not od:
            raise Broken('no successful open in %s' % tu)
        files = w.tables_of(tu, FM)[0]
        dirs = w.tables_of(tu, DM)[0]
        jobs = [(s, m, of) for s, m in sorted(files.items())] + [(s, m, od) for s, m in sorted(dirs.items())] + [(s, m, None) for s, m in sorted(slots.items()) if s != 'm_vfs_ctrl']
        for slot, f, opens in jobs:
            if f is None:
                continue
            st0, handle, vfs, ev0 = (opens or of)[0]
            if opens is None:
                st0, handle = State(), vfs
            st0 = st0.copy()
            st0.ev = ()
            hist = []
            for v in (1, 2, 1 << 31):
                for s in set_mode(w, tu, ctrl, st0, vfs, cmd, v):
                    hist.append((s, 'read-only', True))
                    if v == 1 and tu != UNITS[2]:
                        for s2 in set_mode(w, tu, ctrl, s, vfs, dots, 0):
                            hist.append((s2, 'read-only, then another setting changed', True))
                    for s2 in set_mode(w, tu, ctrl, s, vfs, cmd, 0) if v == 1 else ():
                        hist.append((s2, 'read-only, then writable', False))
            if not any(k for _, _, k in hist):
                r.violation(label(w, ctrl), 'refused', 'cannot be set read-only', '%s:%d %s refuses every value' % (tu, ctrl.line, ctrl.dname))
                continue
            never = None
            for s, what, ro in hist:
                runs = [(None, host.args_for(f, handle))]
                if slot == 'm_open':
                    runs = []
                    for n in range(64):
                        fl = {x for i, x in enumerate(FLAGS) if n >> i & 1}
                        a = host.args_for(f, handle)
                        a[3] = C(sum(bits[x] for x in fl))
                        runs.append((fl, a))
                for fl, a in runs:
                    name = '+'.join(x for x in FLAGS if x in fl) if fl else ''
                    p, e, ex = host.run(w, f, a, s, modular=opens is None)
                    changing = slot in CHANGING or bool(fl) and bool(fl - {'READ'})
                    done = 0
                    r.count('histories')
                    for ret, st in ex:
                        r.obl()
                        ok = ret is None or st.rng(ret)[1] >= 0
                        done += ok
                        def bad(kind, d):
                            r.discharged -= 1
                            r.violation(label(w, f), kind, d, '%s:%d %s %safter the filesystem was set %s: %s; calls into the host on this path: %s' % (
                                f.tu.name, f.line, f.dname, 'with %s ' % name if name else '', what, d, show_calls(st)))
                        if ro:
                            m = [x for x in st.ev if modifies(st, x)]
                            if m:
                                bad('changes', 'performs %s%s' % (m[0][1], ' with ' + name if name else ''))
                            elif changing and ok:
                                bad('accepted', 'does not report an error%s' % (' with ' + name if name else ''))
                    if done or ret is None or slot in ('m_set_cur_dir',) or ro and changing:
                        continue
                    if never is None:       # nor without any setting
                        p, e, ex = host.run(w, f, host.args_for(f, handle), st0, modular=opens is None)
                        never = not fl and not any(st.rng(x)[1] >= 0 for x, st in ex)
                    if not never:
                        r.violation(label(w, f), 'refused', 'never succeeds when the filesystem is %s%s' % (what, ' with ' + name if name else ''), '%s:%d %s' % (f.tu.name, f.line, f.dname))
    r.need('histories', 300)
