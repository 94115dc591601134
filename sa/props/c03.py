"""Every public operation reaches exactly the matching operation of the right filesystem."""
from suite import *
from trace import Rec, same, evstr
from labels import label

ASSUME = ['which slot an operation belongs to is fixed by the public API (table API below)']
V, H, A = 'V', 'H', '*'
FM, DM = 'EvfsFileMethods.', 'EvfsDirMethods.'
# public function -> (recorded callee, argument roles): a number is the caller's own parameter, V the
# resolved filesystem, H a freshly allocated handle, * anything
API = {
    'evfs_open_ex': ('Evfs.m_open', [V, 0, H, 2], 3),
    'evfs_vfs_open': ('Evfs.m_open', [0, 1, H, 3], None),
    'evfs_stat_ex': ('Evfs.m_stat', [V, 0, 1], 2),
    'evfs_delete_ex': ('Evfs.m_delete', [V, 0], 1),
    'evfs_rename_ex': ('Evfs.m_rename', [V, 0, 1], 2),
    'evfs_make_dir_ex': ('Evfs.m_make_dir', [V, 0], 1),
    'evfs_open_dir_ex': ('Evfs.m_open_dir', [V, 0, H], 2),
    'evfs_vfs_open_dir': ('Evfs.m_open_dir', [0, 1, H], None),
    'evfs_get_cur_dir_ex': ('Evfs.m_get_cur_dir', [V, 0], 1),
    'evfs_set_cur_dir_ex': ('Evfs.m_set_cur_dir', [V, 0], 1),
    'evfs_vfs_ctrl_ex': ('Evfs.m_vfs_ctrl', [V, 0, 1], 2),
    'evfs_path_root_component_ex': ('Evfs.m_path_root_component', [V, 0, 1], 2),
    'evfs_path_is_absolute_ex': ('Evfs.m_path_root_component', [V, 0, A], 1),
    'evfs_vfs_path_is_absolute': ('Evfs.m_path_root_component', [0, 1, A], None),
    'evfs_path_dirname_ex': ('evfs_vfs_path_dirname', [V, 0, 1], 2),
    'evfs_path_join_ex': ('evfs_vfs_path_join', [V, 0, 1, 2], 3),
    'evfs_path_join_str_ex': ('evfs_vfs_path_join', [V, '@0', '@1', 2], 3),
    'evfs_path_normalize_ex': ('evfs_vfs_path_normalize', [V, 0, 1], 2),
    'evfs_path_absolute_ex': ('evfs_vfs_path_absolute', [V, 0, 1], 2),
    'evfs_file_ctrl': (FM + 'm_ctrl', [0, 1, 2], None),
    'evfs_file_close': (FM + 'm_close', [0], None),
    'evfs_file_read': (FM + 'm_read', [0, 1, 2], None),
    'evfs_file_write': (FM + 'm_write', [0, 1, 2], None),
    'evfs_file_truncate': (FM + 'm_truncate', [0, 1], None),
    'evfs_file_sync': (FM + 'm_sync', [0], None),
    'evfs_file_size': (FM + 'm_size', [0], None),
    'evfs_file_seek': (FM + 'm_seek', [0, 1, 2], None),
    'evfs_file_tell': (FM + 'm_tell', [0], None),
    'evfs_file_eof': (FM + 'm_eof', [0], None),
    'evfs_dir_close': (DM + 'm_close', [0], None),
    'evfs_dir_read': (DM + 'm_read', [0, 1], None),
    'evfs_dir_rewind': (DM + 'm_rewind', [0], None),
    'evfs_file_puts': (FM + 'm_write', [0, 1, A], None),
    'evfs_file_printf': (FM + 'm_write', [0, A, A], None),
}
PATHS = {'evfs_vfs_path_dirname', 'evfs_vfs_path_join', 'evfs_vfs_path_normalize', 'evfs_vfs_path_absolute'}
CLOSES = {'evfs_file_close', 'evfs_dir_close'}

class Disp(Rec):
    def record(self, eng, st, kind, name, short, ins, args, ctx):
        if kind == 'c':
            # a range built on the stack stands for what it refers to
            args = [st.mem.get(a, a) if a.op == 'obj' and a.a[0] == 'alloca' else a for a in args]
        return Rec.record(self, eng, st, kind, name, short, ins, args, ctx)

def defaults(w):
    """the variable holding the default filesystem"""
    out = []
    for tu in w.tus:
        for g in tu.globals.values():
            if tu.name.endswith('src/evfs.c') and not g.external and 'default' in g.name:
                out.append(g.name)
    return out

def is_default(v, names):
    return v.op == 'init' and v.a[0].op == 'obj' and v.a[0].a[0] == 'glob' and v.a[0].a[2] in names

def run(w, f, args, calls, values=None):
    h = Disp(calls=calls, values=values)

    e, m = make(w, [h], opaque=False)
    e.PRECISION = 0
    return e, e.run(f, args, State())

def check_api(r, w, name, spec):
    f = w.fn(name)
    if f is None:
        r.count('missing')
        r.notes.append('%s is not defined any more' % name)
        return
    lab = label(w, f)
    callee, roles, namearg = spec
    dn = defaults(w)
    for named in ((False, True) if namearg is not None else (None,)):
        args = arg_syms(f, null=(namearg,) if named is False else ())
        e, ex = run(w, f, args, lambda n: n in PATHS | {'evfs_find_vfs'})
        hit = 0
        for ret, st in ex:
            r.obl()
            where = '%s:%d %s' % (f.tu.name, f.line, name)
            def bad(kind, detail, ev=None):
                r.discharged -= 1
                r.violation(lab, kind, detail, '%s: %s; calls on this path: %s' % (where, detail, '; '.join(evstr(x) for x in st.ev) or 'none'))
            ops = [x for x in st.ev if x[0] in 'vc' and x[1] != 'evfs_find_vfs']
            find = [x for x in st.ev if x[1] == 'evfs_find_vfs']
            if name == 'evfs_file_size':
                if ops and ops[0][1] == FM + 'm_sync' and ops[0][3] is args[0]:
                    ops = ops[1:]
                else:
                    bad('not-synced', 'reports the size without syncing first')
                    continue
            if len(ops) > 1:
                bad('extra-call', 'performs %s besides %s' % (', '.join(sorted(x[1] for x in ops if x[1] != callee)) or 'the operation twice', callee))
                continue
            if not ops:
                lo, hi = st.rng(ret) if ret is not None else (0, 0)
                if name.endswith(('_is_absolute_ex', '_is_absolute', 'root_component_ex', '_eof')):
                    ok = st.const_of(ret) == 0
                else:
                    ok = hi < 0
                if not ok:
                    bad('no-call', 'can report success without calling %s' % callee)
                elif namearg is not None and f.rty == ('i', 32):
                    none = [v for v in st.facts if v.op == 'init' and is_default(v, dn) and st.const_of(v) == 0]
                    if none and st.const_of(ret) != w.const('EVFS_ERR_NO_VFS'):
                        bad('wrong-error', 'does not report EVFS_ERR_NO_VFS when there is no filesystem')
                continue
            ev = ops[0]
            if ev[1] != callee:
                bad('wrong-call', 'calls %s instead of %s' % (ev[1], callee))
                continue
            hit += 1
            got = ev[3:]
            ok = True
            for k, want in enumerate(roles):
                g = got[k] if k < len(got) else None
                if want == A:
                    continue
                if want == V:
                    if named:
                        fr = find[0][2] if find else None
                        if fr is not None and find[0][3] is not args[namearg]:
                            bad('wrong-filesystem', 'looks up a name other than the one given'); ok = False; break
                        if fr is not None and st.nonzero(fr) is True:
                            good = g is fr
                        elif fr is not None and st.const_of(fr) == 0:
                            good = is_default(g, dn)
                        else:
                            good = False
                    else:
                        good = is_default(g, dn)
                    if not good:
                        bad('wrong-filesystem', 'the operation goes to something other than the %s filesystem' % ('named' if named else 'default'))
                        ok = False
                        break
                elif want == H:
                    if not (g.op == 'obj' and g.a[0] == 'heap' or root(g).op == 'obj' and root(g).a[0] == 'heap' and g is root(g)):
                        bad('wrong-argument', 'argument %d of %s is not the new handle' % (k, callee)); ok = False; break
                else:
                    want = int(str(want).lstrip('@'))
                    if g is not args[want] and not same(st, g, args[want]):
                        bad('wrong-argument', "argument %d of %s is not the caller's %s" % (k, callee, f.params[want][0].lstrip('%'))); ok = False; break
            if not ok:
                continue
            if not same(st, ret, ev[2]):
                if not (H in roles and st.const_of(ret) == 0 and st.const_of(ev[2]) == 0):
                    bad('result-changed', 'does not return the result of %s' % callee)
                    continue
            frees = [x for x in st.ev if x[0] == 'free']
            if name in CLOSES:
                own = [k for k, x in enumerate(st.ev) if x[0] == 'free' and x[2] is args[0]]
                if len(own) != 1 or own[0] < st.ev.index(ev):
                    bad('handle-lifetime', 'the handle is not released exactly once after the close')
                    continue
            if H in roles:
                out = args[2 if namearg is None else 1]
                cell = st.mem.get(out)
                h = ev[3 + roles.index(H)]
                freed = [x for x in frees if x[2] is h]
                if st.const_of(ev[2]) == 0:
                    if cell is not h or freed:
                        bad('handle-lifetime', 'a successful open does not hand out the opened handle'); continue
                else:
                    if cell is None or cell.op in ('undef', 'uninit') or st.const_of(cell) != 0:
                        bad('stale-handle', 'a failed open leaves a handle behind'); continue
        if not hit:
            r.violation(lab, 'no-call', 'never calls %s' % callee, '%s:%d %s never reaches %s' % (f.tu.name, f.line, name, callee))
        r.count('operations')
        r.sample('%s -> %s%s: %d paths' % (name, callee, {None: '', False: ' on the default', True: ' by name'}[named], len(ex)))

def check_exist(r, w):
    """existing_file / existing_dir report what stat reports"""
    for name, isdir in (('evfs_existing_file_ex', False), ('evfs_existing_dir_ex', True), ('evfs__vfs_existing_dir', True)):
        f = w.fn(name)
        if f is None:
            continue
        for ty in (0, 1):
            def stat(rec, eng, st, rr, args, ins, ctx):
                eng.models.fill(st, args[2], 40, ('out', ctx, ins.uid))
                off = field_off(w, 'EvfsInfo', 'type')
                eng.store(st, add_root(args[2], off), C(ty), ins)
                return None
            args = arg_syms(f)
            e, ex = run(w, f, args, {'evfs_find_vfs'}, {'m_stat': stat})
            for ret, st in ex:
                r.obl()
                evs = [x for x in st.ev if x[1] == 'Evfs.m_stat']
                c = st.const_of(ret)
                if c is None and ret.op == 'cmp':
                    c = None
                if not evs or st.const_of(evs[0][2]) != 0:
                    want = 0
                    if evs and st.nonzero(evs[0][2]) is not True:
                        continue
                else:
                    want = int(bool(ty & 1) == isdir)
                if (c != 0) != bool(want) if c is not None else True:
                    r.discharged -= 1
                    r.violation(label(w, f), 'wrong-answer', 'answers wrongly for a %s' % ('missing path' if not want and not (evs and st.const_of(evs[0][2]) == 0) else 'directory' if ty else 'file'),
                                '%s:%d %s: stat result %s, type %d, answer %s' % (f.tu.name, f.line, name, evs and st.const_of(evs[0][2]), ty, show(ret)))
        r.count('operations')

def field_off(w, struct, field):
    for tu in w.tus:
        for k in tu.structs:
            if re_struct(k) == struct:
                for o, n in tu.di_fields(k) or ():
                    if n == field:
                        return o
    raise Broken('no field %s.%s' % (struct, field))

def add_root(p, off):
    return contracts.add_root(p, off)

def check_inline(r, w):
    tu = next((t for t in w.tus if t.name == 'include/evfs.h'), None)
    if tu is None:
        raise Broken('the inline functions of evfs.h were not compiled')
    for f in sorted(tu.functions.values(), key=lambda f: f.dname):
        if not f.dname.startswith('evfs_'):
            continue
        ex_ = f.dname + '_ex'
        target = w.fn(ex_)
        args = arg_syms(f)
        if target is not None:
            want = (ex_, list(args) + [ZERO])
        elif f.dname == 'evfs_file_rewind':
            want = ('evfs_file_seek', [args[0], ZERO, C(w.const('EVFS_SEEK_TO'))])
        else:
            continue
        e, ex = run(w, f, args, lambda n: n.startswith('evfs_'))
        r.count('inline_wrappers')
        for ret, st in ex:
            r.obl()
            ev = [x for x in st.ev if x[0] == 'c']
            where = 'evfs.h:%s' % f.dname
            text = '%s:%d %s: calls %s' % (f.tu.name, f.line, f.dname, '; '.join(evstr(x) for x in ev) or 'nothing')
            if len(ev) != 1 or ev[0][1] != want[0]:
                r.discharged -= 1
                r.violation(where, 'wrong-call', 'does not forward to %s' % want[0], text)
            elif list(ev[0][3:]) != want[1]:
                k = [a is b for a, b in zip(ev[0][3:], want[1])].index(False)
                r.discharged -= 1
                r.violation(where, 'wrong-argument', 'argument %d of %s is not passed on' % (k, want[0]), text)
            elif not same(st, ret, ev[0][2]):
                r.discharged -= 1
                r.violation(where, 'result-changed', 'does not return the result of %s' % want[0], text)

def check(r):
    r.rule = ('every path of every public operation is followed with its virtual call recorded: the call made, its receiver (the named filesystem, '
              'the default when no name is given or the name is unknown), its arguments, the value returned and the fate of the handle are compared '
              'with what the public API promises for that operation.')
    w = r.world('default', inlines=True)
    if not defaults(w):
        raise Broken('no default filesystem variable in evfs.c')
    for name in sorted(API):
        check_api(r, w, name, API[name])
    check_exist(r, w)
    check_inline(r, w)
    r.need('operations', 40)
    r.need('inline_wrappers', 18)
