"""The information reported about files and directory entries is the host's or the archive's."""
from suite import *
from trace import same
from labels import label
from concrete import *
import host
import props.c10 as c10
from host import UNITS, calls, show_calls, cell, filled, outcomes

ASSUME = ['the host libraries fill their information records as documented; FatFs dates are in the local time zone mktime uses',
          'the header of a romfs member and the index entry of a tar member are taken as the archive parser delivers them',
          'sizes are not cut by the offset type the library was built with']
STDIO, LFS, FAT = UNITS
ROM = 'src/romfs_fs.c'
TARS = ('src/tar_fs.c', 'src/tar_rsrc_fs.c')
BITS = ('NAME', 'SIZE', 'MTIME', 'TYPE')
FIELD = {'NAME': 'name', 'SIZE': 'size', 'MTIME': 'mtime', 'TYPE': 'type'}
SOURCE = {(STDIO, 0): ('stat', 'lstat'), (LFS, 0): ('lfs_stat',), (FAT, 0): ('f_stat',), (STDIO, 1): ('readdir',), (LFS, 1): ('lfs_dir_read',), (FAT, 1): ('f_readdir',),
          (ROM, 0): ('romfs header',), (ROM, 1): ('romfs header',), (TARS[0], 0): ('index entry',), (TARS[1], 0): ('index entry',)}

class Arch(host.Host):
    """the archive parsers answer with a header or an index entry"""
    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        m = eng.models
        if name == 'dh_lookup':
            def ok(s):
                m.fill(s, args[-1], m.obj_rest(args[-1]), ('dhv', ctx, ins.uid))
                note(s, 'index entry', ONE, filled(s, args[-1]))
            def no(s):
                note(s, 'index entry', ZERO, None)
            def note(s, n, r, x):
                site = (ins.uid, ctx)
                s.ev = tuple(e for e in s.ev if e[3:4] != (site,)) + (('host', n, r, site, x) + tuple(args),)
            return m.fork(st, (ZERO, no), (ONE, ok))
        if name in ('romfs_read_file_header', 'romfs_lookup_abs_path'):
            h = args[2]
            good = ONE if name == 'romfs_read_file_header' else ZERO
            def res(k):
                def f(s):
                    tag = ('hdr' if k else 'nohdr', ctx, ins.uid)
                    m.fill(s, h, self.hdr_size, tag)
                    site = (ins.uid, ctx)
                    s.ev = tuple(e for e in s.ev if e[1] != 'romfs header') + (('host', 'romfs header', ONE if k else ZERO, site, filled(s, h)) + tuple(args),)
                    if k:
                        lo = cell(filled(s, h), 0)
                return f
            bad = ZERO if good is ONE else m.fresh('st_lookup', ctx, ins, rng=(-99, -1))
            return m.fork(st, (bad, res(False)), (good, res(True)))
        return None

def records(w, tu):
    """where an archive's record of a member has its place, size and header length"""
    if tu.name == ROM:
        h = w.host_const(('evfs.h', 'evfs/util/dhash.h', 'evfs/romfs_common.h'), size='offsetof(RomfsFileHead, size)', place='offsetof(RomfsFileHead, offset)',
                         header_len='offsetof(RomfsFileHead, header_len)', r_all='sizeof(RomfsFileHead)')
        Arch.hdr_size = h['r_all']
        return h
    fields = {n: o for o, n in w_fields(tu, 'EvfsTarEntry')}
    return {'size': fields['file_size'], 'place': fields['header_offset']}

def announced(w, tu, cmd):
    f = w.slots_of(tu)['m_vfs_ctrl']
    a = host.args_for(f, host.vfs_arg())
    a[1] = C(w.const(cmd))
    p, e, ex = host.run(w, f, a)
    got = {st.const_of(st.mem[a[2]]) if a[2] in st.mem else None for ret, st in ex if st.rng(ret)[1] >= 0}
    if len(got) != 1 or None in got:
        raise Broken('%s: cannot tell what %s announces' % (tu, cmd))
    return got.pop(), f

def narrow(st, atom, k):
    s = st.copy()
    return s if s.limit(atom, k, k) is not False else None

def check(r):
    r.rule = ('for stat and directory reads of every filesystem: each field it announces holds, on every successful path, what the host\'s record (or the archive\'s header or index entry) says '
              '- the same number, the address of the same name, the type for every value of the host\'s type field, the timestamp for every FAT date and time - and every other field is zero.')
    w = r.world('default')
    bit = dict(zip(BITS, w.const(*['EVFS_INFO_' + b for b in BITS])))
    DIRBIT = w.const('EVFS_FILE_DIR')
    H = w.host_const(('sys/types.h', 'sys/stat.h', 'dirent.h', 'evfs.h'),
        i_name='offsetof(EvfsInfo, name)', i_size='offsetof(EvfsInfo, size)', i_mtime='offsetof(EvfsInfo, mtime)', i_type='offsetof(EvfsInfo, type)',
        s_size='offsetof(struct stat, st_size)', s_mtime='offsetof(struct stat, st_mtime)', s_mode='offsetof(struct stat, st_mode)',
        d_name='offsetof(struct dirent, d_name)', d_type='offsetof(struct dirent, d_type)')
    H.update(w.host_const(('ff.h', 'lfs.h', 'evfs.h', 'evfs/util/dhash.h', 'evfs/romfs_common.h'),
        f_name='offsetof(FILINFO, fname)', f_size='offsetof(FILINFO, fsize)', f_attr='offsetof(FILINFO, fattrib)', f_date='offsetof(FILINFO, fdate)', f_time='offsetof(FILINFO, ftime)',
        l_name='offsetof(struct lfs_info, name)', l_size='offsetof(struct lfs_info, size)', l_type='offsetof(struct lfs_info, type)', l_dir='LFS_TYPE_DIR', l_reg='LFS_TYPE_REG',
        r_name='offsetof(RomfsFileHead, file_name)', r_size='offsetof(RomfsFileHead, size)', r_off='offsetof(RomfsFileHead, offset)', r_all='sizeof(RomfsFileHead)'))
    Arch.hdr_size = H['r_all']
    class Here:
        uid = 0
    for tu, isdir in sorted(SOURCE):
        if tu not in w.vfs_slots:
            raise Broken('%s registers no filesystem' % tu)
        mask, cf = announced(w, tu, 'EVFS_CMD_GET_DIR_FIELDS' if isdir else 'EVFS_CMD_GET_STAT_FIELDS')
        hook = Arch if tu in (ROM,) + TARS else None
        st0 = None
        if isdir:
            f = w.tables_of(tu, 'EvfsDirMethods')[0]['m_read']
            of = w.slots_of(tu)['m_open_dir']
            a = host.args_for(of, host.vfs_arg())
            p, e, ex = host.run(w, of, a, hook=hook)
            opens = [st for ret, st in ex if st.rng(ret)[1] >= 0]
            if not opens:
                raise Broken('no successful open of a directory in %s' % tu)
            st0 = opens[0].copy()
            st0.ev = ()
            args = host.args_for(f, a[2])
        else:
            f = w.slots_of(tu)['m_stat']
            args = host.args_for(f, host.vfs_arg())
        info = args[-1]
        for need in ('TYPE',) + (('NAME',) if isdir else ()):
            if not mask & bit[need]:
                r.violation(label(w, cf), 'announces', need, '%s:%d %s does not announce that %s report the %s' % (cf.tu.name, cf.line, cf.dname, 'directory reads' if isdir else 'stat calls', FIELD[need]))
        best = None
        for sc in (1, 4, 16):
            todo = []
            try:
                p, e, ex = host.run(w, f, args, st0, prec=(0,), modular=not isdir, scale=sc, hook=hook)
            except Incomplete as x:
                break
            n = 0
            for ret, st in ex:
                lo, hi = st.rng(ret)
                if hi < 0 or lo > 0:
                    continue
                s = st.copy()
                if s.limit(ret, 0, 0) is False:
                    continue
                n += 1
                todo += judge(r, w, e, tu, isdir, f, args, info, s, mask, bit, H, DIRBIT, Here)
            open_ = [x for x in todo if x[0] is None]
            best = todo
            if not n:
                raise Broken('%s never succeeds' % f.dname)
            if not open_:
                break
        if best is None:
            raise Broken('%s: %s' % (f.dname, x))
        r.count('methods')
        for res, what, detail, st in best:
            r.obl()
            if res is True:
                continue
            if res is None:
                raise Broken('%s: cannot follow the %s' % (f.dname, what))
            r.discharged -= 1
            r.violation(label(w, f), what, detail, '%s:%d %s: %s; calls into the host on this path: %s' % (f.tu.name, f.line, f.dname, detail, show_calls(st)))
    r.need('methods', 10)

def judge(r, w, e, tu, isdir, f, args, info, st, mask, bit, H, DIRBIT, Here):
    """[(True / False / None, field, what is wrong, state)]"""
    out = []
    def got(name, w_):
        return e.load(st.copy(), host.add_root(info, H['i_' + name]), ('i', w_) if name != 'name' else ('ptr',), f.tu, Here, ())
    src = [x for x in calls(st, *SOURCE[tu, isdir])]
    if tu in (STDIO, LFS, FAT) and isdir:
        src = [x for x in src if st.const_of(x[2]) == 1]
    src = src[-1:]
    kind = 'entry' if isdir else 'file'
    if not src:
        return [(False, 'source', 'reports a %s without asking for one' % kind, st)]
    ev = src[0]
    ok = {STDIO: 0, LFS: 0, FAT: 0}.get(tu) if not isdir else 1
    if tu in (ROM,) + TARS:
        ok = 1
    if st.const_of(ev[2]) != ok and not (tu == LFS and st.rng(ev[2])[0] >= 0):
        return [(False, 'source', 'reports a %s although there is none' % kind, st)]
    fl = ev[4]
    if tu in (ROM,) + TARS and not isdir:
        p = ev[6] if tu == ROM else sub(ev[6], ONE)     # the index leaves out the leading slash
        if not c10.path_is(None, st, p, args[1], st.ev[:st.ev.index(ev)]):
            out.append((False, 'path', 'looks up another path than it was given', st))
    if fl is None or not isinstance(fl, T):
        return out + [(None, 'source', '', st)]
    F = {}          # field -> what it has to be
    if tu == STDIO and isdir:
        base = fl
        nm = host.add_root(base, H['d_name'])
        ty = e.load(st.copy(), host.add_root(base, H['d_type']), ('i', 8), f.tu, Here, ())
        F = {'NAME': nm}
        types = (ty, range(256), lambda v: v == 4)
    elif tu == STDIO:
        F = {'SIZE': cell(fl, H['s_size']), 'MTIME': cell(fl, H['s_mtime'])}
        types = (cell(fl, H['s_mode']), range(65536), lambda v: v & 0o170000 == 0o040000)
    elif tu == LFS:
        F = {'SIZE': cell(fl, H['l_size']), 'NAME': host.add_root(ev[7], H['l_name'])}
        types = (cell(fl, H['l_type']), (H['l_dir'], H['l_reg']), lambda v: v == H['l_dir'])
    elif tu == FAT:
        F = {'SIZE': cell(fl, H['f_size']), 'NAME': host.add_root(ev[6], H['f_name']), 'MTIME': (cell(fl, H['f_date']), cell(fl, H['f_time']))}
        types = (cell(fl, H['f_attr']), range(256), lambda v: bool(v & 0x10))
    elif tu == ROM:
        F = {'SIZE': cell(fl, H['r_size']), 'NAME': host.add_root(ev[7], H['r_name'])}
        types = (cell(fl, H['r_off']), range(16), lambda v: v & 7 in (0, 1))
    else:
        fields = {n: o for o, n in w_fields(f.tu, 'EvfsTarEntry')}
        F = {'SIZE': cell(fl, fields['file_size'])}
        types = (cell(fl, fields['header_offset']), (-1, 0, 512, 1024), lambda v: v < 0)
    tarry = tu in TARS
    # type
    atom, vals, isd = types
    v = e.binop('and', got('type', 8), C(DIRBIT), 32, st)
    facts = about(st, atom)
    res = True
    seen = set()
    for k in vals:
        env = {atom: k}
        if not possible(facts, env):
            continue
        seen.add(isd(k))
        try:
            g = value(v, env, st)
        except Open:
            res = None if has_join(v) else False
            break
        if bool(g) != isd(k):
            res = False
            break
    if not mask & bit['TYPE']:
        pass
    elif res is False:
        out.append((False, 'type', 'reports a %s as %s' % ('directory' if isd(k) else 'plain file', 'a plain file' if isd(k) else 'a directory'), st))
    else:
        out.append((res, 'type', '', st))
    if not seen and res is not None:
        return []                       # no such record
    for b in ('NAME', 'SIZE', 'MTIME'):
        g = got(FIELD[b], 32 if b == 'SIZE' else 64)
        text = {'NAME': 'another name', 'SIZE': 'another size', 'MTIME': 'another time'}[b]
        if not mask & bit[b]:
            z = st.const_of(g)
            out.append((z == 0 if z is not None or not has_join(g) else None, FIELD[b], 'fills in the %s, which it does not announce' % FIELD[b], st))
            continue
        if b not in F:
            out.append((False, FIELD[b], 'announces the %s, which the host does not tell' % FIELD[b], st))
            continue
        want = F[b]
        if b == 'MTIME' and isinstance(want, tuple):
            out.append(fat_time(st, g, want))
            continue
        if b == 'SIZE' and tarry and seen == {True}:
            want = ZERO
        if same(st, g, want):
            out.append((True, FIELD[b], '', st))
        elif has_join(g):
            out.append((None, FIELD[b], '', st))
        else:
            out.append((False, FIELD[b], 'reports %s than the one it was told' % text, st))
    return out

def has_join(t):
    return any(x.op == 's' and x.a[0] in ('join', 'ldx', 'widen') for x in syms(t))

def w_fields(tu, name):
    fl = tu.di_structs.get(name)
    if not fl:
        raise Broken('%s has no %s' % (tu.name, name))
    return fl

def fat_time(st, got, want):
    date, time = want
    evs = [x for x in calls(st, 'mktime') if x[2] is got]
    if not evs or not isinstance(evs[-1][4], T):
        return (None if has_join(got) else False), 'mtime', 'reports another time than the one it was told', st
    tm = evs[-1][4].a
    spec = ((time, lambda t: (t & 31) * 2), (time, lambda t: t >> 5 & 63), (time, lambda t: t >> 11 & 31),
            (date, lambda d: d & 31), (date, lambda d: (d >> 5 & 15) - 1), (date, lambda d: (d >> 9 & 127) + 80))
    for atom, unit in ((time, tm[:3]), (date, tm[3:])):
        facts = about(st, atom)
        fns = [fn for a, fn in spec if a is atom]
        for k in range(65536):
            env = {atom: k}
            if not possible(facts, env):
                continue
            try:
                g = [value(t, env, st) for t in unit]
            except Open:
                return None, 'mtime', '', st
            if g != [fn(k) for fn in fns]:
                return False, 'mtime', 'turns the FAT %s %#06x into %s' % ('time' if atom is time else 'date', k, g), st
    return True, 'mtime', '', st
