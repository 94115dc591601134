"""Operations on a host-backed filesystem do what the host's operation does."""
from suite import *
from trace import same
from labels import label
import host
from host import UNITS, FM, DM, calls, show_calls

ASSUME = ['the host libraries (C library and POSIX, littlefs, FatFs) do what their documentation says',
          'littlefs is analysed against its documented interface; its sources are not in the tree',
          'which errors of the host become which error of the library is not compared, only that errors stay errors']
CHANGES = {'fopen', 'freopen', 'fclose', 'fread', 'fwrite', 'fputs', 'fputc', 'ftruncate', 'truncate', 'fseek', 'fseeko', 'rewind', 'remove', 'unlink', 'rmdir', 'rename', 'mkdir', 'chdir',
           'opendir', 'closedir', 'rewinddir', 'lfs_file_open', 'lfs_file_close', 'lfs_file_read', 'lfs_file_write', 'lfs_file_truncate', 'lfs_file_seek', 'lfs_file_rewind',
           'lfs_remove', 'lfs_rename', 'lfs_mkdir', 'lfs_dir_open', 'lfs_dir_close', 'lfs_dir_rewind', 'lfs_dir_seek', 'lfs_format', 'lfs_mount', 'lfs_unmount',
           'f_open', 'f_close', 'f_read', 'f_write', 'f_truncate', 'f_lseek', 'f_expand', 'f_unlink', 'f_rename', 'f_mkdir', 'f_chdir', 'f_opendir', 'f_closedir', 'f_mkfs', 'f_mount'}
STDIO, LFS, FAT = UNITS
F, L, D = 'file', 'lfs', 'dir'      # what open gave the host
P1, P2 = 'path 1', 'path 2'
ANY = 'any'
def arg(n): return ('arg', n)
ERR0 = 'zero is success'; NEG = 'negative is failure'; COUNT = 'count'; FATCOUNT = 'FatFs count'; PTR = 'null is failure'; VOID = 'nothing'

TABLE = {
  STDIO: {
    FM: {'m_close': ('fclose', (F,), ERR0), 'm_read': ('fread', (arg(1), 1, arg(2), F), COUNT), 'm_write': ('fwrite', (arg(1), 1, arg(2), F), COUNT),
         'm_truncate': ('ftruncate', ('fd', arg(1)), ERR0), 'm_sync': ('fflush', (F,), ERR0), 'm_tell': ('ftell', (F,), 'value'),
         'm_eof': ('feof', (F,), 'truth'), 'm_size': ('fstat', ('fd', ANY), 'query')},
    DM: {'m_close': ('closedir', (D,), ERR0), 'm_read': ('readdir', (D,), 'entry'), 'm_rewind': ('rewinddir', (D,), VOID)},
    'Evfs': {'m_stat': ('stat', (P1, ANY), ERR0), 'm_delete': ('remove', (P1,), ERR0), 'm_rename': ('rename', (P1, P2), ERR0),
             'm_make_dir': ('mkdir', (P1, ANY), ERR0), 'm_open_dir': ('opendir', (P1,), PTR), 'm_open': ('fopen', (P1, ANY), PTR),
             'm_set_cur_dir': ('chdir', (P1,), ERR0), 'm_get_cur_dir': ('getcwd', ('start', 'length'), PTR)}},
  LFS: {
    FM: {'m_close': ('lfs_file_close', (L, F), NEG), 'm_read': ('lfs_file_read', (L, F, arg(1), arg(2)), COUNT),
         'm_write': ('lfs_file_write', (L, F, arg(1), arg(2)), COUNT), 'm_truncate': ('lfs_file_truncate', (L, F, arg(1)), NEG),
         'm_sync': ('lfs_file_sync', (L, F), NEG), 'm_tell': ('lfs_file_tell', (L, F), 'value'), 'm_size': ('lfs_file_size', (L, F), 'value')},
    DM: {'m_close': ('lfs_dir_close', (L, D), NEG), 'm_read': ('lfs_dir_read', (L, D, ANY), 'entry'), 'm_rewind': ('lfs_dir_rewind', (L, D), VOID)},
    'Evfs': {'m_stat': ('lfs_stat', (L, P1, ANY), NEG), 'm_delete': ('lfs_remove', (L, P1), NEG), 'm_rename': ('lfs_rename', (L, P1, P2), NEG),
             'm_make_dir': ('lfs_mkdir', (L, P1), NEG), 'm_open_dir': ('lfs_dir_open', (L, ANY, P1), NEG), 'm_open': ('lfs_file_open', (L, ANY, P1, ANY), NEG)}},
  FAT: {
    FM: {'m_close': ('f_close', (F,), ERR0), 'm_read': ('f_read', (F, arg(1), arg(2), ANY), FATCOUNT), 'm_write': ('f_write', (F, arg(1), arg(2), ANY), FATCOUNT),
         'm_sync': ('f_sync', (F,), ERR0), 'm_tell': ('f_tell', (), 'field'), 'm_size': ('f_size', (), 'field'), 'm_eof': ('f_eof', (), 'field')},
    DM: {'m_close': ('f_closedir', (D,), ERR0), 'm_read': ('f_readdir', (D, ANY), 'entry'), 'm_rewind': ('f_readdir', (D, 0), 'entry')},
    'Evfs': {'m_stat': ('f_stat', (P1, ANY), ERR0), 'm_delete': ('f_unlink', (P1,), ERR0), 'm_rename': ('f_rename', (P1, P2), ERR0),
             'm_make_dir': ('f_mkdir', (P1,), ERR0), 'm_open_dir': ('f_opendir', (ANY, P1), ERR0), 'm_open': ('f_open', (ANY, P1, ANY), ERR0),
             'm_set_cur_dir': ('f_chdir', (P1,), ERR0), 'm_get_cur_dir': ('f_getcwd', ('start', 'length'), ERR0)}},
}
SEEK = {STDIO: 'fseek', LFS: 'lfs_file_seek', FAT: 'f_lseek'}
SAME = {'remove': ('unlink',), 'fseek': ('fseeko',), 'ftell': ('ftello',), 'stat': ('lstat',)}

class Case:
    """one method in one history"""
    def __init__(self, r, w, tu, f, slot, args, vfs, what=''):
        self.r, self.w, self.tu, self.f, self.slot, self.args, self.vfs, self.what = r, w, tu, f, slot, args, vfs, what
        self.file = self.lfs = None
        self.seen = set()
    def bad(self, kind, detail, st):
        self.r.discharged -= 1
        self.r.violation(label(self.w, self.f), kind, detail + (' (%s)' % self.what if self.what else ''),
                         '%s:%d %s: %s; calls into the host on this path: %s' % (self.f.tu.name, self.f.line, self.f.dname, detail, show_calls(st)))

def path_is(c, st, a, want, upto):
    if same(st, a, want):
        return True
    got = None
    for e in upto:
        if e[0] == 'path' and e[5] is a:
            got = e
    return got is not None and got[1] in ('evfs_vfs_path_absolute', 'evfs_vfs_path_normalize') and any(same(st, x, want) for x in got[6:])

def matches(c, st, ev, spec):
    """None, or what differs"""
    args = ev[5:]
    if len(args) < len(spec):
        return 'passes %d arguments' % len(args)
    upto = st.ev[:st.ev.index(ev)]
    for n, (a, m) in enumerate(zip(args, spec)):
        what = 'argument %d of %s' % (n + 1, ev[1])
        if m is ANY:
            continue
        if m in (F, D):
            if not same(st, a, c.file):
                return '%s is not the %s the handle was opened with' % (what, m)
        elif m is L:
            if not same(st, a, c.lfs):
                return '%s is not the instance the filesystem was registered with' % what
        elif m == 'fd':
            fd = [e for e in upto if e[1] == 'fileno' and same(st, e[2], a)]
            if not fd or not same(st, fd[-1][5], c.file):
                return '%s is not the file the handle was opened with' % what
        elif m in (P1, P2):
            if not path_is(c, st, a, c.args[1 if m is P1 else 2], upto):
                return '%s is not the path it was given' % what
        elif m == 'start':
            if not same(st, a, mk('init', c.args[1])):
                return '%s is not where the text is wanted' % what
        elif m == 'length':
            lim = sub(mk('init', host.add_root(c.args[1], 8)), mk('init', c.args[1]))
            lo, hi = st.rng(sub(a, lim))
            if not (hi <= 1):
                return '%s is not the room there is' % what
        elif isinstance(m, tuple):
            if not same(st, a, c.args[m[1]]):
                return '%s is not what the caller passed' % what
        elif isinstance(m, int):
            if st.const_of(a) != m:
                return '%s is not %d' % (what, m)
    return None

def outcomes(st, r, lo, hi):
    """the state narrowed to lo <= r <= hi, or None"""
    s = st.copy()
    if s.limit(r, lo, hi) is False:
        return None
    a, b = s.rng(r)
    return s if a <= b else None

def result(c, ret, st, ev, how):
    r = ev[2]
    INFS = (-INF, -1), (1, INF)
    def want(s, lo, hi, when):
        a, b = s.rng(ret)
        if a < lo or b > hi:
            c.bad('result', 'reports %s when %s %s' % ('success' if hi < 0 else 'something else' if lo == hi == 0 else 'another value', ev[1], when), st)
            return False
        return True
    if how is ERR0:
        s = outcomes(st, r, 0, 0)
        if s is not None and not want(s, 0, 0, 'succeeds'):
            return
        for lo, hi in INFS:
            s = outcomes(st, r, lo, hi)
            if s is not None and not want(s, -INF, -1, 'fails'):
                return
    elif how is NEG:
        s = outcomes(st, r, 0, INF)
        if s is not None and not want(s, 0, 0, 'succeeds'):
            return
        s = outcomes(st, r, -INF, -1)
        if s is not None:
            want(s, -INF, -1, 'fails')
    elif how is PTR:
        s = outcomes(st, r, 0, 0)
        if s is not None and not want(s, -INF, -1, 'fails'):
            return
        if st.nonzero(r):
            want(st, 0, 0, 'succeeds')
    elif how is COUNT or how is FATCOUNT:
        n = r
        if how is FATCOUNT:
            for lo, hi in INFS:
                s = outcomes(st, r, lo, hi)
                if s is not None and not want(s, -INF, -1, 'fails'):
                    return
            st = outcomes(st, r, 0, 0)
            n = ev[4]
            if st is None:
                return
            if n is None:
                return c.bad('result', 'has no count of what %s transferred' % ev[1], st)
        s = outcomes(st, n, -INF, -1)
        if s is not None and not want(s, -INF, -1, 'fails'):
            return
        s = outcomes(st, n, 1, INF)
        if s is not None and not same(s, ret, n):
            a, b = s.rng(ret)
            return c.bad('result', 'reports another count than %s transferred' % ev[1], st)
        s = outcomes(st, n, 0, 0)
        if s is not None:
            a, b = s.rng(ret)
            fe = [e for e in calls(st, 'ferror')]
            if b > 0:
                return c.bad('result', 'reports data when %s transferred nothing' % ev[1], st)
            err = ev[1] == 'fread' and fe and st.nonzero(fe[-1][2])
            if err and b >= 0:
                return c.bad('result', 'reports no error when the host reports one', st)
            if ev[1] == 'fread' and not fe and b >= 0 and not zero_size(c, s):
                return c.bad('result', 'does not tell a failed read from the end of the file', st)
            if ev[1] == 'fread' and fe and st.rng(fe[-1][2]) == (0, 0) and b < 0:
                return c.bad('result', 'reports an error at the end of the file', st)
            if ev[1] == 'fwrite' and b >= 0 and not zero_size(c, s):
                return c.bad('result', 'reports no error when nothing could be written', st)
    elif how == 'value':
        s = outcomes(st, r, 0, INF)
        if s is not None and not same(s, ret, r):
            return c.bad('result', 'reports another value than %s' % ev[1], st)
        s = outcomes(st, r, -INF, -1)
        if s is not None:
            want(s, -INF, -1, 'fails')
    elif how == 'truth':
        s = outcomes(st, r, 0, 0)
        if s is not None and not want(s, 0, 0, 'is not set'):
            return
        for lo, hi in INFS:
            s = outcomes(st, r, lo, hi)
            if s is not None and not want(s, 1, 1, 'is set'):
                return
    elif how == 'entry':
        k = st.const_of(r)
        a, b, when = {1: (0, 0 if ev[1] != 'f_readdir' else 1, 'gives an entry'), 0: (1, 1, 'is at the end'), -1: (-INF, -1, 'fails')}[k]
        want(st, a, b, when)
    elif how is VOID:
        want(st, 0, 0, 'is done')

def zero_size(c, st):
    lo, hi = st.rng(c.args[2])
    return hi <= 0

def names(n):
    return (n,) + SAME.get(n, ())

def judge(c, ex, spec):
    name, args, how = spec
    done = 0
    for ret, st in ex:
        c.r.obl()
        if how == 'field':
            continue
        evs = calls(st, *names(name))
        if how == 'entry' or how == 'query':
            evs = evs[-1:]
        other = [e for e in calls(st) if e[1] not in names(name) and e[1] in CHANGES]
        if c.slot == 'm_open':
            other = []
            evs = evs[-1:]
        if other and how != 'field':
            c.bad('other-call', 'performs %s' % other[0][1], st)
            continue
        if not evs:
            lo, hi = st.rng(ret)
            if how == 'query':
                continue
            if hi >= 0:
                c.bad('not-done', 'succeeds without %s' % name, st)
            continue
        if len(evs) > 1:
            c.bad('repeated', 'performs %s more than once' % name, st)
            continue
        done += 1
        x = matches(c, st, evs[0], args)
        if x:
            c.bad('arguments', x, st)
            continue
        if c.slot == 'm_truncate' and name == 'ftruncate':
            fl = [e for e in calls(st, 'fflush') if same(st, e[5], c.file)]
            if not fl or st.ev.index(fl[0]) > st.ev.index(evs[0]) or outcomes(st, fl[0][2], -INF, -1) is not None and outcomes(st, fl[0][2], 0, 0) is None:
                c.bad('unflushed', 'shortens the file while data written to it may still be waiting', st)
                continue
        if how == 'query':
            fail = outcomes(st, evs[0][2], 0, 0) is None
            if fail and st.rng(ret)[1] >= 0:
                c.bad('result', 'reports a value when %s fails' % name, st)
            if not fail and not (ret.op == 'm' and root(evs[0][6]) is root(ret.a[1]) if len(evs[0]) > 6 and ret.op == 'm' and isinstance(ret.a[1], T) else False):
                c.bad('result', 'does not report what %s found' % name, st)
            continue
        result(c, ret, st, evs[0], how)
    return done

def field(w, e, st, fp, name):
    """a field of the FatFs file object in state st"""
    class Here:
        uid = 0
    return e.load(st.copy(), host.add_root(fp, w._fat[name]), ('i', 32), None, Here, ())

def fat_fields(r, w, c, e, ex):
    k = c.slot
    for ret, st in ex:
        pos, size = field(w, e, st, c.file, 'fptr'), field(w, e, st, c.file, 'size')
        if k == 'm_eof':
            ok = True
            for lo, hi, want in ((0, 0, True), (-INF, -1, False), (1, INF, False)):
                s = outcomes(st, sub(pos, size), lo, hi)
                if s is not None and e.truth(s, ret) is not want:
                    ok = False
        else:
            ok = same(st, ret, size if k == 'm_size' else pos)
        if not ok:
            c.bad('result', 'does not report the %s FatFs keeps' % {'m_eof': 'end', 'm_size': 'size', 'm_tell': 'position'}[k], st)

def seek(r, w, tu, f, st0, handle, vfs, ev0):
    dirs = dict(zip(('TO', 'REL', 'REV'), w.const('EVFS_SEEK_TO', 'EVFS_SEEK_REL', 'EVFS_SEEK_REV')))
    wh = {STDIO: {'TO': 0, 'REL': 1, 'REV': 2}, LFS: {'TO': 0, 'REL': 1, 'REV': 2}}.get(tu)
    for o, v in dirs.items():
        a = host.args_for(f, handle)
        a[2] = C(v)
        c = Case(r, w, tu, f, 'm_seek', a, vfs, 'from the %s' % {'TO': 'start', 'REL': 'position', 'REV': 'end'}[o])
        c.file = ev0[2] if tu == STDIO else ev0[6] if tu == LFS else ev0[5]
        c.lfs = ev0[5]
        p, e, ex = host.run(w, f, a, st0, modular=False)
        r.count('seek cases')
        n = 0
        for ret, st in ex:
            r.obl()
            evs = calls(st, *names(SEEK[tu]))
            if not evs:
                if st.rng(ret)[1] >= 0:
                    c.bad('not-done', 'succeeds without %s' % SEEK[tu], st)
                continue
            n += 1
            ev = evs[-1]
            off = a[1]
            if tu == FAT:
                x = matches(c, st, ev, (F,))
                want = off
                if o != 'TO':
                    cell = field(w, e, st0, c.file, 'fptr' if o == 'REL' else 'size')
                    want = add(off, cell) if o == 'REL' else sub(cell, off)
                if x is None and (not same(st, ev[6], want) and not (same(st, ev[6], ZERO) and st.rng(want)[1] <= 0)):
                    x = 'moves to another place than asked'
            else:
                x = matches(c, st, ev, (F, ANY, wh[o]) if tu == STDIO else (L, F, ANY, wh[o]))
                if x is None and not same(st, ev[6 if tu == STDIO else 7], off if o != 'REV' else sub(ZERO, off)):
                    x = 'moves to another place than asked'
            if x:
                c.bad('arguments', x, st)
            else:
                result(c, ret, st, ev, ERR0 if tu != LFS else NEG)
        if not n:
            raise Broken('no path of %s moves the file' % f.dname)

def fat_truncate(r, w, f, st0, handle, vfs, ev0):
    a = host.args_for(f, handle)
    c = Case(r, w, FAT, f, 'm_truncate', a, vfs)
    c.file = ev0[5]
    p, e, ex = host.run(w, f, a, st0, modular=False)
    for ret, st in ex:
        r.obl()
        tr = calls(st, 'f_truncate')
        lo, hi = st.rng(ret)
        if not tr:
            if hi >= 0:
                c.bad('not-done', 'succeeds without f_truncate', st)
            continue
        sk = calls(st, 'f_lseek')
        before = [x for x in sk if st.ev.index(x) < st.ev.index(tr[0])]
        after = [x for x in sk if st.ev.index(x) > st.ev.index(tr[0])]
        wrong = [x for x in calls(st) if not same(st, x[5], c.file)]
        size, pos = field(w, e, st0, c.file, 'size'), field(w, e, st0, c.file, 'fptr')
        if wrong:
            c.bad('arguments', 'works on another file', st)
        elif not before or not (same(st, before[-1][6], a[1]) or same(st, before[-1][6], size) and st.rng(sub(a[1], size))[0] >= 0):
            c.bad('arguments', 'cuts the file at another place than asked', st)
        elif hi >= 0 and any(outcomes(st, x[2], 0, 0) is None for x in sk + tr):
            c.bad('result', 'reports success when FatFs reports an error', st)
        elif hi < 0 and all(outcomes(st, x[2], 1, INF) is None for x in sk + tr):
            c.bad('result', 'reports an error when FatFs reports none', st)
        elif not after or not (same(st, after[-1][6], pos) or same(st, after[-1][6], before[-1][6]) and st.rng(sub(pos, before[-1][6]))[0] >= 0):
            c.bad('position', 'leaves the position somewhere else', st)

def check(r):
    r.rule = ('each method of the host-backed filesystems, in the state a successful open leaves: on every path it makes the host call it stands for, once, with the object the open '
              'gave it and the caller\'s arguments in place, and its result is the image of the call\'s result (success, failure, count, value, entry or end).')
    w = r.world('default')
    w._fat = w.host_const(('ff.h',), fptr='offsetof(FIL, fptr)', size='offsetof(FIL, obj.objsize)')
    rw = w.const('EVFS_RDWR') if False else w.const('EVFS_READ') | w.const('EVFS_WRITE')
    for tu in UNITS:
        if tu not in w.vfs_slots:
            raise Broken('%s registers no filesystem' % tu)
        spec = TABLE[tu]
        slots = w.slots_of(tu)
        of = host.opened(w, tu, 'm_open', rw)
        od = host.opened(w, tu, 'm_open_dir')
        if not of or not od:
            raise Broken('no successful open in %s' % tu)
        lfs = of[0][3][5] if tu == LFS else None
        for kind, opens in ((FM, of), (DM, od)):
            tabs = w.tables_of(tu, kind)
            if len(tabs) != 1:
                raise Broken('%s has %d tables of %s' % (tu, len(tabs), kind))
            st0, handle, vfs, ev0 = opens[0]
            for slot, f in sorted(tabs[0].items()):
                if f is None:
                    continue
                if slot in ('m_seek',):
                    seek(r, w, tu, f, st0, handle, vfs, ev0)
                    continue
                if slot == 'm_truncate' and tu == FAT:
                    fat_truncate(r, w, f, st0, handle, vfs, ev0)
                    r.count('methods')
                    continue
                if slot not in spec[kind]:
                    continue
                a = host.args_for(f, handle)
                c = Case(r, w, tu, f, slot, a, vfs)
                c.file = ev0[2] if tu == STDIO else ev0[6] if tu == LFS else ev0[5]
                c.lfs = ev0[5]
                p, e, ex = host.run(w, f, a, st0, modular=False)
                r.count('methods')
                if spec[kind][slot][2] == 'field':
                    r.obl(n=len(ex))
                    fat_fields(r, w, c, e, ex)
                elif not judge(c, ex, spec[kind][slot]):
                    if not r.viol:
                        raise Broken('no path of %s reaches %s' % (f.dname, spec[kind][slot][0]))
        v = host.vfs_arg()
        for slot, sp in sorted(spec['Evfs'].items()):
            f = slots.get(slot)
            if f is None:
                r.violation('%s:Evfs.%s' % (tu.split('/')[-1], slot), 'missing', slot, '%s has no %s' % (tu, slot))
                continue
            a = host.args_for(f, v)
            c = Case(r, w, tu, f, slot, a, v)
            c.lfs = lfs
            p, e, ex = host.run(w, f, a)
            r.count('methods')
            if not judge(c, ex, sp) and not r.viol:
                raise Broken('no path of %s reaches %s' % (f.dname, sp[0]))
    r.need('methods', 50)
    r.need('seek cases', 9)
