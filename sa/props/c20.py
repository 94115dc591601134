"""Reading a directory delivers every entry once; the dot entries are left out exactly when that is asked for."""
from suite import *
from trace import same
from labels import label
from engine import syms, sym_ctx, sym_uid
import contracts, host
import props.c11 as c11, props.c13 as c13
from host import UNITS, FM, DM, cell, filled, add_root

ASSUME = ['the directory functions of the host libraries deliver one entry after the other, each once',
          'the chain of headers of a romfs directory begins with its two dot entries, as the image tool writes it']
STDIO, LFS, FAT = UNITS
ROM = c13.ROM
READS = ('readdir', 'lfs_dir_read', 'f_readdir')
EQ = {'strcmp': None, 'strncmp': 2, 'memcmp': 2, 'strcasecmp': None, 'strcoll': None}

class Dirs(host.Host):
    """st.x: n = entries read in this call, name = the newest one's name, cmp = what its name was found to be (or not), bad = an entry was passed over"""
    off = {}
    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        m = eng.models
        if name in EQ and len(args) >= 2:
            for p, q in ((args[0], args[1]), (args[1], args[0])):
                t = contracts.text_at(eng, st, q)
                if t in ('.', '..') and p is st.x.get('name'):
                    if EQ[name] is not None:
                        n = st.const_of(args[2])
                        if n is None or n <= len(t):
                            continue
                    r = m.fresh('differs', ctx, ins)
                    def eq(s):
                        s.x['cmp'] = tuple(sorted(set(s.x.get('cmp', ())) | {(t, True)}))
                        if (t, False) in s.x['cmp'] or any(v and x != t for x, v in s.x['cmp']):
                            return False
                    def ne(s):
                        if s.exclude(r, 0) is False:
                            return False
                        s.x['cmp'] = tuple(sorted(set(s.x.get('cmp', ())) | {(t, False)}))
                        if (t, True) in s.x['cmp']:
                            return False
                    return m.fork(st, (ZERO, eq), (r, ne))
        if name in READS:
            self.left(eng, st)
        return None
    def again(self, eng, st, pre):
        """from here on what is known of the entry is mixed with what was known of those before it"""
        p = st.x.get('name')
        if p is None or st.x.get('seen'):
            return
        for t in [p] + [self.cellval(eng, st, p, i) for i in range(3)]:
            for s in syms(t):
                if (sym_ctx(s) + (sym_uid(s),))[:len(pre)] == pre:
                    self.left(eng, st)
                    st.x['seen'] = True
                    return
    def settle(self, eng, st):
        """what the entry may be called tells paths apart"""
        if st.x.get('name') is not None and not st.x.get('seen'):
            st.x['may'] = frozenset(self.can_be(eng, st))
    def left(self, eng, st):
        if st.x.get('n') and st.x.get('name') is not None and not st.x.get('seen'):
            if self.can_be(eng, st) - {'.', '..'}:
                st.x['bad'] = True
    def can_be(self, eng, st):
        """what the newest entry may be called"""
        facts = dict(st.x.get('cmp', ()))
        p = st.x.get('name')
        out = set()
        for t in ('.', '..'):
            if facts.get(t) is False or any(v and x != t for x, v in facts.items()):
                continue
            if all(self.byte(eng, st, p, i, (t + '\0')[i]) for i in range(len(t) + 1)):
                out.add(t)
        if not any(facts.values()):
            if not self.pinned(eng, st, p):
                out.add('other')
        return out
    def cellval(self, eng, st, p, i):
        class Here:
            uid = 0
        return eng.load(st.copy(), add_root(p, i), ('i', 8), eng.stack[-1][0].tu if eng.stack else self.tu, Here, ())
    def byte(self, eng, st, p, i, c):
        v = self.cellval(eng, st, p, i)
        if v.op in ('undef', 'uninit', 'agg'):
            return True
        s = st.copy()
        return s.limit(v, ord(c), ord(c)) is not False and s.rng(v)[0] <= s.rng(v)[1] and s.nonzero(sub(v, C(ord(c)))) is not True
    def pinned(self, eng, st, p):
        """the bytes themselves say that it is a dot entry"""
        got = ''
        for i in range(3):
            k = st.const_of(self.cellval(eng, st, p, i))
            if k is None:
                return False
            if k == 0:
                return got in ('.', '..')
            got += chr(k & 255)
        return False
    def hostdone(self, eng, st, name, args, r, ins):
        host.Host.hostdone(self, eng, st, name, args, r, ins)
        if name not in READS:
            return
        if name == 'readdir':
            ok, p = st.nonzero(r) is True, r
        elif name == 'lfs_dir_read':
            ok, p = st.rng(r)[0] > 0, args[2]
        else:
            ok, p = st.rng(r) == (0, 0), args[1]
        st.x.pop('seen', None)
        st.x.pop('may', None)
        st.x['n'] = min(st.x.get('n', 0) + 1, 2)
        st.x['cmp'] = ()
        st.x['name'] = add_root(p, self.off[name]) if ok else None

def forget(st):
    s = st.copy()
    s.ev = ()
    for k in ('n', 'cmp', 'name', 'bad', 'seen', 'may'):
        s.x.pop(k, None)
    return s

class Chain(c13.Arch):
    """the headers a romfs directory is read from, in order"""
    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        m = eng.models
        if name == 'romfs_read_file_header':
            h = args[2]
            def res(k):
                def f(s):
                    m.fill(s, h, self.hdr_size, ('hdr' if k else 'nohdr', ctx, ins.uid))
                    s.ev = s.ev[-12:] + (('host', 'header', ONE if k else ZERO, None, filled(s, h)) + tuple(args),)
                return f
            return m.fork(st, (ZERO, res(False)), (ONE, res(True)))
        return c13.Arch.call(self, eng, st, ins, name, tgt, args, ctx, fn)

def histories(r, w, tu, ctrl, st0, vfs, cmd, ro, hosted):
    """[(state, what, are dots left out)]"""
    out = []
    for v in (0, 1, 2, 1 << 31):
        got = c11.set_mode(w, tu, ctrl, st0, vfs, cmd, v)
        if v and not got:
            return None
        for s in got:
            out.append((forget(s), 'told to leave out the dot entries' if v else 'told to deliver everything', bool(v)))
            if v == 1:
                for s2 in c11.set_mode(w, tu, ctrl, s, vfs, cmd, 0):
                    out.append((forget(s2), 'told to deliver everything again', False))
            if v in (0, 1) and hosted:
                for x in (0, 1):
                    for s2 in c11.set_mode(w, tu, ctrl, s, vfs, ro, x):
                        out.append((forget(s2), 'told %s, then set %s' % ('to leave out the dot entries' if v else 'to deliver everything', 'read-only' if x else 'writable'), bool(v)))
    return out

def check(r):
    r.rule = ('history: a directory is opened, the filesystem is told to leave out the dot entries or not (and another setting changed), then an entry is read: on every path each entry read from the '
              'host and not delivered was found to be "." or ".." and leaving them out was asked for, and no delivered entry can be one of them then; a romfs directory follows its chain of headers, one each.')
    w = r.world('default')
    dots, ro = w.const('EVFS_CMD_SET_NO_DIR_DOTS', 'EVFS_CMD_SET_READONLY')
    Dirs.off = w.host_const(('sys/types.h', 'dirent.h', 'evfs.h'), readdir='offsetof(struct dirent, d_name)')
    Dirs.off.update(w.host_const(('ff.h', 'lfs.h'), f_readdir='offsetof(FILINFO, fname)', lfs_dir_read='offsetof(struct lfs_info, name)'))
    for tu in UNITS:
        if tu not in w.vfs_slots:
            raise Broken('%s registers no filesystem' % tu)
        ctrl = w.slots_of(tu).get('m_vfs_ctrl')
        od = host.opened(w, tu, 'm_open_dir')
        if not od or ctrl is None:
            raise Broken('no successful open of a directory in %s' % tu)
        f = w.tables_of(tu, DM)[0]['m_read']
        for st0, handle, vfs, ev0 in od:
            hist = histories(r, w, tu, ctrl, st0, vfs, dots, ro, True)
            if hist is None:
                if tu != FAT:
                    r.violation(label(w, ctrl), 'refused', 'cannot be told to leave out the dot entries', '%s:%d %s' % (tu, ctrl.line, ctrl.dname))
                hist = [(forget(st0), 'opened', False)]
            for s, what, without in hist:
                r.count('histories')
                args = host.args_for(f, handle)
                Dirs.tu = f.tu
                h = Dirs()
                p, e, ex = host.run(w, f, args, s, modular=False, scale=4, hook=lambda: h)
                for ret, st in ex:
                    r.obl()
                    def bad(kind, d):
                        r.discharged -= 1
                        r.violation(label(w, f), kind, d, '%s:%d %s of a filesystem %s: %s; calls into the host on this path: %s' % (f.tu.name, f.line, f.dname, what, d, host.show_calls(st)))
                    n = st.x.get('n', 0)
                    if not without:
                        if n != 1:
                            bad('skips', 'reads %s entries to deliver one' % ('several' if n else 'no'))
                        continue
                    if st.x.get('bad'):
                        bad('skips', 'passes over an entry that is not one of the dot entries')
                    elif not n:
                        bad('skips', 'reads no entry')
                    elif st.rng(ret)[0] <= 0 <= st.rng(ret)[1] and st.x.get('name') is not None:
                        k = h.can_be(e, st) & st.x.get('may', {'.', '..'}) & {'.', '..'}
                        if k:
                            bad('dots', 'delivers the entry %s' % sorted(k)[0])
                    elif st.rng(ret) != (0, 0) and st.x.get('name') is not None and h.can_be(e, st) & st.x.get('may', {'other'}) - {'.', '..'}:
                        bad('skips', 'ends at an entry instead of delivering it')
    romfs(r, w, dots)
    r.need('histories', 20)

def romfs(r, w, dots):
    tu = ROM
    if tu not in w.vfs_slots:
        raise Broken('%s registers no filesystem' % tu)
    H = w.host_const(('evfs.h', 'evfs/util/dhash.h', 'evfs/romfs_common.h'), next='offsetof(RomfsFileHead, offset)', spec='offsetof(RomfsFileHead, spec_info)', all='sizeof(RomfsFileHead)')
    c13.Arch.hdr_size = H['all']
    ctrl = w.slots_of(tu)['m_vfs_ctrl']
    of = w.slots_of(tu)['m_open_dir']
    v = host.vfs_arg()
    a = host.args_for(of, v)
    p, e, ex = host.run(w, of, a, hook=Chain)
    f = w.tables_of(tu, DM)[0]['m_read']
    rew = w.tables_of(tu, DM)[0]['m_rewind']
    args = host.args_for(f, a[2])
    n = 0
    def at(ev):
        return ev[6]
    def field(e, st, ev, k):
        c = cell(ev[4], H[k])
        return e.binop('and', c, C(-16), 32, st) if k == 'next' else c
    for ret, st0 in ex:
        if st0.rng(ret)[1] < 0:
            continue
        heads = [x for x in st0.ev if x[0] == 'host' and x[1] in ('romfs header', 'header') and x[2] is ONE]
        if not heads:
            r.violation(label(w, of), 'start', 'opens a directory without looking it up', '%s:%d %s' % (tu, of.line, of.dname))
            continue
        start = heads[-1]
        hist = histories(r, w, tu, ctrl, forget(st0), v, dots, None, False)
        if hist is None:
            r.violation(label(w, ctrl), 'refused', 'cannot be told to leave out the dot entries', '%s:%d %s' % (tu, ctrl.line, ctrl.dname))
            continue
        todo = []
        for s, what, without in hist:
            todo.append((s, what, without, None, 0))
        n += 1
        while todo:
            s, what, without, last, depth = todo.pop()
            r.count('histories')
            p, e2, ex2 = host.run(w, f, args, s, modular=False, hook=Chain)
            for ret2, st in ex2:
                r.obl()
                evs = [x for x in st.ev if x[0] == 'host' and x[1] == 'header']
                def bad(kind, d):
                    r.discharged -= 1
                    r.violation(label(w, f), kind, d, '%s:%d %s, %s entry, of a filesystem %s: %s; headers read: %s' % (
                        f.tu.name, f.line, f.dname, 'first' if last is None else 'a later', what, d, ', '.join(show(at(x)) for x in evs) or 'none'))
                lo, hi = st.rng(ret2)
                # where the chain goes
                want = []
                if last is None:
                    want.append(field(e2, st, start, 'next'))
                    k = 0
                    while k < len(evs) and k < (3 if without else 1):
                        want.append(field(e2, st, evs[k], 'spec' if k == 0 else 'next'))
                        k += 1
                else:
                    want.append(field(e2, st, last, 'next'))
                total = 4 if without and last is None else 2 if last is None else 1
                wrong = [k for k, x in enumerate(evs) if k >= len(want) or not same(st, at(x), want[k])]
                if wrong:
                    bad('chain', 'does not follow the chain of headers of the directory')
                    continue
                if hi < 0:
                    if not any(x[2] is ZERO for x in evs):
                        bad('error', 'reports an error although every header was read')
                    continue
                if any(x[2] is ZERO for x in evs):
                    bad('chain', 'goes on after a header that could not be read')
                    continue
                if (lo, hi) == (0, 0):
                    if len(evs) != total:
                        bad('skips', 'delivers an entry before or after the next one')
                        continue
                    if depth < 2:
                        s3 = forget(st)
                        todo.append((s3, what, without, evs[-1], depth + 1))
                        if depth == 0:
                            # from the start again
                            p, e3, ex3 = host.run(w, rew, host.args_for(rew, a[2]), s3, modular=False, hook=Chain)
                            for ret3, st3 in ex3:
                                if st3.rng(ret3)[1] >= 0:
                                    todo.append((forget(st3), what + ', rewound', without, None, 2))
                else:
                    left = want[len(evs)] if len(evs) < len(want) else None
                    if len(evs) != total - 1 or left is None or st.rng(left)[1] > 0 and st.nonzero(left) is not False:
                        t = st.copy()
                        if left is None or len(evs) != total - 1 or t.limit(left, 1, INF) is not False and t.rng(left)[0] <= t.rng(left)[1] and t.nonzero(left) is not False:
                            bad('ends', 'ends before the chain does')
    if not n:
        raise Broken('no successful open of a directory in %s' % tu)
