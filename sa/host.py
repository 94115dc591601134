"""Calls into a host filesystem (the C library, littlefs, FatFs) recorded along the paths of the methods
that wrap it, and the history `open, then the method` they are judged in."""
from suite import *
from trace import same
import contracts
add_root = contracts.add_root

UNITS = ('src/stdio_fs.c', 'src/littlefs_fs.c', 'src/fatfs_fs.c')
FM, DM = 'EvfsFileMethods', 'EvfsDirMethods'
SKIP = ('str', 'mem', 'llvm', '__errno', 'malloc', 'free', 'calloc', 'pthread', 'mtx', '__ctype', 'is', 'time', 'localtime', 'dh_')

class Host:
    """('host', name, result, site, extra, args...) events; the newest one of a site stands for it.
    ('path', name, ONE/ZERO, buffer, text) events for paths made absolute"""
    def hostdone(self, eng, st, name, args, r, ins):
        if name.startswith(SKIP):
            return
        extra = ()
        if name == 'mktime':
            extra = mk('tm', *[st.mem.get(add_root(args[0], 4 * k), ZERO) for k in range(6)])
        elif name in ('f_read', 'f_write'):
            extra = st.mem.get(args[3])
        elif name in ('fopen', 'freopen'):
            extra = text_at(eng, st, args[1])
        elif name in FILLS:
            extra = filled(st, args[FILLS[name]])
        if name in ENTRY:       # a loop over entries: only what the newest call said
            ok = st.nonzero(r) if name != 'f_readdir' else st.rng(r) == (0, 0)
            bad = st.rng(r)[1] < 0 if name == 'lfs_dir_read' else not ok if name == 'f_readdir' else \
                not ok and any(k.op == 's' and k.a[0] == 'errno' and st.nonzero(v) for k, v in st.mem.items())
            st.ev = tuple(e for e in st.ev if e[1] != name) + (('host', name, C(-1) if bad else ONE if ok else ZERO, name, r if name == 'readdir' and ok else extra if isinstance(extra, T) else None) + tuple(args),)
            return
        site = (ins.uid, tuple(x[1] for x in eng.stack))
        st.ev = tuple(e for e in st.ev if e[3:4] != (site,)) + (('host', name, r if r is not None else ZERO, site, extra if isinstance(extra, (T, str)) else None) + tuple(args),)
    def pathok(self, eng, st, name, args, ins):
        k = contracts.PATHAPI[name]
        st.ev = st.ev + (('path', name, ONE, None, None, st.mem.get(args[k], ZERO)) + tuple(a for n, a in enumerate(args) if 0 < n < k),)

FILLS = {'stat': 1, 'lstat': 1, 'fstat': 1, 'f_stat': 1, 'lfs_stat': 2, 'lfs_dir_read': 2, 'f_readdir': 1}

def filled(st, p):
    """what a call put at p: cell(filled, offset) names one of its fields"""
    r, off = off_of(p)
    for lo, hi, kind in st.reg.get(r, ()):
        if off is not None and lo <= off < hi and isinstance(kind, tuple):
            return mk('fields', kind, r, off)

def cell(fields, off):
    return mk('m', fields.a[0], fields.a[1], fields.a[2] + off)

ENTRY = ('readdir', 'lfs_dir_read', 'f_readdir')

text_at = contracts.text_at

def vfs_arg():
    a = mk('s', 'arg', (), 0, 'the filesystem')
    PTR_SYMS.add(a)
    DEFAULT_RNG[a] = (1, INF)
    return a

def args_for(f, first=None):
    a = arg_syms(f)
    if first is not None:
        a[0] = first
    return a

def run(w, f, args, st=None, prec=(0, 1, 2, 3), modular=True, scale=1, hook=None):
    """every outcome of f: (level, engine, [(result, state)])"""
    for p in prec:
        h = (hook or Host)()
        e, m = make(w, [h], opaque=False)
        m.inline_all = True
        m.modular = modular
        e.PRECISION = p
        e.split_loops = True
        e.SCALE = scale
        e.step_limit = 300000 * scale
        bind_self(w, m, f, args)
        s = st.copy() if st is not None else State()
        try:
            return p, e, e.run(f, args, s)
        except Incomplete as x:
            why = str(x)
    raise Incomplete(why)

def calls(st, *names):
    return [e for e in st.ev if e[0] == 'host' and (not names or e[1] in names)]

def show_calls(st):
    return '; '.join('%s(%s) gives %s' % (e[1], ', '.join(show(a) for a in e[5:]), show(e[2])) for e in st.ev if e[0] == 'host') or 'none'

def opened(w, tu, slot, flags=None):
    """[(state after a successful open, handle, filesystem, the open event)]"""
    f = w.slots_of(tu).get(slot)
    if f is None:
        return []
    v = vfs_arg()
    a = args_for(f, v)
    if flags is not None:
        a[3] = C(flags)
    p, e, ex = run(w, f, a)
    out = []
    for ret, st in ex:
        lo, hi = st.rng(ret)
        if hi < 0:
            continue
        evs = [x for x in calls(st) if x[1] in OPENS]
        if not evs:
            continue
        s = st.copy()
        s.ev = ()
        out.append((s, a[2], v, evs[-1]))
    return out

OPENS = ('fopen', 'opendir', 'lfs_file_open', 'lfs_dir_open', 'f_open', 'f_opendir', 'lfs_file_opencfg', 'open', 'fdopen', 'fdopendir')

LFS_FLAGS = {1: 'read', 2: 'write', 0x100: 'create', 0x200: 'exclusive', 0x400: 'truncate', 0x800: 'append'}
FAT_FLAGS = {1: 'read', 2: 'write', 4: 'create exclusive', 8: 'create truncate', 0x10: 'create', 0x20: 'append'}

def open_mode(st, ev):
    """what a host call that opens a file asks for, or None"""
    if ev[1] in ('fopen', 'freopen'):
        m = ev[4]
        if not isinstance(m, str) or m[:1] not in ('r', 'w', 'a'):
            return None
        out = {'r': {'read'}, 'w': {'write', 'create', 'truncate'}, 'a': {'write', 'create', 'append'}}[m[0]]
        if '+' in m[1:].split(',')[0]:
            out |= {'read', 'write'}
        if 'x' in m[1:].split(',')[0] and m[0] != 'r':
            out |= {'exclusive'}
    else:
        tab = LFS_FLAGS if ev[1] in ('lfs_file_open', 'lfs_file_opencfg') else FAT_FLAGS if ev[1] == 'f_open' else None
        k = st.const_of(ev[8 if tab is LFS_FLAGS else 7]) if tab else None
        if k is None:
            return None
        out = set()
        for b, t in tab.items():
            if k & b:
                out |= set(t.split())
    if 'exclusive' in out and 'create' in out:
        out -= {'truncate'}         # a new file has no content to lose
    return out

MODIFY = {'fwrite', 'fputs', 'fputc', 'fprintf', 'vfprintf', 'ftruncate', 'truncate', 'remove', 'unlink', 'rmdir', 'rename', 'mkdir', 'mkfifo', 'link', 'symlink', 'chmod', 'utime',
          'lfs_file_write', 'lfs_file_truncate', 'lfs_remove', 'lfs_rename', 'lfs_mkdir', 'lfs_format', 'lfs_setattr', 'lfs_removeattr', 'lfs_file_setattr',
          'f_write', 'f_puts', 'f_putc', 'f_printf', 'f_truncate', 'f_expand', 'f_unlink', 'f_rename', 'f_mkdir', 'f_chmod', 'f_utime', 'f_mkfs', 'f_setlabel', 'f_forward'}

def modifies(st, ev):
    if ev[0] != 'host':
        return False
    if ev[1] in MODIFY:
        return True
    if ev[1] in ('fopen', 'freopen', 'lfs_file_open', 'lfs_file_opencfg', 'f_open'):
        m = open_mode(st, ev)
        return m is None or bool(m - {'read'})
    return False

def outcomes(st, r, lo, hi):
    """the state narrowed to lo <= r <= hi, or None"""
    s = st.copy()
    if s.limit(r, lo, hi) is False:
        return None
    a, b = s.rng(r)
    return s if a <= b else None
