"""What littlefs and FatFs read and write reaches its own place in the image file."""
from suite import *
from trace import same
from labels import label
import contracts, host
from host import outcomes

ASSUME = ['the file calls of the library (opening, seeking, reading, writing, closing an image) do what they report',
          'a position fits the offset type the library was built with; with 64-bit offsets no part of it is computed in fewer bits']
LFS, FAT = 'src/littlefs_image.c', 'src/fatfs_image.c'
API = {'evfs_file_seek': 'seek', 'evfs_file_read': 'read', 'evfs_file_write': 'write', 'evfs_file_sync': 'sync', 'evfs_file_size': 'size', 'evfs_file_close': 'close',
       'evfs_file_truncate': 'truncate', 'evfs_file_tell': 'tell', 'evfs_file_ctrl': 'ctrl', 'evfs_file_eof': 'eof'}
OPEN = ('evfs_open', 'evfs_open_ex')
SLOT = {'m_' + v: v for v in API.values()}
HOSTS = ('lfs_mount', 'lfs_unmount', 'lfs_format', 'f_mount', 'f_unmount', 'f_mkfs', 'snprintf', 'sprintf', 'localtime_r', 'localtime', 'gmtime_r', 'gmtime', 'time')
NAMES = ('snprintf', 'sprintf', 'localtime_r', 'localtime', 'gmtime_r', 'gmtime', 'time')

class Image:
    """('img', operation, result, args...) for operations on the image file, ('host', name, result, args...) for calls into the volume library"""
    def __init__(self):
        self.at = {}            # state when the volume library was called
    def note(self, st, *ev):
        st.ev = st.ev + (ev,)
    def op(self, eng, st, what, args, ctx, ins):
        m = eng.models
        if what in ('read', 'write'):
            r = m.fresh('n_' + what, ctx, ins, rng=(-99, INF))
        elif what in ('size', 'tell'):
            r = m.fresh('n_' + what, ctx, ins, rng=(-99, INF))
        elif what == 'eof':
            r = m.fresh('n_eof', ctx, ins, rng=(0, 1))
        else:
            r = m.fresh('st_' + what, ctx, ins, rng=(-99, 0))
        self.note(st, 'img', what, r, *args)
        return [(r, st)]
    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        m = eng.models
        if name in ('f_mount', 'f_mkfs'):
            st.x['name'] = contracts.text_at(eng, st, args[1 if name == 'f_mount' else 0])
        if name in API:
            return self.op(eng, st, API[name], args, ctx, ins)
        if name in OPEN:
            h = m.fresh('handle', ctx, ins, rng=(1, INF), ptr=True)
            r = m.fresh('st_open', ctx, ins, rng=(-99, -1))
            def yes(s):
                eng.store(s, args[1], h, ins)
                self.note(s, 'img', 'open', ZERO, h, *args)
            def no(s):
                self.note(s, 'img', 'open', r, ZERO, *args)
            return m.fork(st, (r, no), (ZERO, yes))
        return None
    def icall(self, eng, st, ins, fv, slot, args, ctx, fn):
        if slot and slot[0] == 'EvfsFileMethods' and slot[1] in SLOT:
            return self.op(eng, st, SLOT[slot[1]], args, ctx, ins)
        return None
    def hostdone(self, eng, st, name, args, r, ins):
        if name in HOSTS:
            self.note(st, 'host', name, r if r is not None else ZERO, *(tuple(args) + ((st.x.get('name'),) if name in ('f_mount', 'f_mkfs') else ())))
            if name not in NAMES:
                self.at.setdefault(name, []).append(st.copy())

def run(w, f, args, st=None):
    for p in (0, 1, 2):
        h = Image()
        e, m = make(w, [h], opaque=False)
        m.inline_all = True
        m.narrow = set()
        e.PRECISION = p
        e.split_loops = True
        e.step_limit = 400000
        s = st.copy() if st is not None else State()
        s.ev = ()
        try:
            return h, e, m, split(f, e.run(f, args, s))
        except Incomplete as x:
            why = str(x)
    raise Broken('%s could not be followed: %s' % (f.dname, why))

def split(f, ex):
    """a status somebody else gave is looked at as a success and as an error"""
    out = []
    for ret, s in ex:
        if f.rty == ('i', 32) and ret is not None and ret.op != 'c' and s.nonzero(ret) is None and s.rng(ret)[0] < 0 <= s.rng(ret)[1] <= 0:
            for lo, hi in ((-INF, -1), (0, 0)):
                t = outcomes(s, ret, lo, hi)
                if t is not None:
                    out.append((ret, t))
        else:
            out.append((ret, s))
    return out

def show_ev(st):
    return '; '.join('%s(%s) gives %s' % (e[1], ', '.join(show(a) for a in e[3:] if isinstance(a, T)), show(e[2])) for e in st.ev if e[1] not in NAMES) or 'nothing'

def acts(st):
    return [e for e in st.ev if e[1] not in NAMES]

def narrow(m, t):
    """was a part of this position computed in fewer bits than it needs?"""
    if t in m.narrow and t.op != 's':
        return True
    if t.op == 'mul':
        return False
    if t.op == 'lin':
        for x, k in t.a[1]:
            if x.op != 'lin' and (x.op == 'mul' and x in m.narrow or k != 1 and scale(x, k) in m.narrow):
                return True
    return False

def product(st, a, b):
    if a.id > b.id:
        a, b = b, a
    return mk('mul', a, b)

class J:
    """one function judged on every path"""
    def __init__(self, r, w, f, what):
        self.r, self.w, self.f, self.what = r, w, f, what
    def bad(self, kind, text, st=None):
        self.r.discharged -= 1
        self.r.violation(label(self.w, self.f), kind, '%s%s' % (self.what, text),
                         '%s:%d %s%s: %s%s' % (self.f.tu.name, self.f.line, self.f.dname, self.what and ' (%s)' % self.what.strip(' :'), text, '' if st is None else '; on this path: ' + show_ev(st)))

def transfer(r, w, f, what, args, st, handle, place, length, buf, op, wide):
    """position once, transfer once, success exactly when all of it was transferred"""
    h, e, m, ex = run(w, f, args, st)
    j = J(r, w, f, what)
    good = 0
    seek_to = w.const('EVFS_SEEK_TO')
    for ret, s in ex:
        r.obl()
        evs = acts(s)
        ops = [x[1] for x in evs]
        if ops not in ([], ['seek'], ['seek', op]):
            j.bad('order', 'does not position the image once and then %s once' % op, s)
            continue
        if any(x[3] is not handle and not same(s, x[3], handle) for x in evs):
            j.bad('handle', 'uses another file than the one the volume was mounted from', s)
            continue
        if evs:
            x = evs[0]
            if not same(s, x[4], place) or s.const_of(x[5]) != seek_to:
                j.bad('place', 'positions the image at %s instead of %s' % (show(x[4]), show(place)), s)
                continue
            if wide and narrow(m, x[4]):
                j.bad('range', 'a part of the position %s is computed in 32 bits' % show(x[4]), s)
                continue
        if len(evs) == 2:
            x = evs[1]
            if not same(s, x[4], buf):
                j.bad('buffer', 'does not transfer the buffer it was given', s)
                continue
            if not same(s, x[5], length):
                j.bad('length', 'transfers %s bytes instead of %s' % (show(x[5]), show(length)), s)
                continue
        won = s.rng(ret)
        if won == (0, 0):
            good += 1
            if len(evs) != 2 or s.rng(evs[0][2]) != (0, 0) or not same(s, evs[1][2], length):
                j.bad('success', 'reports success although not everything was transferred', s)
        elif s.nonzero(ret) is True:
            # an error: something must have gone wrong
            if len(evs) == 2 and s.rng(evs[0][2]) == (0, 0):
                t = s.copy()
                d = sub(evs[1][2], length)
                if t.limit(d, 0, 0) is not False and t.rng(d) == (0, 0) and t.rng(length)[1] >= t.rng(length)[0] and s.nonzero(d) is not True:
                    j.bad('error', 'reports an error although everything was transferred', s)
            elif len(evs) == 1 and s.rng(evs[0][2]) == (0, 0) or not evs:
                j.bad('error', 'reports an error although nothing failed', s)
        else:
            j.bad('status', 'can report %s' % show(ret), s)
    if not good:
        j.bad('never', 'never succeeds')
        r.discharged += 1

def refused(r, w, f, what, args, ok=None):
    """no such volume: an error and nothing touched"""
    h, e, m, ex = run(w, f, args, None)
    j = J(r, w, f, what)
    for ret, s in ex:
        r.obl()
        if acts(s):
            j.bad('volume', 'does something for a volume there is none of', s)
        elif ret is not None and not (ok(s, ret) if ok else s.nonzero(ret) is True):
            j.bad('volume', 'accepts a volume there is none of', s)

def synced(r, w, f, what, args, st, handle):
    h, e, m, ex = run(w, f, args, st)
    j = J(r, w, f, what)
    good = 0
    for ret, s in ex:
        r.obl()
        evs = acts(s)
        if [x[1] for x in evs] != ['sync'] or not same(s, evs[0][3], handle):
            j.bad('sync', 'does not sync the image it was mounted from', s)
        elif s.rng(ret) == (0, 0):
            good += 1
            if s.rng(evs[0][2]) != (0, 0):
                j.bad('success', 'reports success although syncing failed', s)
        elif s.nonzero(ret) is not True:
            j.bad('status', 'can report %s' % show(ret), s)
        elif s.rng(evs[0][2]) == (0, 0):
            j.bad('error', 'reports an error although syncing worked', s)
    if not good:
        r.obl()
        j.bad('never', 'never succeeds')

def opens_with(w, s, ev, must, mustnot):
    k = s.const_of(ev[6])
    if k is None:
        return False
    b = lambda *n: [w.const('EVFS_' + x) for x in n]
    return all(k & x for x in b(*must)) and not any(k & x for x in b(*mustnot))

def closes(evs, s, h):
    return [n for n, x in enumerate(evs) if x[1] == 'close' and same(s, x[3], h)]

def live(evs, s):
    """handles opened and not closed, in order; None when a closed one is used"""
    out = []
    for x in evs:
        if x[0] != 'img':
            continue
        if x[1] == 'open':
            if x[3] is not ZERO:
                out.append(x[3])
        elif x[3] not in out:
            return None
        elif x[1] == 'close':
            out.remove(x[3])
    return out

def failed(evs, s, total=None, fmt=()):
    """did anything on this path (possibly) go wrong?"""
    for x in evs:
        if x[1] == 'open' and s.rng(x[2]) != (0, 0) or x[1] in ('seek', 'close', 'truncate', 'sync') and s.rng(x[2]) != (0, 0) or x[1] in fmt and s.rng(x[2]) != (0, 0):
            return True
        if x[1] == 'write' and not same(s, x[2], x[5]) and s.rng(x[2])[0] < 1:
            return True
        if x[1] == 'size' and total is not None and not same(s, x[2], total):
            return True
    return False

def mounting(r, w, f, what, args, total, mounts, volume, wide, path):
    """[(state, handle)] after mounting; every path judged"""
    h, e, m, ex = run(w, f, args, None)
    j = J(r, w, f, what)
    out = []
    for ret, s in ex:
        r.obl()
        evs = acts(s)
        ops = [x[1] for x in evs]
        lo, hi = s.rng(ret)
        if not evs:
            if not hi < 0:
                j.bad('mount', 'reports success without opening the image', s)
            elif s.nonzero(path) is True and all(s.nonzero(a) is True for a in args if a.op != 'c' and a in PTR_SYMS) and what != 'null':
                j.ctx = s
                pass
            continue
        if ops[0] != 'open' or ops.count('open') != 1 or not same(s, evs[0][4], path):
            j.bad('mount', 'does not open the image it was given once', s)
            continue
        if not opens_with(w, s, evs[0], ('READ', 'WRITE'), ('NO_EXIST', 'OPEN_OR_NEW', 'OVERWRITE', 'APPEND')):
            j.bad('mode', 'does not open the image for reading and writing an existing file', s)
            continue
        hd = evs[0][3]
        left = live(evs, s)
        if left is None:
            j.bad('closed', 'uses the image after closing it', s)
            continue
        if any(x in ops for x in ('write', 'truncate', 'lfs_format', 'f_mkfs')):
            j.bad('changes', 'changes the image before it is mounted', s)
            continue
        mts = [x for x in evs if x[1] == mounts]
        if mts and not volume(s, mts[-1]):
            j.bad('volume', 'mounts another volume than the one asked for', s)
            continue
        if total is not None:
            sz = [n for n, x in enumerate(evs) if x[1] == 'size']
            if mts and not (sz and sz[0] < ops.index(mounts) and same(s, evs[sz[0]][2], total)):
                j.bad('size', 'mounts an image of another size than the configured one', s)
                continue
            if wide and mts and any(narrow(m, t) or t.op == 'mul' and t in m.narrow for t in (total,)):
                j.bad('range', 'computes the size of the image in 32 bits', s)
                continue
        if (lo, hi) == (0, 0):
            if not mts or s.rng(mts[-1][2]) != (0, 0) or left != [hd]:
                j.bad('success', 'reports success without a mounted volume on the open image', s)
                continue
            out.append((s, hd))
        elif hi < 0:
            if left:
                j.bad('close', 'leaves the image open when mounting fails', s)
            elif mts and mts[-1][1] == mounts and s.rng(mts[-1][2]) == (0, 0):
                j.bad('error', 'reports an error although the volume was mounted', s)
            elif not failed([x for x in evs if x[1] != 'close'], s, total, (mounts,)):
                j.bad('error', 'reports an error although nothing failed', s)
        else:
            j.bad('status', 'can report %s' % show(ret), s)
    # what the volume library reads while it mounts comes from this image
    at = [s for s in h.at.get(mounts, ())]
    if not out:
        r.obl()
        j.bad('never', 'never succeeds')
    return out, at

def unmounting(r, w, f, what, args, st, hd, umount, volume):
    h, e, m, ex = run(w, f, args, st)
    j = J(r, w, f, what)
    for ret, s in ex:
        r.obl()
        evs = [x for x in acts(s)]
        ops = [x[1] for x in evs]
        if ops not in ([umount, 'close'], [umount, 'sync', 'close']) or not volume(s, evs[0]) or not same(s, evs[-1][3], hd):
            j.bad('unmount', 'does not unmount the volume and then close its image', s)

def making(r, w, f, what, args, total, fmt, volume, wide, path, reach):
    h, e, m, ex = run(w, f, args, None)
    j = J(r, w, f, what)
    good = 0
    seek_to = w.const('EVFS_SEEK_TO')
    for ret, s in ex:
        r.obl()
        evs = acts(s)
        ops = [x[1] for x in evs]
        lo, hi = s.rng(ret)
        if not evs:
            if not hi < 0:
                j.bad('success', 'reports success without making an image', s)
            continue
        if ops[0] != 'open' or not opens_with(w, s, evs[0], ('WRITE', 'NO_EXIST'), ('OVERWRITE', 'OPEN_OR_NEW')):
            j.bad('mode', 'can open an image that exists', s)
            continue
        if any(x[1] == 'open' and not same(s, x[4], path) for x in evs):
            j.bad('path', 'opens another file than the one it was asked to make', s)
            continue
        if len([x for x in evs if x[1] == 'open']) > 1 and any(not opens_with(w, s, x, ('READ', 'WRITE'), ('NO_EXIST', 'OVERWRITE', 'OPEN_OR_NEW', 'APPEND')) for x in evs[1:] if x[1] == 'open'):
            j.bad('mode', 'does not open the new image for reading and writing', s)
            continue
        left = live(evs, s)
        if left is None:
            j.bad('closed', 'uses the image after closing it', s)
            continue
        if left:
            j.bad('close', 'leaves the image open', s)
            continue
        # grown to its size
        grown = None
        for n, x in enumerate(evs):
            if x[1] == 'write':
                p = evs[n - 1]
                if p[1] != 'seek' or p[3] is not x[3] or s.const_of(p[5]) != seek_to or not same(s, add(p[4], x[5]), total):
                    j.bad('size', 'does not extend the image to exactly its size', s)
                    break
                if wide and narrow(m, p[4]):
                    j.bad('range', 'computes the size of the image in 32 bits', s)
                    break
                if s.rng(p[2]) != (0, 0):
                    j.bad('order', 'writes although positioning failed', s)
                    break
                grown = same(s, x[2], x[5]) or s.rng(x[2])[0] > 0 and s.const_of(x[5]) == 1
            elif x[1] == 'truncate':
                if not same(s, x[4], total):
                    j.bad('size', 'does not extend the image to exactly its size', s)
                    break
                grown = s.rng(x[2]) == (0, 0)
            elif x[1] == fmt:
                if not grown or live(evs[:n], s) is None or len(live(evs[:n], s)) != 1 or evs[n - 1][1] not in ('open', 'seek', 'sync'):
                    j.bad('order', 'formats an image that is not there completely', s)
                    break
                op = [y for y in evs[:n] if y[1] == 'open'][-1]
                if not opens_with(w, s, op, ('READ', 'WRITE'), ('OVERWRITE',)):
                    j.bad('mode', 'formats an image that cannot be read and written', s)
                    break
                if not volume(s, x):
                    j.bad('volume', 'formats another volume than the one asked for', s)
                    break
        else:
            if (lo, hi) == (0, 0):
                good += 1
                if fmt not in ops or not grown or failed(evs, s, None, (fmt,)):
                    j.bad('success', 'reports success although the image was not made completely', s)
            elif hi < 0:
                if not failed(evs, s, None, (fmt,)):
                    j.bad('error', 'reports an error although nothing failed', s)
            else:
                j.bad('status', 'can report %s' % show(ret), s)
    # what formatting writes goes to the new image
    r.obl()
    at = h.at.get(fmt, ())
    for s in at:
        evs = acts(s)[:-1]
        hd = live(evs, s)
        if hd and not reach(s, hd[0]):
            j.bad('handle', 'formats while the volume does not lead to the new image', s)
            break
    if not good:
        r.obl()
        j.bad('never', 'never succeeds')

def first_handle(w, f, args, st):
    """the file a transfer function uses in this state"""
    h, e, m, ex = run(w, f, args, st)
    got = {x[3] for ret, s in ex for x in acts(s)[:1]}
    return got.pop() if len(got) == 1 else None

def volume_text(s, ev, p, k):
    """is this call made with the name of volume k?"""
    for x in reversed(s.ev[:[n for n, y in enumerate(s.ev) if y is ev][0]]):
        if x[1] in ('snprintf', 'sprintf') and same(s, x[3], p):
            return any(isinstance(a, T) and s.const_of(a) == k for a in x[(6 if x[1] == 'snprintf' else 5):])
    return ev[-1] == '%d:' % k

def named(a):
    x = mk('s', 'arg', (), 90, a)
    PTR_SYMS.add(x)
    DEFAULT_RNG[x] = (1, INF)
    return x

def nonnull(f):
    return arg_syms(f)

def littlefs(r, w, wide):
    fn = lambda n: w.fn(n, LFS) or w.fn(n)
    need = ('littlefs_make_image', 'littlefs_mount_image', 'littlefs_unmount_image', 'littlefs_image_read', 'littlefs_image_prog', 'littlefs_image_erase', 'littlefs_image_sync')
    f = {n: fn(n) for n in need}
    if None in f.values():
        raise Broken('no %s' % [n for n in need if f[n] is None][0])
    o = w.host_const(('lfs.h',), bs='offsetof(struct lfs_config, block_size)', bc='offsetof(struct lfs_config, block_count)', cfg='offsetof(lfs_t, cfg)', ctx='offsetof(struct lfs_config, context)')
    cfg, lfs, path = named('the configuration'), named('the volume'), named('the image path')
    add_root = contracts.add_root
    fld = lambda k: mk('init', add_root(cfg, o[k])) if o[k] else mk('init', cfg)
    ctxp = fld('ctx')
    PTR_SYMS.add(ctxp)
    bs, bc = fld('bs'), fld('bc')
    total = product(None, bs, bc)
    r.count('image functions', len(need))
    args = lambda n, **kw: [kw.get(a[0].lstrip('%').split('.')[0], b) for a, b in zip(f[n].params, nonnull(f[n]))]
    g = f['littlefs_mount_image']
    vol = lambda s, x: same(s, x[3], lfs) and same(s, x[4], cfg)
    out, at = mounting(r, w, g, '', [path, cfg, lfs], total, 'lfs_mount', vol, wide, path)
    states = [(s, hd, '') for s, hd in out]
    for s in at:
        hd = [x[3] for x in acts(s) if x[1] == 'open' and x[3] is not ZERO]
        if hd:
            states.append((s, hd[-1], 'while mounting: '))
    seen = set()
    for s, hd, what in states:
        if (hd, what) in seen:
            continue
        seen.add((hd, what))
        s = s.copy()
        s.mem[add_root(lfs, o['cfg'])] = cfg
        for n, op in (('littlefs_image_read', 'read'), ('littlefs_image_prog', 'write')):
            a = arg_syms(f[n])
            a[0] = cfg
            transfer(r, w, f[n], what, a, s, hd, add(product(None, a[1], bs), a[2]), a[4], a[3], op, wide)
        a = arg_syms(f['littlefs_image_sync'])
        a[0] = cfg
        synced(r, w, f['littlefs_image_sync'], what, a, s, hd)
        a = arg_syms(f['littlefs_image_erase'])
        a[0] = cfg
        h, e, m, ex = run(w, f['littlefs_image_erase'], a, s)
        for ret, t in ex:
            r.obl()
            if t.rng(ret) != (0, 0) or any(x[1] in ('close', 'open', 'truncate', 'lfs_format') for x in acts(t)):
                J(r, w, f['littlefs_image_erase'], what).bad('erase', 'does more than preparing a block', t)
        if not what:
            unmounting(r, w, f['littlefs_unmount_image'], '', [lfs], s, hd, 'lfs_unmount', lambda t, x: same(t, x[3], lfs))
    rd = f['littlefs_image_read']
    def reach(s, hd):
        a = arg_syms(rd)
        a[0] = cfg
        return first_handle(w, rd, a, s) is hd
    making(r, w, f['littlefs_make_image'], '', [path, cfg], total, 'lfs_format', lambda s, x: same(s, x[4], cfg), wide, path, reach)

def fatfs(r, w, wide):
    fn = lambda n: w.fn(n, FAT) or w.fn(n)
    need = ('fatfs_make_image', 'fatfs_mount_image', 'fatfs_unmount_image', 'disk_initialize', 'disk_status', 'disk_read', 'disk_write', 'disk_ioctl', 'get_fattime')
    f = {n: fn(n) for n in need}
    if None in f.values():
        raise Broken('no %s' % [n for n in need if f[n] is None][0])
    r.count('image functions', len(need))
    c = w.host_const(('ff.h', 'diskio.h'), vols='FF_VOLUMES', ss='FF_MAX_SS', sync='CTRL_SYNC', count='GET_SECTOR_COUNT', size='GET_SECTOR_SIZE', block='GET_BLOCK_SIZE',
                     noinit='STA_NOINIT', noerr='RES_OK', wword='sizeof(WORD)', wdword='sizeof(DWORD)', wlba='sizeof(LBA_t)')
    path = named('the image path')
    fs = {}
    handles = {}
    for k in range(min(c['vols'], 3)):
        K = C(k)
        what = 'volume %d: ' % k
        def vol(s, x):
            fs.setdefault(k, set()).add(x[3])
            return volume_text(s, x, x[4], k) and s.const_of(x[5]) == 1
        out, at = mounting(r, w, f['fatfs_mount_image'], what, [path, K], None, 'f_mount', vol, wide, path)
        states = [(s, hd, what) for s, hd in out]
        for s in at:
            hd = [x[3] for x in acts(s) if x[1] == 'open' and x[3] is not ZERO]
            if hd:
                states.append((s, hd[-1], what + 'while mounting: '))
        seen = set()
        for s, hd, wh in states:
            if (hd, wh) in seen:
                continue
            seen.add((hd, wh))
            for n, op in (('disk_read', 'read'), ('disk_write', 'write')):
                a = arg_syms(f[n])
                a[0] = K
                transfer(r, w, f[n], wh, a, s, hd, scale(a[2], c['ss']), scale(a[3], c['ss']), a[1], op, wide)
            for n in ('disk_initialize', 'disk_status'):
                h, e, m, ex = run(w, f[n], [K], s)
                for ret, t in ex:
                    r.obl()
                    if t.rng(ret) != (0, 0) or any(x[1] != 'size' for x in acts(t)):
                        J(r, w, f[n], wh).bad('state', 'does not report the volume as ready', t)
            ioctl(r, w, f['disk_ioctl'], wh, K, s, hd, c)
            if 'mounting' not in wh:
                unmounting(r, w, f['fatfs_unmount_image'], wh, [K], s, hd, 'f_mount', lambda t, x: t.const_of(x[3]) == 0 and volume_text(t, x, x[4], k))
        def reach(s, hd):
            a = arg_syms(f['disk_read'])
            a[0] = K
            return first_handle(w, f['disk_read'], a, s) is hd
        a = arg_syms(f['fatfs_make_image'])
        making(r, w, f['fatfs_make_image'], what, [path, K, a[2]], a[2], 'f_mkfs', lambda s, x: volume_text(s, x, x[3], k), wide, path, reach)
    r.obl()
    if any(fs[a] & fs[b] for a in fs for b in fs if a < b):
        J(r, w, f['fatfs_mount_image'], '').bad('volume', 'two volumes share one filesystem object')
    # volumes there are none of
    for n in ('disk_read', 'disk_write', 'disk_ioctl', 'disk_initialize', 'disk_status', 'fatfs_mount_image', 'fatfs_make_image', 'fatfs_unmount_image'):
        k = 1 if n in ('fatfs_mount_image', 'fatfs_make_image') else 0
        a = arg_syms(f[n])
        for v in (c['vols'], c['vols'] + 1, 255):
            a = list(a)
            a[k] = C(v)
            ok = None
            if n in ('disk_initialize', 'disk_status'):
                ok = lambda s, ret: s.const_of(ret) is not None and s.const_of(ret) & c['noinit']
            elif n.startswith('fatfs'):
                ok = lambda s, ret: s.rng(ret)[1] < 0
            refused(r, w, f[n], 'volume %s: ' % ('number %d' % v if v == 255 else 'number past the last'), a, ok)
    clock(r, w, f['get_fattime'])

def ioctl(r, w, f, what, K, st, hd, c):
    unknown = arg_syms(f)[1]
    def cmd(v):
        a = arg_syms(f)
        a[0] = K
        a[1] = C(v)
        return a
    synced(r, w, f, what + 'sync: ', cmd(c['sync']), st, hd)
    for name, k, width, val in (('the sector count', 'count', 'wlba', None), ('the sector size', 'size', 'wword', c['ss']), ('the block size', 'block', 'wdword', c['ss'])):
        a = cmd(c[k])
        class W2(Image):
            pass
        stores = []
        h, e, m, ex = run_stores(w, f, a, st, stores)
        j = J(r, w, f, what + name + ': ')
        good = 0
        for ret, s in ex:
            r.obl()
            evs = acts(s)
            v = s.mem.get(a[2])
            won = s.rng(ret) == (0, 0)
            if not won and s.nonzero(ret) is not True:
                j.bad('status', 'can report %s' % show(ret), s)
                continue
            if any(x[1] != 'size' or not same(s, x[3], hd) for x in evs):
                j.bad('ioctl', 'does more than asking the image its size', s)
                continue
            if not won:
                if not any(s.rng(x[2])[0] < 0 for x in evs):
                    j.bad('error', 'reports an error although nothing failed', s)
                elif v is not None:
                    j.bad('ioctl', 'stores an answer although it fails', s)
                continue
            good += 1
            if v is None:
                j.bad('ioctl', 'reports success without an answer', s)
                continue
            wd = {x[1] for x in stores if x[0] is a[2]}
            if wd != {8 * c[width]}:
                j.bad('ioctl', 'stores an answer of %s bits where FatFs has %d' % (wd, 8 * c[width]), s)
            if val is not None:
                if s.const_of(v) is None or not (s.const_of(v) == val or k == 'block' and s.const_of(v) in (1,)):
                    j.bad('ioctl', 'answers %s instead of %d' % (show(v), val), s)
            else:
                if not evs or s.rng(evs[-1][2])[0] < 0:
                    j.bad('ioctl', 'answers although the size of the image is not known', s)
                elif not (v.op in ('sdiv', 'udiv') and same(s, v.a[0], evs[-1][2]) and v.a[1] is C(c['ss']) or v.op in ('ashr', 'lshr') and same(s, v.a[0], evs[-1][2]) and 1 << (s.const_of(v.a[1]) or 0) == c['ss']):
                    j.bad('ioctl', 'answers %s instead of the size of the image in sectors' % show(v), s)
        if not good:
            r.obl()
            j.bad('never', 'never succeeds')
    # other commands
    known = {c['sync'], c['count'], c['size'], c['block']}
    for v in [x for x in range(0, 8) if x not in known] + [12, 255]:
        a = cmd(v)
        h, e, m, ex = run(w, f, a, st)
        for ret, s in ex:
            r.obl()
            if s.rng(ret) == (0, 0) and (acts(s) or s.mem.get(a[2]) is not None):
                J(r, w, f, what + 'command %d: ' % v).bad('ioctl', 'does something for a command it does not know', s)

def run_stores(w, f, a, st, out):
    global Image
    old = Image
    class S(old):
        def store(self, eng, st, addr, v, ins):
            if ins.op == 'store' and ins.ty[0] == 'i':
                out.append((addr, ins.ty[1]))
    Image = S
    try:
        return run(w, f, a, st)
    finally:
        Image = old

def clock(r, w, f):
    """the time FatFs stamps files with: local time now, in its own encoding"""
    h, e, m, ex = run(w, f, arg_syms(f))
    o = w.host_const(('evfs.h',), sec='offsetof(struct tm, tm_sec)', min='offsetof(struct tm, tm_min)', hour='offsetof(struct tm, tm_hour)', mday='offsetof(struct tm, tm_mday)',
                     mon='offsetof(struct tm, tm_mon)', year='offsetof(struct tm, tm_year)')
    j = J(r, w, f, '')
    for ret, s in ex:
        r.obl()
        cells = {}
        def flat(t):
            if t.op == 'or':
                return add(flat(t.a[0]), flat(t.a[1]))
            return t
        lt = [x for x in s.ev if x[1] in ('localtime_r', 'localtime')]
        t = flat(ret)
        ok = t.op == 'lin' and lt and not [x for x in s.ev if x[1].startswith('gmtime')]
        if ok:
            want = {'year': 1 << 25, 'mon': 1 << 21, 'mday': 1 << 16, 'hour': 1 << 11, 'min': 1 << 5}
            const = norm((-80 << 25) + (1 << 21), 32)
            got = {}
            sec = False
            for x, k in t.a[1]:
                if x.op == 'm':
                    got[x.a[2]] = k
                elif x.op in ('ashr', 'lshr', 'sdiv', 'udiv') and k == 1 and x.a[0].op == 'm' and x.a[0].a[2] == o['sec'] and s.const_of(x.a[1]) == (1 if x.op in ('ashr', 'lshr') else 2):
                    sec = True
                else:
                    sec = None
                    break
            ok = sec and got == {o[n]: v for n, v in want.items()} and norm(t.a[0], 32) == const
        if not ok:
            j.bad('clock', 'does not give the local time in the encoding of FatFs (%s)' % show(ret), None)

def check(r):
    r.rule = ('mounting an image, then each block device function in the state mounting left: the file used is the one mounting opened, the position passed to it is block * block size + offset '
              '(sector * sector size), the length and buffer are the caller\'s, and the result is success exactly when the image transferred all of it; '
              'making, mounting and unmounting perform their steps in order and never touch an existing image when making one.')
    for cfg in ('default', 'off64'):
        w = r.world(cfg)
        littlefs(r, w, cfg == 'off64')
        fatfs(r, w, cfg == 'off64')
    r.need('image functions', 30)
