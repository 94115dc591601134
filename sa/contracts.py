"""Contracts for everything outside the analysed code: libc, pthreads/C11 threads, FatFs, littlefs,
the hash table interface, the path API and the virtual methods of a filesystem underneath.

A contract yields the possible outcomes (return value, effect on the abstract store); an outcome
that callers are expected to tell apart (success / failure of an allocation, an open, a lookup) is
its own path, everything else stays symbolic with an interval.
"""
from engine import *
import effects

ERRLO = -99
NOISE = {'evfs__err_printf', 'evfs__dbg_printf', 'printf', 'fprintf', 'vfprintf', 'putc', 'puts',
         'putchar', 'fputs', 'fputc'}

def byte_at(eng, st, a):
    v = st.mem.get(a)
    if v is None:
        r, off = off_of(a)
        if off is None:
            return None
        if r.op == 'obj' and r.a[0] == 'glob':
            g = eng.objmeta.get(r)
            if g is not None and (g.const or g.init is not None and eng.models.immutable_global(r)):
                v = eng.const_load(g, off, ('i', 8))
        for lo, hi, kind in st.reg.get(r, ()):
            if v is None and lo <= off < hi:
                if kind == 'zero':
                    v = ZERO
                elif kind[0] in ('cst', 'cpy'):
                    g = eng.objmeta.get(kind[1])
                    if g is not None and (g.const or g.init is not None and eng.models.immutable_global(kind[1])):
                        v = eng.const_load(g, off + kind[2], ('i', 8))
                break
    if v is None or v.op in ('undef', 'uninit'):
        return None
    return v.a[0] if v.op == 'c' else st.const_of(v)

def text_at(eng, st, p, n=16):
    """the constant text at p, when it is one"""
    out = ''
    for i in range(n):
        c = byte_at(eng, st, add_root(p, i))
        if c is None:
            return None
        if c & 255 == 0:
            return out
        out += chr(c & 255)
    return None

class Models:
    """typestate components: locks, heap, resources, storage results"""
    stable_sym_index = False

    def __init__(self, prog, eff=None):
        self.prog = prog
        self.eff = eff or effects.Effects(prog)
        self.hooks = []          # clients: objects with optional event methods
        self.self_vfs = None     # term of the receiver vfs
        self.self_slots = {}     # slot field -> Function (resolved virtual self calls)
        self.self_fh = None
        self.fh_methods = None   # {field: Function}
        self.fork_io = True
        self.opaque = True       # abstract effect-free loops by their mod/ref summary
        self.extern = set()      # additional function names treated by contract
        self.track_io = False
        self.io_ignore = ()
        self.io_asked = True
        self.modular = False     # path API by contract inside its own unit too
        self.inline = set()      # never abstract these
        self.accesses = None
        self.narrow = None       # set of values computed in 32 bits, when asked for

    # ------------------------------------------------------------- events
    def emit(self, ev, st, *a):
        for h in self.hooks:
            f = getattr(h, ev, None)
            if f:
                f(self.eng, st, *a)

    def on_access(self, st, addr, r, ins, is_store):
        if self.accesses is not None:
            self.emit('access', st, addr, r, ins, is_store)

    def on_store(self, st, addr, v, ins):
        for h in self.hooks:
            f = getattr(h, 'store', None)
            if f:
                f(self.eng, st, addr, v, ins)

    def on_uninit(self, st, r, off, ins):
        pass

    def on_undef_use(self, st, t):
        d = 'value'
        if t.op == 'uninit':
            d = self.describe(t.a[0], t.a[1])
        self.eng.report('uninit', 'uses ' + d + ' before it is set', st)

    def on_null(self, st, addr, ins):
        self.eng.report('null', 'dereferences a null pointer (%s)' % ins.op, st)

    def on_branch(self, st, c, ins):
        self.emit('branch', st, c, ins)

    def on_div(self, st, a, b, ins):
        lo, hi = st.rng(b) if b.op not in ('undef', 'uninit') else (-INF, INF)
        if lo <= 0 <= hi and st.nonzero(b) is not True:
            self.eng.report('div', 'divides by a value that can be zero', st)

    def on_loop_enter(self, st, fn, blk, ctx):
        self.emit('loop_enter', st, fn, blk, ctx)

    def on_backedge(self, st, fn, blk, ctx):
        self.emit('backedge', st, fn, blk, ctx)

    def immutable_global(self, r):
        """a file-scope table nobody stores to keeps its initialiser"""
        return self.eff.unmodified_global(r.a[1], r.a[2])

    def check_access(self, st, addr, r, ins):
        if st.heap and st.heap.get(r) == 'freed':
            self.eng.report('uaf', 'uses memory after it was freed', st)
            return True
        return False

    def describe(self, r, off=None):
        if r.op == 'obj':
            if r.a[0] == 'alloca':
                m = self.eng.objmeta.get(r)
                s = r.a[-1].lstrip('%')
                if off is not None and m and m[2][0] == 's':
                    f = m[1].di_fields(m[2][1])
                    for o, n in f or ():
                        if o == off:
                            s += '.' + n
                return "'%s'" % s
            return '%s object' % r.a[0]
        return 'memory'

    # ------------------------------------------------------------- helpers
    def fork(self, st, *outs):
        """outs: list of (ret, function(state) or None)"""
        res = []
        for i, (ret, f) in enumerate(outs):
            s = st if i == len(outs) - 1 else st.copy()
            if f is not None:
                if f(s) is False:
                    continue
            res.append((ret, s))
        return res

    def fresh(self, kind, ctx, ins, rng=None, ptr=False):
        return self.eng.sym(kind, ctx + (ins.uid,), ins.uid, rng=rng, ptr=ptr)

    def status(self, kind, ctx, ins, st, hi=0, what=None):
        r = self.fresh('st_' + kind, ctx, ins, rng=(ERRLO, hi))
        self.note_io(st, r, what or kind, ins)
        return r

    def note_io(self, st, r, what, ins, asked=None):
        if self.track_io and what not in self.io_ignore:
            st.io[r] = (what, self.eng.stack[-1][0].dname, asked if self.io_asked else None)

    def wrote(self, st, o):
        """what was written through this handle is lost when syncing or closing it fails"""
        if self.track_io:
            old = set(st.x.get('wrote', ())) | {o}
            new = {q for q in old if isinstance(q, T) and st.res.get(q) in ('file', 'FILE')}
            if any(q == 'other' or st.res.get(q) is None for q in old):
                new.add('other')        # a handle that was not opened here
            if new:
                st.x['wrote'] = tuple(sorted(new, key=lambda q: q.id if isinstance(q, T) else -1))

    def clean(self, st, o):
        return self.track_io and (o if st.res.get(o) in ('file', 'FILE') else 'other') not in st.x.get('wrote', ())

    def new_heap(self, st, ctx, ins, what, size=None, zero=False):
        o = mk('obj', 'heap', ctx + (ins.uid,), ins.uid, what)
        st.heap[o] = 'live'
        for k in [k for k in st.mem if root(k) is o]:
            del st.mem[k]
        st.reg[o] = ((0, INF, 'zero' if zero else 'uninit'),)
        self.eng.objmeta[o] = ('heap', size, self.eng.stack[-1][0])
        return o

    def extent(self, ins, k, fn):
        """size of the array an argument points to, from its address computation"""
        v = ins.a[1][k][1]
        for _ in range(6):
            if v[0] != 'l':
                return None
            d = defs_of(fn).get(v[1])
            if d is None:
                return None
            if d.op == 'getelementptr':
                ty = fn.tu.resolve(d.ty)
                tt = d.ty
                for _, x in d.a[2:]:
                    ty = fn.tu.resolve(tt)
                    if ty[0] == 'anon':
                        if x[0] != 'c':
                            return None
                        _, tt = fn.tu.field_off(ty, x[1])
                    elif ty[0] == 'arr':
                        if len(d.a) >= 3 and x[0] == 'c' and x[1] == 0:
                            return fn.tu.sizeof(ty)
                        return None
                ty = fn.tu.resolve(tt)
                if ty[0] == 'arr':
                    return fn.tu.sizeof(ty)
                if len(d.a) == 2:
                    v = d.a[0][1]
                    continue
                return None
            if d.op in CAST:
                v = d.a[1]
                continue
            if d.op == 'alloca':
                return fn.tu.sizeof(d.ty)
            return None
        return None

    def fill(self, st, p, size, tag):
        if p.op in ('c', 'undef', 'uninit'):
            return
        r = root(p)
        if r.op == 'obj' and r.a[0] == 'fn':
            return
        self.eng.set_region(st, p, size, tag)

    # ------------------------------------------------------------- entry points of the engine
    def call(self, st, ins, name, tgt, args, ctx, fn):
        self.cur = (ctx + (ins.uid,), ins.uid)
        if name in NOISE:
            return [(self.fresh('nz', ctx, ins), st)]
        for hk in self.hooks:
            f = getattr(hk, 'call', None)
            if f:
                r = f(self.eng, st, ins, name, tgt, args, ctx, fn)
                if r is not None:
                    return r
        h = getattr(self, 'c_' + name, None)
        if h:
            return self.done(name, tgt, args, ins, h(st, ins, args, ctx, fn))
        if tgt is not None:
            if name in PATHAPI and (fn.tu is not tgt.tu or self.modular and self.eng.stack[0][0] is not tgt):
                return self.path_api(st, ins, name, args, ctx, fn)
            if self.opaque and tgt.dname not in self.inline and self.eff.opaque(tgt):
                return self.summary(st, ins, tgt, args, ctx, fn)
        return None

    def done(self, name, tgt, args, ins, res):
        """tell the clients what a call into the host returned, on each outcome"""
        if tgt is None and res:
            for r, s in res:
                self.emit('hostdone', s, name, args, r, ins)
        return res

    def recursive(self, st, ins, tgt, args, ctx, fn):
        """a call back into a function on the stack: every effect it may have, nothing else"""
        return self.summary(st, ins, tgt, args, ctx, fn)

    def summary(self, st, ins, tgt, args, ctx, fn):
        e = self.eng
        tag = ('sum', tgt.dname, ctx, ins.uid)
        for (pi, depth, off, size) in self.eff.mods(tgt):
            if pi >= len(args):
                continue
            p = args[pi]
            if p.op in ('c', 'undef', 'uninit'):
                continue
            if depth == 0:
                self.emit('access', st, add_root(p, off or 0), root(p), ins, True)
                if off is None:
                    self.fill(st, p, self.obj_rest(p) or tgt.tu.param_sizes(tgt)[pi], tag)
                else:
                    self.fill(st, add_root(p, off), size, tag)
            else:
                base = add_root(p, off) if off is not None else None
                q = st.mem.get(base) if base is not None else None
                if depth == 1 and q is ZERO and off == 0 and self.null_range(st, base):
                    self.on_null(st, q, ins)
                    return []
                if q is None and base is not None:
                    q = mk('init', base)
                if q is not None and q.op not in ('c', 'undef', 'uninit', 'm'):
                    self.emit('access', st, q, root(q), ins, True)
                    if depth == 1:
                        self.fill(st, q, self.obj_rest(q), tag)
        for g in self.eff.gmods(tgt):
            o = e.globref(tgt.tu, g)
            e.set_region(st, o, None, tag)
        rty = tgt.rty
        if rty == ('void',) or rty is None:
            return [(None, st)]
        if rty[0] == 'i':
            r = self.fresh('ret_' + tgt.dname, ctx, ins, rng=(0, 1) if rty[1] == 1 else None)
        elif rty == ('ptr',):
            r = self.fresh('ret_' + tgt.dname, ctx, ins, ptr=True)
        else:
            r = mk('undef') if rty[0] in ('float', 'double') else self.fresh('ret_' + tgt.dname, ctx, ins)
        return [(r, st)]

    def ssize(self, fn, name, dflt):
        for tu in [fn.tu] + list(self.prog.tus):
            for k in tu.structs:
                if k.strip('%"') in ('struct.' + name,):
                    return tu.sizeof(('s', k))
        return dflt

    def obj_rest(self, p):
        r, off = off_of(p)
        m = self.eng.objmeta.get(r)
        if isinstance(m, tuple) and m[0] == 'alloca' and off is not None:
            return max(m[1].sizeof(m[2]) - off, 1)
        return None

    def external(self, st, ins, name, args, ctx, fn):
        if name.startswith('f_') and fn.tu.name.find('fatfs') >= 0:
            return self.done(name, None, args, ins, self.fatfs(st, ins, name, args, ctx, fn))
        if name.startswith('lfs_'):
            return self.done(name, None, args, ins, self.lfs(st, ins, name, args, ctx, fn))
        if name.startswith('llvm.'):
            return self.intrinsic(st, ins, name, args, ctx, fn)
        self.unknown_externals = getattr(self, 'unknown_externals', set())
        self.unknown_externals.add(name)
        r = self.fresh('ext_' + name, ctx, ins, ptr=ins.ty == ('ptr',))
        for p in args:
            if p.op == 'obj' and p.a[0] in ('alloca',):
                self.fill(st, p, self.obj_rest(p), ('ext', name, ctx, ins.uid))
        return [(r, st)]

    # ------------------------------------------------------------- locks
    def lock_addr(self, a):
        return a

    def c_pthread_mutex_lock(self, st, ins, args, ctx, fn):
        a = args[0]
        if st.locks.get(a):
            self.eng.report('lock-double', 'locks %s again while it is held' % self.lockname(a), st, fn=self.lock_fn())
        st.locks[a] = st.locks.get(a, 0) + 1
        self.emit('locked', st, a)
        return [(ZERO, st)]

    def c_pthread_mutex_unlock(self, st, ins, args, ctx, fn):
        a = args[0]
        if not st.locks.get(a):
            self.eng.report('unlock-free', 'unlocks %s while it is not held' % self.lockname(a), st, fn=self.lock_fn())
        else:
            n = st.locks[a] - 1
            if n:
                st.locks[a] = n
            else:
                del st.locks[a]
        self.emit('unlocked', st, a)
        return [(ZERO, st)]

    def c_pthread_mutex_init(self, st, ins, args, ctx, fn):
        a = args[0]
        r = self.fresh('mi', ctx, ins, rng=(1, 200))
        return self.fork(st, (ZERO, lambda s: self.add_res(s, mk('lockres', a), 'lock')), (r, None))

    def c_pthread_mutex_destroy(self, st, ins, args, ctx, fn):
        a = args[0]
        if st.locks.get(a):
            self.eng.report('lock-destroy-held', 'destroys %s while it is held' % self.lockname(a), st, fn=self.lock_fn())
        self.drop_res(st, mk('lockres', a), 'lock', ins)
        return [(ZERO, st)]

    c_mtx_lock = c_pthread_mutex_lock
    c_mtx_unlock = c_pthread_mutex_unlock

    def c_mtx_init(self, st, ins, args, ctx, fn):
        return self.c_pthread_mutex_init(st, ins, args, ctx, fn)

    def c_mtx_destroy(self, st, ins, args, ctx, fn):
        return self.c_pthread_mutex_destroy(st, ins, args, ctx, fn)

    def lock_fn(self):
        """the function that asked for the lock operation, not the wrapper"""
        for f, _ in reversed(self.eng.stack):
            if not f.dname.startswith('evfs__'):
                return f
        return self.eng.stack[-1][0]

    def lockname(self, a):
        return lockname(a, self.eng)

    # ------------------------------------------------------------- resources
    def add_res(self, st, r, kind):
        st.res[r] = kind

    def drop_res(self, st, r, kind, ins):
        k = st.res.get(r)
        self.emit('released', st, r)
        if k == 'closed':
            self.eng.report('double-release', 'releases a %s twice' % kind, st)
        if k is not None:
            st.res[r] = 'closed'
        else:
            st.res[r] = 'closed'

    # ------------------------------------------------------------- heap
    def c_malloc(self, st, ins, args, ctx, fn):
        sz = args[0]
        return self.fork(st, (ZERO, None) if False else (ZERO, lambda s: None),
                         (mk('obj', 'heap', ctx + (ins.uid,), ins.uid, 'malloc'),
                          lambda s: (self.new_heap(s, ctx, ins, 'malloc', sz), None)[1]))

    def c_calloc(self, st, ins, args, ctx, fn):
        return self.fork(st, (ZERO, None),
                         (mk('obj', 'heap', ctx + (ins.uid,), ins.uid, 'calloc'),
                          lambda s: (self.new_heap(s, ctx, ins, 'calloc', None, True), None)[1]))

    def c_realloc(self, st, ins, args, ctx, fn):
        def ok(s):
            self.new_heap(s, ctx, ins, 'realloc')
            s.reg[o] = ((0, INF, ('re', ctx, ins.uid)),)
            if args[0].op != 'c':
                s.heap[root(args[0])] = 'freed'
        o = mk('obj', 'heap', ctx + (ins.uid,), ins.uid, 'realloc')
        return self.fork(st, (ZERO, None), (o, ok))

    def c_free(self, st, ins, args, ctx, fn):
        p = args[0]
        if p.op == 'c':
            return [(None, st)]
        if p.op in ('undef', 'uninit'):
            self.on_undef_use(st, p)
            return []
        if st.const_of(p) == 0:
            return [(None, st)]
        r = root(p)
        if r.op == 'obj' and r.a[0] in ('alloca', 'glob'):
            self.eng.report('bad-free', 'frees memory that was not allocated', st)
            return [(None, st)]
        if st.heap.get(r) == 'freed':
            self.eng.report('double-free', 'frees the same memory twice', st)
            return []
        self.emit('freed', st, p)
        st.heap[r] = 'freed'
        return [(None, st)]

    # ------------------------------------------------------------- memory and strings
    def intrinsic(self, st, ins, name, args, ctx, fn):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return self.c_memcpy(st, ins, args, ctx, fn)
        if name.startswith('llvm.memset'):
            return self.c_memset(st, ins, args, ctx, fn)
        if name.startswith('llvm.va_'):
            if name.startswith('llvm.va_copy'):
                self.fill(st, args[0], 24, ('va', ctx, ins.uid))
            elif name.startswith('llvm.va_start'):
                self.fill(st, args[0], 24, ('va', ctx, ins.uid))
            return [(None, st)]
        return [(self.fresh('intr', ctx, ins), st)]

    def c_memcpy(self, st, ins, args, ctx, fn):
        d, s, n = args[0], args[1], args[2]
        for p in (d, s):
            if p.op in ('undef', 'uninit'):
                self.on_undef_use(st, p)
                return []
        n_ = st.const_of(n) if n.op not in ('undef', 'uninit') else None
        if n_ == 0:
            return [(d, st)]
        for p in (d, s):
            if self.eng.check_ptr(st, p, ins):
                return []
        self.emit('access', st, s, root(s), ins, False)
        self.emit('access', st, d, root(d), ins, True)
        self.emit('copy', st, d, s, n, ins)
        if n_ is None:
            ext = self.extent(ins, 0, fn)
            self.fill(st, d, ext, ('mc', ctx, ins.uid))
        else:
            self.eng.copy_region(st, d, s, n_, ('mc', ctx, ins.uid))
        return [(d, st)]
    c_memmove = c_memcpy

    def c_memset(self, st, ins, args, ctx, fn):
        d, v, n = args[0], args[1], args[2]
        if d.op in ('undef', 'uninit'):
            self.on_undef_use(st, d)
            return []
        if self.eng.check_ptr(st, d, ins):
            return []
        n_ = st.const_of(n)
        self.emit('access', st, d, root(d), ins, True)
        if n_ is None:
            r, off = off_of(d)
            m = self.eng.objmeta.get(r)
            sz = m[1] if isinstance(m, tuple) and m[0] == 'heap' else None
            if v.op == 'c' and v.a[0] == 0 and off == 0 and sz is n:
                self.fill(st, d, None, 'zero')
            else:
                self.fill(st, d, self.extent(ins, 0, fn), ('ms', ctx, ins.uid))
        else:
            self.fill(st, d, n_, 'zero' if v.op == 'c' and v.a[0] == 0 else ('ms', ctx, ins.uid))
        return [(d, st)]

    def strdst(self, st, ins, args, ctx, fn, ret=None, kind='str'):
        for p in args[:2]:
            if p.op in ('undef', 'uninit'):
                self.on_undef_use(st, p)
                return []
            if self.eng.check_ptr(st, p, ins):
                return []
        self.emit('access', st, args[0], root(args[0]), ins, True)
        self.emit('access', st, args[1], root(args[1]), ins, False)
        self.emit('strcopy', st, args[0], args[1], ins)
        ext = self.extent(ins, 0, fn)
        if len(args) > 2 and args[2].op == 'c' and kind == 'strncpy':
            ext = args[2].a[0]
        txt = text_at(self.eng, st, args[1]) if ret is None and kind in ('str', 'cat') else None
        at = args[0]
        if kind == 'cat' and txt is not None:
            have = text_at(self.eng, st, at)
            if have is None:
                txt = None
            else:
                at = add_root(at, len(have))
        if txt is None or off_of(at)[1] is None:
            self.fill(st, args[0], ext, (kind, ctx, ins.uid))
        else:
            for k, ch in enumerate(txt + '\0'):
                self.eng.store(st, add_root(at, k), C(ord(ch)), ins)
        return [(ret if ret is not None else args[0], st)]

    def c_strcpy(self, st, ins, args, ctx, fn):
        return self.strdst(st, ins, args, ctx, fn)

    def c_strcat(self, st, ins, args, ctx, fn):
        return self.strdst(st, ins, args, ctx, fn, kind='cat')

    def c_strncpy(self, st, ins, args, ctx, fn):
        return self.strdst(st, ins, args, ctx, fn, kind='strncpy')

    def c_strlcpy(self, st, ins, args, ctx, fn):
        return self.strdst(st, ins, args, ctx, fn, ret=self.fresh('slc', ctx, ins, rng=(0, INF)))
    c_strlcat = c_strlcpy

    def readstr(self, st, ins, args, ctx, fn, n=1):
        for p in args[:n]:
            if p.op in ('undef', 'uninit'):
                self.on_undef_use(st, p)
                return False
            if self.eng.check_ptr(st, p, ins):
                return False
            self.emit('access', st, p, root(p), ins, False)
        return True

    def c_strlen(self, st, ins, args, ctx, fn):
        if not self.readstr(st, ins, args, ctx, fn):
            return []
        return [(self.fresh('strlen', ctx, ins, rng=(0, 2**40)), st)]

    def c_strnlen(self, st, ins, args, ctx, fn):
        if not self.readstr(st, ins, args, ctx, fn):
            return []
        r = self.fresh('strnlen', ctx, ins, rng=(0, 2**40))
        st.limit(sub(r, args[1]), -INF, 0)
        return [(r, st)]

    def c_strcmp(self, st, ins, args, ctx, fn):
        if not self.readstr(st, ins, args, ctx, fn, 2):
            return []
        return [(self.fresh('cmp', ctx, ins), st)]
    c_strncmp = c_strcmp
    c_memcmp = c_strcmp
    c_strcasecmp = c_strcmp

    def c_strspn(self, st, ins, args, ctx, fn):
        if not self.readstr(st, ins, args, ctx, fn, 2):
            return []
        return [(self.fresh('span', ctx, ins, rng=(0, 2**31 - 1)), st)]
    c_strcspn = c_strspn

    def c_strchr(self, st, ins, args, ctx, fn):
        if not self.readstr(st, ins, args, ctx, fn):
            return []
        return [(self.fresh('chr', ctx, ins, ptr=True), st)]
    c_strrchr = c_strchr
    c_strstr = c_strchr

    def c_snprintf(self, st, ins, args, ctx, fn):
        p = args[0]
        if p.op != 'c':
            if self.eng.check_ptr(st, p, ins):
                return []
            self.emit('access', st, p, root(p), ins, True)
            n = args[1].a[0] if args[1].op == 'c' else None
            ext = self.extent(ins, 0, fn)
            self.fill(st, p, n if n is not None else ext, ('snp', ctx, ins.uid))
        return [(self.fresh('snp', ctx, ins, rng=(-1, 2**31 - 1)), st)]

    def c_vsnprintf(self, st, ins, args, ctx, fn):
        return self.c_snprintf(st, ins, args, ctx, fn)

    def c_vsprintf(self, st, ins, args, ctx, fn):
        if self.eng.check_ptr(st, args[0], ins):
            return []
        self.fill(st, args[0], None, ('vsp', ctx, ins.uid))
        return [(self.fresh('snp', ctx, ins), st)]
    c_sprintf = c_vsprintf

    def c_strtol(self, st, ins, args, ctx, fn):
        if not self.readstr(st, ins, args, ctx, fn):
            return []
        if len(args) > 1 and args[1].op != 'c':
            q = self.fresh('end', ctx, ins, ptr=True)
            DEFAULT_RNG[q] = (1, INF)
            self.eng.store(st, args[1], q, ins)
        return [(self.fresh('strtol', ctx, ins), st)]
    c_strtoul = c_strtol

    def c_toupper(self, st, ins, args, ctx, fn):
        return [(self.fresh('up', ctx, ins), st)]
    c_tolower = c_toupper

    def c___ctype_b_loc(self, st, ins, args, ctx, fn):
        p = self.fresh('ctype', ctx, ins, ptr=True)
        DEFAULT_RNG[p] = (1, INF)
        return [(p, st)]

    def c___errno_location(self, st, ins, args, ctx, fn):
        # each failing libc call sets errno anew; EPERM.. up to the usual range
        o = mk('s', 'errno', (), 0)
        PTR_SYMS.add(o)
        DEFAULT_RNG[o] = (1, INF)
        return [(o, st)]

    def c_atexit(self, st, ins, args, ctx, fn):
        return [(self.fresh('atexit', ctx, ins), st)]

    def c_abort(self, st, ins, args, ctx, fn):
        return []
    c_exit = c_abort
    c___assert_fail = c_abort

    def c_time(self, st, ins, args, ctx, fn):
        r = self.fresh('time', ctx, ins)
        if args[0].op != 'c':
            self.eng.store(st, args[0], r, ins)
        return [(r, st)]

    def c_mktime(self, st, ins, args, ctx, fn):
        return [(self.fresh('time', ctx, ins), st)]

    def c_localtime_r(self, st, ins, args, ctx, fn):
        self.fill(st, args[1], 56, ('tm', ctx, ins.uid))
        return [(args[1], st)]

    # ------------------------------------------------------------- stdio / posix
    def c_pthread_once(self, st, ins, args, ctx, fn):
        return [(ZERO, st)]

    def errno_set(self, st):
        """a failing call stored a positive error number"""
        o = mk('s', 'errno', (), 0)
        PTR_SYMS.add(o)
        DEFAULT_RNG[o] = (1, INF)
        v = mk('s', 'errnov', self.cur[0], self.cur[1])
        DEFAULT_RNG[v] = (1, 133)
        st.mem[o] = v

    def c_fopen(self, st, ins, args, ctx, fn):
        f = mk('s', 'FILE', ctx + (ins.uid,), ins.uid)
        PTR_SYMS.add(f)
        DEFAULT_RNG[f] = (1, INF)
        self.emit('host', st, 'fopen', args, ins)
        return self.fork(st, (ZERO, self.errno_set), (f, lambda s: self.add_res(s, f, 'FILE')))

    def c_freopen(self, st, ins, args, ctx, fn):
        return self.c_fopen(st, ins, args, ctx, fn)

    def c_opendir(self, st, ins, args, ctx, fn):
        f = mk('s', 'DIR', ctx + (ins.uid,), ins.uid)
        PTR_SYMS.add(f)
        DEFAULT_RNG[f] = (1, INF)
        return self.fork(st, (ZERO, self.errno_set), (f, lambda s: self.add_res(s, f, 'DIR')))

    def hostcall(self, name, st, ins, args, ctx, fn, lo=-1, hi=0, io=True):
        self.emit('host', st, name, args, ins)
        r = self.fresh('st_' + name, ctx, ins, rng=(lo, hi))
        if io:
            self.note_io(st, r, name, ins)
        return r

    def formats(self, st, ins, args, ctx, fn):
        '''formatting writes to the image through the block device'''
        for o in [o for o, v in st.res.items() if v == 'file'] + ['other']:
            self.wrote(st, o)
        return None         # otherwise as any call of the host library
    c_f_mkfs = c_lfs_format = formats

    def use_res(self, st, p, what):
        if p.op in ('undef', 'uninit'):
            self.on_undef_use(st, p)
            return False
        if st.res.get(p) == 'closed':
            self.eng.report('use-after-close', 'uses a closed %s' % what, st)
            return False
        if p.op == 'c' or st.const_of(p) == 0:
            self.eng.report('null', 'passes a null stream to the C library', st)
            return False
        return True

    def c_fclose(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[0], 'FILE'):
            return []
        idle = st.res.get(args[0]) == 'FILE' and self.clean(st, args[0])
        self.drop_res(st, args[0], 'FILE', ins)
        return [(self.hostcall('fclose', st, ins, args, ctx, fn, io=not idle), st)]

    def c_closedir(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[0], 'DIR'):
            return []
        self.drop_res(st, args[0], 'DIR', ins)
        return [(self.hostcall('closedir', st, ins, args, ctx, fn), st)]

    def c_fread(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[3], 'FILE'):
            return []
        self.fill(st, args[0], None, ('fread', ctx, ins.uid))
        r = self.fresh('n_fread', ctx, ins, rng=(0, INF))
        st.limit(sub(r, args[2]), -INF, 0)
        self.emit('host', st, 'fread', args, ins)
        return [(r, st)]

    def c_fwrite(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[3], 'FILE'):
            return []
        self.wrote(st, args[3])
        r = self.fresh('n_fwrite', ctx, ins, rng=(0, INF))
        st.limit(sub(r, args[2]), -INF, 0)
        self.emit('host', st, 'fwrite', args, ins)
        return [(r, st)]

    def c_fseek(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[0], 'FILE'):
            return []
        return [(self.hostcall('fseek', st, ins, args, ctx, fn), st)]
    c_fseeko = c_fseek

    def c_ftell(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[0], 'FILE'):
            return []
        return [(self.hostcall('ftell', st, ins, args, ctx, fn, -1, 2**62), st)]
    c_ftello = c_ftell

    def c_fflush(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[0], 'FILE'):
            return []
        return [(self.hostcall('fflush', st, ins, args, ctx, fn), st)]

    def c_feof(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[0], 'FILE'):
            return []
        return self.fork(st, (ZERO, None), (self.fresh('eof', ctx, ins, rng=(1, 2**31 - 1)), None))

    def c_ferror(self, st, ins, args, ctx, fn):
        return [(self.hostcall('ferror', st, ins, args, ctx, fn, 0, 1, io=False), st)]

    def c_clearerr(self, st, ins, args, ctx, fn):
        return [(None, st)]
    c_rewind = c_clearerr

    def c_rewinddir(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[0], 'DIR'):
            return []
        self.emit('host', st, 'rewinddir', args, ins)
        return [(None, st)]

    def c_fileno(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[0], 'FILE'):
            return []
        return [(self.fresh('fd', ctx, ins, rng=(0, 2**31 - 1)), st)]

    def c_ftruncate(self, st, ins, args, ctx, fn):
        return [(self.hostcall('ftruncate', st, ins, args, ctx, fn), st)]

    def c_fsync(self, st, ins, args, ctx, fn):
        return [(self.hostcall('fsync', st, ins, args, ctx, fn), st)]

    def pstat(self, name, st, ins, args, ctx, fn):
        self.emit('host', st, name, args, ins)
        r = self.fresh('st_' + name, ctx, ins, rng=(-1, -1))
        return self.fork(st, (C(-1), lambda s: self.errno_set(s)),
                         (ZERO, lambda s: self.fill(s, args[1], 144, ('stat', ctx, ins.uid))))

    def c_stat(self, st, ins, args, ctx, fn):
        if not self.readstr(st, ins, args, ctx, fn):
            return []
        return self.pstat('stat', st, ins, args, ctx, fn)
    c_lstat = c_stat

    def c_fstat(self, st, ins, args, ctx, fn):
        return self.pstat('fstat', st, ins, args, ctx, fn)

    def path_op(self, name, st, ins, args, ctx, fn, n=1):
        if not self.readstr(st, ins, args, ctx, fn, n):
            return []
        self.emit('host', st, name, args, ins)
        return self.fork(st, (C(-1), self.errno_set), (ZERO, None))

    def c_remove(self, st, ins, args, ctx, fn):
        return self.path_op('remove', st, ins, args, ctx, fn)

    def c_unlink(self, st, ins, args, ctx, fn):
        return self.path_op('unlink', st, ins, args, ctx, fn)

    def c_rmdir(self, st, ins, args, ctx, fn):
        return self.path_op('rmdir', st, ins, args, ctx, fn)

    def c_mkdir(self, st, ins, args, ctx, fn):
        return self.path_op('mkdir', st, ins, args, ctx, fn)

    def c_chdir(self, st, ins, args, ctx, fn):
        return self.path_op('chdir', st, ins, args, ctx, fn)

    def c_rename(self, st, ins, args, ctx, fn):
        return self.path_op('rename', st, ins, args, ctx, fn, 2)

    def c_getcwd(self, st, ins, args, ctx, fn):
        p = args[0]
        return self.fork(st, (ZERO, self.errno_set),
                         (p, lambda s: (self.fill(s, p, None, ('cwd', ctx, ins.uid)), s.exclude(p, 0) if p.op != 'c' else None)[0]))

    def c_readdir(self, st, ins, args, ctx, fn):
        if not self.use_res(st, args[0], 'DIR'):
            return []
        self.emit('host', st, 'readdir', args, ins)
        d = mk('s', 'dirent', ctx + (ins.uid,), ins.uid)
        PTR_SYMS.add(d)
        DEFAULT_RNG[d] = (1, INF)
        return self.fork(st, (ZERO, None), (ZERO, self.errno_set), (d, None))

    # ------------------------------------------------------------- FatFs / littlefs
    FAT_PATH = {'f_open': 1, 'f_stat': 0, 'f_unlink': 0, 'f_rename': 0, 'f_mkdir': 0, 'f_opendir': 1,
                'f_chdir': 0}

    def fatfs(self, st, ins, name, args, ctx, fn):
        self.emit('host', st, name, args, ins)
        fail = self.fresh('fr_' + name, ctx, ins, rng=(1, 19))
        tag = (name, ctx, ins.uid)
        if name in ('f_open', 'f_opendir'):
            o = mk('fat', args[0])
            return self.fork(st, (fail, None),
                             (ZERO, lambda s: (self.fill(s, args[0], None, tag), self.add_res(s, o, name[2:]))[1:][0]))
        if name in ('f_close', 'f_closedir'):
            self.drop_res(st, mk('fat', args[0]), name[2:], ins)
            return self.fork(st, (fail, None), (ZERO, None))
        if name in ('f_read', 'f_write'):
            def ok(s):
                n = self.eng.sym('fn_' + name, ctx + (ins.uid,), ins.uid, rng=(0, 2**32 - 1))
                s.limit(sub(n, args[2]), -INF, 0)
                if name == 'f_read':
                    self.fill(s, args[1], None, tag)
                self.eng.store(s, args[3], n, ins)
            return self.fork(st, (fail, lambda s: self.eng.store(s, args[3], self.eng.sym('fnx_' + name, ctx + (ins.uid,), ins.uid, rng=(0, 2**32 - 1)), ins)), (ZERO, ok))
        if name in ('f_stat', 'f_readdir'):
            if args[1].op == 'c':
                return self.fork(st, (fail, None), (ZERO, None))
            return self.fork(st, (fail, None), (ZERO, lambda s: self.fill(s, args[1], None, tag)))
        if name == 'f_getcwd':
            return self.fork(st, (fail, None), (ZERO, lambda s: self.fill(s, args[0], None, tag)))
        return self.fork(st, (fail, None), (ZERO, None))

    def lfs(self, st, ins, name, args, ctx, fn):
        self.emit('host', st, name, args, ins)
        tag = (name, ctx, ins.uid)
        fail = self.fresh('lf_' + name, ctx, ins, rng=(-120, -1))
        if name in ('lfs_file_open', 'lfs_file_opencfg', 'lfs_dir_open'):
            o = mk('lfs', args[1])
            return self.fork(st, (fail, None), (ZERO, lambda s: self.add_res(s, o, name)))
        if name in ('lfs_file_close', 'lfs_dir_close'):
            self.drop_res(st, mk('lfs', args[1]), name, ins)
            return self.fork(st, (fail, None), (ZERO, None))
        if name in ('lfs_file_read', 'lfs_file_write'):
            r = self.fresh('lfn_' + name, ctx, ins, rng=(0, 2**31 - 1))
            def moved(s):
                if name == 'lfs_file_read':
                    self.fill(s, args[2], None, tag)
                s.limit(sub(r, args[3]), -INF, 0)
            return self.fork(st, (fail, None), (r, moved))
        if name == 'lfs_stat':
            return self.fork(st, (fail, None), (ZERO, lambda s: self.fill(s, args[2], None, tag)))
        if name == 'lfs_dir_read':
            return self.fork(st, (fail, None), (ZERO, None), (ONE, lambda s: self.fill(s, args[2], None, tag)))
        if name in ('lfs_file_size', 'lfs_file_tell', 'lfs_file_seek'):
            return self.fork(st, (fail, None), (self.fresh('lfo_' + name, ctx, ins, rng=(0, 2**31 - 1)), None))
        return self.fork(st, (fail, None), (ZERO, None))

    # ------------------------------------------------------------- hash table interface
    def c_dh_init(self, st, ins, args, ctx, fn):
        o = mk('dh', args[0])
        return self.fork(st, (ZERO, None),
                         (ONE, lambda s: (self.fill(s, args[0], self.ssize(fn, 'dhash', 96), ('dh', ctx, ins.uid)), self.add_res(s, o, 'hash'))[1]))

    def c_dh_free(self, st, ins, args, ctx, fn):
        self.drop_res(st, mk('dh', args[0]), 'hash', ins)
        return [(None, st)]

    def c_dh_insert(self, st, ins, args, ctx, fn):
        return [(self.fresh('ins', ctx, ins, rng=(0, 1)), st)]

    def c_dh_lookup(self, st, ins, args, ctx, fn):
        v = args[-1]
        def ok(s):
            if v.op != 'c':
                ext = self.obj_rest(v)
                self.fill(s, v, ext, ('dhv', ctx, ins.uid))
        return self.fork(st, (ZERO, None), (ONE, ok))

    # ------------------------------------------------------------- registry interface
    def registry(self, st, name, ins, args, ctx, fn):
        if name == 'evfs_register':
            self.emit('register', st, args[0], ins)
            f = self.fresh('st_register', ctx, ins, rng=(ERRLO, -1))
            def ok(s):
                s.x['registered'] = args[0]
            return self.fork(st, (f, None), (ZERO, ok))
        if name == 'evfs_find_vfs':
            p = self.fresh('vfs', ctx, ins, ptr=True)
            DEFAULT_RNG[p] = (1, INF)
            return self.fork(st, (ZERO, None), (p, None))

    def c_evfs_register(self, st, ins, args, ctx, fn):
        if fn.tu.name.endswith('src/evfs.c'):
            return None
        return self.registry(st, 'evfs_register', ins, args, ctx, fn)

    def c_evfs_find_vfs(self, st, ins, args, ctx, fn):
        if fn.tu.name.endswith('src/evfs.c'):
            return None
        if args[0].op == 'c':
            return None
        return self.registry(st, 'evfs_find_vfs', ins, args, ctx, fn)

    # ------------------------------------------------------------- path interface
    def path_api(self, st, ins, name, args, ctx, fn):
        self.emit('pathcall', st, name, args, ins)
        tag = ('pathapi', name, ctx, ins.uid)
        for i, p in enumerate(args):
            if p.op in ('undef', 'uninit'):
                self.on_undef_use(st, p)
                return []
        out = args[PATHAPI[name]]
        if name in ('evfs_vfs_path_join', 'evfs_vfs_path_join_str', 'evfs_vfs_path_normalize', 'evfs_vfs_path_absolute'):
            # the text behind the output range and its end move; the start stays
            b = st.mem.get(out)
            if self.null_range(st, out):
                self.on_null(st, b, ins)
                return []
            if b is not None and b.op not in ('c', 'undef', 'uninit') and isinstance(b, T):
                self.fill(st, b, self.obj_rest(b) if root(b).op == 'obj' and root(b).a[0] == 'alloca' else
                          self.buf_extent(st, out, b), tag)
            e = self.fresh('rend', ctx, ins, ptr=True)
            DEFAULT_RNG[e] = (1, INF)
            self.eng.store(st, add_root(out, 8), e, ins)
        else:
            self.fill(st, out, 16, tag)
        f = self.fresh('st_' + name, ctx, ins, rng=(ERRLO, -1))
        self.emit('pathdone', st, name, args, ins)
        return self.fork(st, (f, lambda s: self.emit('pathfail', s, name, args, ins)), (ZERO, lambda s: self.emit('pathok', s, name, args, ins)))

    def null_range(self, st, out):
        """a range that starts at null and does not end there"""
        b = st.mem.get(out)
        e = st.mem.get(add_root(out, 8))
        return b is ZERO and isinstance(e, T) and e is not ZERO

    def buf_extent(self, st, out, b):
        e = st.mem.get(add_root(out, 8))
        if e is not None and e.op not in ('c', 'undef', 'uninit'):
            d = sub(e, b)
            if d.op == 'c':
                return d.a[0] + 1
        r, off = off_of(b)
        if r.op == 'obj' and r.a[0] == 'heap' and off == 0:
            return None
        return 1

    # ------------------------------------------------------------- virtual methods
    def indirect(self, st, ins, fv, slot, args, ctx, fn):
        for hk in self.hooks:
            f = getattr(hk, 'icall', None)
            if f:
                r = f(self.eng, st, ins, fv, slot, args, ctx, fn)
                if r is not None:
                    return r
        for p in args:
            if p.op in ('undef', 'uninit'):
                self.on_undef_use(st, p)
            elif st.heap and st.heap.get(root(p)) == 'freed':
                self.eng.report('uaf', 'passes freed memory to a virtual method', st)
        if slot is not None and slot[0] in ('Evfs', 'EvfsFileMethods', 'EvfsDirMethods') and not slot[1].endswith('ctrl'):
            for k, (ty, _) in enumerate(ins.a[1]):
                if ty == ('ptr',) and args[k] is ZERO:
                    self.eng.report('null', 'passes a null pointer to the method %s' % slot[1], st)
                    return []
        if slot is None:
            return self.unknown_call(st, ins, fv, args, ctx, fn)
        s, f = slot
        if s == 'Evfs':
            if args and args[0] is self.self_vfs and f in self.self_slots:
                t = self.self_slots[f]
                if not any(x[0] is t for x in self.eng.stack):
                    return self.eng.exec_fn(t, args, st, ctx + (ins.uid,))
            h = getattr(self, 'v_' + f[2:], None)
            self.emit('vcall', st, s, f, args, ins, ctx)
            if h:
                return h(st, ins, args, ctx, fn)
        elif s == 'EvfsFileMethods':
            if args and args[0] is self.self_fh and self.fh_methods and f in self.fh_methods:
                t = self.fh_methods[f]
                if not any(x[0] is t for x in self.eng.stack):
                    return self.eng.exec_fn(t, args, st, ctx + (ins.uid,))
            self.emit('vcall', st, s, f, args, ins, ctx)
            return self.f_call(st, f, ins, args, ctx, fn)
        elif s == 'EvfsDirMethods':
            self.emit('vcall', st, s, f, args, ins, ctx)
            return self.d_call(st, f, ins, args, ctx, fn)
        cands = self.eff.slot_candidates().get(slot, ())
        if cands:
            res = []
            for k, t in enumerate(cands):
                s2 = st if k == len(cands) - 1 else st.copy()
                if any(x[0] is t for x in self.eng.stack):
                    res += self.recursive(s2, ins, t, args, ctx, fn)
                else:
                    res += self.eng.exec_fn(t, args, s2, ctx + (ins.uid, k))
            return res
        return self.unknown_call(st, ins, fv, args, ctx, fn)

    def unknown_call(self, st, ins, fv, args, ctx, fn):
        self.unknown_calls = getattr(self, 'unknown_calls', set())
        self.unknown_calls.add((fn.dname, self.eng.slotname.get(fv)))
        if ins.ty == ('void',):
            return [(None, st)]
        r = self.fresh('icall', ctx, ins, rng=(0, 1) if ins.ty == ('i', 1) else None, ptr=ins.ty == ('ptr',))
        return [(r, st)]

    def fill_info(self, st, p, ctx, ins, what):
        if p.op == 'c':
            return
        self.fill(st, p, 40, ('info', what, ctx, ins.uid))

    def ores(self, fh):
        return mk('open', fh)

    def v_open(self, st, ins, args, ctx, fn):
        vfs, path, fh, flags = args
        f = self.status('open', ctx, ins, st, -1)
        def ok(s):
            self.fill(s, fh, None, ('fh', ctx, ins.uid))
            m = mk('s', 'fmethods', ctx + (ins.uid,), ins.uid)
            PTR_SYMS.add(m)
            DEFAULT_RNG[m] = (1, INF)
            s.mem[fh] = m
            s.io.pop(f, None)
            self.add_res(s, self.ores(fh), 'file')
        def bad(s):
            self.fill(s, fh, None, ('fhbad', ctx, ins.uid))
        return self.fork(st, (f, bad), (ZERO, ok))

    def v_open_dir(self, st, ins, args, ctx, fn):
        vfs, path, dh = args
        f = self.status('open_dir', ctx, ins, st, -1)
        def ok(s):
            self.fill(s, dh, None, ('dhd', ctx, ins.uid))
            m = mk('s', 'dmethods', ctx + (ins.uid,), ins.uid)
            PTR_SYMS.add(m)
            DEFAULT_RNG[m] = (1, INF)
            s.mem[dh] = m
            s.io.pop(f, None)
            self.add_res(s, self.ores(dh), 'dir')
        def bad(s):
            self.fill(s, dh, None, ('dhbad', ctx, ins.uid))
        return self.fork(st, (f, bad), (ZERO, ok))

    def v_stat(self, st, ins, args, ctx, fn):
        f = self.status('stat', ctx, ins, st, -1)
        def ok(s):
            s.io.pop(f, None)
            self.fill_info(s, args[2], ctx, ins, 'stat')
        def missing(s):
            for q in [q for q, v in s.io.items() if v[0] in ('delete', 'close')]:
                del s.io[q]         # a file that could not be closed or removed turns out not to be there
        return self.fork(st, (f, missing), (ZERO, ok))

    def v_delete(self, st, ins, args, ctx, fn):
        return [(self.status('delete', ctx, ins, st), st)]

    def v_rename(self, st, ins, args, ctx, fn):
        return [(self.status('rename', ctx, ins, st), st)]

    def v_make_dir(self, st, ins, args, ctx, fn):
        return [(self.status('make_dir', ctx, ins, st), st)]

    def v_set_cur_dir(self, st, ins, args, ctx, fn):
        return [(self.status('set_cur_dir', ctx, ins, st), st)]

    def v_get_cur_dir(self, st, ins, args, ctx, fn):
        f = self.status('get_cur_dir', ctx, ins, st, -1)
        def ok(s):
            s.io.pop(f, None)
            b = s.mem.get(args[1])
            if b is not None and b.op not in ('c', 'undef', 'uninit'):
                self.fill(s, b, self.buf_extent(s, args[1], b), ('cwd', ctx, ins.uid))
            elif b is None or b.op in ('undef', 'uninit'):
                pass
            e = self.eng.sym('cwdend', ctx + (ins.uid,), ins.uid, rng=(1, INF), ptr=True)
            self.eng.store(s, add_root(args[1], 8), e, ins)
        return self.fork(st, (f, None), (ZERO, ok))

    def v_vfs_ctrl(self, st, ins, args, ctx, fn):
        if args[2].op != 'c':
            self.fill(st, args[2], self.obj_rest(args[2]) or 8, ('ctrl', ctx, ins.uid))
        return [(self.status('vfs_ctrl', ctx, ins, st), st)]

    def v_path_root_component(self, st, ins, args, ctx, fn):
        vfs, path, rng = args
        e = self.eng
        def fill(s):
            n = e.sym('rootlen', ctx + (ins.uid,), ins.uid, rng=(0, 2**31 - 1))
            e.store(s, rng, path, ins)
            v = add(path, n)
            if v.op == 'lin' and v.root is None:
                v.root = root(path)
            e.store(s, add_root(rng, 8), v, ins)
        return self.fork(st, (ZERO, fill), (ONE, fill))

    # file methods of a file underneath
    def f_call(self, st, f, ins, args, ctx, fn):
        fh = args[0]
        o = self.ores(fh)
        if st.res.get(o) == 'closed':
            self.eng.report('use-after-close', 'uses a file after closing it', st)
            return []
        if f == 'm_close':
            idle = st.res.get(o) == 'file' and self.clean(st, o)    # opened here and nothing was written
            self.drop_res(st, o, 'file', ins)
            return [(self.status('close', ctx, ins, st, what='close of an unwritten file' if idle else None), st)]
        if f in ('m_write', 'm_truncate'):
            self.wrote(st, o)
        if f in ('m_read', 'm_write'):
            if self.track_io and args[2].op not in ('undef', 'uninit', 'c'):
                st.limit(args[2], 0, INF)       # a size
            r = self.fresh('n_' + f[2:], ctx, ins, rng=(ERRLO, 2**62))
            self.note_io(st, r, f[2:], ins, args[2] if f == 'm_write' and args[2].op not in ('undef', 'uninit') else None)
            if args[2].op not in ('undef', 'uninit'):
                hi = st.rng(args[2])[1]
                st.limit(sub(r, args[2]), -INF, 0)
                if hi != INF and hi >= 0:
                    st.limit(r, ERRLO, hi)
            if f == 'm_read':
                self.emit('access', st, args[1], root(args[1]), ins, True)
                r0 = root(args[1])
                ext = self.extent(ins, 1, fn) or self.obj_rest(args[1])
                if ext is None and args[2].op == 'c':
                    ext = args[2].a[0]
                self.fill(st, args[1], ext, ('rd', ctx, ins.uid))
            return [(r, st)]
        if f in ('m_size', 'm_tell'):
            r = self.fresh('o_' + f[2:], ctx, ins, rng=(ERRLO, 2**62))
            self.note_io(st, r, f[2:], ins)
            return [(r, st)]
        if f == 'm_eof':
            return [(self.fresh('eof', ctx, ins, rng=(0, 1)), st)]
        if f == 'm_ctrl':
            if args[2].op != 'c':
                self.fill(st, args[2], self.obj_rest(args[2]) or 8, ('ctrl', ctx, ins.uid))
        what = 'sync of an unwritten file' if f == 'm_sync' and self.clean(st, o) else None
        return [(self.status(f[2:], ctx, ins, st, what=what), st)]

    def d_call(self, st, f, ins, args, ctx, fn):
        dh = args[0]
        o = self.ores(dh)
        if st.res.get(o) == 'closed':
            self.eng.report('use-after-close', 'uses a directory after closing it', st)
            return []
        if f == 'm_close':
            self.drop_res(st, o, 'dir', ins)
            return [(self.status('dir_close', ctx, ins, st), st)]
        if f == 'm_read':
            g = self.status('dir_read', ctx, ins, st, -1)
            def fill(s):
                s.io.pop(g, None)
                self.fill_info(s, args[1], ctx, ins, 'dir')
            return self.fork(st, (g, None), (ZERO, fill), (ONE, lambda s: s.io.pop(g, None) and None))
        return [(self.status('dir_' + f[2:], ctx, ins, st), st)]


PATHAPI = {'evfs_vfs_path_join': 3, 'evfs_vfs_path_join_str': 3, 'evfs_vfs_path_normalize': 2,
           'evfs_vfs_path_absolute': 2, 'evfs_vfs_path_basename': 2, 'evfs_vfs_path_dirname': 2,
           'evfs_vfs_path_extname': 2, 'evfs_vfs_scan_path': 2, 'evfs_path_basename': 1,
           'evfs_path_extname': 1}


def add_root(p, off):
    if not off:
        return p
    v = add(p, C(off))
    if v.op == 'lin' and v.root is None:
        v.root = root(p)
    return v


def lockname(a, eng):
    r, off = off_of(a)
    if r.op == 'obj' and r.a[0] == 'glob':
        return r.a[2].lstrip('@')
    return 'the %s lock' % ('instance',)
