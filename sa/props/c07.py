"""Reading an archive member stays inside it and its position is exact."""
from suite import *
from trace import Rec, evstr, same, upper
from labels import label
import host, props.c13 as c13, props.c10 as c10
from host import calls, show_calls, cell

UNITS = ('src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/romfs_fs.c')
ASSUME = ['a read of the image file delivers no more than it was asked for', 'sizes and positions do not overflow their integer types',
          'the size recorded for a member when the archive was indexed is taken as its size']
BIG = 2 ** 31 - 1

class H(Rec):
    def result(self, eng, st, name, ins, ctx):
        r = Rec.result(self, eng, st, name, ins, ctx)
        if name == 'm_seek':
            st.limit(r, -99, 0)
        return r
    def copy(self, eng, st, d, s, n, ins):
        self.note(st, ('copy', 'copy', mk('copy', d, s), d, s, n))

def cells(w, tab):
    """the position and size cells of an open member and the facts that make it open"""
    out = {}
    facts = {}
    for slot in ('m_tell', 'm_size'):
        f = tab[slot]
        args = arg_syms(f)
        e, ex = follow(w, f, args, State(), tab)
        opts = [(ret, st) for ret, st in ex if ret is not None and ret.op == 'init' and root(ret.a[0]) is args[0]]
        if len(opts) != 1:
            raise Broken('%s: cannot tell which cell %s reports' % (f.tu.name, slot))
        out[slot] = off_of(opts[0][0].a[0])[1]
        for k, v in opts[0][1].facts.items():
            if root(k.a[0] if k.op == 'init' else k) is args[0]:
                facts[k] = v
    return out['m_tell'], out['m_size'], facts

def follow(w, f, args, st, tab):
    h = H(calls=())
    e, m = make(w, [h])
    m.inline_all = True
    m.self_fh = args[0]
    m.fh_methods = {k: v for k, v in tab.items() if v is not None}
    h.skip = ()
    old = h.icall
    def icall(eng, st, ins, fv, slot, a, ctx, fn):
        if slot and slot[0] == 'EvfsFileMethods' and a and a[0] is args[0] and slot[1] in m.fh_methods:
            return None         # the member's own tell and size
        return old(eng, st, ins, fv, slot, a, ctx, fn)
    h.icall = icall
    e.PRECISION = 0
    e.SCALE = 4
    e.step_limit = 400000
    return e, e.run(f, args, st)

def start(recv, pos, size, facts, inside=True):
    st = State()
    st.facts.update(facts)
    p, s = mk('init', add_root(recv, pos)), mk('init', add_root(recv, size))
    st.limit(p, 0, BIG)
    st.limit(s, 0, BIG)
    if inside:
        st.limit(sub(p, s), -INF, 0)
    return st, p, s

add_root = contracts.add_root

def check(r):
    r.rule = ('with the member open at position p of size s: a read asks for at most min(requested, s-p) bytes at base+p, into the caller\'s buffer, and moves the '
              'position by exactly what was delivered (not at all on an error); a seek leaves it at the requested place clamped to [0,s]; tell, size and '
              'end-of-file report p, s and p>=s and change nothing.')
    w = r.world('default')
    TO, REL, REV = w.const('EVFS_SEEK_TO', 'EVFS_SEEK_REL', 'EVFS_SEEK_REV')
    for tu in UNITS:
        tabs = w.tables_of(tu, 'EvfsFileMethods')
        if len(tabs) != 1:
            raise Broken('%s: %d method tables' % (tu, len(tabs)))
        tab = tabs[0]
        recv = arg_syms(tab['m_tell'])[0]
        pos, size, facts = cells(w, tab)
        def run(slot, prep=None, inside=True):
            f = tab[slot]
            args = arg_syms(f)
            # receivers of all methods are the same object for our purpose
            fx = {}
            memo = {}
            for k, v in facts.items():
                fx[subst(k, {recv: args[0]}, memo)] = v
            st, p, s = start(args[0], pos, size, fx, inside)
            if prep:
                if prep(st, args, p, s) is False:
                    return f, args, p, s, []
            e, ex = follow(w, f, args, st, tab)
            return f, args, p, s, ex
        def bad(f, kind, detail, st):
            r.discharged -= 1
            r.violation(label(w, f), kind, detail, '%s:%d %s: %s; calls on this path: %s' % (
                f.tu.name, f.line, f.dname, detail, '; '.join(evstr(x) for x in st.ev) or 'none'))
        def final(st, args, off, was):
            return st.mem.get(add_root(args[0], off), was)

        # ---- read
        f, args, p, s, ex = run('m_read', lambda st, a, p, s: st.limit(a[2], 0, BIG))
        delivered = 0
        bases = set()
        for ret, st in ex:
            r.obl()
            p2, s2 = final(st, args, pos, p), final(st, args, size, s)
            lo, hi = st.rng(ret)
            if not same(st, s2, s):
                bad(f, 'size-changed', 'a read changes the size', st)
                continue
            moved = sub(p2, p)
            if hi <= 0:
                if not same(st, p2, p):
                    bad(f, 'moves', 'moves the position although nothing was delivered', st)
                    continue
            elif not same(st, moved, ret):
                # on a path where the result may be negative or positive the move must be the result
                bad(f, 'position', 'the position does not move by what was delivered', st)
                continue
            elif lo < 0:
                bad(f, 'moves', 'moves the position on an error', st)
                continue
            io = [x for x in st.ev if x[0] == 'copy' or x[1] == 'EvfsFileMethods.m_read']
            if hi > 0 or io:
                if len(io) != 1:
                    bad(f, 'reads', 'does not deliver by one transfer', st)
                    continue
                x = io[0]
                if x[0] == 'copy':
                    dst, src, n = x[3:6]
                    at = src
                else:
                    dst, n = x[4], x[5]
                    seeks = [y for y in st.ev[:st.ev.index(x)] if y[1] == 'EvfsFileMethods.m_seek']
                    if not seeks or not same(st, seeks[-1][2], ZERO):
                        bad(f, 'seek-ignored', 'reads the image without having positioned it', st)
                        continue
                    if st.const_of(seeks[-1][5]) != TO:
                        bad(f, 'place', 'does not position the image absolutely', st)
                        continue
                    if not same(st, x[3], seeks[-1][3]):
                        bad(f, 'place', 'positions another file than it reads', st)
                        continue
                    at = seeks[-1][4]
                    if hi > 0 and not same(st, ret, x[2]):
                        bad(f, 'result', 'does not return what the image delivered', st)
                        continue
                delivered += 1
                bases.add(subst(sub(at, p), {args[0]: recv}, {}))
                if not same(st, dst, args[1]):
                    bad(f, 'buffer', 'does not fill the caller\'s buffer from its start', st)
                elif upper(st, sub(n, args[2])) > 0:
                    bad(f, 'too-much', 'asks for more than the caller\'s buffer holds', st)
                elif upper(st, sub(add(p, n), s)) > 0:
                    bad(f, 'past-end', 'reads past the end of the member', st)
                elif p in syms_of(sub(at, p)) or s in syms_of(sub(at, p)) or args[2] in syms_of(at):
                    bad(f, 'place', 'does not read at the member\'s position', st)
                elif base_bad(sub(at, p), args[0]):
                    bad(f, 'place', 'does not read from the member\'s data', st)
        r.count('operations')
        r.obl()
        if not delivered:
            r.discharged -= 1
            r.violation(label(w, f), 'never-reads', 'no data', '%s:%d %s never delivers data' % (f.tu.name, f.line, f.dname))
        # a read at the end delivers nothing, a read before it does not pretend to be at the end
        f, args, p, s, ex = run('m_read', lambda st, a, p, s: st.limit(a[2], 1, BIG) and st.limit(sub(p, s), 0, 0))
        for ret, st in ex:
            r.obl()
            if st.rng(ret)[1] > 0 or [x for x in st.ev if x[0] == 'copy' or x[1] == 'EvfsFileMethods.m_read']:
                bad(f, 'past-end', 'a read at the end delivers something', st)
        f, args, p, s, ex = run('m_read', lambda st, a, p, s: st.limit(a[2], 1, BIG) and st.limit(sub(p, s), -INF, -1))
        for ret, st in ex:
            r.obl()
            if st.const_of(ret) == 0 and not [x for x in st.ev if x[0] == 'copy' or x[1] == 'EvfsFileMethods.m_read']:
                bad(f, 'short', 'reports the end although data is left', st)

        # ---- open
        opening(r, w, tu, recv, pos, size, bases)
        # ---- seek
        for org, name, want in ((TO, 'from the start', lambda p, s, o: o), (REL, 'from the position', lambda p, s, o: add(p, o)),
                                (REV, 'from the end', lambda p, s, o: sub(s, o))):
            def prep(case):
                def g(st, a, p, s):
                    if not st.limit(a[2], org, org) or not st.limit(a[1], -BIG, BIG):
                        return False
                    t = want(p, s, a[1])
                    if case == 'inside':
                        return st.limit(t, 0, BIG) and st.limit(sub(t, s), -INF, 0)
                    if case == 'after':
                        return st.limit(sub(t, s), 1, INF) and st.limit(t, 1, INF)
                    return st.limit(t, -INF, -1)
                return g
            for case in ('inside', 'after', 'before'):
                f, args, p, s, ex = run('m_seek', prep(case))
                r.count('seek cases')
                for ret, st in ex:
                    r.obl()
                    p2, s2 = final(st, args, pos, p), final(st, args, size, s)
                    t = want(p, s, args[1])
                    lo, hi = st.rng(ret)
                    if not same(st, s2, s):
                        bad(f, 'size-changed', 'a seek changes the size', st)
                    elif hi < 0:
                        if not same(st, p2, p):
                            bad(f, 'moves', 'a failing seek %s moves the position' % name, st)
                        elif case == 'inside':
                            bad(f, 'refused', 'refuses a valid seek %s' % name, st)
                    elif case == 'inside' and not same(st, p2, t):
                        bad(f, 'position', 'a seek %s ends at %s' % (name, 'another place'), st)
                    elif case == 'after' and not same(st, p2, s):
                        bad(f, 'not-clamped', 'a seek %s past the end does not stop at the end' % name, st)
                    elif case == 'before' and not same(st, p2, ZERO):
                        bad(f, 'not-clamped', 'a seek %s before the start does not stop at the start' % name, st)
        r.count('operations')
        # ---- queries
        for slot in ('m_tell', 'm_size', 'm_eof'):
            r.count('operations')
            for case in ((-INF, -1), (0, 0)):
                f, args, p, s, ex = run(slot, lambda st, a, p, s: st.limit(sub(p, s), *case))
                for ret, st in ex:
                    r.obl()
                    p2, s2 = final(st, args, pos, p), final(st, args, size, s)
                    if not same(st, p2, p) or not same(st, s2, s):
                        bad(f, 'moves', 'changes what it reports', st)
                    elif slot == 'm_tell' and not same(st, ret, p):
                        bad(f, 'position', 'does not report the position', st)
                    elif slot == 'm_size' and not same(st, ret, s):
                        bad(f, 'size', 'does not report the size', st)
                    elif slot == 'm_eof' and st.const_of(ret) != (1 if case == (0, 0) else 0):
                        bad(f, 'eof', 'answers wrongly %s' % ('at the end' if case == (0, 0) else 'before the end'), st)
        # ---- refused operations do not move it
        for slot in ('m_write', 'm_truncate', 'm_sync', 'm_ctrl'):
            f, args, p, s, ex = run(slot)
            r.count('operations')
            for ret, st in ex:
                r.obl()
                if not same(st, final(st, args, pos, p), p) or not same(st, final(st, args, size, s), s):
                    bad(f, 'moves', 'moves the position or changes the size', st)
        r.sample('%s: position at byte %d, size at byte %d of the handle' % (tu, pos, size))
    r.need('operations', 27)
    r.need('seek cases', 27)
    r.need('openings', 6)

def opening(r, w, tu, recv, pos, size, bases):
    """a member opens at its start, with the size and the place its entry records"""
    f = w.slots_of(tu)['m_open']
    args = host.args_for(f, host.vfs_arg())
    o = c13.records(w, f.tu)
    for sc in (1, 4, 16):
        p, e, ex = host.run(w, f, args, prec=(0,), scale=sc, hook=c13.Arch)
        ok = [(ret, st) for ret, st in ex if st.rng(ret)[1] >= 0]
        if not any(c13.has_join(v) for ret, st in ok for k, v in st.mem.items() if root(k) is args[2]):
            break
    class Here:
        uid = 0
    good = 0
    for ret, st in ok:
        r.obl()
        def get(a, wd=32):
            return e.load(st.copy(), a, ('i', wd), f.tu, Here, ())
        def bad(kind, what):
            r.discharged -= 1
            r.violation(label(w, f), kind, what, '%s:%d %s: %s; calls on this path: %s' % (f.tu.name, f.line, f.dname, what, show_calls(st)))
        def now(t):
            if t.op == 'init' and root(t.a[0]) is args[2]:
                return get(t.a[0])
            if t.op == 'init':
                a = now(t.a[0])
                return t if a is t.a[0] else st.mem.get(a, mk('init', a))
            if t.op == 'lin':
                x = C(t.a[0])
                for y, k in t.a[1]:
                    x = add(x, scale(now(y), k))
                return x
            if t.op in ('and', 'or', 'lshr', 'ashr'):
                return e.binop(t.op, now(t.a[0]), now(t.a[1]), 32, st)
            return t
        ev = calls(st, 'index entry', 'romfs header')[-1:]
        if not ev or st.const_of(ev[0][2]) != 1 or ev[0][4] is None:
            bad('open', 'opens a member without having found it')
            continue
        good += 1
        ev = ev[0]
        key = ev[6] if ev[1] == 'romfs header' else sub(ev[6], ONE)
        if not c10.path_is(None, st, key, args[1], st.ev[:st.ev.index(ev)]):
            bad('open', 'opens another path than it was given')
            continue
        at = add(cell(ev[4], o['place']), C(512)) if ev[1] == 'index entry' else \
            add(e.binop('and', cell(ev[4], o['place']), C(-16), 32, st), cell(ev[4], o['header_len']))
        if not same(st, get(add_root(args[2], size)), cell(ev[4], o['size'])):
            bad('open', 'opens a member with another size than recorded')
        elif not same(st, get(add_root(args[2], pos)), ZERO):
            bad('open', 'does not open a member at its start')
        elif ev[1] == 'romfs header' and {v for v in range(16) if possible(st, cell(ev[4], o['place']), v)} - {2, 10}:
            bad('open', 'opens something that is not a plain file')
        elif ev[1] == 'index entry' and st.rng(cell(ev[4], o['place']))[0] < 0:
            bad('open', 'opens a directory as a file')
        else:
            for b in bases:
                d = sub(now(subst(b, {recv: args[2]}, {})), at)
                if d.op != 'c' and not lin_parts(d)[0] and not any(x.op in ('m', 's') and x is not args[0] for x in syms_of(d)) and not any(
                        x.op == 'init' and root(x.a[0]) is args[2] for x in syms_of(d)) and 'init' in {x.op for x in syms_of(d)}:
                    continue                # where the resource is in memory
                if not same(st, d, ZERO):
                    bad('open', 'its data is looked for at another place than recorded')
                    break
    r.count('openings', good)
    r.obl()
    if not good and not r.viol:
        raise Broken('%s never opens a member' % f.dname)

def possible(st, atom, k):
    import concrete
    return concrete.possible(concrete.about(st, atom), {atom: k})

def syms_of(t):
    out = set()
    work = [t]
    while work:
        x = work.pop()
        if x in out:
            continue
        out.add(x)
        if x.op == 'lin':
            work += [y for y, _ in x.a[1]]
        elif x.op not in ('c', 's', 'obj', 'init'):
            work += [y for y in x.a if isinstance(y, T)]
    return out

def base_bad(b, recv):
    """the data start must come from the handle (and the filesystem behind it) alone"""
    for x in syms_of(b):
        if x.op == 's' and x is not recv:
            return True
    return False
