"""Control commands: each does its own thing, and a command that is not known or not supported does nothing and says so."""
import re
from suite import *
from trace import same
from labels import label
import contracts, host
import props.c07 as c07
from host import UNITS, FM, add_root, show_calls

ASSUME = ['the argument of a command points to an object of the type the command is declared with, which is no part of the filesystem or handle']
ARCH = c07.UNITS
ROT = 'src/shim_rotate.c'
QUERY = ('EVFS_CMD_GET_STAT_FIELDS', 'EVFS_CMD_GET_DIR_FIELDS')
SETS = {'EVFS_CMD_SET_READONLY': UNITS, 'EVFS_CMD_SET_NO_DIR_DOTS': ('src/stdio_fs.c', 'src/littlefs_fs.c', 'src/romfs_fs.c')}

class Seen(host.Host):
    """every call that leaves the unit, and everything released"""
    def hostdone(self, eng, st, name, args, r, ins):
        if not name.startswith('llvm'):
            st.ev = st.ev[-8:] + (('host', name, ZERO, None, None) + tuple(a for a in args if isinstance(a, T)),)
    def freed(self, eng, st, *a):
        st.x['released'] = True
    def vcall(self, eng, st, *a):
        st.x['passed'] = True
    def icall(self, eng, st, ins, fv, slot, a, ctx, fn):
        st.x['passed'] = True
        return None

class Own(Seen):
    """what the method does itself is not followed"""
    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        if tgt is not None and len(eng.stack) == 1:
            return [(None if ins.ty == ('void',) else eng.models.fresh('own', ctx, ins), st)]

def enumerators(w, unit, prefix):
    """the enumerators the interface declares"""
    tu = [t for t in w.tus if t.name == unit][0]
    out = {}
    for v in tu.meta.values():
        m = re.match(r'!DIEnumerator\(name: "(%s\w*)", value: (-?\d+)' % prefix, str(v))
        if m:
            out[m.group(1)] = int(m.group(2))
    return out

def stores(st, was):
    out = []
    for k, v in st.mem.items():
        o = root(k)
        if o.op == 'obj' and o.a[0] == 'alloca' or was.mem.get(k) is v or v.op == 'init' and v.a[0] is k:
            continue
        out.append((k, v))
    return out

def touched(st, was, arg, ret):
    """the roots something is stored in"""
    out = {root(k) for k, v in stores(st, was)}
    for o, l in st.reg.items():
        if not (o.op == 'obj' and o.a[0] == 'alloca') and l != was.reg.get(o):
            out.add(o)
    return out

def check(r):
    r.rule = ('every control method, run with each declared command, with neighbouring and user-defined values and with a command that is any other value: one that is not supported returns an error with nothing '
              'stored, released or called; the two queries store a set of declared fields through their argument and nothing else; a setting is stored in the filesystem only; '
              'the address of a resource is where a read at position 0 takes its bytes; each code has its own name.')
    w = r.world('default')
    cmds = enumerators(w, 'src/evfs.c', 'EVFS_CMD_')
    errs = enumerators(w, 'src/evfs.c', 'EVFS_(?:ERR|OK|DONE)')
    mask = sum(w.const('EVFS_INFO_NAME', 'EVFS_INFO_SIZE', 'EVFS_INFO_MTIME', 'EVFS_INFO_TYPE'))
    if len(cmds) < 8 or len(errs) < 20:
        raise Broken('the codes of the interface are not found')
    r.obl()
    user = w.const('EVFS_CMD_USER_DEFINED')
    low = [n for n, v in cmds.items() if not 0 < v]
    if low or len(set(cmds.values())) != len(cmds):
        r.discharged -= 1
        r.violation('evfs.h:commands', 'codes', 'commands share a code', 'include/evfs.h')
    naming(r, w, 'evfs_cmd_name', cmds)
    naming(r, w, 'evfs_err_name', errs)
    units = [t for t in UNITS + ARCH]
    for tu in units:
        if tu not in w.vfs_slots:
            raise Broken('%s registers no filesystem' % tu)
        f = w.slots_of(tu).get('m_vfs_ctrl')
        tabs = w.tables_of(tu, FM)
        if f is None or len(tabs) != 1 or tabs[0].get('m_ctrl') is None:
            r.violation('%s:control' % tu.split('/')[-1], 'missing', 'no control operation', tu)
            continue
        control(r, w, tu, f, cmds, mask, {n for n in cmds if n == 'EVFS_CMD_UNREGISTER'} | set(QUERY) | {n for n in SETS if tu in SETS[n]})
        g = tabs[0]['m_ctrl']
        res = resource(r, w, tu, tabs[0], g, cmds['EVFS_CMD_GET_RSRC_ADDR']) if tu in ARCH else False
        control(r, w, tu, g, cmds, mask, {'EVFS_CMD_GET_RSRC_ADDR'} if res else set())
    # a rotate container is no ordinary file: what it does not know is not handed on
    tabs = w.tables_of(ROT, FM)
    if not tabs:
        raise Broken('no rotate files')
    control(r, w, ROT, tabs[0]['m_ctrl'], cmds, mask, {'EVFS_CMD_SET_ROTATE_TRIM'}, True)
    r.need('commands', 60)

def control(r, w, tu, f, cmds, mask, ok, shim=False):
    inside = []         # what is known of a handle on the ways that keep a command to themselves
    if shim:
        args = arg_syms(f)
        args[1] = C(cmds['EVFS_CMD_SET_ROTATE_TRIM'])
        p, e, ex = host.run(w, f, args, State(), hook=Own)
        cell = lambda st: {k: v for k, v in st.facts.items() if k.op == 'init' and root(k.a[0]) is args[0]}
        inside = [cell(st) for ret, st in ex if not st.x.get('passed')]
        out = [cell(st) for ret, st in ex if st.x.get('passed')]
        inside = [x for x in inside if not any(agree(x, y) for y in out)]
        r.sample('%s: %s' % (f.dname, 'containers are told from files' if inside else 'containers and files are not told apart'))
    vals = sorted((v, n) for n, v in cmds.items()) + [(v, None) for v in (0, 1, -1, 1000, 4000, 1 << 30)]
    vals += [(v + d, None) for v in cmds.values() for d in (-1, 1, 256) if v + d not in cmds.values()]
    for v, n in sorted(set(vals), key=str) + [(None, None)]:
        if n == 'EVFS_CMD_UNREGISTER' and n in ok or n == 'EVFS_CMD_SET_ROTATE_TRIM' and n in ok or n == 'EVFS_CMD_GET_RSRC_ADDR' and n in ok:
            continue                    # judged elsewhere
        args = arg_syms(f)
        st0 = State()
        if v is None:
            for x in cmds.values():
                st0.exclude(args[1], x)
        else:
            args[1] = C(v)
        p, e, ex = host.run(w, f, args, st0, modular=False, hook=Seen)
        what = n or ('an unknown command' if v is None else 'the unknown command %d' % v)
        r.count('commands')
        good = 0
        for ret, st in ex:
            if shim and st.x.get('passed') and not any(agree(cell(st), x) for x in inside):
                continue                # an ordinary file: handed on, unchanged
            r.obl()
            lo, hi = st.rng(ret)
            t = touched(st, st0, args[2], ret)
            def bad(kind, d):
                r.discharged -= 1
                r.violation(label(w, f), kind, '%s: %s' % (what, d), '%s:%d %s with %s %s; calls on this path: %s' % (f.tu.name, f.line, f.dname, what, d, show_calls(st)))
            if n not in ok:
                if hi >= 0:
                    bad('accepted', 'reports success')
                elif t or st.ev or st.x.get('released') or st.x.get('passed'):
                    bad('effect', 'does something although it is not supported')
                continue
            if st.x.get('released') or st.x.get('passed'):
                bad('effect', 'does something else')
            elif (lo, hi) != (0, 0):
                bad('refused', 'can fail')
            elif n in QUERY:
                s = stores(st, st0)
                k = st.const_of(s[0][1]) if len(s) == 1 else None
                if t != {args[2]} or len(s) != 1 or s[0][0] is not args[2] or k is None:
                    bad('effect', 'does not just store the fields')
                elif k & ~mask:
                    bad('fields', 'reports fields that do not exist')
                elif width(st, args[2]) not in (None, 4):
                    bad('effect', 'does not store an unsigned integer')
                else:
                    good += 1
            elif args[2] in t:
                bad('effect', 'changes the argument')
            elif not t:
                bad('effect', 'stores nothing')
        if n in QUERY and n in ok and not good and not r.viol:
            r.violation(label(w, f), 'refused', '%s: never succeeds' % n, '%s:%d %s' % (f.tu.name, f.line, f.dname))

def width(st, p):
    for lo, hi, kind in st.reg.get(p, ()):
        if lo == 0 and hi != INF:
            return hi
    return None

def naming(r, w, fname, codes):
    f = w.fn(fname)
    if f is None:
        raise Broken('no ' + fname)
    for v in sorted(set(codes.values())) + [max(codes.values()) + 1, min(codes.values()) - 1, 1 << 20]:
        p, e, ex = host.run(w, f, [C(v)], modular=False)
        for ret, st in ex:
            r.obl()
            t = contracts.text_at(e, st, ret, 40)
            if t is None or (t not in codes or codes[t] != v) if v in codes.values() else t in codes:
                r.discharged -= 1
                r.violation(label(w, f), 'name', 'the name of %d' % v, '%s:%d %s(%d) gives "%s"' % (f.tu.name, f.line, f.dname, v, t))
        r.count('names')

def resource(r, w, tu, tab, g, cmd):
    """the address a file reports: where a read at position 0 takes its bytes; not reported when reads do not take them from memory"""
    recv = arg_syms(tab['m_tell'])[0]
    pos, size, facts = c07.cells(w, tab)
    f = tab['m_read']
    args = arg_syms(f)
    fx = {subst(k, {recv: args[0]}, {}): v for k, v in facts.items()}
    st, p, s = c07.start(args[0], pos, size, fx)
    st.limit(args[2], 1, c07.BIG)
    e, ex = c07.follow(w, f, args, st, tab)
    src, filed = [], []
    for ret, st in ex:
        for x in st.ev:
            if x[0] == 'copy':
                src.append((sub(x[4], p), st))
            elif x[1] == 'EvfsFileMethods.m_read':
                filed.append(st)
    ga = arg_syms(g)
    ga[1] = C(cmd)
    fx = {subst(k, {recv: ga[0]}, {}): v for k, v in facts.items()}
    st0 = State()
    st0.facts.update(fx)
    e, ex = c07.follow(w, g, ga, st0.copy(), tab)
    done = 0
    for ret, st in ex:
        r.obl()
        lo, hi = st.rng(ret)
        def bad(kind, d):
            r.discharged -= 1
            r.violation(label(w, g), kind, 'EVFS_CMD_GET_RSRC_ADDR: ' + d, '%s:%d %s %s' % (g.tu.name, g.line, g.dname, d))
        if hi < 0:
            if stores(st, st0):
                bad('effect', 'stores something although it fails')
            continue
        done += 1
        if not src:
            bad('accepted', 'reports an address although the file is not in memory')
            continue
        v = [x for x in stores(st, st0)]
        if len(v) != 1 or v[0][0] is not ga[2]:
            bad('effect', 'does not just store the address')
            continue
        if not any(same(st, v[0][1], subst(b, {args[0]: ga[0]}, {})) for b, _ in src):
            bad('address', 'does not report where reads take the bytes of the file')
        elif filed:
            # what separates files in memory from others must hold here too
            again = arg_syms(f)
            again[0] = ga[0]
            st2, p2, s2 = c07.start(ga[0], pos, size, fx)
            s3 = st.copy()
            s3.ev = ()
            s3.facts.update(st2.facts)
            e2, ex2 = c07.follow(w, f, again, s3, tab)
            if any(x[1] == 'EvfsFileMethods.m_read' for _, st2 in ex2 for x in st2.ev):
                bad('accepted', 'reports an address although the file is not in memory')
    if src and not done:
        r.obl()
        r.discharged -= 1
        r.violation(label(w, g), 'refused', 'EVFS_CMD_GET_RSRC_ADDR: never succeeds', '%s:%d %s' % (g.tu.name, g.line, g.dname))
    if src:
        r.count('resources')
    return bool(src)

def agree(a, b):
    """can two sets of facts be true together?"""
    s = State()
    for d in (a, b):
        for k, (lo, hi, ne) in d.items():
            if s.limit(k, lo, hi) is False or s.rng(k)[0] > s.rng(k)[1]:
                return False
            for x in ne:
                if s.exclude(k, x) is False:
                    return False
    return True
