"""a recorder of virtual and API calls: every one becomes an event and returns a fresh symbol"""
from engine import *

class Rec:
    """icall/call hook.  Events: (kind, name, result, arg...) in State.ev
    kind 'v': method through a slot (name = Struct.field); 'c': direct call of a recorded function;
    'free': release of a block"""
    def __init__(self, calls=(), values=None, skip=(), free=True, ext=None):
        self.calls = calls          # set of names, or predicate
        self.values = values or {}  # field -> function(rec, eng, st, r, args) run after recording
        self.skip = skip            # fields left to the normal models
        self.free = free

    def note(self, st, ev):
        for e in st.ev:
            if e[:2] == ev[:2] and e[2] is ev[2]:
                return              # same site again (a loop): one event stands for all
        st.ev = st.ev + (ev,)

    def result(self, eng, st, name, ins, ctx):
        if ins.ty == ('void',):
            return None
        r = eng.sym('r_' + name, ctx + (ins.uid,), ins.uid, rng=(0, 1) if ins.ty == ('i', 1) else None, ptr=ins.ty == ('ptr',))
        return r

    def outs(self, eng, st, args, ctx, ins):
        for a in args:
            r = root(a)
            if r.op == 'obj' and r.a[0] == 'alloca':
                eng.models.fill(st, a, eng.models.obj_rest(a), ('out', ctx, ins.uid))

    def icall(self, eng, st, ins, fv, slot, args, ctx, fn):
        if slot is None or slot[0] not in ('Evfs', 'EvfsFileMethods', 'EvfsDirMethods') or slot[1] in self.skip:
            return None
        return self.record(eng, st, 'v', slot[0] + '.' + slot[1], slot[1], ins, args, ctx)

    def record(self, eng, st, kind, name, short, ins, args, ctx):
        m = eng.models
        if m.self_vfs is not None and kind == 'v' and args and args[0] is m.self_vfs and short in m.self_slots and short not in getattr(self, 'own', ()):
            return None
        r = self.result(eng, st, short, ins, ctx)
        self.note(st, (kind, name, r if r is not None else ZERO) + tuple(args))
        v = self.values.get(short)
        if v:
            x = v(self, eng, st, r, args, ins, ctx)
            if x is not None:
                return x
        else:
            self.outs(eng, st, args, ctx, ins)
        return [(r, st)]

    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        hit = self.calls(name) if callable(self.calls) else name in self.calls
        if not hit or (tgt is not None and any(x[0] is tgt for x in eng.stack)):
            return None
        return self.record(eng, st, 'c', name, name, ins, args, ctx)

    def freed(self, eng, st, p):
        if self.free:
            self.note(st, ('free', 'free', p))

def same(st, a, b):
    if a is b:
        return True
    if a is None or b is None or a.op in ('undef', 'uninit', 'agg') or b.op in ('undef', 'uninit', 'agg'):
        return False
    d = sub(a, b)
    lo, hi = st.rng(d)
    return lo == 0 and hi == 0

def evstr(e):
    return '%s(%s)' % (e[1], ', '.join(show(a) for a in e[3:]))

def upper(st, t):
    """an upper bound of t, using one recorded linear fact where it helps"""
    best = st.rng(t)[1]
    if best == -INF or t.op == 'c':
        return best
    mine = syms(t)
    for L, (lo, hi, ne) in st.facts.items():
        if L.op == 'c' or not (syms(L) & mine):
            continue
        if hi != INF:
            b = st.rng(sub(t, L))[1]
            if b != INF and b + hi < best:
                best = b + hi
        if lo != -INF:
            b = st.rng(add(t, L))[1]
            if b != INF and b - lo < best:
                best = b - lo
    return best
