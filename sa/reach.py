"""what the caller can still reach from a final state"""
from engine import *

def reachable(st, ret=None, extra=()):
    """heap objects reachable from anything outside the finished call"""
    out = set()
    work = []
    def visit(v):
        if v is None or not isinstance(v, T):
            return
        for s in syms(v):
            if s.op == 'obj' and s.a[0] == 'heap' and s not in out:
                out.add(s)
                work.append(s)
    by = {}
    for k, v in st.mem.items():
        r = root(k)
        if r.op == 'obj' and r.a[0] in ('heap', 'alloca'):
            by.setdefault(r, []).append(v)
        else:
            visit(v)
    visit(ret)
    for x in extra:
        visit(x)
    while work:
        o = work.pop()
        for v in by.get(o, ()):
            visit(v)
    return out

def blurred(st):
    """is some reachable cell a merged value that might name any block?"""
    return [v for k, v in st.mem.items() if v.op == 's' and v.a[0] in ('join', 'wid', 'old') and v in PTR_SYMS]

def what(o, eng):
    m = eng.objmeta.get(o)
    fn = m[2].dname if isinstance(m, tuple) and len(m) > 2 and hasattr(m[2], 'dname') else '?'
    return fn
