"""Evaluating terms once one of the values they are built from is fixed."""
from engine import *

class Open(Exception):
    """depends on something else"""

def has(t, atom, memo=None):
    if t is atom:
        return True
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = False
        for x in t.a:
            if isinstance(x, T):
                r = r or has(x, atom, memo)
            elif isinstance(x, tuple) and t.op == 'lin':
                r = r or any(has(y, atom, memo) for y, k in x)
        memo[t] = r
    return r

def value(t, env, st=None):
    v = env.get(t)
    if v is not None:
        return v
    op, a = t.op, t.a
    if op == 'c':
        return a[0]
    if op == 'lin':
        return a[0] + sum(k * value(x, env, st) for x, k in a[1])
    if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'mul', 'udiv', 'sdiv', 'urem', 'srem'):
        x, y = value(a[0], env, st), value(a[1], env, st)
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if op == 'mul': return x * y
        if op == 'shl': return x << y
        if op in ('lshr', 'ashr'):
            if op == 'lshr' and x < 0:
                raise Open()
            return x >> y
        if not y or x < 0 or y < 0:
            raise Open()
        return x // y if op[1:] == 'div' else x % y
    if op == 'trunc':
        return value(a[0], env, st) & ((1 << a[1]) - 1)
    if op == 'sx':
        return norm(value(a[0], env, st), a[1])
    if op == 'cmp':
        d = value(a[1], env, st)
        return int({'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0}[a[0]])
    if op == 'not':
        return int(not value(a[0], env, st))
    if op == 'band':
        return value(a[0], env, st) & value(a[1], env, st)
    if op == 'bor':
        return value(a[0], env, st) | value(a[1], env, st)
    if st is not None:
        k = st.const_of(t)
        if k is not None:
            return k
    raise Open()

def about(st, atom):
    """the facts of a path that say something about atom"""
    memo = {}
    return [(t, f) for t, f in st.facts.items() if has(t, atom, memo)]

def possible(facts, env, st=None):
    """whether the path is taken with these values (None when that depends on something else)"""
    res = True
    for t, (lo, hi, ne) in facts:
        try:
            v = value(t, env, st)
        except Open:
            continue
        if v < lo or v > hi or v in ne:
            return False
    return res
