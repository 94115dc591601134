"""Missing arguments are rejected before anything is done."""
from suite import *
from trace import Rec, evstr
from labels import label

# what a caller may leave out: (function, parameter position).  A second scan of a path passes no path.
OPTIONAL = {('evfs_vfs_scan_path', 1), ('evfs_vfs_ctrl_ex', 1), ('evfs_file_ctrl', 2), ('evfs_copy_to_file_ex', 2)}
LIBC = {'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcpy': (0, 1), 'strchr': (0,), 'strrchr': (0,), 'strspn': (0, 1), 'strcspn': (0, 1),
        'memcpy': (0, 1), 'memmove': (0, 1), 'memset': (0,), 'vfprintf': (0, 1), 'vsnprintf': (2,), 'strdup': (0,)}

class Api(Rec):
    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        if tgt is None and name:
            n = name.replace('llvm.', '').split('.')[0]
            for k in LIBC.get(n, ()):
                if k < len(args) and st.const_of(args[k]) == 0:
                    eng.report('null', 'passes a null pointer to %s' % n, st)
        return None

def api(w):
    out = []
    for f in w.funcs:
        if f.internal or f.dname.startswith('evfs__') or not f.dname.startswith('evfs_'):
            continue
        if f.tu.name.endswith(('src/evfs.c', 'src/evfs_path.c')):
            out.append(f)
    return out

def check(r):
    r.rule = ('each required pointer parameter of each public function is set to NULL in turn and every path followed: nothing may be read or written through it, '
              'no filesystem, file or directory operation may be performed, and the result must be an error (or false / no object).')
    w = r.world('default')
    for f in sorted(api(w), key=lambda f: f.dname):
        ptrs = [k for k, (n, t) in enumerate(f.params) if t == ('ptr',)]
        for k in ptrs:
            if (f.dname, k) in OPTIONAL or f.dname.endswith('_ex') and k == len(f.params) - 1:
                continue
            r.count('arguments')
            h = Api(calls=())
            e, m = make(w, [h], modular=True)
            e.PRECISION = 0
            e.step_limit = 200000
            args = arg_syms(f, null=(k,))
            what = 'parameter %d' % (k + 1)
            where = '%s | %s' % (label(w, f), what)
            at = '%s:%d %s with %s (%s) missing: ' % (f.tu.name, f.line, f.dname, what, f.params[k][0].strip('%'))
            try:
                ex = e.run(f, args, State())
            except Incomplete as x:
                # running away with the missing argument is not rejecting it
                ex = None
                if not e.diags:
                    r.incomplete.append('%s: %s' % (where, x))
            bad = [d for d in e.diags.values() if d['kind'] == 'null']
            r.obl(not bad)
            for d in bad[:1]:
                r.violation(label(w, f), 'null-used', what, at + '%s:%d %s' % (d['file'], d['line'], d['detail']))
            if bad or ex is None:
                continue
            r.sample('%s: rejected' % where)
            for ret, st in ex:
                r.obl()
                acted = [x for x in st.ev if x[0] == 'v']
                if acted:
                    r.discharged -= 1
                    r.violation(label(w, f), 'not-rejected', what, at + 'performs %s' % '; '.join(evstr(x) for x in acted))
                    continue
                if f.rty == ('void',) or ret is None:
                    continue
                lo, hi = st.rng(ret)
                if f.dname == 'evfs_file_eof':
                    continue            # either answer ends or fails a read loop: not decided here
                if f.rty == ('i', 1) and not (lo == hi == 0):
                    r.discharged -= 1
                    r.violation(label(w, f), 'not-rejected', what, at + 'answers true')
                elif f.rty[0] == 'i' and f.rty != ('i', 1) and not hi < 0:
                    r.discharged -= 1
                    r.violation(label(w, f), 'not-rejected', what, at + 'returns %s, which is not an error' % show(ret))
                elif f.rty == ('ptr',) and not (hi == 0 or root(ret).op == 'g' or root(ret).op == 'obj'):
                    r.discharged -= 1
                    r.violation(label(w, f), 'not-rejected', what, at + 'returns %s' % show(ret))
    r.need('arguments', 75)
