"""Memory and files are released exactly once and never used afterwards."""
from suite import *
from labels import label
import reach

KINDS = {'uaf', 'double-free', 'bad-free', 'double-release', 'use-after-close'}
WORLDS = {}

def leaks(e, ret, st):
    """blocks and open files nothing can reach any more"""
    live = [o for o, v in st.heap.items() if v == 'live' and not isinstance(o.a[2], tuple)]
    if not live:
        return []
    if reach.blurred(st):
        return []
    r = reach.reachable(st, ret)
    return [o for o in live if o not in r]

def job(j):
    cfg, key = j
    w = WORLDS[cfg]
    f = next(x for x in w.funcs if slotfn(x) == key)
    out = Out(j)
    n = [0, 0]
    def build(p):
        e, m = make(w, modular=True)
        args = api_args(w, f)
        bind_self(w, m, f, args)
        return e, m, args, State()
    def judge(e, m, exits):
        n[0] = 0
        n[1] = sum(1 for ret, st in exits if reach.blurred(st) and st.heap)
        for ret, st in exits:
            n[0] += 1 + len(st.heap) + len(st.res)
            for o in leaks(e, ret, st):
                # an abandoned hash table or handle that was handed to the registry is not lost
                if 'registered' in st.x:
                    continue
                out.diag('leak', f.tu.name, f.dname, 'memory from %s in %s is lost' % (o.a[3], reach.what(o, e)), f.line, f.dname)
    run_entry(w, f, out, build, judge, precs=(2, 0), kinds=KINDS)
    out.facts['tracked'], out.facts['blurred'] = n
    return out

def check(r):
    r.rule = ('typestate of every heap block, file and directory along every path (live -> released); uses, second releases and '
              'releases of foreign memory are violations, and so is a live block nothing reachable refers to at an exit.')
    w = WORLDS['default'] = r.world('default')
    jobs = [('default', slotfn(f)) for f in w.entries() if 'dhash' not in f.tu.name and 'getopt' not in f.tu.name]
    for o in pool(job, sorted(jobs, key=lambda j: 'rotate' not in j[1][1] and 'romfs' not in j[1][1] and 'path' not in j[1][1])):
        f = next(x for x in w.funcs if slotfn(x) == o.job[1])
        lab = label(w, f)
        if o.incomplete:
            r.incomplete.append('%s: %s' % (lab, o.incomplete))
        n = o.facts.get('tracked', 0)
        r.obligations += n
        if not o.diags:
            r.discharged += n
        r.count('paths', o.exits)
        r.count('entries')
        if o.facts.get('forced') or o.facts.get('blurred'):
            r.notes.append('%s: %d merged states, %d of %d exits not judged for leaks' % (lab, o.facts.get('forced', 0), o.facts['blurred'], o.exits))
        if o.secs > 5: r.notes.append('%s took %.0f s (level %s, %d steps)' % (lab, o.secs, o.prec, o.steps))
        for k, file, func, detail, line, entry, via in o.diags:
            r.violation(lab, k, detail, '%s:%d in %s: %s\nentry %s, call path %s' % (file, line, func, detail, entry, ' > '.join(via)))
