"""Every lock an operation takes is given back exactly once on every path."""
import suite
from suite import *
from labels import label

ASSUME = ['lock and unlock of an initialised mutex succeed',
          'a filesystem underneath obeys the same rule (each is checked on its own)']
KINDS = {'lock-double', 'unlock-free', 'lock-destroy-held'}

class Count:
    def __init__(self, world, relock):
        self.n = 0
        self.order = set()
        self.world = world
        self.relock = relock
    def locked(self, eng, st, a):
        self.n += 1
        for b in st.locks:
            if b is not a:
                self.order.add((contracts.lockname(b, eng), contracts.lockname(a, eng)))
    def call(self, eng, st, ins, name, tgt, args, ctx, fn):
        return None

def job(j):
    cfg, key, mode = j
    w = WORLDS[cfg]
    f = next(x for x in w.funcs if slotfn(x) == key)
    out = Out(j)
    hk = {}
    def build(p):
        h = Count(w, None)
        hk['h'] = h
        e, m = make(w, [h])
        args = api_args(w, f)
        bind_self(w, m, f, args)
        st = State()
        return e, m, args, st
    def judge(e, m, exits):
        for ret, st in exits:
            for a, n in st.locks.items():
                out.diag('lock-leak', f.tu.name, f.dname, 'returns with %s held' % contracts.lockname(a, e), f.line, f.dname)
    run_entry(w, f, out, build, judge, kinds=KINDS)
    out.facts['acquisitions'] = hk['h'].n
    out.data = sorted(hk['h'].order)
    return out

def prim_job(w):
    """the lock primitives do what their users assume"""
    res = []
    for f in sorted(w.lockprims, key=lambda f: f.dname):
        e, m = make(w)
        args = api_args(w, f)
        held = 'unlock' in f.dname
        st = State()
        if held:
            st.locks[args[0]] = 1
        ex = e.run(f, args, st)
        res.append((f, args, ex, e))
    return res

WORLDS = {}

def check(r):
    r.rule = ('typestate of every mutex along every path of every externally callable function and method: '
              'free -> held -> free; an exit with a held mutex, a second lock of a held one or an unlock of a free one is a violation.')
    cfgs = ['pthread', 'c11']
    for c in cfgs:
        WORLDS[c] = r.world(c)
    jobs = []
    for c in cfgs:
        w = WORLDS[c]
        # the two threading back ends differ in their primitives only; thorough runs everything twice
        for f in w.entries() if c == 'pthread' or r.tier == 'thorough' else ():
            if reaches_lock(w, f):
                jobs.append((c, slotfn(f), None))
        # primitives
        seen = set()
        for f, args, ex, e in prim_job(w):
            kind = None
            names = {n for i, n, t in w.eff.callees(f) if n}
            if names & {'pthread_mutex_lock', 'mtx_lock'}:
                kind = 'lock'
            elif names & {'pthread_mutex_unlock', 'mtx_unlock'}:
                kind = 'unlock'
            elif names & {'pthread_mutex_init', 'mtx_init'}:
                kind = 'init'
            elif names & {'pthread_mutex_destroy', 'mtx_destroy'}:
                kind = 'destroy'
            seen.add(kind)
            for ret, st in ex:
                r.obl()
                if kind == 'lock' and not st.locks.get(args[0]):
                    r.violation(label(w, f), 'lock-primitive', 'lock returns without the mutex', '%s:%d %s' % (f.tu.name, f.line, f.dname))
                if kind == 'unlock' and st.locks:
                    r.violation(label(w, f), 'lock-primitive', 'unlock keeps the mutex', '%s:%d %s' % (f.tu.name, f.line, f.dname))
        if not {'lock', 'unlock', 'init'} <= seen:
            raise Broken('lock primitives not found in configuration %s: %s' % (c, seen))
    acq = 0
    order = set()
    nlock = 0
    for o in pool(job, sorted(jobs, key=lambda j: 'rotate' not in j[1][1] and 'romfs' not in j[1][1])):
        w = WORLDS[o.job[0]]
        f = next(x for x in w.funcs if slotfn(x) == o.job[1])
        lab = label(w, f)
        if o.incomplete:
            r.incomplete.append('%s %s: %s' % (o.job[0], lab, o.incomplete))
        n = o.facts.get('acquisitions', 0)
        if n:
            nlock += 1
        acq += n
        if o.secs > 5: r.notes.append('%s took %.0f s (level %s, %d steps)' % (lab, o.secs, o.prec, o.steps))
        r.obligations += max(n, 1)
        if not o.diags:
            r.discharged += max(n, 1)
        r.count('paths', o.exits)
        for k, file, func, detail, line, entry, via in o.diags:
            r.violation(lab, k, detail, '%s:%d in %s: %s\nentry %s, call path %s (configuration %s)' %
                        (file, line, func, detail, entry, ' > '.join(via), o.job[0]))
        order |= set(o.data or ())
        if n:
            r.sample('%s: %d acquisitions on %d paths, precision level %s' % (lab, n, o.exits, o.prec))
    r.counts['entries'] = len(jobs)
    r.counts['locking_entries'] = nlock
    r.counts['acquisitions'] = acq
    # order between named locks must be acyclic
    named = {(a, b) for a, b in order if a != b}
    for a, b in named:
        if (b, a) in named:
            r.violation('lock order', 'lock-order', '%s and %s' % tuple(sorted((a, b))), 'both orders occur')
    r.counts['lock_order_edges'] = len(order)
    r.need('locking_entries', 20)

_rl = {}
def reaches_lock(w, f, seen=None):
    """can f, or anything a virtual call below it resolves to, take a lock"""
    top = seen is None
    seen = seen if seen is not None else set()
    if f in seen:
        return False
    seen.add(f)
    if f in w.lockprims:
        return True
    for i, n, t in w.eff.callees(f):
        if t is not None and reaches_lock(w, t, seen):
            return True
        if n is None:
            return True
    return False
