"""Discovery of what the repository defines (entry points, method tables, registrations) and the
parallel runner the property checkers share."""
import os, sys, time, shutil, tempfile, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build_ir, llparse, engine, contracts, effects
from engine import *

class Broken(Exception):
    """the analysis itself cannot run (not a verdict about the property)"""

def slotfn(f):
    return (f.tu.name, f.dname)

class World:
    """the resolved program of one build configuration"""
    def __init__(self, cfg, root, extra=(), tag=None, inlines=False):
        self.cfg = cfg
        self._root, self._flags, self._const = root, build_ir.CONFIGS[cfg] + list(extra), {}
        out = os.path.join(root, tag or cfg)
        lls = build_ir.build(cfg, out, extra, inlines=inlines)
        self.tus = [llparse.TU(k, v) for k, v in lls.items()]
        shutil.rmtree(out, ignore_errors=True)
        self.prog = Program(self.tus, cfg)
        self.eff = effects.Effects(self.prog)
        self.discover()

    # ---- what the program defines
    def discover(self):
        self.funcs = [f for tu in self.tus for f in tu.functions.values()]
        slots = self.eff.slot_candidates()
        self.roles = {}              # Function -> [(struct, field)]
        for k, l in slots.items():
            for f in l:
                self.roles.setdefault(f, []).append(k)
        # virtual slots a translation unit installs in the filesystems it registers
        self.vfs_slots = {}
        for (s, fld), l in slots.items():
            if s == 'Evfs':
                for f in l:
                    self.vfs_slots.setdefault(f.tu.name, {}).setdefault(fld, []).append(f)
        # constant method tables
        self.tables = []             # (tu, global, struct, {field: Function or None})
        for tu in self.tus:
            for g in tu.globals.values():
                if g.external or not g.ty or g.ty[0] != 's':
                    continue
                n = g.ty[1].split('.')[-1].strip('"') if '.' in g.ty[1] else g.ty[1]
                n = re_struct(g.ty[1])
                if n in ('EvfsFileMethods', 'EvfsDirMethods'):
                    fl = tu.di_fields(g.ty[1])
                    d = {}
                    for k, (off, nm) in enumerate(fl):
                        v = ('zero',)
                        if g.init and g.init[0] == 'agg':
                            v = g.init[1][k][1]
                        d[nm] = self.prog.find(tu, v[1]) if v[0] == 'g' else None
                    self.tables.append((tu, g, n, d))
        # lock primitives: they call the threading library directly
        self.lockprims = set()
        for f in self.funcs:
            for i, n, t in self.eff.callees(f):
                if n and (n.startswith('pthread_mutex_') or n.startswith('mtx_')):
                    self.lockprims.add(f)
        # functions that register a filesystem
        self.registers = []
        for f in self.funcs:
            if f.internal or f.tu.name.endswith('src/evfs.c'):
                continue
            if self.reaches(f, 'evfs_register', same_tu=True):
                self.registers.append(f)

    def reaches(self, f, name, same_tu=False, seen=None):
        seen = seen if seen is not None else set()
        if f in seen:
            return False
        seen.add(f)
        for i, n, t in self.eff.callees(f):
            if n == name:
                return True
            if t is not None and (not same_tu or t.tu is f.tu) and self.reaches(t, name, same_tu, seen):
                return True
        return False

    def host_const(self, headers, **exprs):
        """values of constant expressions over the host libraries' headers"""
        out = os.path.join(self._root, 'const')
        d = build_ir.constants(['%s=%s' % x for x in exprs.items()], out, self._flags, headers)
        shutil.rmtree(out, ignore_errors=True)
        return d

    def const(self, *names):
        new = [n for n in names if n not in self._const]
        if new:
            out = os.path.join(self._root, 'const')
            self._const.update(build_ir.constants(new, out, self._flags))
            shutil.rmtree(out, ignore_errors=True)
        return self._const[names[0]] if len(names) == 1 else [self._const[n] for n in names]

    def backend_tus(self):
        return sorted(self.vfs_slots)

    def slots_of(self, tuname):
        """slot -> Function for the filesystem this unit registers (only unambiguous ones)"""
        d = {k: l[0] for k, l in self.vfs_slots.get(tuname, {}).items() if len(l) == 1}
        return d

    def tables_of(self, tuname, kind):
        return [d for tu, g, n, d in self.tables if tu.name == tuname and n == kind]

    def entries(self):
        """every function something outside its unit can call"""
        out = []
        for f in self.funcs:
            if f in self.lockprims:
                continue
            if not f.internal or f in self.roles:
                out.append(f)
        return out

    def fn(self, dname, file=None):
        l = self.prog.fn(dname, file)
        return l[0] if l else None


def re_struct(n):
    n = n.strip('%').strip('"')
    for p in ('struct.', 'union.'):
        if n.startswith(p):
            n = n[len(p):]
    import re
    return re.sub(r'\.\d+$', '', n)


# ------------------------------------------------------------------ running one entry
def arg_syms(f, null=(), nullable=()):
    args = []
    uns = f.tu.unsigned_params(f)
    for k, (n, ty) in enumerate(f.params):
        if k in null:
            args.append(ZERO)
            continue
        a = mk('s', 'arg', (), k, n)
        if ty == ('ptr',):
            PTR_SYMS.add(a)
            DEFAULT_RNG[a] = (0, INF) if k in nullable else (1, INF)
        elif k in uns and ty in (('i', 32), ('i', 64)):
            DEFAULT_RNG[a] = (0, 2**ty[1] - 1 if ty[1] == 32 else INF)
        args.append(a)
    return args

def api_args(world, f):
    """any caller may pass NULL to an exported function; a method gets what the library passes it"""
    if f in world.roles or f.internal:
        return arg_syms(f)
    return arg_syms(f, nullable=range(len(f.params)))

def make(world, hooks=(), **kw):
    m = contracts.Models(world.prog, world.eff)
    m.hooks = list(hooks)
    for k, v in kw.items():
        setattr(m, k, v)
    e = Engine(world.prog, m)
    return e, m

def bind_self(world, m, f, args, st=None):
    """receiver resolution: a method sees its own unit's implementations behind virtual self calls"""
    for s, fld in world.roles.get(f, ()):
        if s == 'Evfs' and args:
            m.self_vfs = args[0]
            m.self_slots = world.slots_of(f.tu.name)
        elif s == 'EvfsFileMethods' and args:
            m.self_fh = args[0]
            t = world.tables_of(f.tu.name, 'EvfsFileMethods')
            if len(t) == 1:
                m.fh_methods = {k: v for k, v in t[0].items() if v is not None}

class Out:
    """picklable outcome of one job"""
    def __init__(self, job):
        self.job = job
        self.diags = []         # (kind, file, func, detail, line, entry, via)
        self.exits = 0
        self.steps = 0
        self.secs = 0.0
        self.prec = None
        self.incomplete = None
        self.facts = {}         # counters
        self.data = None

    def diag(self, kind, file, func, detail, line, entry, via=()):
        self.diags.append((kind, file, func, detail, line, entry, tuple(via)))

COARSE = (3, 2, 0)       # coarse first: refine only to confirm an alarm
FINE = (0, 1, 2, 3)      # fine first: fall back when it does not finish

def run_entry(world, f, out, build, judge, precs=COARSE, deadline=100, kinds=None, steps=4000000):
    """abstractly run f.  build(level) -> (engine, models, args, state); judge(engine, models, exits)
    adds diagnostics to out.  Coarse first: a clean coarse run is final, an alarm is confirmed at the
    finer levels (only what every completed level reports stands)."""
    t0 = time.time()
    coarse = precs[0] > precs[-1]
    best = None
    for n, p in enumerate(precs):
        e, m, args, st = build(p)
        e.PRECISION = p
        e.step_limit = steps if coarse and best is None else steps // 4
        e.deadline = time.time() + deadline
        out.diags = []
        try:
            ex = e.run(f, args, st)
        except Incomplete as x:
            out.steps += e.steps
            out.incomplete = str(x)
            part = {k: d for k, d in e.diags.items() if kinds is None or d['kind'] in kinds}
            if coarse:
                if best is None:
                    continue
                break
            continue
        out.incomplete = None
        out.prec = p
        out.exits = len(ex)
        out.facts['forced'] = getattr(e, 'forced', 0)
        out.steps += e.steps
        judge(e, m, ex)
        for k, d in e.diags.items():
            if kinds is None or d['kind'] in kinds:
                out.diag(d['kind'], d['file'], d['func'], d['detail'], d['line'], f.dname, d['via'])
        keys = {x[:4] for x in out.diags}
        if best is None:
            best = out.diags
        else:
            best = [x for x in best if x[:4] in keys]
        if not coarse or not best:
            break
    if best is not None:
        out.incomplete = None
    out.diags = best or []
    out.secs = time.time() - t0
    return out

# ------------------------------------------------------------------ pool
_ctx = {}

def _init_worker():
    pass

def _run(job):
    fn = _ctx['fn']
    try:
        return fn(job)
    except Incomplete as x:
        o = Out(job)
        o.incomplete = str(x)
        return o
    except Exception as x:
        o = Out(job)
        o.incomplete = 'error: %s' % ''.join(traceback.format_exception(x)[-3:])
        o.error = True
        return o

def pool(fn, jobs, procs=None):
    """run jobs in forked workers; the worlds are inherited"""
    _ctx['fn'] = fn
    procs = procs or int(os.environ.get('VERIF_PROCS', '8'))
    if procs == 1 or len(jobs) <= 1:
        return [_run(j) for j in jobs]
    c = mp.get_context('fork')
    with c.Pool(min(procs, len(jobs)), maxtasksperchild=40) as p:
        return list(p.imap_unordered(_run, jobs, chunksize=1))
