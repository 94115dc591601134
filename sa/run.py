#!/usr/bin/env python3
"""python3 sa/run.py <property> [--tier quick|thorough]   (run from anywhere)

exit 0: the property held on everything analysed (listed known findings are printed)
exit 1: a VIOLATION line per construct that breaks it
exit 3: the analysis itself could not run (analysis-broken)
"""
import sys, os, json, time, argparse, tempfile, shutil, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import suite, build_ir

KNOWN = os.path.join(VERIF, 'known_findings.txt')

def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % pid):
                body, _, why = l[len('known: property=%s ' % pid):].partition(' -- ')
                out[body.strip()] = why.strip()
    return out

class R:
    """one run of one checker"""
    def __init__(self, pid, tier, root):
        self.pid, self.tier, self.root = pid, tier, root
        self.viol = {}          # key -> text
        self.obligations = 0
        self.discharged = 0
        self.counts = {}
        self.samples = []
        self.notes = []
        self.incomplete = []
        self.worlds = {}
        self.rule = ''
        self.assume = []

    def world(self, cfg, extra=(), tag=None, inlines=False):
        k = tag or cfg
        if k not in self.worlds:
            self.worlds[k] = suite.World(cfg, self.root, extra, tag, inlines)
        return self.worlds[k]

    def violation(self, where, kind, detail, text):
        """where: stable label of the entry point or construct; text: file, line, path"""
        k = '%s | %s | %s' % (where, kind, detail)
        self.viol.setdefault(k, text)

    def obl(self, ok=True, n=1):
        self.obligations += n
        if ok:
            self.discharged += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def need(self, name, minimum=1):
        """an anchor count below what the rule needs to mean anything"""
        if self.counts.get(name, 0) < minimum:
            raise suite.Broken('only %d %s found (expected at least %d)' % (self.counts.get(name, 0), name, minimum))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('props.' + pid.lower())
    root = tempfile.mkdtemp(prefix='evfs-sa-')
    r = R(pid, a.tier, root)
    broken = None
    try:
        mod.check(r)
    except (suite.Broken, build_ir.BuildError) as x:
        broken = str(x)
    except Exception:
        broken = traceback.format_exc()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if broken and not [k for k in r.viol if k not in load_known(pid)]:
        print('analysis-broken: property=%s %s' % (pid, broken))
        sys.exit(3)
    if broken:
        r.notes.append('the analysis stopped early: %s' % broken)
    known = load_known(pid)
    new = {k: v for k, v in r.viol.items() if k not in known}
    old = {k: v for k, v in r.viol.items() if k in known}
    ev = os.environ.get('EVFS_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, pid + '.report.txt')
    with open(rep, 'w') as f:
        f.write('%s: %s\nrule: %s\n' % (pid, mod.__doc__.strip().split('\n')[0], r.rule))
        for k, v in sorted(new.items()):
            f.write('\nVIOLATION %s\n  %s\n' % (k, v.replace('\n', '\n  ')))
        for k, v in sorted(old.items()):
            f.write('\nknown finding %s\n  %s\n' % (k, v.replace('\n', '\n  ')))
        for i in r.incomplete:
            f.write('\nnot fully analysed: %s\n' % i)
        for n in r.notes:
            f.write('\nnote: %s\n' % n)
    cov = dict(explanation='%s Obligations are the instances of the rule found in the current source; '
               'discharged ones were shown to hold on every path analysed.' % r.rule,
               obligations=r.obligations, discharged=r.discharged, **r.counts)
    cov['samples'] = r.samples
    cov['not_fully_analysed'] = r.incomplete
    cov['known_findings'] = sorted(old)
    d = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='other', coverage=cov,
             wall_s=round(time.time() - t0, 2), violations=len(new),
             assumptions=r.assume + getattr(mod, 'ASSUME', []))
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)
    print('%s %s: %d rule instances, %d discharged, %s; %.1f s' % (
        pid, a.tier, r.obligations, r.discharged,
        ', '.join('%s=%s' % x for x in sorted(r.counts.items())), time.time() - t0))
    for i in r.incomplete:
        print('  not fully analysed:', i)
    for n in r.notes:
        print('  note:', n)
    for k, v in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s -- %s' % (pid, k, known[k]))
    gone = [k for k in known if k not in r.viol]
    for k in gone:
        print('  note: listed finding no longer reported: %s' % k)
    for k, v in sorted(new.items()):
        print('  %s\n    %s' % (k, v[:600].replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
    sys.stdout.flush()
    sys.exit(1 if new else 0)

if __name__ == '__main__':
    main()
