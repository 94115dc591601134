"""What an opening mode asks for is what the host is asked for."""
from suite import *
from trace import same
from labels import label
import host
from host import UNITS, calls, show_calls, open_mode, OPENS

ASSUME = ['the host libraries open files as their documentation says',
          'write-only opening without any other flag, and overwriting combined with appending, mean what the host makes of them']
STDIO, LFS, FAT = UNITS
HOSTOPEN = {STDIO: 'fopen', LFS: 'lfs_file_open', FAT: 'f_open'}
FLAGS = ('READ', 'WRITE', 'OPEN_OR_NEW', 'NO_EXIST', 'OVERWRITE', 'APPEND')

def rules(fl):
    """[(name, what the last opening has to ask for, must it)]"""
    R, W, N, X, O, A = (f in fl for f in FLAGS)
    out = []
    if W:
        out.append(('write', True))
    elif not (N or X or O or A):
        out.append(('write', False))
    if R and (W or not (X or O or A)):
        out.append(('read', True))
    if X:
        out += [('create', True), ('exclusive', True)]
    elif R or not fl:
        out.append(('exclusive', False))
    if O and not A and not X:
        out += [('truncate', True), ('create', True)]
    if not O and R:
        out.append(('truncate', False))
    if A:
        out.append(('append', True))
    if not (N or X or O or A) and (R or not W):
        out.append(('create', False))
    return out

TEXT = {('write', True): 'cannot be written', ('write', False): 'is opened for writing', ('read', True): 'cannot be read', ('create', True): 'is not created when it is missing',
        ('exclusive', True): 'is opened although it exists', ('exclusive', False): 'is refused because it exists', ('truncate', True): 'keeps its old content',
        ('truncate', False): 'loses its content', ('append', True): 'is not written at its end', ('create', False): 'is created when it is missing'}

def check(r):
    r.rule = ('for every combination of the six opening flags and every path of the opening method: the mode the host is asked for, reduced to read, write, create, exclusive, truncate and '
              'append, is the one the flags stand for, and nothing is created or truncated before that unless the flags say so.')
    w = r.world('default')
    bits = dict(zip(FLAGS, w.const(*['EVFS_' + f for f in FLAGS])))
    for tu in UNITS:
        if tu not in w.vfs_slots:
            raise Broken('%s registers no filesystem' % tu)
        f = w.slots_of(tu)['m_open']
        for n in range(64):
            fl = {x for i, x in enumerate(FLAGS) if n >> i & 1}
            if not fl & {'READ', 'WRITE'} and not fl:
                continue
            name = '+'.join(x for x in FLAGS if x in fl)
            a = host.args_for(f, host.vfs_arg())
            a[3] = C(sum(bits[x] for x in fl))
            p, e, ex = host.run(w, f, a)
            r.count('flag combinations')
            good = 0
            for ret, st in ex:
                r.obl()
                def bad(kind, what):
                    r.discharged -= 1
                    r.violation(label(w, f), kind, '%s: %s' % (name, what),
                                '%s:%d %s opened with %s: %s; calls into the host on this path: %s' % (f.tu.name, f.line, f.dname, name, what, show_calls(st)))
                evs = [x for x in calls(st) if x[1] in OPENS or x[1] in ('remove', 'unlink', 'truncate', 'ftruncate', 'lfs_remove', 'lfs_file_truncate', 'f_unlink', 'f_truncate')]
                if st.rng(ret)[1] < 0:
                    last, before = None, evs
                else:
                    if not evs or evs[-1][1] not in OPENS:
                        continue                      # C10 judges this
                    good += 1
                    last, before = evs[-1], evs[:-1]
                if last is not None:
                    m = open_mode(st, last)
                    if m is None:
                        bad('mode', 'the mode the host is given cannot be determined')
                        continue
                    w1 = [(k, v) for k, v in rules(fl) if (k in m) != v]
                    if w1:
                        bad('mode', 'the file ' + TEXT[w1[0]])
                        continue
                if 'OPEN_OR_NEW' in fl and last is not None and 'create' not in m:
                    made = [x for x in before if x[1] in OPENS and 'create' in (open_mode(st, x) or ())]
                    there = [x for x in calls(st, 'stat', 'access', 'lfs_stat', 'f_stat') if st.rng(x[2]) == (0, 0)]
                    if not made and not there:
                        bad('mode', 'the file is not created when it is missing')
                        continue
                for x in before:
                    if x is evs[-1] and last is None:
                        # the opening that failed: it must not have been one that could do more than the flags say
                        m = open_mode(st, x) if x[1] in OPENS else None
                        if m is None:
                            continue
                        if ('truncate', False) in rules(fl) and 'truncate' in m or ('create', False) in rules(fl) and 'create' in m:
                            bad('before', 'a failing opening may change the file')
                        continue
                    m = open_mode(st, x) if x[1] in OPENS else {'truncate'}
                    if m is None or 'truncate' in m and 'OVERWRITE' not in fl and fl != {'WRITE'}:
                        bad('before', 'the file loses its content before it is opened')
                    elif 'create' in m and ('create', False) in rules(fl):
                        bad('before', 'the file is created before it is opened')
                    elif 'create' in m and 'NO_EXIST' in fl and 'exclusive' not in m:
                        bad('before', 'the file is created before it is opened exclusively')
            if not good:
                r.violation(label(w, f), 'never', name, '%s:%d %s never succeeds with %s' % (f.tu.name, f.line, f.dname, name))
    r.need('flag combinations', 180)
