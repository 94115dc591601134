"""Compile /repo's current sources to SROA'd LLVM IR, one module per translation unit."""
import threading, os, subprocess, sys, hashlib, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('EVFS_REPO', '/repo')

def tool(*names):
    for n in names:
        for d in ('/usr/bin', '/usr/lib/llvm-18/bin'):
            p = os.path.join(d, n)
            if os.path.exists(p):
                return p
    raise SystemExit('analysis-broken: no tool %s' % (names,))

CLANG = tool('clang-18', 'clang')
OPT = tool('opt-18', 'opt')

CONFIGS = {
    'default': [],
    'pthread': ['-DUSE_PTHREADS'],
    'c11': ['-DUSE_C11_THREADS'],
    # other settings of include/evfs_config.h: -name is not defined, name=value is
    'plain': ['config:-EVFS_USE_LITTLEFS_SHARED_BUFFER', 'config:-EVFS_USE_ROTATE_SHARED_BUFFER', 'config:-EVFS_USE_TARFS_SHARED_BUFFER',
              'config:-EVFS_USE_ROMFS_SHARED_BUFFER', 'config:-EVFS_USE_ROMFS_FAST_INDEX'],
    'noindex': ['config:-EVFS_USE_ROMFS_FAST_INDEX'],
    'off64': ['config:EVFS_FILE_OFFSET_BITS=64'],
    'plain-pthread': ['-DUSE_PTHREADS', 'config:-EVFS_USE_LITTLEFS_SHARED_BUFFER', 'config:-EVFS_USE_ROTATE_SHARED_BUFFER',
              'config:-EVFS_USE_TARFS_SHARED_BUFFER', 'config:-EVFS_USE_ROMFS_SHARED_BUFFER', 'config:-EVFS_USE_ROMFS_FAST_INDEX'],
}

class BuildError(Exception):
    pass

def sources():
    out = []
    for d in ('src', 'src/util'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.c'):
                out.append(os.path.join(d, f))
    return out

def cflags(outdir, extra):
    inc = []
    # evfs_build_config.h is generated by cmake and git-ignored
    if not os.path.exists(os.path.join(REPO, 'include/evfs/evfs_build_config.h')):
        g = os.path.join(outdir, 'gen')
        os.makedirs(os.path.join(g, 'evfs'), exist_ok=True)
        tmp = os.path.join(g, 'evfs', '.%d.%d' % (os.getpid(), threading.get_ident()))
        with open(tmp, 'w') as f:
            f.write('#define EVFS_VERSION "0"\n')
        os.replace(tmp, os.path.join(g, 'evfs', 'evfs_build_config.h'))
        inc += ['-I', g]
    for i in ('include', 'include/evfs', 'src', 'libraries/fatfs/source'):
        inc += ['-I', os.path.join(REPO, i)]
    lfs = os.path.join(REPO, 'libraries/littlefs')
    inc += ['-I', lfs if os.path.exists(os.path.join(lfs, 'lfs.h')) else os.path.join(HERE, 'stub')]
    return ['-std=gnu17', '-w', '-O0', '-g', '-Xclang', '-disable-O0-optnone',
            '-fno-discard-value-names'] + inc + extra

def resolve(flags, outdir):
    """settings that are defined in the configuration header: the header's include guard keeps out the original"""
    import re
    cfg = [f[7:] for f in flags if f.startswith('config:')]
    if not cfg:
        return list(flags)
    s = open(os.path.join(REPO, 'include/evfs_config.h')).read()
    for c in cfg:
        n = c.lstrip('-').split('=')[0]
        s = re.sub(r'(?m)^[ \t]*#[ \t]*define[ \t]+%s\b.*$' % n, '', s)
        if not c.startswith('-'):
            s = re.sub(r'(?m)^([ \t]*#[ \t]*define[ \t]+EVFS_CONFIG_H\b.*)$', r'\1\n#define %s %s' % (n, c.split('=')[1]), s)
    g = os.path.join(outdir, 'cfg')
    os.makedirs(g, exist_ok=True)
    h = os.path.join(g, 'evfs_config_variant.h')
    tmp = '%s.%d.%d' % (h, os.getpid(), threading.get_ident())
    with open(tmp, 'w') as f:
        f.write(s)
    os.replace(tmp, h)
    return [f for f in flags if not f.startswith('config:')] + ['-include', h]

def compile_one(src, outdir, extra):
    base = src.lstrip('/').replace('/', '_')[:-2]
    ll = os.path.join(outdir, base + '.ll')
    cmd = [CLANG] + cflags(outdir, extra) + ['-emit-llvm', '-S', os.path.join(REPO, src), '-o', ll + '.0']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s: %s' % (src, r.stderr[-2000:]))
    r = subprocess.run([OPT, '-passes=sroa', '-S', ll + '.0', '-o', ll], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s: opt: %s' % (src, r.stderr[-2000:]))
    os.unlink(ll + '.0')
    return src, ll

INLINE = '''#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <limits.h>
#define inline inline __attribute__((used))
#include "evfs.h"
'''

def inline_tu(outdir, flags):
    """the functions evfs.h defines inline, as a unit of their own"""
    c = os.path.join(outdir, 'evfs_inline.c')
    with open(c, 'w') as f:
        f.write(INLINE)
    return 'include/evfs.h', compile_one(c, outdir, flags)[1]

def build(config, outdir, extra=(), only=None, inlines=False):
    os.makedirs(outdir, exist_ok=True)
    flags = resolve(CONFIGS[config] + list(extra), outdir)
    srcs = [s for s in sources() if only is None or only(s)]
    with cf.ThreadPoolExecutor(8) as ex:
        d = dict(ex.map(lambda s: compile_one(s, outdir, flags), srcs))
    if inlines:
        k, v = inline_tu(outdir, flags)
        d[k] = v
    return d

def constants(names, outdir, flags=(), headers=('evfs.h',)):
    """values of macros and enumerators, as the compiler sees them"""
    import re
    os.makedirs(outdir, exist_ok=True)
    c = os.path.join(outdir, 'evfs_consts.c')
    with open(c, 'w') as f:
        for h in headers:
            f.write('#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <time.h>\n#include "%s"\n' % h)
        f.write('#include <stddef.h>\n')
        for n in names:
            n, _, x = n.partition('=')
            f.write('long long c_%s = (long long)(%s);\n' % (n, x or n))
    cmd = [CLANG] + cflags(outdir, resolve(list(flags), outdir)) + ['-emit-llvm', '-S', c, '-o', c + '.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('constants: %s' % r.stderr[-1500:])
    out = {}
    for l in open(c + '.ll'):
        m = re.match(r'@c_(\w+) = .*global i64 (-?\d+)', l)
        if m:
            out[m.group(1)] = int(m.group(2))
    return out
