#!/usr/bin/env python3
"""Builds the instrumented library + simulator + drivers from /repo's current tree."""
import os, re, sys, subprocess, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
CC, CXX = 'clang', 'clang++'
SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
       'tsan': ['-fsanitize=thread']}
VARIANTS = {  # name: (flavour, library defines, extra library flags)
  'ompi4': ('asan', ['-DSIM_OMPI=4'], []), 'ompi5': ('asan', ['-DSIM_OMPI=5'], []), 'mpich': ('asan', ['-DSIM_MPICH=1'], []),
  'ompi4-mt': ('asan', ['-DSIM_OMPI=4'], ['-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores']),
  'ompi4-prof': ('asan', ['-DSIM_OMPI=4'], []), 'ompi4-tool': ('asan', ['-DSIM_OMPI=4'], []),
  'ompi4-fast': ('asan', ['-DSIM_OMPI=4', '-DNO_SEATBELTS', '-DARMCI_GROUP', '-DDEBUG'], []), 'mpich-fast': ('asan', ['-DSIM_MPICH=1', '-DNO_SEATBELTS', '-DSIM_NO_PROGRESS'], []), 'ompi5-plain': ('asan', ['-DSIM_OMPI=5', '-DSIM_NO_WEAK'], []), 'mpich-pairs': ('asan', ['-DSIM_MPICH=1', '-DNO_USE_CTREE'], []),
  'ompi4-tsan': ('tsan', ['-DSIM_OMPI=4'], []),
}
def lib_sources():
    mk = open(REPO + '/Makefile.am').read()
    m = re.search(r'^libarmci_la_SOURCES\s*=((?:.*\\\n)*.*\n)', mk, re.M)
    return [REPO + '/' + s for s in m.group(1).replace('\\\n', ' ').split()]
def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise RuntimeError(' '.join(cmd) + '\n' + p.stdout[-6000:])
def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]
def deps():
    return (sorted(glob.glob(REPO + '/src/*.[ch]')) + sorted(glob.glob(REPO + '/src/*.in')) + [REPO + '/Makefile.am', REPO + '/profiler/profiling.c'] +
            sorted(glob.glob(V + '/sim/*') + glob.glob(V + '/sim/include/*') + glob.glob(V + '/harness/*') + glob.glob(V + '/prof/*') + [V + '/build.py']))
def build(variants, drivers=None, jobs=8, root=None):
    """returns {variant: executable}; drivers: optional list of harness files (default: all)"""
    root = root or V + '/build'
    files = [f for f in deps() if os.path.isfile(f)]
    d = root + '/' + digest(files, repr(sorted(SAN.items()))); os.makedirs(d, exist_ok=True)
    out, tasks = {}, []
    drv = sorted(glob.glob(V + '/harness/*.cpp'))
    def add(key, cmd):
        if not os.path.exists(key): tasks.append((key, cmd))
    flav = {VARIANTS[v][0] for v in variants}
    inc = ['-I' + V + '/sim', '-I' + V + '/sim/include', '-I' + REPO + '/src']
    objs = {}
    for f in flav:
        fd = d + '/' + f; os.makedirs(fd, exist_ok=True); objs[f] = []
        # the simulator itself is not instrumented for races: its internal hand-off must not order library accesses
        san_sim = SAN[f] if f == 'asan' else ['-DSIM_TSAN=1']
        for s in [V + '/sim/simcore.cpp', V + '/sim/simmpi.cpp'] + drv:
            o = fd + '/' + os.path.basename(s)[:-4] + '.o'; objs[f].append(o)
            fl = san_sim if '/sim/' in s else (SAN[f] if f == 'asan' else SAN[f])
            fl = [x for x in fl if 'undefined' not in x or True]
            add(o, [CXX, '-std=c++17', '-O0', '-g1', '-w'] + [x.replace('address,undefined', 'address') for x in fl if 'recover' not in x] + inc + ['-c', s, '-o', o])
    for v in variants:
        f, defs, extra = VARIANTS[v]; vd = d + '/' + v; os.makedirs(vd, exist_ok=True); lo = []
        srcs = lib_sources() + ([REPO + '/profiler/profiling.c'] if v.endswith('-prof') else []) + ([V + '/prof/tool.c'] if v.endswith('-tool') else [])
        for s in srcs:
            o = vd + '/' + os.path.basename(s)[:-2] + '.o'; lo.append(o)
            cov = extra or (['-fsanitize-coverage=trace-pc-guard'] if f == 'asan' else [])
            add(o, [CC, '-O1', '-g', '-w', '-ftrivial-auto-var-init=' + ('zero' if v.startswith('mpich') or v.endswith(('-mt', '-fast')) else 'pattern'), '-fno-builtin-memcpy', '-fno-builtin-memmove', '-fno-builtin-memset', '-DHAVE_CONFIG_H'] + defs + SAN[f] + cov + ['-include', V + '/sim/simhooks.h'] + inc + ['-I' + REPO + '/profiler', '-c', s, '-o', o])
        out[v] = (vd + '/harness', [CXX] + SAN[f] + objs[f] + lo + ['-o', vd + '/harness', '-lpthread', '-lm'])
    def run(t):
        key, cmd = t; tmp = key + '.tmp%d' % os.getpid(); cmd = [tmp if c == key else c for c in cmd]; sh(cmd); os.replace(tmp, key)
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(run, tasks))
    for v, (exe, cmd) in out.items():
        if os.path.exists(exe): continue
        try: run((exe, cmd))
        except RuntimeError as e:
            # a build that lacks public functions: calling one is reported when it happens
            miss = sorted(set(re.findall(r"undefined (?:reference to|symbol:) [`']?((?:ARMCI|armci)\w+)", str(e))))
            if not miss: raise
            st = d + '/' + v + '/missing.cpp'
            open(st, 'w').write('#include "sim.h"\n' + ''.join('extern "C" void %s() { sim_fatal("ORACLE", "missing-function", "this build of the library does not provide %s"); }\n' % (m, m) for m in miss))
            run((exe, cmd[:-2] + [st] + inc + cmd[-2:]))
    return {v: o[0] for v, o in out.items()}
if __name__ == '__main__':
    import time; t = time.time()
    r = build(sys.argv[1:] or ['ompi4'])
    for k, v in r.items(): print(k, v)
    print('%.1fs' % (time.time() - t))
