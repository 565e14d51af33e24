#!/usr/bin/env python3
"""Builds FCL from /repo's working tree, instrumented, plus one harness.  build.py <check> -> path of the binary."""
import hashlib, os, subprocess, sys, shutil, json, re, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(V, 'build')
NARROW = ('src/narrowphase/collision.cpp', 'src/narrowphase/distance.cpp', 'src/narrowphase/continuous_collision.cpp')
CXX = 'clang++'
BASE = ['-std=c++14', '-O1', '-gline-tables-only', '-DNDEBUG', '-fPIC', '-fno-omit-frame-pointer', '-w',
        '-mfpmath=sse', '-msse', '-msse2', '-msse3', '-mssse3', '-fvisibility=hidden',
        '-include', os.path.join(V, 'sim', 'eigen_check.h'), '-D_GLIBCXX_ASSERTIONS', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-DFCL_STATIC_DEFINE']
WRAPS = ['malloc', 'free', 'calloc', 'realloc', 'posix_memalign', 'aligned_alloc', 'clock_gettime', 'gettimeofday', 'time']

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def tree_hash():
    h = hashlib.sha256()
    for d in ('include', 'src', 'CMakeModules'):
        for r, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.join(REPO, 'CMakeLists.txt'), 'rb').read())
    return h.hexdigest()[:24]

def configure(work):
    """config.h / export.h / fcl.h come from the repository's own CMake."""
    r = subprocess.run(['cmake', '-S', REPO, '-B', work, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=Release', '-DBUILD_TESTING=OFF',
                        '-DFCL_STATIC_LIBRARY=ON', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], capture_output=True, text=True)
    if r.returncode: sys.stderr.write(r.stdout + r.stderr); raise SystemExit(2)

def compile_one(args):
    src, obj, flags = args
    r = subprocess.run([CXX] + flags + ['-c', src, '-o', obj + '.tmp'], capture_output=True, text=True)
    if r.returncode: return src + '\n' + r.stderr[:6000]
    os.replace(obj + '.tmp', obj)
    return None

def build(check, harness, defs=(), narrow=False, jobs=8, extra=()):
    th = tree_hash()
    fl = BASE
    lib = os.path.join(OUT, 'lib-' + sha(th, open(os.path.join(V, 'sim', 'eigen_check.h')).read(), *[x for x in fl if not x.startswith('/')]))
    os.makedirs(OUT, exist_ok=True)
    # keep only the current tree's objects
    for e in os.listdir(OUT):
        if e.startswith('lib-') and os.path.join(OUT, e) != lib: shutil.rmtree(os.path.join(OUT, e), ignore_errors=True)
    cfg = os.path.join(lib, 'cfg')
    if not os.path.exists(os.path.join(cfg, 'compile_commands.json')): os.makedirs(lib, exist_ok=True); configure(cfg)
    cc = json.load(open(os.path.join(cfg, 'compile_commands.json')))
    inc = sorted({x for e in cc for x in re.findall(r'(?:-I|-isystem )(\S+)', e['command'])})
    flags = fl + sum([['-isystem' if 'eigen' in i else '-I', i] for i in inc], [])
    jobsl = []; objs = []
    for e in cc:
        rel = os.path.relpath(e['file'], REPO)
        if not rel.startswith('src/') or not rel.endswith('.cpp'): continue
        if rel in NARROW and not narrow: continue
        o = os.path.join(lib, rel.replace('/', '_') + '.o'); objs.append(o)
        if not os.path.exists(o): jobsl.append((0 if rel in NARROW else 2, (e['file'], o, flags)))
    hs = os.path.join(V, 'harness', harness); rt = os.path.join(V, 'sim', 'simrt.cpp')
    hdeps = b''.join(open(os.path.join(d, f), 'rb').read() for d in (os.path.join(V, 'harness'), os.path.join(V, 'sim')) for f in sorted(os.listdir(d)) if f.endswith(('.h', '.cpp')) and (f.endswith('.h') or f == harness))
    ho = os.path.join(lib, 'h-%s-%s.o' % (check, sha(hdeps, *defs)))
    hflags = flags + ['-I', os.path.join(V, 'sim'), '-I', os.path.join(V, 'harness')] + list(defs)
    if not os.path.exists(ho): jobsl.append((1, (hs, ho, hflags)))
    ro = os.path.join(lib, 'simrt-%s.o' % sha(open(rt, 'rb').read(), open(os.path.join(V, 'sim', 'simrt.h'), 'rb').read()))
    if not os.path.exists(ro): jobsl.append((1, (rt, ro, ['-std=c++17', '-O2', '-g1', '-w'])))
    jobsl.sort(key=lambda x: x[0])
    with ThreadPoolExecutor(jobs) as ex:
        errs = [e for e in ex.map(compile_one, [j for _, j in jobsl]) if e]
    if errs: sys.stderr.write('\n'.join(errs[:3]) + '\n'); raise SystemExit(2)
    exe = os.path.join(lib, 'sim-%s-%s' % (check, os.path.basename(ho)[2:-2]))
    if not os.path.exists(exe) or any(os.path.getmtime(o) > os.path.getmtime(exe) for o in objs + [ho, ro]):
        # the objects of the repository go into an archive, so that only what the harness reaches is linked
        ar = os.path.join(lib, 'fcl-%d.a' % narrow)
        if os.path.exists(ar): os.unlink(ar)
        subprocess.run(['ar', 'rcs', ar] + objs, check=True)
        cmd = [CXX, '-no-pie', '-g', ho, ro, ar, '-o', exe + '.tmp', '-lccd', '-loctomap', '-loctomath', '-lpthread', '-ldl'] + ['-Wl,--wrap=' + w for w in WRAPS] + list(extra)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            if not narrow:  # something moved: fall back to everything
                return build(check, harness, defs, True, jobs, extra)
            sys.stderr.write(r.stderr[:6000]); raise SystemExit(2)
        os.replace(exe + '.tmp', exe)
    return exe
