"""Compile real sources + harness to LLVM IR (prover) and to native code (runtime contract check / replay)."""
import os
import atexit
import re
import shutil
import subprocess
import tempfile
import hashlib
from concurrent.futures import ThreadPoolExecutor

LL = '/usr/lib/llvm-18/bin/'
REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++14', '-include', 'cstdint', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO,
         '-I' + VERIF + '/rt']


class BuildError(Exception):
    pass


def run(cmd, timeout=600):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:300], r.stderr[-3000:]))
    return r.stdout


def overlay():
    """headers that clang rejects although gcc takes them: the offending declaration (never defined, never used) is dropped;
    libstdc++'s std::find_if: its plain loop instead of the one unrolled by four"""
    d = tempfile.mkdtemp(prefix='vf-overlay-')
    lib = '/usr/include/c++/13/bits/stl_algobase.h'
    t = open(lib).read()
    u = re.sub(r'(return __find_if\(__first, __last, __pred,\s*)std::__iterator_category\(__first\)\);', r'\1input_iterator_tag());', t)
    os.makedirs(d + '/bits')
    open(d + '/bits/stl_algobase.h', 'w').write(u)
    h = REPO + '/include/blackhole/sink/file.hpp'
    try:
        t = open(h).read()
    except OSError:
        return d
    u = re.sub(r'template<class Rep, std::uintmax_t Denom>\s*class binary_unit<Rep, std::ratio<1, Denom>>;', '', t)
    if u != t:
        os.makedirs(d + '/blackhole/sink', exist_ok=True)
        open(d + '/blackhole/sink/file.hpp', 'w').write(u)
    return d


OVERLAY = None


def to_ll(src, out, defs=()):
    global OVERLAY
    if OVERLAY is None:
        OVERLAY = overlay()
        atexit.register(shutil.rmtree, OVERLAY, True)
    run(['clang++-18', '-I' + OVERLAY] + FLAGS + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-access-control', '-w',
                                  '-fno-discard-value-names' if False else '-w', '-S', '-emit-llvm'] + list(defs) + [src, '-o', out])


def harness_module(tmp, harness, sources, defs=()):
    """harness.cpp (+ further real translation units) -> linked, SROA'd textual IR"""
    jobs = [(harness, os.path.join(tmp, 'h_' + os.path.basename(harness) + '.ll'))]
    for s in sources:
        jobs.append((s, os.path.join(tmp, s.replace('/', '_') + '.ll')))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: to_ll(j[0], j[1], defs) if not (j[0] != harness and os.path.exists(j[1])) else None, jobs))
    linked = os.path.join(tmp, os.path.basename(harness) + '.linked.ll')
    if len(jobs) > 1:
        run([LL + 'llvm-link', '-S', '-o', linked] + [j[1] for j in jobs])
    else:
        linked = jobs[0][1]
    out = os.path.join(tmp, os.path.basename(harness) + '.opt.ll')
    run([LL + 'opt', '-passes=sroa,simplifycfg', '-S', linked, '-o', out])
    return open(out).read()


def demangle(names):
    names = list(names)
    r = subprocess.run([LL + 'llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


LIB_SKIP = ('generator.other.cpp',)


def lib_sources():
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            if f.endswith('.cpp') and f not in LIB_SKIP and 'osx' not in f:
                out.append(os.path.join(d, f))
    return sorted(out)


def native_all(tmp, harnesses, san=True, defs=(), par=8):
    """runtime builds: every harness + the real library (archive) -> {harness: binary path | BuildError}"""
    fl = FLAGS + ['-O1', '-U_FORTIFY_SOURCE', '-w', '-DVF_RT'] + (['-fsanitize=address', '-fno-omit-frame-pointer'] if san else []) + list(defs)

    def comp(s):
        o = os.path.join(tmp, 'n_%s.o' % s.replace('/', '_'))
        x = fl + (['-g', '-fno-access-control'] if s.startswith(VERIF) else [])
        try:
            run(['g++'] + x + ['-c', s, '-o', o], timeout=800)
            return o
        except Exception as e:
            return e
    lib = lib_sources()
    with ThreadPoolExecutor(par) as ex:
        objs = list(ex.map(comp, list(harnesses) + [VERIF + '/rt/rt.cpp'] + lib))
    nh = len(harnesses)
    bad = [o for o in objs[nh:] if not isinstance(o, str)]
    if bad:
        raise bad[0]
    ar = os.path.join(tmp, 'libnative.a')
    run(['ar', 'rcs', ar] + objs[nh + 1:])
    out = {}
    for h, o in zip(harnesses, objs[:nh]):
        if not isinstance(o, str):
            out[h] = o
            continue
        b = os.path.join(tmp, 'rt_' + os.path.basename(h).replace('.', '_'))
        try:
            run(['g++'] + (['-fsanitize=address'] if san else []) +
                [o, objs[nh], ar, '-rdynamic', '-Wl,--allow-multiple-definition', '-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_spin_lock,--wrap=pthread_spin_unlock', '-o', b, '-lboost_thread', '-lboost_system', '-lpthread', '-ldl'])
            out[h] = b
        except Exception as e:
            out[h] = e
    return out
