"""Builds /repo's sources (current working tree) as a static library for the harnesses, and links harnesses.
Objects are cached under /verif/build, keyed on the content of the source, of every header and of the flags."""
import time, hashlib, os, subprocess, sys, concurrent.futures, glob, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
OUT = os.path.join(V, 'build')
DEFS = ['-DTESTS_ENABLED', '-DNO_SAFE_CAST', '-DUSING_SFW', '-DDEBUG_ENABLED', '-DNDEBUG', '-DX11_ENABLED',
        '-DUNIX_ENABLED', '-D_FILE_OFFSET_BITS=64']
BASE = ['-fno-rtti', '-std=gnu++14', '-fno-exceptions', '-pipe', '-w']
INC = ['-I' + REPO + '/platform/x11', '-I' + REPO + '/platform', '-I' + REPO]
ASAN = ['-g1', '-fsanitize=address', '-fno-omit-frame-pointer']
VARIANTS = {'plain': ['-O1'], 'asan': ['-O1'] + ASAN, 'tsan': ['-O1', '-g1', '-fsanitize=thread'],
            'sched': ['-O1', '-fsanitize=thread']}
HARN = VARIANTS
CXX = {'plain': 'g++', 'asan': 'clang++-18', 'tsan': 'clang++-18', 'sched': 'g++'}
def srcflags(variant, s):
    # the bundled standard library is one 29k-line file: unoptimised, it compiles three times faster
    f = list(VARIANTS[variant])
    if s.endswith('/sfw.cpp'):
        f[0] = '-O0'
    return f

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sources():
    s = sorted(glob.glob(REPO + '/core/*.cpp') + glob.glob(REPO + '/modules/*/*.cpp'))
    return s + [REPO + '/platform/sfw.cpp', REPO + '/platform/image.cpp']

def headers():
    h = []
    for d in ('core', 'modules', 'platform'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith(('.h', '.inc', '.hpp')):
                    h.append(os.path.join(root, f))
    return sorted(h)

def fhash(paths):
    m = hashlib.sha256()
    for p in paths:
        m.update(p.encode())
        with open(p, 'rb') as f:
            m.update(f.read())
    return m.hexdigest()

class BuildError(Exception):
    pass

def compile_all(variant, only=None):
    os.makedirs(os.path.join(OUT, variant), exist_ok=True)
    hh = fhash(headers())
    jobs, objs = [], []
    for s in sources():
        if only and not only(s):
            continue
        flags = [CXX[variant]] + BASE + srcflags(variant, s) + DEFS + INC
        key = hashlib.sha256((hh + fhash([s]) + ' '.join(flags)).encode()).hexdigest()[:24]
        o = os.path.join(OUT, variant, os.path.basename(s) + '.' + key + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, flags))
    def one(j):
        s, o, flags = j
        r = sh(flags + ['-c', s, '-o', o + '.tmp%d' % os.getpid()])
        if r.returncode != 0:
            raise BuildError('compiling %s failed:\n%s' % (s, r.stdout[-3000:]))
        os.rename(o + '.tmp%d' % os.getpid(), o)
    # biggest first
    jobs.sort(key=lambda j: (not j[0].endswith('/sfw.cpp'), -os.path.getsize(j[0])))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    # keep the cache small: drop objects that are not of this tree when there are many
    keep = set(objs)
    old = [f for f in glob.glob(os.path.join(OUT, variant, '*.o')) if f not in keep]
    if len(old) > 400:
        for f in old:
            try: os.unlink(f)
            except OSError: pass
    return objs, hh

def library(variant):
    objs, hh = compile_all(variant)
    key = hashlib.sha256('\n'.join(objs).encode()).hexdigest()[:24]
    lib = os.path.join(OUT, variant, 'lib.' + key + '.a')
    if not os.path.exists(lib):
        for f in glob.glob(os.path.join(OUT, variant, 'lib.*.a')):
            try:
                if time.time() - os.path.getmtime(f) > 900: os.unlink(f)
            except OSError: pass
        tmp = lib + '.tmp%d' % os.getpid()
        r = sh(['ar', 'rcs', tmp] + objs)
        if r.returncode != 0:
            raise BuildError('ar failed: ' + r.stdout)
        os.rename(tmp, lib)
    return lib, hh

def harness(name, variant, extra_flags=()):
    """Compile harness/<name>.cpp concurrently with the library, then link."""
    src = os.path.join(V, 'harness', name + '.cpp')
    hdrs = sorted(glob.glob(os.path.join(V, 'harness', '*.h')))
    flags = BASE + HARN[variant] + DEFS + INC + ['-I' + os.path.join(V, 'harness')] + list(extra_flags)
    hh = fhash(headers())
    key = hashlib.sha256((hh + fhash([src] + hdrs) + ' '.join(flags)).encode()).hexdigest()[:24]
    os.makedirs(os.path.join(OUT, 'bin'), exist_ok=True)
    o = os.path.join(OUT, 'bin', '%s.%s.%s.o' % (name, variant, key))
    def comp():
        if not os.path.exists(o):
            for f in glob.glob(os.path.join(OUT, 'bin', '%s.%s.*.o' % (name, variant))):
                try:
                    if time.time() - os.path.getmtime(f) > 900: os.unlink(f)
                except OSError: pass
            tmp = o + '.tmp%d' % os.getpid()
            r = sh([CXX[variant]] + flags + ['-c', src, '-o', tmp])
            if r.returncode != 0:
                raise BuildError('compiling harness %s failed:\n%s' % (name, r.stdout[-6000:]))
            os.rename(tmp, o)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(comp)
        f2 = ex.submit(library, variant)
        f1.result()
        lib, _ = f2.result()
    exe = os.path.join(OUT, 'bin', '%s.%s' % (name, variant))
    stamp = exe + '.stamp'
    want = o + '|' + lib
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want):
        tmp = exe + '.tmp%d' % os.getpid()
        # 'sched' harnesses bring their own definitions of the thread sanitizer's hooks (harness/mcsched.h)
        san = [f for f in HARN[variant] if f.startswith('-fsanitize') and variant != 'sched']
        r = sh([CXX[variant], '-o', tmp, o, lib] + san + ['-lpthread', '-lm', '-ldl', '-latomic', '-rdynamic'])
        if r.returncode != 0:
            raise BuildError('linking harness %s failed:\n%s' % (name, r.stdout[-6000:]))
        os.rename(tmp, exe)
        with open(stamp, 'w') as f:
            f.write(want)
    return exe

if __name__ == '__main__':
    if '--setup' in sys.argv:
        # nothing has to persist: every check builds what it needs from the current tree
        os.makedirs(OUT, exist_ok=True)
        r = sh(['g++', '--version'])
        print(r.stdout.splitlines()[0])
        sys.exit(0 if r.returncode == 0 else 1)
    for v in (sys.argv[1:] or ['plain']):
        print(library(v))
