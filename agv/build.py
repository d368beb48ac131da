"""Compile /repo's current sources and the drivers to LLVM IR and to a native shared object."""
import os, re, subprocess, hashlib, glob, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('AGV_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
FLAGS = ['-std=c++11', '-O1', '-fno-math-errno', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
         '-ffp-contract=off', '-fPIC', '-w', '-DHAVE_EIGEN', '-I/usr/include/eigen3', '-fno-strict-aliasing', '-fno-access-control',
         '-fno-builtin-printf', '-ftrivial-auto-var-init=pattern', '-I' + os.path.join(HERE, 'harness')]


class BuildError(Exception):
    pass


DROPPED = []       # driver functions that do not compile against the current sources (an internal signature has changed)


def drop(src, txt, err):
    """blank out the driver functions in which the compiler reports errors; None if an error is elsewhere"""
    lines = txt.split('\n')
    bad = {int(n) - 1 for n in re.findall(r'^%s:(\d+):\d+: (?:fatal )?error:' % re.escape(src), err, re.M)}
    if not bad:
        return None
    done = False
    for n in sorted(bad):
        i = n
        while i >= 0 and not re.match(r'(extern "C" )?(void|double|int|bool|unsigned|size_t)\b[^;=]*\b(\w+)\s*\(', lines[i]):
            if i < n and lines[i].startswith('}'):
                return None
            i -= 1
        if i < 0:
            return None
        j, depth, seen = i, 0, False
        while j < len(lines):
            depth += lines[j].count('{') - lines[j].count('}')
            seen |= '{' in lines[j]
            if seen and depth <= 0:
                break
            j += 1
        if not i <= n <= j:
            if lines[n]:
                return None
            continue
        DROPPED.append(re.search(r'(\w+)\s*\(', lines[i]).group(1))
        for x in range(i, j + 1):
            lines[x] = ''
        done = True
    return '\n'.join(lines) if done else None


def srchash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + '/src/*')):
        if os.path.isfile(p):
            h.update(p.encode())
            h.update(open(p, 'rb').read())
    return h


def compile_all(srcs, out, native=True):
    """srcs: list of absolute .cpp paths; returns (list of .ll, .so path)"""
    os.makedirs(out, exist_ok=True)
    cache = os.environ.get('AGV_CACHE')
    base = None
    if cache:
        os.makedirs(cache, exist_ok=True)
        hdr = hashlib.sha256()
        for p in sorted(glob.glob(REPO + '/src/*.h') + glob.glob(HERE + '/harness/*.h')):
            hdr.update(open(p, 'rb').read())
        base = hdr.hexdigest() + ' '.join(FLAGS) + REPO

    def one(src):
        b = os.path.splitext(os.path.basename(src))[0]
        ll = os.path.join(out, b + '.ll')
        ob = os.path.join(out, b + '.o')
        if cache:
            txt = open(src, 'rb').read()
            if src.startswith(HERE):      # drivers may include .cpp files of the repository
                txt += srchash().digest()
            k = hashlib.sha256(base.encode() + src.encode() + txt).hexdigest()
            cl, co = os.path.join(cache, k + '.ll'), os.path.join(cache, k + '.o')
            if os.path.exists(cl) and os.path.exists(co):
                shutil.copy(cl, ll)
                shutil.copy(co, ob)
                return ll, ob
        cmd = [CLANG] + FLAGS + ['-I' + REPO + '/src', '-S', '-emit-llvm', src, '-o', ll]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and src.startswith(HERE):
            cur, txt2 = src, open(src).read()
            for attempt in range(6):
                txt2 = drop(cur, txt2, r.stderr)
                if txt2 is None:
                    break
                cur = os.path.join(out, b + '_part.cpp')
                open(cur, 'w').write(txt2)
                r = subprocess.run([cur if c == src else c for c in cmd] + ['-ferror-limit=0'], capture_output=True, text=True)
                if r.returncode == 0:
                    break
        if r.returncode:
            raise BuildError('%s: %s' % (src, r.stderr[:2000]))
        r = subprocess.run([CLANG, '-O1', '-fPIC', '-w', '-c', ll, '-o', ob], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('%s: %s' % (src, r.stderr[:2000]))
        if cache:
            shutil.copy(ll, cl)
            shutil.copy(ob, co)
        return ll, ob
    # biggest first
    srcs = sorted(set(srcs), key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    lls = [r[0] for r in res]
    so = None
    if native:
        so = os.path.join(out, 'native.so')
        nat = os.path.join(out, 'agv_native.o')
        r = subprocess.run([CLANG, '-O1', '-fPIC', '-c', os.path.join(HERE, 'harness/agv_native.cpp'), '-o', nat], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[:2000])
        r = subprocess.run([CLANG, '-shared', '-o', so, nat] + [x[1] for x in res] + ['-Wl,-z,lazy', '-Wl,--allow-shlib-undefined', '-lgsl', '-lgslcblas', '-lm'],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[:3000])
        if os.environ.get('AGV_V'):
            u = subprocess.run("nm -uC %s | grep -E ' U (math|potential|coord|df|orbit|actions|galaxymodel|raga|utils|units|particles)::'" % so,
                               shell=True, capture_output=True, text=True).stdout
            if u:
                print('UNRESOLVED (add the translation unit):\n' + u)
    return lls, so
