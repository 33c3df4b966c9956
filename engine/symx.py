"""Build and run symx harnesses (see DESIGN.md)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
ENG = os.path.join(VERIF, 'engine')
BIN = '/usr/lib/llvm-18/bin/'
CXX = BIN + 'clang++'
JOBS = 8


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def file_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def cache_dir():
    d = os.environ.get('SYMX_CACHE', '/tmp/symx-cache')
    os.makedirs(d, exist_ok=True)
    return d


def engine():
    """builds pass plugin and runtime objects; returns dict of paths"""
    src = [os.path.join(ENG, f) for f in ('SymxPass.cpp', 'runtime.cpp', 'replay.cpp', 'symx.h', 'ops.h', 'solver.cpp')]
    d = os.path.join(cache_dir(), 'eng-' + file_hash(src))
    out = {k: os.path.join(d, k) for k in ('symx.so', 'runtime.o', 'replay.o', 'solver')}
    if all(os.path.exists(p) for p in out.values()):
        return out
    tmp = tempfile.mkdtemp(dir=cache_dir())
    flags = sh([BIN + 'llvm-config', '--cxxflags']).split()
    jobs = [
        [CXX, '-O1', '-fPIC', '-shared'] + flags + [src[0], '-o', tmp + '/symx.so', '-w'],
        [CXX, '-std=c++17', '-O2', '-g1', '-fno-builtin', '-c', src[1], '-o', tmp + '/runtime.o', '-w'],
        [CXX, '-std=c++17', '-O2', src[5], '-o', tmp + '/solver', '-lz3', '-w'],
        [CXX, '-std=c++17', '-O1', '-g1', '-fsanitize=address', '-c', src[2], '-o', tmp + '/replay.o', '-w'],
    ]
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(sh, jobs))
    os.makedirs(d, exist_ok=True)
    for k in out:
        os.replace(os.path.join(tmp, k), out[k])
    shutil.rmtree(tmp)
    return out


def gen_config(d):
    """our own ArabicaConfig.hpp, made from the repository's template"""
    inc = os.path.join(d, 'cfg')
    os.makedirs(inc + '/SAX', exist_ok=True)
    text = ''
    tpl = os.path.join(REPO, 'include/SAX/ArabicaConfig.hpp.in')
    for line in open(tpl):
        m = re.match(r'\s*#\s*(cmakedefine|undef)\s+(\w+)(.*)', line)
        if m:
            name = m.group(2)
            on = {'ARABICA_USE_EXPAT': '', 'USE_EXPAT': '', 'ARABICA_HAVE_BOOST': '', 'HAVE_BOOST': '',
                  'ARABICA_HAS_WCHAR_T': '1', 'HAVE_WCHAR_T': '1'}
            text += '#define %s %s\n' % (name, on[name]) if name in on else '/* #undef %s */\n' % name
        else:
            text += re.sub(r'@\w+@', '', line)
    p = inc + '/SAX/ArabicaConfig.hpp'
    if not os.path.exists(p) or open(p).read() != text:
        open(p, 'w').write(text)
    return inc


COMMON = ['-std=c++14', '-g1', '-D_GLIBCXX_ASSERTIONS', '-include', os.path.join(ENG, 'instantiate.h'), '-w', '-fno-omit-frame-pointer', '-fsanitize=address', '-fno-sanitize-address-use-after-scope', '-fdelayed-template-parsing', '-ferror-limit=3']


def deps_key(cmd_src, flags):
    pre = subprocess.run([CXX, '-E', '-P'] + flags + [cmd_src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise RuntimeError(pre.stderr.decode()[-4000:])
    return hashlib.sha256(pre.stdout + ' '.join(flags).encode()).hexdigest()[:24]


def compile_one(src, flags, mode, eng):
    """mode: bc | obj ; content-addressed by preprocessed source"""
    key = deps_key(src, flags)
    ext = '.bc' if mode == 'bc' else '.o'
    out = os.path.join(cache_dir(), mode + '-' + key + ext)
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    if mode == 'bc':
        sh([CXX, '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c'] + flags + [src, '-o', tmp])
    else:
        sh([CXX, '-O0', '-c'] + flags + [src, '-o', tmp])
    os.replace(tmp, out)
    return out


def build(name, harness, repo_srcs=(), defs=(), libs=(), extra_inc=()):
    eng = engine()
    cfg = gen_config(cache_dir())
    flags = COMMON + ['-I' + ENG, '-I' + os.path.join(VERIF, 'harness')] + ['-I' + i for i in extra_inc] + ['-I' + cfg, '-I' + REPO + '/include'] + ['-D' + d for d in defs]
    srcs = [os.path.join(VERIF, 'harness', harness)] + [os.path.join(REPO, s) for s in repo_srcs]
    t0 = time.time()
    with ThreadPoolExecutor(JOBS) as ex:
        bcs = [ex.submit(compile_one, s, flags, 'bc', eng) for s in srcs]
        objs = [ex.submit(compile_one, s, flags, 'obj', eng) for s in srcs]
        bcs = [b.result() for b in bcs]
        fobjs = objs
        key = hashlib.sha256((' '.join(bcs) + eng['symx.so'] + ' '.join(libs)).encode()).hexdigest()[:24]
        out = os.path.join(cache_dir(), 'exe-' + key)
        if not os.path.exists(out + '/ok'):
            tmp = out + '.%d.tmp' % os.getpid()
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            sh([BIN + 'llvm-link'] + bcs + ['-o', tmp + '/l.bc'])
            passes = 'symx-prep,globaldce,default<O1>,globaldce,symx,asan'
            sh([BIN + 'opt', '-load-pass-plugin', eng['symx.so'], '-passes=' + passes,
                '-vectorize-loops=false', '-vectorize-slp=false', '-phi-node-folding-threshold=6', '-two-entry-phi-node-folding-threshold=8',
                '-symx-names=' + tmp + '/names', '-symx-natives=' + tmp + '/natives', tmp + '/l.bc', '-o', tmp + '/i.bc'])
            sh([BIN + 'llc', '-O0', '-filetype=obj', '--relocation-model=static', tmp + '/i.bc', '-o', tmp + '/i.o'])
            os.remove(tmp + '/l.bc'); os.remove(tmp + '/i.bc')
            sh([CXX, '-no-pie', '-fsanitize=address', '-g', tmp + '/i.o', eng['runtime.o'], '-o', tmp + '/sym'] + list(libs))
            os.remove(tmp + '/i.o')
            objs = [o.result() for o in objs]
            sh([CXX, '-no-pie', '-fsanitize=address', '-g'] + objs + [eng['replay.o'], '-o', tmp + '/replay'] + list(libs))
            open(tmp + '/ok', 'w').write('')
            shutil.rmtree(out, ignore_errors=True)
            try:
                os.rename(tmp, out)
            except OSError:
                pass
        else:
            [o.result() for o in fobjs]
    return out, time.time() - t0
