"""Builds the library under test and the harnesses from /repo's working tree.

Everything happens in /verif/build (ignored by git): the sources are copied
there, the generated headers are made there, /repo is only read.
"""
import hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DUMA_REPO', '/repo')
BUILD = os.environ.get('DUMA_BUILD', os.path.join(VERIF, 'build'))

COPY = ['*.h', 'src', 'createconf.c', 'make_git_source_version.sh']

# build variants of the library: name -> (options for createconf, as in the GNUmakefile; defines for the compiler)
VARIANTS = {
    'static': ([], []),
    'nold': (['-DDUMA_LIB_NO_LEAKDETECTION'], []),
    'getenv': (['-DDUMA_LIB_PREFER_GETENV'], []),
    'atexit': (['-DDUMA_LIB_PREFER_ATEXIT', '-DDUMA_LIB_NO_HANG_MSG'], []),
    'noglobal': (['-DDUMA_NO_GLOBAL_MALLOC_FREE'], []),
    'nothread': (['-DDUMA_NO_THREAD_SAFETY'], []),
    'explicit': (['-DDUMA_EXPLICIT_INIT'], []),
    'tsan': ([], ['-fsanitize=thread']),   # every access to memory is reported to the harness
    'shared': ([], ['-DDUMA_SO_LIBRARY']),
    'sonold': (['-DDUMA_SO_NO_LEAKDETECTION'], ['-DDUMA_SO_LIBRARY']),
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout


def copy_sources():
    dst = os.path.join(BUILD, 'src')
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    import glob
    for pat in COPY:
        for f in glob.glob(os.path.join(REPO, pat)):
            t = os.path.join(dst, os.path.basename(f))
            if os.path.isdir(f):
                shutil.copytree(f, t)
            elif os.path.basename(f) not in ('duma_config.h', 'verinfo.h'):
                shutil.copy(f, t)
    env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C')
    subprocess.run(['bash', './make_git_source_version.sh'], cwd=dst, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if not os.path.exists(os.path.join(dst, 'verinfo.h')):
        with open(os.path.join(dst, 'verinfo.h'), 'w') as f:
            f.write('#define GIT_SOURCE_VERSION "unknown"\n')
    return dst


_src = None


def sources():
    global _src
    if _src is None:
        os.makedirs(BUILD, exist_ok=True)
        _src = copy_sources()
    return _src


_conf = {}


def config(variant):
    """directory with the duma_config.h of a variant"""
    opts = VARIANTS[variant][0]
    key = '_'.join(o[2:] for o in opts) or 'default'
    if key not in _conf:
        src = sources()
        d = os.path.join(BUILD, 'conf', key)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        run(['gcc', '-w', '-O0', '-I' + src] + opts + ['-o', d + '/createconf', src + '/createconf.c'])
        subprocess.run(['./createconf'], cwd=d, env=dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C'), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        if not os.path.exists(d + '/duma_config.h') or not os.path.getsize(d + '/duma_config.h'):
            raise BuildError('createconf made no duma_config.h')
        _conf[key] = d
    return _conf[key]


def library(variant='static', extra=(), tag=''):
    """object files of one variant"""
    src = sources()
    out = os.path.join(BUILD, 'obj', variant + tag)
    os.makedirs(out, exist_ok=True)
    flags = ['-g', '-O0', '-w', '-I' + src, '-I' + config(variant)] + VARIANTS[variant][1] + list(extra)
    jobs = []
    for f in ('duma.c', 'print.c', 'sem_inc.c'):
        jobs.append(['gcc'] + flags + ['-c', '%s/src/%s' % (src, f), '-o', '%s/%s.o' % (out, f)])
    jobs.append(['g++', '-std=gnu++98'] + flags + ['-c', '%s/src/dumapp.cpp' % src, '-o', out + '/dumapp.o'])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    return [out + '/' + o for o in ('duma.c.o', 'print.c.o', 'sem_inc.c.o', 'dumapp.o')]


def harness(name, variant='static', flags=(), libextra=(), tag='', lang='c++', ldflags=()):
    """link /verif/harness/<name> with a variant of the library"""
    objs = library(variant, libextra, tag)
    src = sources()
    flags, ldflags = list(flags), list(ldflags)
    if name in ('seq.cpp', 'mt.cpp'):
        ldflags += ['-no-pie'] + ['-Wl,--wrap=' + f for f in ('__cxa_allocate_exception', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock')]
        if name == 'mt.cpp':
            ldflags.append('-Wl,--wrap=_ZSt15set_new_handlerPFvvE')
    if variant == 'tsan':
        flags.append('-DH_TSAN')
    exe = os.path.join(BUILD, '%s.%s%s' % (name.split('.')[0], variant, tag))
    cc = ['g++', '-std=gnu++98'] if lang == 'c++' else ['gcc']
    inc = ['-I' + src, '-I' + config(variant), '-I' + VERIF + '/harness']
    defs = [d for d in VARIANTS[variant][1] if not d.startswith('-fsan')]
    more = []
    if name in ('seq.cpp', 'mt.cpp'):
        more = [os.path.join(BUILD, 'macro.%s%s.o' % (variant, tag))]
        run(cc + ['-g', '-O0', '-w'] + inc + [d for d in defs] + ['-c', VERIF + '/harness/macro.cpp', '-o', more[0]])
    run(cc + ['-g', '-O1', '-fno-builtin', '-fno-tree-loop-distribute-patterns', '-w'] + inc + defs + list(flags) +
        [VERIF + '/harness/' + name] + more + objs + ['-lpthread'] + list(ldflags) + ['-o', exe])
    if variant == 'tsan':
        variables(objs, exe)
    return exe


def compile_c(name, variant='static', tag=''):
    """object file of one C source of the harness"""
    library(variant, tag=tag)
    o = os.path.join(BUILD, '%s.%s%s.o' % (name.split('.')[0], variant, tag))
    run(['gcc', '-g', '-O0', '-w', '-fno-builtin', '-I' + sources(), '-I' + config(variant)] + [d for d in VARIANTS[variant][1] if not d.startswith('-fsan')] +
        ['-c', VERIF + '/harness/' + name, '-o', o])
    return o


def variables(objs, exe):
    """addresses of the library's own static variables in the linked program"""
    names = set()
    for o in objs:
        for ln in run(['nm', o]).decode().split('\n'):
            w = ln.split()
            if len(w) == 3 and w[1] in 'bBdD':
                names.add(w[2])
    with open(exe + '.vars', 'w') as f:
        for ln in run(['nm', '-S', exe]).decode().split('\n'):
            w = ln.split()
            if len(w) == 4 and w[2] in 'bBdD' and w[3] in names:
                f.write('%x %x\n' % (int(w[0], 16), int(w[1], 16)))


if __name__ == '__main__':
    print(harness('seq.cpp', sys.argv[1] if len(sys.argv) > 1 else 'static'))
