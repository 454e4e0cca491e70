"""Builds /repo's working tree and the harnesses, out of tree, under /verif/build."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')

SAN = ('-fsanitize=address,return,unreachable,bool,enum,bounds,integer-divide-by-zero '
       '-fno-sanitize-recover=all -fno-omit-frame-pointer')
QUIET = '-w'
# name: (C compiler, C++ compiler, flags of the build type)
CONFIGS = {
    'asan': ('gcc', 'g++', '-g1 -O1 %s' % SAN),
    'fuzz': ('clang', 'clang++', '-g1 -O1 %s -fsanitize=fuzzer-no-link' % SAN),
    'tsan': ('gcc', 'g++', '-g1 -O1 -fsanitize=thread -fno-omit-frame-pointer'),
    'gcc0': ('gcc', 'g++', '-g -O0 -funsigned-char'),      # char as on other platforms
    'gcc2': ('gcc', 'g++', '-O2'),
    'clang2': ('clang', 'clang++', '-O2'),
}
MODULES = {
    'eni': 'libeni.so',
    'eni_crypto': 'tools/eni_crypto/eni_crypto.so',
    'eni_scrypt': 'tools/eni_scrypt/eni_scrypt.so',
    'eni_reverse': 'examples/eni/eni_reverse.so',
    'eni_json': 'examples/eni/eni_json.so',
    'eni_run': 'tools/eni_cli/eni_run',
    'eni_gas': 'tools/eni_cli/eni_gas',
}


LOCALES = os.path.join(BUILD, 'locale')


class BuildError(Exception):
    pass


class UseError(BuildError):
    """what a user may write with the public headers does not compile or link, although the library does"""


def use_error(what, out):
    """a refusal of the compiler is a verdict on the headers, a missing file or a killed compiler is none"""
    bad = ('fatal error:', 'internal compiler error', 'Killed', 'No space left', 'unable to execute', 'cannot find -l', 'memory exhausted')
    refused = ': error: ' in out or 'undefined reference to' in out
    return (UseError if refused and not any(b in out for b in bad) else BuildError)(what + '\n' + out[-6000:])


def env():
    e = dict(os.environ)
    for k in ('CXXFLAGS', 'CFLAGS', 'LDFLAGS', 'CPATH', 'LD_LIBRARY_PATH', 'LD_PRELOAD'):
        e.pop(k, None)
    e.update(LC_ALL='C.UTF-8', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf-8', 'replace')[-6000:]))
    return p.stdout


def use(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    if p.returncode != 0:
        raise use_error(' '.join(cmd), p.stdout.decode('utf-8', 'replace'))


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def locales():
    """two locales with eight-bit letters, where the system can make them"""
    with Lock('locale'):
        os.makedirs(LOCALES, exist_ok=True)
        for lang, charset in (('de_DE', 'ISO-8859-1'), ('tr_TR', 'ISO-8859-9')):
            d = os.path.join(LOCALES, lang + '.' + charset.replace('ISO-', 'ISO'))
            if not os.path.isdir(d) and shutil.which('localedef'):
                subprocess.run(['localedef', '--no-archive', '-i', lang, '-f', charset, d], stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env())


def repo_build(cfg, targets):
    """cmake build of /repo in a configuration; returns {target: path}."""
    cc, cxx, flags = CONFIGS[cfg]
    b = os.path.join(BUILD, cfg)
    deps = os.path.join(b, 'deps', 'jsmn')
    with Lock(cfg):
        os.makedirs(deps, exist_ok=True)
        link = os.path.join(deps, 'jsmn.h')
        if not os.path.lexists(link):
            os.symlink('/usr/include/jsmn.h', link)
        run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DBUILD_TESTING=OFF',
             '-DCMAKE_C_COMPILER=' + cc, '-DCMAKE_CXX_COMPILER=' + cxx,
             '-DCMAKE_CXX_FLAGS_DEBUG=%s -isystem %s %s' % (flags, os.path.join(b, 'deps'), QUIET),
             '-DCMAKE_C_FLAGS_DEBUG=%s %s' % (flags, QUIET)])
        run(['ninja', '-C', b] + list(targets))
    return {t: os.path.join(b, MODULES[t]) for t in MODULES}


def harness_build(name, src, defs, cfg, mods, std='c++17', extra=None, ldlibs=()):
    """compiles a harness; returns the path of the explorer, in configuration fuzz of the libFuzzer target"""
    fuzz = cfg == 'fuzz'
    cc, cxx, flags = CONFIGS[cfg]
    b = os.path.join(BUILD, cfg)
    h = os.path.join(BUILD, 'harness-' + cfg)
    os.makedirs(h, exist_ok=True)
    paths = {t: os.path.join(b, MODULES[t]) for t in MODULES}
    inc = ['-I' + HARNESS, '-I' + os.path.join(REPO, 'include', 'eni'), '-I' + os.path.join(REPO, 'tools'),
           '-isystem', os.path.join(b, 'deps')]
    base = [cxx, '-std=' + std, '-w', '-pthread'] + flags.split() + inc + list(extra or ())
    objs = {
        'prop': (os.path.join(h, name + '.o'), src, ['-D' + d for d in defs]),
        'pbt': (os.path.join(h, name + '.pbt.o'), 'pbt.cpp', []),
        'main': (os.path.join(h, name + '.main.o'), 'main.cpp', []),
    }
    if fuzz:
        del objs['main']
    with Lock('harness-' + name):
        procs = []
        for k, (o, s, d) in objs.items():
            procs.append((k, subprocess.Popen(base + d + ['-c', os.path.join(HARNESS, s), '-o', o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())))
        for k, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                raise use_error('compiling %s of %s' % (k, name), out.decode('utf-8', 'replace'))
        libs = [paths[m] for m in mods]
        rp = ['-Wl,-rpath,' + os.path.dirname(p) for p in libs]
        tail = libs + rp + ['-lcrypto', '-ldl', '-pthread'] + list(ldlibs)
        exe = os.path.join(h, name)
        use([cxx] + flags.replace('fuzzer-no-link', 'fuzzer').split() + [o[0] for o in objs.values()] + ['-o', exe] + tail)
    return exe


def helper_build(name, src, cfg, mods=(), std='c++17', more=''):
    """a shared library (or program) of the harness, used by name"""
    cc, cxx, flags = CONFIGS[cfg]
    b = os.path.join(BUILD, cfg)
    h = os.path.join(BUILD, 'harness-' + cfg)
    os.makedirs(h, exist_ok=True)
    out = os.path.join(h, name)
    libs = [os.path.join(b, MODULES[m]) for m in mods]
    os.makedirs(h, exist_ok=True)
    with Lock('harness-' + name):
        use([cxx, '-std=' + std, '-w', '-pthread'] + (['-fPIC', '-shared'] if name.endswith('.so') else []) + flags.split() + more.split() +
            ['-I' + HARNESS, '-I' + os.path.join(REPO, 'include', 'eni'), '-isystem', os.path.join(b, 'deps'), os.path.join(HARNESS, src), '-o', out, '-ldl'] + libs +
            ['-Wl,-rpath,' + os.path.dirname(p) for p in libs])
    return out
