"""Build /repo's working tree for the harnesses.

All of the program's objects are linked into one relocatable object; its
references to the system interface are then renamed to sim_*, so that the code
under test is exactly the source in /repo, untouched.
"""
import os, subprocess, sys, glob, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LIBDIRS = ['libcperciva/' + d for d in
           ('alg cpusupport crypto datastruct events netbuf network util').split()] + \
          ['lib/dnsthread', 'lib/proto', 'lib/util']
INC = ['.'] + LIBDIRS + ['libcperciva/external/queue']

# System interface replaced by the simulated operating system.
SIMSYMS = '''socket bind listen connect accept accept4 recv recvfrom recvmsg read readv
send sendto sendmsg write writev shutdown close fcntl getsockopt setsockopt getsockname
getpeername socketpair pipe open dup2 poll ppoll select clock_gettime clock_getres
gettimeofday time sleep usleep nanosleep signal sigaction getaddrinfo
freeaddrinfo gai_strerror pthread_create pthread_join pthread_detach pthread_self
pthread_equal pthread_cancel pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy
pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
malloc calloc realloc free strdup atexit exit _exit abort __assert_fail fork getpid setsid
getgroups getuid geteuid getgid getegid setresuid setresgid
setuid setgid seteuid setegid setreuid setregid setgroups initgroups getpwnam
getgrnam'''.split()

CPU = {
    'x86': '''#define CPUSUPPORT_HWCAP_GETAUXVAL 1
#define CPUSUPPORT_X86_CPUID 1
#define CPUSUPPORT_X86_CPUID_COUNT 1
#define CPUSUPPORT_X86_AESNI 1
#define CPUSUPPORT_X86_SHANI 1
#define CPUSUPPORT_X86_SSE2 1
#define CPUSUPPORT_X86_SSSE3 1
''',
    'sse2': '''#define CPUSUPPORT_X86_CPUID 1
#define CPUSUPPORT_X86_CPUID_COUNT 1
#define CPUSUPPORT_X86_SSE2 1
''',
    'portable': '\n',
}
API = '''#define APISUPPORT_NONPOSIX_SETGROUPS 1
#define APISUPPORT_LIBCRYPTO_LOW_LEVEL_AES 1
'''
BASE = ['-std=c99', '-g', '-w', '-D_POSIX_C_SOURCE=200809L', '-D_XOPEN_SOURCE=700',
        '-U_FORTIFY_SOURCE', '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"',
        '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"', '-DOPTIONAL_MUTEX_PTHREAD_YES']
PERFILE = {'crypto_aes_aesni.c': ['-maes'], 'crypto_aesctr_aesni.c': ['-maes'],
           'sha256_shani.c': ['-msse2', '-msha', '-mssse3'], 'sha256_sse2.c': ['-msse2'],
           'crypto_entropy_rdrand.c': ['-mrdrnd']}
SAN = {'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
       'plain': ['-O1'], 'portable': ['-O1'], 'sse2': ['-O2'],
       'sched': ['-O1']}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout


def _par(cmds):
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, cmds))


def srcs(sub):
    """The SRCS list of a Makefile in the tree."""
    for l in open(os.path.join(REPO, sub, 'Makefile')):
        if l.startswith('SRCS='):
            return [x for x in l[5:].split() if x.endswith('.c')]
    return [os.path.basename(p) for p in sorted(glob.glob(os.path.join(REPO, sub, '*.c')))]


def lib_objects(out, variant):
    """Compile the library part of the tree; return the object files."""
    d = os.path.join(out, 'lib-' + variant)
    stamp = os.path.join(d, '.done')
    cfg = os.path.join(d, 'cfg')
    if not os.path.exists(stamp):
        os.makedirs(cfg, exist_ok=True)
        open(os.path.join(cfg, 'cpusupport-config.h'), 'w').write(
            CPU.get(variant, CPU['x86']))
        open(os.path.join(cfg, 'apisupport-config.h'), 'w').write(API)
        cmds = []
        for name in srcs('liball') + ['optional_mutex.c']:
            hit = [p for ld in LIBDIRS for p in [os.path.join(REPO, ld, name)] if os.path.exists(p)]
            if not hit:
                hit = sorted(glob.glob(os.path.join(REPO, 'lib*', '*', name)))
            cmds.append(cc_cmd(hit[0], os.path.join(d, name[:-2] + '.o'), cfg, variant))
        _par(cmds)
        open(stamp, 'w').close()
    return sorted(glob.glob(os.path.join(d, '*.o'))), cfg


def cc_cmd(src, obj, cfg, variant, extra=()):
    if variant == 'sched' and '/dnsthread/' in src:
        extra = list(extra) + ['-fsanitize=thread']
    return (['gcc'] + BASE + SAN[variant] + PERFILE.get(os.path.basename(src), []) +
            ['-I' + cfg] + ['-I' + os.path.join(REPO, i) for i in INC] +
            ['-I' + os.path.dirname(src)] + list(extra) + ['-c', src, '-o', obj])


def program(out, prog, variant='plain', syms=None):
    """Relocatable object with the whole program ('spiped'/'spipe') or, for
    prog=None, the libraries only; system references renamed."""
    libs, cfg = lib_objects(out, variant)
    sy = syms or SIMSYMS
    d = os.path.join(out, 'prog-%s-%s-%s' % (prog or 'lib', variant, hashlib.md5(' '.join(sy).encode()).hexdigest()[:8]))
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, 'all.o')
    if os.path.exists(obj):
        return obj
    objs = []
    if prog:
        cmds = []
        for name in srcs(prog):
            src = os.path.join(REPO, prog, name)
            o = os.path.join(d, os.path.basename(src)[:-2] + '.o')
            cmds.append(cc_cmd(src, o, cfg, variant))
            objs.append(o)
        _par(cmds)
    raw = os.path.join(d, 'raw.o')
    run(['ld', '-r', '-o', raw] + objs + libs)
    rs = os.path.join(d, 'syms')
    with open(rs, 'w') as f:
        for s in sy:
            f.write('%s sim_%s\n' % (s, s))
        if 'signal' in sy:
            f.write('__sysv_signal sim_sysv_signal\n')
        f.write('main prog_main\n')
    run(['objcopy', '--redefine-syms=' + rs, raw, obj + '.tmp'])
    os.rename(obj + '.tmp', obj)
    return obj


def sim(out, prog, variant='plain'):
    """The simulated-OS executable for a program."""
    exe = os.path.join(out, 'sim-%s-%s' % (prog, variant))
    if os.path.exists(exe):
        return exe
    obj = program(out, prog, variant)
    h = os.path.join(VERIF, 'harness')
    d = os.path.join(out, 'h-%s-%s' % (prog, variant))
    os.makedirs(d, exist_ok=True)
    cmds, objs = [], []
    for s in ('simos', 'refcrypto'):
        o = os.path.join(d, s + '.o')
        objs.append(o)
        cmds.append(['gcc', '-O2', '-g', '-w'] + (['-DSPIPE'] if prog == 'spipe' else []) +
                    [x for x in SAN[variant] if 'sanitize' in x] +
                    ['-c', os.path.join(h, s + '.c'), '-o', o])
    _par(cmds)
    run(['gcc'] + [x for x in SAN[variant] if 'sanitize' in x] +
        ['-o', exe + '.tmp', obj] + objs + ['-lcrypto', '-lpthread', '-lm'])
    os.rename(exe + '.tmp', exe)
    return exe


PROG = {'spipe_drv': 'spipe', 'dmn': 'spiped', 'cli@spiped': 'spiped', 'cli@spipe': 'spipe'}     # harnesses around a whole program


def harness(out, name, variant='plain', syms=None, extra_src=()):
    """A module driver harness/<name>.c linked with the (renamed) libraries."""
    exe = os.path.join(out, 'h-%s-%s' % (name, variant))
    if os.path.exists(exe):
        return exe
    obj = program(out, PROG.get(name), variant, syms)
    _, cfg = lib_objects(out, variant)
    h = os.path.join(VERIF, 'harness')
    d = os.path.join(out, 'hd-%s-%s' % (name, variant))
    os.makedirs(d, exist_ok=True)
    cmds, objs = [], []
    for s in [name.split('@')[0]] + list(extra_src):
        o = os.path.join(d, s + '.o')
        objs.append(o)
        cmds.append(['gcc', '-D_GNU_SOURCE', '-O1', '-g', '-w', '-I' + h, '-I' + cfg] +
                    [x for x in BASE if x.startswith('-D') and 'SOURCE' not in x] +
                    ['-I' + os.path.join(REPO, i) for i in INC] +
                    [x for x in SAN[variant] if 'sanitize' in x] +
                    ['-c', os.path.join(h, s + '.c'), '-o', o])
    _par(cmds)
    run(['gcc'] + [x for x in SAN[variant] if 'sanitize' in x] +
        ['-o', exe + '.tmp', obj] + objs + ['-lcrypto', '-lpthread', '-lm'])
    os.rename(exe + '.tmp', exe)
    return exe


if __name__ == '__main__':
    print(sim(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else 'plain'))
