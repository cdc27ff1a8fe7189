"""Builds instrumented flavours of the library from /repo's current working tree,
out of tree, under /verif/build. Nothing of /repo's own build products is used."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from . import gen

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(ROOT, 'build'))
HARNESS = os.path.join(ROOT, 'harness')

SAN = '-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow -fno-sanitize-recover=all'
FLAVOURS = {
    # name: (cc, cflags, harness defines, ldflags)
    'asan':   ('clang', '-O1 -g -fno-omit-frame-pointer ' + SAN, '', SAN),
    'ndebug': ('clang', '-O1 -g -fno-omit-frame-pointer -DNDEBUG ' + SAN, '', SAN),
    'msan':   ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all', '', '-fsanitize=memory'),
    'tsan':   ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=thread', '-DVF_NO_LEDGER', '-fsanitize=thread'),
    'athr':   ('clang', '-O1 -g -fno-omit-frame-pointer ' + SAN, '-DVF_NO_LEDGER', SAN),
    'plain':  ('gcc', '-O2 -g', '', ''),
    'cov':    ('clang', '-O1 -g -fsanitize-coverage=trace-pc-guard', '-DVF_COV', ''),
    'fuzz':   ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow -fno-sanitize-recover=all',
               '-DVF_FUZZ', '-fsanitize=fuzzer,address,undefined'),
}
UB_EXCLUDE = ''
REDEFS = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'reallocarray', 'asprintf', 'vasprintf']
# what /repo's own compiler lets pass
LAX = ' -Wno-int-conversion -Wno-implicit-function-declaration -Wno-implicit-int -Wno-return-type -Wno-incompatible-function-pointer-types'

class BuildError(Exception):
    pass

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s\n%s' % (cmd, p.stdout.decode('utf8', 'replace')[-4000:]))
    return p.stdout

def sources():
    src = os.path.join(REPO, 'lib', 'src')
    out = []
    for pat in ('*.c', '*.h', '*.leg', '*.h.in'):
        out += glob.glob(os.path.join(src, pat))
    out = [f for f in out if not f.endswith('_leg.c') and os.path.basename(f) != 'cypher-parser.h']
    out += glob.glob(os.path.join(REPO, 'linter', 'src', '*.[ch]'))
    out.append(os.path.join(REPO, 'configure.ac'))
    return sorted(out)

def digest(extra):
    h = hashlib.sha256()
    for f in sources() + sorted(glob.glob(os.path.join(HARNESS, '*'))) + [os.path.abspath(__file__), os.path.join(ROOT, 'vf', 'gen.py')]:
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
    h.update(extra.encode())
    return h.hexdigest()[:16]

def version():
    ac = open(os.path.join(REPO, 'configure.ac')).read()
    m = re.search(r'AC_INIT\(\[?[^,\]]*\]?,\s*\[?([^,\]\)]*)\]?', ac)
    v = m.group(1).strip() if m else '0.6.4~devel'
    mm = re.match(r'(\d+)\.(\d+)\.(\d+)(?:~(.*))?', v)
    if not mm:
        v, mm = '0.6.4~devel', re.match(r'(\d+)\.(\d+)\.(\d+)(?:~(.*))?', '0.6.4~devel')
    return v, mm.groups()

def prepare(d):
    """Copies the sources and generates what configure and leg would."""
    v, (ma, mi, pa, dev) = version()
    os.makedirs(os.path.join(d, 'lib', 'src')); os.makedirs(os.path.join(d, 'linter', 'src'))
    for f in sources():
        if f.endswith('configure.ac'):
            continue
        shutil.copyfile(f, os.path.join(d, os.path.relpath(f, REPO)))
    dev = dev or ''
    sub = {'PACKAGE_VERSION': v, 'PACKAGE_MAJOR_VERSION': ma, 'PACKAGE_MINOR_VERSION': mi, 'PACKAGE_PATCH_VERSION': pa,
           'PACKAGE_DEVELOPMENT_VERSION': dev, 'PACKAGE_STATUS_VERSION': '0' if dev else '0xf'}
    h = open(os.path.join(d, 'lib/src/cypher-parser.h.in')).read()
    h = re.sub(r'@(\w+)@', lambda m: sub.get(m.group(1), '0'), h)
    open(os.path.join(d, 'lib/src/cypher-parser.h'), 'w').write(h)
    open(os.path.join(d, 'config.h'), 'w').write('''#define HAVE_OPEN_MEMSTREAM 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_STRINGS_H 1
#define HAVE_UNISTD_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDBOOL_H 1
#define HAVE__BOOL 1
#define HAVE_ENDIAN_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_STRERROR_R 1
#define HAVE_DECL_STRERROR_R 1
#define STDC_HEADERS 1
#define TLS _Thread_local
#define PACKAGE "libcypher-parser"
#define PACKAGE_NAME "libcypher-parser"
#define PACKAGE_TARNAME "libcypher-parser"
#define PACKAGE_STRING "libcypher-parser %s"
#define PACKAGE_VERSION "%s"
#define VERSION "%s"
#define PACKAGE_MAJOR_VERSION %s
#define PACKAGE_MINOR_VERSION %s
#define PACKAGE_PATCH_VERSION %s
#define PACKAGE_DEVELOPMENT_VERSION "%s"
''' % (v, v, v, ma, mi, pa, dev))
    for leg in glob.glob(os.path.join(d, 'lib/src/*.leg')):
        run(['leg', '-o', leg[:-4] + '_leg.c', leg])

def build(flavour, lint=False):
    """Returns the directory holding drv (and cypher-lint)."""
    cc, cflags, hdef, ldflags = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    key = digest(flavour + cc + cflags + hdef + ldflags)
    d = os.path.join(BUILD, '%s-%s' % (flavour, key))
    lock = open(os.path.join(BUILD, flavour + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(os.path.join(d, 'ok'))
            return d
        for old in glob.glob(os.path.join(BUILD, flavour + '-*')):
            shutil.rmtree(old)
        os.makedirs(d)
        prepare(d)
        src = os.path.join(d, 'lib', 'src')
        defs = '-std=gnu11 -DHAVE_CONFIG_H -D_GNU_SOURCE -w -I%s -I%s' % (d, src)
        libc = sorted(f for f in glob.glob(os.path.join(src, '*.c')) if not f.endswith('_leg.c'))
        libc.sort(key=lambda f: -os.path.getsize(f) if 'parser' not in f else -10**9)
        jobs = []
        objs = []
        for f in libc:
            o = f[:-2] + '.o'
            objs.append(o)
            jobs.append('%s %s %s -c %s -o %s' % (cc, cflags, defs + (LAX if cc == 'clang' else ''), f, o))
        gen.generate(os.path.join(d, 'nodes.c'))
        hobjs = []
        hflags = cflags.replace('-DNDEBUG', '')
        hflags = hflags.replace('-fsanitize-coverage=trace-pc-guard', '').replace('fuzzer-no-link,', '')
        for f in [os.path.join(d, 'nodes.c')] + sorted(glob.glob(os.path.join(HARNESS, '*.c'))):
            o = os.path.join(d, 'h_' + os.path.basename(f)[:-2] + '.o')
            hobjs.append(o)
            jobs.append('%s %s %s %s -Wall -I%s -c %s -o %s' % (cc, hflags, defs.replace(' -w ', ' '), hdef, HARNESS, f, o))
        lobj = os.path.join(d, 'lint.o')
        jobs.append('%s %s %s -c %s -o %s' % (cc, cflags, defs, os.path.join(d, 'linter/src/cypher-lint.c'), lobj))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        raw = os.path.join(d, 'libraw.a')
        run(['ar', 'rcs', raw] + objs)
        lib = os.path.join(d, 'lib.a')
        sym = os.path.join(d, 'syms')
        open(sym, 'w').write(''.join('%s vf_%s\n' % (s, s) for s in REDEFS))
        run(['objcopy', '--redefine-syms=' + sym, raw, lib])
        run('%s %s %s %s -Wl,--start-group %s -Wl,--end-group -lm -lpthread -o %s' % (cc, hflags if flavour != 'fuzz' else cflags, ldflags, ' '.join(hobjs), lib, os.path.join(d, 'drv')))
        if flavour in ('asan', 'plain'):
            run('%s %s %s %s %s -lm -lpthread -o %s' % (cc, cflags, ldflags, lobj, raw, os.path.join(d, 'cypher-lint')))
        open(os.path.join(d, 'ok'), 'w').write(key)
        for f in objs:
            os.unlink(f)
        return d
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=1:max_malloc_fill_size=65536:malloc_context_size=8:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99:halt_on_error=1',
    'MSAN_OPTIONS': 'exitcode=99:symbolize=1:poison_in_malloc=1',
    'TSAN_OPTIONS': 'exitcode=99:halt_on_error=0:second_deadlock_stack=1',
}

def env():
    e = {k: v for k, v in os.environ.items() if not k.endswith('SAN_OPTIONS')}
    e.update(ENV)
    e['LC_ALL'] = 'C.UTF-8'
    return e

if __name__ == '__main__':
    for f in sys.argv[1:] or ['asan']:
        print(build(f))
