"""C21 cypher-lint against the library."""
import os, pty, random, re, shutil, subprocess, tempfile, tty, threading
from ..core import Check, Tally, execute, survived, spread
from ..run import Case, HarnessError
from .. import work, build
from .memory import hostile
from .streams import long_input

NAMES = ['a.cyp', 'b c.cyp', 'x:1:2.cyp', 'é.cyp', '%s%n.cyp', '-x.cyp', 'sub/d.cyp', 'a.cyp.']


def errtext(errs, name):
    out = []
    for pos, msg, ctx, off in errs:
        out.append('%s:%d:%d: %s\n%s\n%s^\n' % (name, pos[0], pos[1], msg, ctx, ' ' * off))
    return ''.join(out)


def drain(fd, out):
    while True:
        try:
            b = os.read(fd, 65536)
        except OSError:
            break
        if not b:
            break
        out.append(b)


def run_lint(exe, args, cwd, stdin, ttys):
    """Runs cypher-lint; ttys: which of stdout and stderr are terminals."""
    pairs, outs, ths = {}, {1: [], 2: []}, []
    for k in (1, 2):
        if ttys & k:
            m, s = pty.openpty()
            tty.setraw(s)
        else:
            m, s = os.pipe()
        pairs[k] = (m, s)
    source = os.open(cwd + '/dir', os.O_RDONLY) if stdin == 'directory' else subprocess.DEVNULL if stdin == 'closed' else subprocess.PIPE
    p = subprocess.Popen([exe] + args, cwd=cwd, stdin=source, preexec_fn=(lambda: os.close(0)) if stdin == 'closed' else None, stdout=pairs[1][1], stderr=pairs[2][1], env=build.env(), close_fds=True)
    for k in (1, 2):
        os.close(pairs[k][1])
        th = threading.Thread(target=drain, args=(pairs[k][0], outs[k])); th.start(); ths.append(th)
    try:
        if stdin == 'directory':
            os.close(source)
        elif stdin != 'closed':
            p.stdin.write(stdin); p.stdin.close()
    except BrokenPipeError:
        pass
    rc = p.wait()
    for th in ths:
        th.join()
    for k in (1, 2):
        os.close(pairs[k][0])
    return rc, b''.join(outs[1]).decode('latin1'), b''.join(outs[2]).decode('latin1')


def w_lint(seed, n, flavour):
    t = Tally()
    exe = os.path.join(build.build(flavour), 'cypher-lint')
    d = tempfile.mkdtemp(prefix='vf-lint-')
    try:
        jobs, lib = [], []
        for i in range(n):
            g = random.Random(seed * 433494437 + i)
            w = os.path.join(d, str(i)); os.makedirs(w + '/sub'); os.mkdir(w + '/dir')
            ast = g.random() < 0.6; stream = g.random() < 0.4; width = g.choice((0, 0, 0, 20, 60, 72, 80, 120, 200, 255, 256, 300, 1000, 65536, 2 ** 31 - 1))
            single = g.random() < 0.15; only = g.random() < 0.2; ttys = g.choice((0, 0, 0, 0, 1, 2, 3)); col = g.choice((None, None, None, True, False))
            args = []
            if ast: args.append(g.choice(('-a', '--ast')))
            if stream: args.append('--stream')
            if width or g.random() < 0.1: args += g.choice((['--output-width', str(width)], ['--output-width=%d' % width]))
            if single: args.append('-1')
            if only: args.append('--only-statements')
            if col is not None: args.append('--colorize' if col else '--no-colorize')
            g.shuffle(args) if '--output-width' not in args else None
            k = g.choice((0, 1, 1, 1, 2, 2, 3)) if g.random() < 0.97 else g.choice((8, 20, 40))
            docs, stdin, names = [], None, []
            for j in range(max(k, 1)):
                x = g.random()
                if x < 0.45: data = work.gen_doc(g, depth=g.choice((1, 2))).data
                elif x < 0.5: data = long_input(g, g.choice((1500, 5000)))
                elif x < 0.55: # many errors, by the round number
                    data = g.choice((b'RETURN a b;', b'RETURN 1 2\n;', b'x;')) * g.choice((16, 100, 127, 128, 255, 256, 256, 256, 257, 512, 1024))
                else: data = hostile(g)[:3000]
                if k == 0 or g.random() < 0.2 and not (single and stdin is not None):
                    name = None if k == 0 else '-'
                    if stdin is None and g.random() < 0.04: stdin = data = g.choice(('directory', 'closed'))
                    elif stdin is None: stdin = data
                    elif isinstance(stdin, str): data = stdin
                    else: data = b''
                else:
                    name = g.choice([x for x in NAMES if x not in names] or ['%s%d.cyp' % ('f' * g.choice((1, 60, 200)), j)])
                    bad = g.random()
                    if bad < 0.06 and k < 8: data = 'missing'
                    elif bad < 0.1 and k < 8: name = 'dir'; data = 'directory'
                    else: open(os.path.join(w, name), 'wb').write(data)
                    if name == 'dir' and 'dir' in names:
                        name = 'dir/'
                names.append(name)
                docs.append((name, data))
            if k: args += ['--'] + names
            ec = 1 if (col or col is None and ttys & 2) else 0
            oc = 1 if (col or col is None and ttys & 1) else 0
            whole = ast and not stream
            cs = []
            for name, data in docs:
                c = None
                if not isinstance(data, str):
                    c = Case('f' if whole else 'fe', data, flags=(1 if single else 0) | (2 if only else 0), color=ec, **({'print': '%d:%d' % (width, oc)} if ast else {}))
                    lib.append(c)
                cs.append((name, data, c))
            jobs.append((w, args, stdin or b'', ttys, whole, ast, cs))
        execute(lib)
        for w, args, stdin, ttys, whole, ast, cs in jobs:
            t.n += 1
            desc = dict(args=args, stdin=stdin if isinstance(stdin, str) else stdin.decode('latin1'), ttys=ttys, flavour=flavour, inputs=[[nm, x if isinstance(x, str) else x.decode('latin1')] for nm, x, c in cs])
            t.saw(str(desc)); t.n -= 1
            if any(c is not None and (isinstance(c.out, dict) and 'kind' in c.out) for nm, x, c in cs):
                t.inconclusive += 1
                continue
            rc, so, se = run_lint(exe, args, w, stdin, ttys)
            t.c['runs of cypher-lint'] += 1
            t.c['runs on a terminal'] += ttys != 0
            if rc not in (0, 1):
                t.violate('lint crash', 'cypher-lint %s exits %d: %s' % (args, rc, se[-600:]), [desc]); continue
            # what each input contributes
            parts, nerr, broken, after = [], 0, False, False
            for nm, x, c in cs:
                label = '<stdin>' if nm in (None, '-') else nm.encode().decode('latin1')
                if c is None:
                    parts.append(('', None)); broken = True
                    t.c['unreadable inputs'] += 1; t.c['unreadable standard inputs'] += nm in (None, '-')
                    continue
                if c.out['ret'] != 0 and not broken:
                    raise HarnessError('the library fails: %s' % c.out['errno'])
                errs = c.out['res']['errs'] if whole else [e for s in c.out['segs'] for e in s['errs']]
                nerr += len(errs)
                t.c['errors expected'] += len(errs)
                o = ''
                if ast:
                    o = (label + ':\n' if nm is not None else '') + [p['out'] for p in c.out['pr'] if p['of'] == 'res'][0] if whole else ''.join(s['pr'][0]['out'] for s in c.out['segs'])
                    t.c['trees printed'] += 1
                parts.append((o, errtext(errs, label)))
            want = 1 if nerr or broken else 0
            t.kind('exit status', rc)
            if rc != want:
                t.violate('lint status', 'cypher-lint %s exits %d with %d errors in its input%s' % (args, rc, nerr, ' and an unreadable input' if broken else ''), [desc]); continue
            if not broken:
                eo, ee = ''.join(p[0] for p in parts), ''.join(p[1] for p in parts)
                if so != eo:
                    i = next((i for i, (a, b) in enumerate(zip(so, eo)) if a != b), min(len(so), len(eo)))
                    t.violate('lint output', 'cypher-lint %s prints %r, expected %r (at %d)' % (args, so[max(0, i - 60):i + 100], eo[max(0, i - 60):i + 100], i), [desc])
                if se != ee:
                    i = next((i for i, (a, b) in enumerate(zip(se, ee)) if a != b), min(len(se), len(ee)))
                    t.violate('lint errors', 'cypher-lint %s reports %r, expected %r (at %d)' % (args, se[max(0, i - 60):i + 100], ee[max(0, i - 60):i + 100], i), [desc])
                continue
            # an unreadable input is reported in its place; whether later inputs are still looked at is not prescribed
            k = next(i for i, p in enumerate(parts) if p[1] is None)
            eo, ee = ''.join(p[0] for p in parts[:k]), ''.join(p[1] for p in parts[:k])
            if not so.startswith(eo):
                t.violate('lint output', 'cypher-lint %s, before an unreadable input, prints %r, expected %r' % (args, so[:300], eo[:300]), [desc])
            if not se.startswith(ee) or not re.match(r'[^\n]*: (No such file or directory|Is a directory|Bad file descriptor)\n', se[len(ee):]):
                t.violate('lint errors', 'cypher-lint %s, at an unreadable input, reports %r, expected %r and a message' % (args, se[-300:], ee[-200:]), [desc])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return t


def plan_c21(tier, seed):
    q = tier == 'quick'
    return spread(w_lint, seed, 3200 if q else 60000, 100, flavour='plain') + spread(w_lint, seed + 1, 600 if q else 10000, 50, flavour='asan')


CHECKS = {
    'C21': Check('C21', plan_c21, ['asan', 'plain'], 'cypher-lint run on one to three files, standard input, missing files and directories holding documents and hostile inputs, under every combination of its options, with its outputs pipes or terminals; exit status, standard output and standard error compared with what the library reports for the same input and options. Non-trivial: distinct (arguments, inputs).',
                 {'runs of cypher-lint': 3000, 'errors expected': 1800, 'trees printed': 1500, 'unreadable inputs': 150, 'unreadable standard inputs': 15, 'exit status': 2, 'runs on a terminal': 500}),
}
