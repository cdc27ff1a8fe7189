"""C17 printing of trees, segments and results."""
import random, re
from ..core import Check, Tally, execute, survived, spread
from ..run import Case
from .. import work, printed, lang
from .memory import hostile, nested
from .streams import CHUNKS

ANSI = re.compile(r'\x1b\[[0-9;]*m')
WIDTHS = (1, 2, 9, 10, 11, 20, 35, 40, 41, 50, 57, 64, 72, 80, 81, 100, 131, 200, 1000, 2 ** 31, 2 ** 32 - 1)
# A list of every kind: (before, item, separator, after)
LISTS = [('RETURN [', '1', ', ', ']'), ('RETURN ', 'a', ', ', ''), ('RETURN {', 'k%d: 1', ', ', '}'), ('RETURN f(', 'x', ', ', ')'), ('CALL p(', 'x', ', ', ')'), ('CALL p() YIELD ', 'x', ', ', ''),
         ('RETURN a', ':L%d', '', ''), ('MATCH (a', ':L', '', ') RETURN 1'), ('MATCH ()-[', ':R', '|', ']-() RETURN 1'), ('MATCH ()', '-->(n%d)', '', ' RETURN 1'), ('MATCH ', '(n)', ', ', ' RETURN 1'),
         ('RETURN CASE ', 'WHEN a THEN 1', ' ', ' END'), ('RETURN ', '1', ' < ', ''), ('', 'CREATE (a)', ' ', ''), ('START n=node(', '%d', ', ', ') RETURN n'), ('START ', 'n=node(*)', ', ', ' RETURN n'),
         ('MATCH (a) USING JOIN ON ', 'a', ', ', ' RETURN 1'), ('MATCH (a) ', 'USING SCAN a:L', ' ', ' RETURN 1'), ('MATCH (a) SET ', 'a.b = 1', ', ', ''), ('MATCH (a) SET a', ':L', '', ''), ('MATCH (a) REMOVE ', 'a.b', ', ', ''),
         ('MATCH (a) REMOVE a', ':L', '', ''), ('MATCH (a) DELETE ', 'a', ', ', ''), ('FOREACH (x IN y | ', 'SET a.b = 1', ' ', ')'), (':c ', 'a', ' ', '\n'), ('CYPHER ', 'a=b', ' ', ' RETURN 1'), ('RETURN a {', '.b', ', ', '}'),
         ('RETURN a {', '.*, b', ', ', '}'), ('RETURN 1 ORDER BY ', 'a', ', ', ''), ('MERGE (a) ', 'ON CREATE SET a.b = 1', ' ', ''), ('MERGE (a) ON MATCH SET ', 'a.b = 1', ', ', ''), ('RETURN ', '1', ' + ', ''), ('WITH ', 'a AS b', ', ', ' RETURN 1'),
         ('EXPLAIN ', 'PROFILE', ' ', ' RETURN 1')]
TEXTS = ['RETURN "%s"', "RETURN '%s'", 'RETURN `%s`', 'RETURN 1 AS `%s`', 'RETURN a.`%s`', 'MATCH (:`%s`) RETURN 1', 'MATCH ()-[:`%s`]-() RETURN 1', 'RETURN $`%s`', 'RETURN `%s`(1)', 'CALL `%s`()', ':x "%s"\n', 'RETURN /*%s*/ 1',
         'RETURN 1 //%s\n', '%s ;', 'START n=node:`%s`("x") RETURN n', 'CYPHER a="%s" RETURN 1', 'RETURN a {`%s`: 1}', 'RETURN [`%s` IN y | 1]']


def sized(g):
    """Details of sizes around the print buffer's, and lists of every kind."""
    if g.random() < 0.5:
        a, x, s, b = g.choice(LISTS)
        n = g.choice((1, 2, 3, 9, 10, 11, 60, 100, 150, 170, 200, 204, 205, 206, 250, 300))
        if 'CREATE' in x or 'WHEN' in x:
            n = min(n, 210)
        return (a + s.join(x % i if '%d' in x else x for i in range(n)) + b).encode()
    out = []
    for _ in range(g.choice((1, 2, 3))):
        t = g.choice(TEXTS)
        k = g.choice((1, 30, 100, 500, 1000)) + g.randrange(40) if g.random() < 0.5 else g.choice((1024, 2048, 1500, 4096)) - g.randrange(12)
        ch = g.choice(('x', 'xy z', '\t', 'a\tb', 'é', '\x07\x08\x0b\x0c', 'a`b' if t.startswith(':') or 'RETURN 1 /' in t else 'q', '%s%n%d', '@1, '))
        body = (ch * k)[:k]
        if t == '%s ;':
            body = body.replace('\x07', 'x')
        out.append((t % body) + '\n;\n')
    return ''.join(out).encode('utf8')


def any_tree(g, deep=True):
    k = g.random()
    if k < 0.05 and deep:
        return work.scaled(g).data
    if k < 0.056 and deep:
        return work.huge(g, g.choice((2, 4, 7, 8, 10, 11)))[1]
    if k < 0.4:
        return work.gen_doc(g, depth=g.choice((2, 3, 4))).data
    if k < 0.7:
        return sized(g)
    if k < 0.75:
        return nested(g)[:6000]
    return hostile(g)[:20000]


def check_prints(t, c, prs, roots, firsts, memo):
    ok = False
    for p in prs:
        ts, fs = (roots, firsts) if p['of'] != 'root' else ([roots[p['i']]], [firsts[p['i']]])
        if 'pfail' in p:
            t.c['prints to a stream that fails'] += p['tried']
            if p['rc'] != 0:
                t.violate('print rc', 'printing a %s to a writable stream returned %s' % (p['of'], p['rc']), [c])
            if p['bad']:
                t.violate('print failure unreported', 'printing a %s of %d bytes to a stream that fails after [n bytes, returned]: %s' % (p['of'], p['pfail'], p['bad']), [c])
            continue
        if p['rc'] != 0:
            t.violate('print rc', 'printing a %s returned %s (errno %s)' % (p['of'], p['rc'], p['e']), [c])
            continue
        w, col = p['w'], p['c']
        out = p['out']
        if col == 1:
            n = len(ANSI.findall(out))
            out = ANSI.sub('', out)
            t.c['prints in colour'] += 1
            nodes = sum(len(x) for x in ts)
            if nodes and n < 4 * nodes:
                t.violate('print colour', 'colorized print of %d nodes holds %d escape sequences' % (nodes, n), [c])
        key = (p['of'], p['i'], w, 2 if col == 2 else 0)
        if key not in memo:
            memo[key] = printed.render(ts, fs, w, 2 if col == 2 else 0)
        want = memo[key]
        t.c['prints compared'] += 1
        t.c['prints folded'] += w != 0
        ok = True
        if out != want:
            i = next((i for i, (x, y) in enumerate(zip(out, want)) if x != y), min(len(out), len(want)))
            ln = want.count('\n', 0, i)
            wl, ol = want.split('\n'), out.split('\n')
            t.violate('print %s' % ('text' if not w else 'folded'), '%s print (width %d, colour %d) differs at line %d: expected %r, printed %r' % (p['of'], w, col, ln + 1, wl[ln][:300] if ln < len(wl) else '', ol[ln][:300] if ln < len(ol) else ''), [c])
    return ok


def w_print(seed, n, fail=False):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 9576890767 + i)
        data = any_tree(g, not fail)
        ws = ['0:0'] + ['%d:%d' % (g.choice(WIDTHS + (g.randrange(1, 160),) * 8), g.choice((0, 0, 1, 2))) for _ in range(3)] + ['0:%d' % g.choice((1, 2))]
        o = dict(flags=g.choice((0, 0, 0, 2)), print=','.join(ws))
        if fail:
            data = data[:700]
            o['pfail'] = 1
            o['print'] = g.choice(ws)
        if g.random() < 0.3:
            o['ord'] = g.choice((1, 5, 8, 9, 10, 95, 99, 990, 9999, 10 ** 6, 2 ** 31 - 3, 2 ** 31, 2 ** 32 - 60000))
        if g.random() < 0.15:
            o['pos'] = (1, 1, g.choice((9, 99, 10 ** 6, 2 ** 33)))
        en = g.choice(('u', 'u', 'f', 'ue', 'fe'))
        if en[0] == 'f':
            o['chunk'] = g.choice(CHUNKS)
        cases.append(Case(en, data, **o))
    execute(cases)
    for c in cases:
        if not survived(t, c):
            t.saw(c)
            continue
        o = c.out
        f = c.opts.get('ord', 0)
        if 'res' in o:
            roots = o['res']['roots']
            firsts = []
            for r in roots:
                firsts.append(f); f += len(r)
            t.saw(c, bool(roots))
            for r in roots:
                for x in r:
                    t.kind('node kinds printed', x[0])
                    t.kind('node shapes printed', (x[0], tuple(sorted((k, v is None or v is False) for k, v in x[3].items() if not isinstance(v, (str, list))))))
                t.c['nodes printed'] += len(r)
            check_prints(t, c, o.get('pr', ()), roots, firsts, {})
        else:
            t.saw(c, any(s['roots'] for s in o['segs']))
            for s in o['segs']:
                firsts = []
                for r in s['roots']:
                    firsts.append(f); f += len(r)
                t.c['segments printed'] += 1
                check_prints(t, c, s.get('pr', ()), s['roots'], firsts, {})
    return t


def plan_c17(tier, seed):
    q = tier == 'quick'
    return spread(w_print, seed, 7000 if q else 180000, 125) + spread(w_print, seed + 1, 900 if q else 20000, 40, fail=True)


CHECKS = {
    'C17': Check('C17', plan_c17, ['asan'], 'Trees of generated, hostile and corpus inputs, with details of sizes around the print buffer and long lists of every kind, printed as roots, segments and results at many widths, three colourings, initial numbers up to 2^32 and offsets up to 2^33; every print compared byte for byte with one written from the accessors\' values alone; and to streams that fail after every possible number of bytes. Non-trivial: distinct (input, entry, options) that yields a tree.',
                 {'prints compared': 20000, 'prints folded': 10000, 'prints in colour': 3000, 'prints to a stream that fails': 20000, 'node kinds printed': 88, 'segments printed': 1500, 'node shapes printed': 150}),
}
