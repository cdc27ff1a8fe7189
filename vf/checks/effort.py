"""C24 parsing effort: work counted in edges executed and bytes asked for."""
import math, random
from ..core import Check, Tally, execute, spread
from ..run import Case, Crash, HarnessError
from .. import work, lang
from ..lang import Gen, Layout, render

BUDGET = 4e8
F = {}


def rep(name, a, x, s='', b=''):
    F[name] = (a, x, s, b)


for _n, _a in [
    ('statements', ('', 'RETURN 1;\n')), ('unknown statements', ('', 'foo bar;\n')), ('unclosed parentheses', ('', 'RETURN (;\n')), ('statements unterminated', ('', 'RETURN 1 1 ')), ('stray parentheses', ('RETURN ', ') ')),
    ('stray characters', ('', '@ ')), ('quotes', ('', '" ')), ('unclosed patterns', ('', 'MATCH (a ')), ('unknown clauses', ('MATCH (a) ', 'FOO ')), ('clauses', ('', 'MATCH (a) ', '', 'RETURN 1;')), ('list elements', ('RETURN [', '1', ', ', ']')),
    ('elements of a bad list', ('RETURN [', '1', ', ', ' x y')), ('map entries', ('RETURN {', 'a:1', ', ', '}')), ('arguments', ('RETURN f(', 'a', ', ', ')')), ('AND', ('RETURN ', 'a', ' AND ')), ('OR', ('RETURN ', 'a', ' OR ')), ('XOR', ('RETURN ', 'a', ' XOR ')),
    ('plus', ('RETURN ', 'a', ' + ')), ('times', ('RETURN ', 'a', ' * ')), ('comparisons', ('RETURN ', 'a', ' < ')), ('equalities', ('RETURN ', 'a', ' = ')), ('powers', ('RETURN ', 'a', ' ^ ')), ('unary minus', ('RETURN ', '- ', '', '1')), ('NOT', ('RETURN ', 'NOT ', '', '1')),
    ('IS NULL', ('RETURN a', ' IS NULL')), ('properties', ('RETURN a', '.b')), ('subscripts', ('RETURN a', '[1]')), ('slices', ('RETURN a', '[1..2]')), ('label tests', ('RETURN a', ':L')), ('projections of maps', ('RETURN a', '{.b}')), ('selectors', ('RETURN a {', '.b', ', ', '}')),
    ('path links', ('MATCH ()', '-->()', '', ' RETURN 1')), ('path links in expressions', ('RETURN ()', '-->()')), ('path links with maps', ('RETURN (a)', '-->(b {c:1})')), ('patterns', ('MATCH ', '(a)', ', ', ' RETURN 1')), ('labels', ('MATCH (a', ':L', '', ') RETURN 1')),
    ('relationship types', ('MATCH ()-[', ':R', '|', ']-() RETURN 1')), ('unions', ('', 'RETURN 1', ' UNION ')), ('alternatives', ('RETURN CASE ', 'WHEN 1 THEN 1', ' ', ' END')), ('string characters', ('RETURN "', 'a', '', '"')), ('escapes', ('RETURN "', '\\n', '', '"')),
    ('lines in a string', ('RETURN "', '\n', '', '"')), ('unclosed string', ('RETURN "', 'a')), ('lines of an unclosed string', ('RETURN "', '\n')), ('strings run together', ('RETURN "', 'a"')), ('name characters', ('RETURN `', 'a', '', '`')), ('quoted quotes', ('RETURN `', '``', '', '`')),
    ('unclosed name', ('RETURN `', 'a')), ('lines in a name', ('RETURN `', '\n', '', '`')), ('comment characters', ('RETURN /*', 'a', '', '*/ 1')), ('unclosed comment', ('RETURN /*', 'a')), ('lines in a comment', ('RETURN /*', '\n', '', '*/ 1')), ('comments', ('RETURN ', '/**/', '', ' 1')),
    ('comments before an operator', ('RETURN 1 ', '/**/', '', ' + 1')), ('comments before damage', ('RETURN 1 ', '/**/', '', ' foo')), ('line comments', ('', '//\n', '', ' RETURN 1')), ('blanks before an operator', ('RETURN 1', ' ', '', '+ 1;')), ('blanks', ('RETURN', ' ', '', '1')),
    ('blanks before damage', ('RETURN 1', ' ', '', 'x x')), ('blank lines', ('RETURN 1', '\n', '', 'x x')), ('identifier characters', ('RETURN ', 'a')), ('digits', ('RETURN ', '1')), ('hex digits', ('RETURN 0x', '1')), ('fraction digits', ('RETURN 1.', '1')), ('semicolons', ('', ';')), ('colons', ('', ':')),
    ('commands', ('', ':a b\n')), ('command arguments', (':a ', 'b', ' ', '\n')), ('command string', (':a "', 'b', '', '"\n')), ('continued lines', (':a ', '\\\n', '', 'b\n')), ('options', ('CYPHER ', 'a=b', ' ', ' RETURN 1')), ('EXPLAIN', ('', 'EXPLAIN ', '', 'RETURN 1')),
    ('updates in FOREACH', ('FOREACH (x IN y | ', 'SET a.b=1', ' ', ')')), ('unclosed FOREACH', ('', 'FOREACH (x IN y | ')), ('set items', ('SET ', 'a.b=1', ', ')), ('CREATE', ('', 'CREATE (a) ')), ('merge actions', ('MERGE (a) ', 'ON CREATE SET a.b=1', ' ')), ('hints', ('MATCH (a) ', 'USING SCAN a:L', ' ', ' RETURN 1')),
    ('start ids', ('START n=node(', '1', ', ', ') RETURN 1')), ('USING', ('', 'USING PERIODIC COMMIT ')), ('LOAD CSV', ('', 'LOAD CSV FROM "a" AS b ', '', 'RETURN 1')), ('WITH', ('', 'WITH a AS b ', '', 'RETURN 1')), ('WHERE', ('MATCH (a) ', 'WHERE a=1 ')), ('parameter characters', ('RETURN $', 'a')),
    ('NUL bytes', ('RETURN ', '\0')), ('high bytes', ('RETURN ', '\xff')), ('sort items', ('RETURN 1 ORDER BY ', 'a', ', ')), ('backslashes', ('RETURN ', '\\')), ('IN', ('RETURN a', ' IN b')), ('STARTS WITH', ('RETURN a', ' STARTS WITH b')), ('procedure name parts', ('CALL ', 'a', '.')),
    ('function name parts', ('RETURN ', 'a', '.', '(1)')), ('commas', ('RETURN ', ', ')), ('RETURN', ('', 'RETURN ')), ('MATCH', ('', 'MATCH ')), ('delete items', ('DELETE ', 'a', ', ')), ('remove items', ('REMOVE ', 'a.b', ', ')), ('yield items', ('CALL a() YIELD ', 'b', ', ')),
    ('named paths', ('MATCH ', 'p = (a)', ', ', ' RETURN 1')), ('join identifiers', ('MATCH (a) USING JOIN ON ', 'a', ', ', ' RETURN 1')), ('errors on one line', ('', 'x;')), ('errors on lines', ('', 'x;\n')), ('damaged commands', ('', ': \n')), ('carriage returns', ('RETURN 1', '\r\n', '', ';'))]:
    rep(_n, *_a)

# Constructs that nest without limit at polynomial cost.
NEST = {'parentheses': ('(', ')'), 'lists': ('[', ']'), 'maps': ('{a:', '}'), 'calls': ('f(', ')'), 'CASE WHEN': ('CASE WHEN ', ' THEN 1 END'), 'CASE': ('CASE ', ' WHEN 1 THEN 1 END'), 'NOT': ('NOT ', ''), 'minus': ('-', ''), 'subscripts': ('a[', ']'),
        'slices': ('a[1..', ']'), 'filter': ('filter(x IN ', ' WHERE true)'), 'comprehensions': ('[x IN ', ' | x]'), 'comprehension predicates': ('[x IN y WHERE ', ']'), 'reduce': ('reduce(a=1, x IN ', ' | 1)'), 'all': ('all(x IN y WHERE ', ')'),
        'map projections': ('a {b:', '}'), 'extract': ('extract(x IN ', ' | 1)'), 'exists': ('exists(', ')'), 'property of parentheses': ('(', ').a'), 'labels of parentheses': ('(', ':L)'), 'negated parentheses': ('NOT (', ')'), 'IN lists': ('1 IN [', ']'), 'comparisons': ('1 = (', ' = 2)'),
        'count DISTINCT': ('count(DISTINCT ', ')'), 'IS NULL': ('(', ') IS NULL')}
# The same and others, with and without each of their optional parts, nested in each of their places.
for _k, _a, _b in [
        ('filter without WHERE', 'filter(x IN ', ')'), ('filter predicate', 'filter(x IN y WHERE ', ')'), ('extract without result', 'extract(x IN ', ')'), ('extract predicate', 'extract(x IN y WHERE ', ' | 1)'), ('extract predicate alone', 'extract(x IN y WHERE ', ')'),
        ('extract result', 'extract(x IN y | ', ')'), ('extract result after WHERE', 'extract(x IN y WHERE true | ', ')'), ('comprehension without parts', '[x IN ', ']'), ('comprehension with WHERE', '[x IN ', ' WHERE true]'), ('comprehension with both', '[x IN ', ' WHERE true | 1]'),
        ('comprehension predicate and result', '[x IN y WHERE ', ' | 1]'), ('comprehension result', '[x IN y | ', ']'), ('comprehension result after WHERE', '[x IN y WHERE true | ', ']'), ('reduce init', 'reduce(a = ', ', x IN y | 1)'), ('reduce result', 'reduce(a = 1, x IN y | ', ')'), ('all list', 'all(x IN ', ' WHERE true)'),
        ('all without WHERE', 'all(x IN ', ')'), ('any', 'any(x IN ', ')'), ('any predicate', 'any(x IN y WHERE ', ')'), ('none', 'none(x IN ', ')'), ('none predicate', 'none(x IN y WHERE ', ')'), ('single', 'single(x IN ', ')'), ('single predicate', 'single(x IN y WHERE ', ')'),
        ('CASE operand', 'CASE ', ' WHEN 1 THEN 1 ELSE 2 END'), ('CASE test', 'CASE a WHEN ', ' THEN 1 END'), ('CASE result', 'CASE a WHEN 1 THEN ', ' END'), ('CASE ELSE', 'CASE a WHEN 1 THEN 1 ELSE ', ' END'), ('CASE WHEN result', 'CASE WHEN 1 THEN ', ' END'), ('CASE WHEN ELSE', 'CASE WHEN 1 THEN 1 ELSE ', ' END'),
        ('CASE second test', 'CASE a WHEN 1 THEN 1 WHEN ', ' THEN 1 END'), ('slice start', 'a[', '..]'), ('slice start and end', 'a[', '..2]'), ('slice end alone', 'a[..', ']'), ('second argument', 'f(1, ', ')'), ('first argument', 'f(', ', 1)'), ('distinct argument', 'f(DISTINCT ', ')'), ('dotted call', 'a.b.f(', ')'),
        ('second element', '[1, ', ']'), ('first element', '[', ', 1]'), ('second entry', '{a: 1, b: ', '}'), ('first entry', '{a: ', ', b: 1}'), ('second projection', 'a {.b, c: ', '}'), ('first projection', 'a {c: ', ', .b}'), ('parenthesised OR', '(a OR ', ')'), ('parenthesised AND', '(a AND ', ')'), ('parenthesised XOR', '(', ' XOR a)'),
        ('parenthesised plus', '(a + ', ')'), ('parenthesised power', '(', ' ^ a)'), ('parenthesised power right', '(a ^ ', ')'), ('parenthesised IN', '(a IN ', ')'), ('parenthesised CONTAINS', '(', ' CONTAINS a)'), ('parenthesised STARTS WITH', '(a STARTS WITH ', ')'), ('parenthesised match', '(a =~ ', ')'),
        ('parenthesised IS NOT NULL', '(', ' IS NOT NULL)'), ('subscripted parentheses', '(', ')[1]'), ('sliced parentheses', '(', ')[1..2]'), ('subscripted lists', '[', '][0]'), ('property of a list', '[', '].a'), ('property of a call', 'f(', ').a'), ('property of CASE', 'CASE WHEN ', ' THEN 1 END.a'), ('minus parentheses', '-(', ')'), ('chained comparison', '(1 < ', ' < 2)'),
        ('negated calls', 'NOT f(', ')'), ('calls in lists', '[f(', ')]'), ('lists in calls', 'f([', '])'), ('CASE in calls', 'f(CASE WHEN ', ' THEN 1 END)'), ('properties of nodes', 'exists((a {b: ', '})-->())'),
        ('pattern comprehension predicate', '[(a)-->(b) WHERE ', ' | 1]'), ('pattern comprehension result', '[(a)-->(b) | ', ']'), ('named pattern comprehension', '[p = (a)-->(b) WHERE true | ', ']'), ('comparison with a shortest path', 'shortestPath((a)-[*1..2]->(b)) = (', ')'), ('pattern and parentheses', '((a)-->(b) AND ', ')'), ('pattern exists and parentheses', 'exists((a)-->(b)) AND (', ')')]:
    NEST[_k] = (_a, _b)
# Those that damage inside makes exponential: what they begin with is then tried as something else; see known_findings.txt.
FRAGILE = ('filter', 'comprehensions', 'reduce', 'extract', 'negated parentheses', 'filter without WHERE', 'extract without result', 'comprehension without parts', 'comprehension with WHERE', 'comprehension with both',
           'reduce init', 'all list', 'all without WHERE', 'any', 'none', 'single', 'CASE WHEN result', 'properties of nodes')
DAMAGED = {'unclosed': lambda a, b, d: a * d + '1', 'with damage inside': lambda a, b, d: a * d + '1 1' + b * d, 'closed once too few': lambda a, b, d: a * d + '1' + b * (d - 1), 'with a stray character inside': lambda a, b, d: a * d + '1 @' + b * d}
# Constructs that nest at exponential cost; see known_findings.txt.
HARDN = {'parenthesised maps': ('({a:', '})'), 'parenthesised map projections': ('(a {b:', '})'), 'listed map projections': ('[(a {b:', '})]'), 'listed patterns with maps': ('[(a {b:', '})-->()]'), 'unclosed comprehensions': ('[x IN ', ''), 'unclosed filter': ('filter(x IN ', ''), 'unclosed reduce': ('reduce(a=', ''), 'unclosed extract': ('extract(x IN ', ''), 'unclosed NOT': ('NOT (', ''), 'unclosed all': ('all(x IN ', ''), 'unclosed any': ('any(x IN ', ''), 'unclosed none': ('none(x IN ', ''), 'unclosed single': ('single(x IN ', ''),
         'unclosed pattern comprehensions': ('[(a)-->({b:', ''), 'unclosed CASE THEN': ('CASE WHEN 1 THEN ', ''), 'unclosed shortestPath': ('shortestPath((a {b:', '})')}
TOPS = [('RETURN ', ';'), ('MATCH (a) WHERE ', ' RETURN a;'), ('UNWIND ', ' AS x RETURN x;'), ('SET a.b = ', ';'), ('WITH ', ' AS x RETURN x;'), ('MATCH (a {b: ', '}) RETURN a;'), ('RETURN 1 ORDER BY ', ';'), ('FOREACH (x IN ', ' | SET a.b = 1)')]


def measured(t, c, key):
    """(edges, bytes), or None with a violation when the budget ran out."""
    t.saw(c)
    if isinstance(c.out, Crash):
        if c.out.get('rc') == 42 or c.out['kind'] == 'timeout':
            return None
        raise HarnessError('the driver failed: %s' % c.out['what'])
    t.c['edges executed'] += c.out['work']
    t.c['calls measured'] += 1
    return c.out['work'], c.out['bytes'] + 1000


def exponent(a, b, f=2):
    return math.log(b / max(a, 1)) / math.log(f)


def grows(t, key, what, cs, limit, floor=20000):
    """cs: cases of doubling size. Every doubling beyond the floor must multiply work by at most 2^limit."""
    ms = [measured(t, c, key) for c in cs]
    for i, m in enumerate(ms):
        if m is None:
            t.violate(key, '%s: more than %.0e edges for %d bytes' % (what, BUDGET, len(cs[i].data)), [cs[i]])
            return
    t.c['growth curves'] += 1
    for k, unit in ((0, 'edges'), (1, 'bytes')):
        for a, b, c in zip(ms, ms[1:], cs[1:]):
            if b[k] < floor:
                continue
            e = exponent(a[k], b[k])
            t.kind('growth exponents (%s, tenths)' % unit, round(e * 10))
            if e > limit:
                t.violate(key, '%s: doubling the repetitions (to %d bytes) multiplies the %s by %.1f (%s)' % (what, len(c.data), unit, b[k] / max(a[k], 1), [m[k] for m in ms]), [c])
                return


def w_rep(names, sizes, entries):
    t = Tally()
    jobs = []
    for nm in names:
        a, x, s, b = F[nm]
        for en in entries:
            jobs.append((nm, en, [Case(en, (a + s.join([x] * n) + b).encode('latin1'), budget=BUDGET * max(1, (n / 512) ** 2)) for n in sizes]))
    execute([c for j in jobs for c in j[2]], 'cov', limit=60)
    for nm, en, cs in jobs:
        t.c['families'] += 1
        grows(t, 'repeat ' + nm, '%s repeated (%s)' % (nm, en), cs, 1.4 if en in ('qu', 'qp', 'qf') else 2.25)
    return t


def w_nest(seed, n):
    """Nested constructs, alone and alternating, complete and cut short."""
    t = Tally()
    jobs = []
    if seed is None:
        for k, (a, b) in NEST.items():
            for top in (TOPS[0], TOPS[5]) if k in ('parentheses', 'lists', 'maps') else (TOPS[0],):
                jobs.append((k, [Case('u', (top[0] + a * d + '1' + b * d + top[1]).encode(), budget=BUDGET) for d in (10, 20, 40, 80)]))
            for w, mk in DAMAGED.items():
                if k not in FRAGILE:
                    jobs.append(('%s %s' % (k, w), [Case('u', (TOPS[0][0] + mk(a, b, d) + ';').encode(), budget=BUDGET) for d in (10, 20, 40)]))
        jobs.append(('FOREACH', [Case('u', ('FOREACH (x IN y | ' * d + 'SET a.b = 1' + ')' * d + ';').encode(), budget=BUDGET) for d in (10, 20, 40, 80)]))
        jobs.append(('match maps', [Case('u', ('MATCH (a ' + '{b:' * d + '1' + '}' * d + ') RETURN 1;').encode(), budget=BUDGET) for d in (10, 20, 40, 80)]))
    else:
        easy = [k for k in NEST if '{' not in NEST[k][0] or k == 'maps']       # maps within parentheses are known findings
        for i in range(n):
            g = random.Random(seed * 16127 + i)
            ks = [g.choice(easy) for _ in range(g.choice((2, 2, 3)))]
            if 'maps' in ks:
                ks = [k for k in ks if '(' not in NEST[k][0] or k in ('calls', 'exists', 'count DISTINCT')]
            a = ''.join(NEST[k][0] for k in ks); b = ''.join(NEST[k][1] for k in reversed(ks))
            top = g.choice(TOPS)
            jobs.append(('mixed', [Case('u', (top[0] + a * d + '1' + b * d + top[1]).encode(), budget=BUDGET) for d in (4, 8, 16)]))
            t.kind('mixtures nested', tuple(ks))
    jobs = [j for j in jobs if j[1]]
    execute([c for j in jobs for c in j[1]], 'cov', limit=60)
    for k, cs in jobs:
        t.c['nestings'] += 1
        grows(t, 'nest ' + k, '%s nested' % k, cs, 3.2 if k == 'mixed' else 2.6)
    return t


def w_hard():
    """The constructs known to nest at exponential cost."""
    t = Tally()
    jobs = []
    for k, (a, b) in HARDN.items():
        jobs.append((k, [Case('u', ('RETURN ' + a * d + '1' + b * d + ';').encode(), budget=BUDGET) for d in (5, 10, 20)]))
    for k, cs in jobs:
        execute(cs, 'cov', limit=60)
        grows(t, 'nest ' + k, '%s nested' % k, cs, 3.2)
    return t


def balanced(toks):
    d = 0
    for x in toks:
        if x.text in ('(', '[', '{') or x.text.upper() == 'CASE':
            d += 1
        elif x.text in (')', ']', '}') or x.text.upper() == 'END':
            d -= 1
            if d < 0:
                return False
    return d == 0


def w_tokens(seed, n):
    """A run of tokens of a generated statement, repeated in its place."""
    t = Tally()
    jobs = []
    for i in range(n):
        g = random.Random(seed * 350377 + i)
        d = Gen(g, depth=g.choice((1, 2)), hostile=0.0).statement()
        for _ in range(20):
            a = g.randrange(len(d.toks)); b = a + g.choice((1, 1, 2, 3, 4, 6))
            if b <= len(d.toks) and balanced(d.toks[a:b]):
                break
        else:
            continue
        cs = []
        for m in (16, 32, 64):
            toks = d.toks[:a] + d.toks[a:b] * m + d.toks[b:]
            data = ' '.join(x.text for x in toks)
            cs.append(Case('u', data.encode('latin1') + b';', budget=BUDGET))
        jobs.append((' '.join(x.text for x in d.toks[a:b]), cs))
    execute([c for j in jobs for c in j[1]], 'cov', limit=60)
    for k, cs in jobs:
        t.c['token runs repeated'] += 1
        grows(t, 'repeat tokens', 'the tokens %r repeated' % k, cs, 2.4, floor=60000)
    return t


def w_apart(seed, n):
    """The work on a statement, alone and after others."""
    t = Tally()
    jobs = []
    for i in range(n):
        g = random.Random(seed * 15485867 + i)
        k = g.random()
        S = work.gen_doc(g, n=1, depth=g.choice((1, 2)), hostile=0.0, eof=False, commands=0.15).data
        if k < 0.3:
            S = work.damage_bytes(S, g, 1).rstrip(b';') + b'\n;'
        P = work.gen_doc(g, n=g.choice((1, 3)), depth=2, hostile=0.0, eof=False).data + (b'RETURN "' + b'x\n' * g.choice((0, 400, 3000)) + b'";') + (b'\nbad ( ;' * g.choice((0, 1, 20)))
        en = g.choice(('ue', 'fe', 'qu'))
        cs = [Case(en, x, budget=BUDGET) for x in (S, S * 2, S * 24, P, P + S)]
        jobs.append((en, cs))
    execute([c for j in jobs for c in j[1]], 'cov', limit=60)
    for en, cs in jobs:
        ms = [measured(t, c, '') for c in cs]
        if any(m is None for m in ms):
            t.inconclusive += 1
            continue
        segs = [len(c.out['segs']) for c in cs]
        if segs[1] != 2 * segs[0] or segs[2] != 24 * segs[0] or segs[4] != segs[3] + segs[0]:
            t.c['set aside (statements run together)'] += 1
            continue
        one = max(ms[0][0], ms[1][0] - ms[0][0])
        t.c['statements measured after others'] += 1
        per = (ms[2][0] - ms[1][0]) / 22
        after = ms[4][0] - ms[3][0]
        t.kind('marginal over single (percent)', round(100 * per / one))
        if per > 1.6 * one + 3000:
            t.violate('work depends on history', 'a statement costs %d edges alone, %d on average when repeated 24 times (%s)' % (one, per, en), [cs[0], cs[2]])
        if after > 1.6 * one + 6000:
            t.violate('work depends on history', 'a statement costs %d edges alone, %d after other statements (%s)' % (one, after, en), [cs[0], cs[4]])
        at = cs[2].out['segs']
        if len(at) >= 20:
            q = len(at) // 4
            early, late = at[2 * q] - at[q], at[4 * q - 1] - at[3 * q - 1]
            t.c['segments timed'] += len(at)
            if late > 1.5 * early + 6000:
                t.violate('work depends on history', 'the same statements cost %d edges early and %d later in one input (%s)' % (early, late, en), [cs[2]])
    return t


def w_total(seed, n):
    """Any input at all: the work stays within a generous bound per byte."""
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 32452843 + i)
        d = work.gen_doc(g, depth=g.choice((1, 2, 3))).data if g.random() < 0.5 else work.any_input(g)
        cases.append(Case(g.choice(('u', 'f', 'qu')), d[:3000], budget=BUDGET))
    execute(cases, 'cov', limit=60)
    for c in cases:
        m = measured(t, c, '')
        n = len(c.data) + 50
        bound = 20000 * n + 60 * n * n
        if m is None or m[0] > bound:
            t.violate('total work', '%s edges for %d bytes (bound %d)' % (m and m[0], len(c.data), bound), [c])
        elif m:
            t.kind('edges per byte (log2)', int(math.log2(m[0] / n + 1)))
            if m[1] > 400 * n + 60 * n * n + 40000:
                t.violate('total memory', '%d bytes asked for, for %d bytes of input' % (m[1], len(c.data)), [c])
    return t


def plan_c24(tier, seed):
    q = tier == 'quick'
    names = sorted(F)
    out = [(w_hard, {}), (w_nest, dict(seed=None, n=0))]
    sizes = (64, 128, 256, 512) if q else (64, 128, 256, 512, 1024, 2048)
    for i in range(0, len(names), 12):
        out.append((w_rep, dict(names=names[i:i + 12], sizes=sizes, entries=('u', 'fe', 'qu') if q else ('u', 'ue', 'f', 'fe', 'qu', 'qf'))))
    out += spread(w_nest, seed, 600 if q else 4000, 20)
    out += spread(w_tokens, seed + 1, 800 if q else 20000, 50)
    out += spread(w_apart, seed + 2, 600 if q else 15000, 50)
    out += spread(w_total, seed + 3, 6000 if q else 200000, 250)
    return out


CHECKS = {
    'C24': Check('C24', plan_c24, ['cov'], 'Work counted as edges the library executes and bytes it asks for: about a hundred constructs repeated up to 512 times, nestings of 25 constructs to depth 80 alone and mixed, cut short and damaged, runs of tokens of generated statements repeated in place, statements alone and after others, and hostile inputs against a generous bound. Non-trivial: distinct (input, entry).',
                 {'growth curves': 900, 'families': 250, 'statements measured after others': 300, 'token runs repeated': 400, 'segments timed': 5000, 'nestings': 100},
                 assumptions=['Edges counted by compiler instrumentation stand for time; work inside libc calls shows as bytes asked for only.']),
}
