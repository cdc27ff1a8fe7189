"""C04-C09: positions, well-formedness, trees, precedence, exact text, layout independence."""
import itertools, random, re, sys
from ..core import Check, Tally, execute, survived, anomalies, spread
from ..run import Case
from ..lang import Gen, Layout, render, N, D, T, BINOPS, CMPOPS, PREC
from ..oracle import Index, compare, comments_of, strip_positions, odd_terminator
from .. import wellformed, work

COMMENTS = ('line_comment', 'block_comment')


def roots_of(res):
    return [t for t in res['roots'] if t[0][0] not in COMMENTS]


def judge_doc(t, c, doc, kinds, what=''):
    """Compares one parsed document with what it must yield. kinds: diff kinds that count."""
    r = c.out['res']
    if r['errs']:
        t.violate('error on valid input', '%svalid input reported %s' % (what, [(e[0], e[1][:200]) for e in r['errs'][:2]]), [c])
        return False
    roots = roots_of(r)
    if len(roots) != len(doc.dirs):
        t.violate('directive count', '%s%d directives, expected %d' % (what, len(roots), len(doc.dirs)), [c])
        return False
    if [r['roots'].index(x) for x in roots] != r['dirs'] and len(set(map(id, roots))) == len(roots):
        idx = [i for i, x in enumerate(r['roots']) if x[0][0] not in COMMENTS]
        if idx != r['dirs']:
            t.violate('directives', '%sdirectives are roots %s, expected %s' % (what, r['dirs'], idx), [c])
            return False
    for tr, rr in zip(roots, doc.dirs):
        d = compare(tr, rr.d.node, rr, doc.text)
        t.c['nodes compared'] += len(tr)
        for n in tr:
            t.kind('node types', n[0])
        for k, m in d:
            if k in kinds:
                t.violate('%s %s' % (k, re.sub(r'\d+', '#', m)[:70]), what + m, [c])
                return False
    return True


# ---------------------------------------------------------------- C06
SPECIAL = None


def w_trees(seed, n, kinds, depth=3, hostile=0.15):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 7919 + i)
        doc = work.gen_doc(g, depth=depth, hostile=hostile)
        for k, v in doc.used.items():
            t.kind('node types generated', k)
        cases.append(Case('u', doc.data, tag=doc))
    execute(cases)
    for c in cases:
        t.saw(c)
        if survived(t, c):
            anomalies(t, c, ('structure',))
            judge_doc(t, c, c.tag, kinds)
    return t


def w_scale(seed, n, kinds, jobs, comments=False):
    """One list of every kind at each of many lengths, and expressions nested deep. jobs: (role, items) or (nestings, depth)."""
    t = Tally()
    cases = []
    for i, (role, k) in enumerate(jobs):
        g = random.Random(seed * 65537 + i)
        if isinstance(role, str):
            doc = work.big_doc(g, role, k, **({'modes': ('tight', 'normal')} if k > 3000 else {}))
            t.kind('lists at length', (role, k))
        else:
            doc = work.deep_doc(g, role, k)
            t.kind('nestings at depth', (tuple(role), k))
        cases.append(Case(g.choice('uuf'), doc.data, tag=doc))
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        anomalies(t, c, ('structure',))
        if 'position' in kinds:
            check_positions(t, c, c.data.decode('latin1'), (1, 1, 0))
        if not judge_doc(t, c, c.tag, kinds):
            continue
        if comments:
            com = [x for tr in c.out['res']['roots'] for x in comments_of(tr)]
            t.c['comments compared'] += len(com)
            if [tuple(x) for x in com] != [tuple(x) for x in c.tag.comments]:
                t.violate('comments at scale', '%d comments in the trees, %d in the input' % (len(com), len(c.tag.comments)), [c])
    return t


def scale_jobs(seed, q, kinds, widths, comments=False):
    g = random.Random(seed)
    J = [(r, w) for r in work.ROLES for w in (widths + tuple(g.choice(work.WIDTHS) for _ in range(2 if q else 10)))]
    if not q:
        J += [(r, w) for r in work.ROLES for w in work.WIDTHS + work.WIDE]
    J += [(r, g.choice(work.VAST)) for r in work.ROLES] + [(r, 65536 + g.choice((0, 1, 600))) for r in g.sample([r for r in work.ROLES if r in work.LEAN], 2 if q else 8)]
    nests = Gen.NESTS
    for d in (9, 40, 260) if q else (5, 9, 17, 33, 65, 129, 200, 257, 300):
        J += [((k,), d) for k in nests]
    J += [(tuple(g.choice(nests) for _ in range(g.choice((2, 3, 5)))), g.choice((8, 20, 60, 130, 260))) for _ in range(40 if q else 1500)]
    g.shuffle(J)
    return [(w_scale, dict(seed=seed + i, n=0, kinds=kinds, jobs=ch, comments=comments)) for i, ch in enumerate(chunks(J, 24))]


CLAUSES = ['c_' + x for x in ('load', 'start', 'match', 'merge', 'create', 'set', 'delete', 'remove', 'foreach', 'with', 'unwind', 'call', 'return', 'union')]


def w_pairs(seed, n, kinds, pairs):
    """Every ordered pair of clause kinds, and every clause alone, in every layout."""
    t = Tally()
    cases = []
    for i, ks in enumerate(pairs):
        g = random.Random(seed * 31 + i)
        G = Gen(g, depth=2)
        d = G.statement(list(ks))
        doc = render([d], Layout(g, g.choice(('tight', 'normal', 'wild')), kwcase='rand'), g)
        t.kind('clause sequences', ks)
        cases.append(Case('u', doc.data, tag=doc))
    execute(cases)
    for c in cases:
        t.saw(c)
        if survived(t, c):
            judge_doc(t, c, c.tag, kinds)
    return t


def clause_methods():
    return [m for m in CLAUSES if hasattr(Gen, m)]


def plan_c06(tier, seed):
    q = tier == 'quick'
    kinds = ('structure', 'operator', 'value')
    jobs = spread(w_trees, seed, 24000 if q else 600000, 500, kinds=kinds)
    jobs += spread(w_trees, seed + 71, 2400 if q else 60000, 100, kinds=kinds, depth=5, hostile=0.4)
    cl = clause_methods()
    pairs = [(a,) for a in cl] + list(itertools.product(cl, repeat=2))
    if not q:
        pairs += list(itertools.product(cl, repeat=3))
    for k in range(0, len(pairs), 200):
        jobs.append((w_pairs, dict(seed=seed + k, n=0, kinds=kinds, pairs=pairs[k:k + 200])))
    jobs += scale_jobs(seed + 7, q, kinds, (9, 33, 255, 256, 257, 300, 1025))
    return jobs


# ---------------------------------------------------------------- C07
def flat_tree(ops, operands):
    """Groups a flat operator sequence by the documented precedence: lowest binds last, all
    left-associative but ^, comparisons chain."""
    # precedence climbing over abstract forms
    pos = [0]
    def parse(minp):
        l = operands[pos[0]]
        while pos[0] < len(ops):
            o = ops[pos[0]]
            p = PREC[o]
            if p < minp:
                break
            if o in CMPOPS:
                os, xs = [], [l]
                while pos[0] < len(ops) and ops[pos[0]] in CMPOPS:
                    os.append(ops[pos[0]]); pos[0] += 1
                    xs.append(parse(7))
                l = ('cmp', os, xs)
            else:
                pos[0] += 1
                r = parse(p if o == '^' else p + 1)
                l = ('bin', o, l, r)
        return l
    return parse(0)


def expr_case(g, x, modes=('normal', 'wild', 'tight')):
    G = Gen(g, depth=0)
    d = G.expression_statement(x)
    doc = render([d], Layout(g, g.choice(modes), kwcase=g.choice(('upper', 'lower', 'rand')), comments=0.2), g)
    return Case('u', doc.data, tag=doc)


ATOM = ('atom', 'identifier')
ATOMS = [('atom', a) for a in ('identifier', 'integer', 'string', 'parameter', 'true', 'null', 'float')]


def shapes(ops, g):
    """All ways of nesting the given operators (in this order from root), each taking simple operands elsewhere."""
    def build(os):
        if not os:
            yield g.choice(ATOMS)
            return
        o, rest = os[0], os[1:]
        a = lambda: g.choice(ATOMS)
        if o in ('NOT', 'u+', 'u-'):
            for x in build(rest):
                yield ('un', o.lstrip('u'), x)
        elif o in ('IS NULL', 'IS NOT NULL'):
            for x in build(rest):
                yield ('post', o, x)
        elif o == '.':
            for x in build(rest):
                yield ('prop', x)
        elif o == ':':
            for x in build(rest):
                yield ('lab', x, 1)
        elif o == '[]':
            for k in range(len(rest) + 1):
                for x in build(rest[:k]):
                    for y in build(rest[k:]):
                        yield ('sub', x, y)
        elif o == '[..]':
            for x in build(rest):
                yield ('slice', x, a(), a())
        elif o == '{}':
            for x in build(rest):
                yield ('proj', x, 0)
        elif o in CMPOPS:
            for k in range(len(rest) + 1):
                for x in build(rest[:k]):
                    for y in build(rest[k:]):
                        yield ('cmp', [o], [x, y])
        else:
            for k in range(len(rest) + 1):
                for x in build(rest[:k]):
                    for y in build(rest[k:]):
                        yield ('bin', o, x, y)
    return build(list(ops))


ALLOPS = BINOPS + CMPOPS + ['NOT', 'u+', 'u-', 'IS NULL', 'IS NOT NULL', '.', ':', '[]', '[..]', '{}']


def w_expr(seed, n, seqs=None, mode=None):
    t = Tally()
    cases = []
    g = random.Random(seed)
    kinds = ('structure', 'operator', 'value')
    if mode == 'nest':
        for ops in seqs:
            for x in shapes(ops, g):
                cases.append(expr_case(g, x)); t.kind('operator nestings', tuple(ops)); t.c['nested expressions'] += 1
    elif mode == 'flat':
        binary = BINOPS + CMPOPS
        for i in range(n):
            k = g.choice((2, 3, 4, 5, 8, 15, 40))
            if g.random() < 0.3:
                sub = g.sample(binary, g.choice((1, 2, 3)))
                ops = [g.choice(sub) for _ in range(k)]
            else:
                ops = [g.choice(binary) for _ in range(k)]
            x = flat_tree(ops, [g.choice(ATOMS) for _ in range(k + 1)])
            c = expr_case(g, x)
            t.kind('flat operator triples', tuple(ops[:3])); t.c['flat chains'] += 1
            cases.append(c)
    elif mode == 'long':
        for i in range(n):
            k = g.choice((100, 200, 400))
            sub = g.sample(BINOPS + CMPOPS, g.choice((1, 2, 4, 20)))
            ops = [g.choice(sub) for _ in range(k)]
            x = flat_tree(ops, [g.choice(ATOMS) for _ in range(k + 1)])
            cases.append(expr_case(g, x, ('normal', 'wild'))); t.c['long chains'] += 1
        for i in range(n):
            # deep prefix, postfix and right-nested chains
            x = g.choice(ATOMS)
            for _ in range(g.choice((20, 60, 150))):
                k = g.randrange(5)
                x = (('un', g.choice(('NOT', '+', '-')), x), ('post', g.choice(('IS NULL', 'IS NOT NULL')), x), ('prop', x), ('sub', x, g.choice(ATOMS)),
                     ('bin', '^', g.choice(ATOMS), x))[k]
                if x[0] == 'un' and False:
                    pass
            # keep parentheses shallow: skip forms that would nest many of them
            c = expr_case(g, x, ('normal',))
            if paren_depth(c.data) <= 5:
                cases.append(c); t.c['deep chains'] += 1
    else:
        for i in range(n):
            G = Gen(g, depth=g.choice((2, 3, 4)))
            d = G.expression_statement()
            doc = render([d], Layout(g, g.choice(('tight', 'normal', 'wild')), kwcase='rand'), g)
            c = Case('u', doc.data, tag=doc)
            if paren_depth(c.data) <= 9:
                cases.append(c); t.c['random expressions'] += 1
    execute(cases)
    for c in cases:
        t.saw(c)
        if survived(t, c):
            judge_doc(t, c, c.tag, kinds)
    return t


def paren_depth(data):
    d = m = 0
    for b in data:
        if b in b'([{':
            d += 1; m = max(m, d)
        elif b in b')]}':
            d -= 1
    return m


def chunks(xs, k):
    xs = list(xs)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def plan_c07(tier, seed):
    q = tier == 'quick'
    jobs = []
    two = list(itertools.product(ALLOPS, repeat=2)) + [(o,) for o in ALLOPS]
    for i, ch in enumerate(chunks(two, 120)):
        jobs.append((w_expr, dict(seed=seed * 17 + i, n=0, seqs=ch, mode='nest')))
    three = list(itertools.product(ALLOPS, repeat=3))
    if q:
        three = random.Random(seed).sample(three, 5000)
    for i, ch in enumerate(chunks(three, 250)):
        jobs.append((w_expr, dict(seed=seed * 19 + i, n=0, seqs=ch, mode='nest')))
    jobs += spread(w_expr, seed + 3, 40000 if q else 300000, 500, mode='flat')
    jobs += spread(w_expr, seed + 4, 64 if q else 1600, 8, mode='long')
    jobs += spread(w_expr, seed + 5, 15000 if q else 200000, 500, mode=None)
    return jobs


# ---------------------------------------------------------------- C04
NAMED = ('identifier', 'prop_name', 'proc_name', 'function_name', 'index_name')


def leaf_text(tree, text, base):
    """Leaf nodes whose text must be found at their range, in any input."""
    alias = set()
    for n in tree:
        if n[0] == 'projection' and isinstance(n[3].get('alias'), int):
            alias.add(n[3]['alias'])
    for i, n in enumerate(tree):
        s, e = n[1][2] - base, n[1][5] - base
        src = text[s:e]
        v = n[3].get('value')
        if n[0] in COMMENTS or n[0] == 'error':
            if src != v and '\0' not in src:
                yield '%s at %s has text %r, the input there is %r' % (n[0], n[1], v[:80], src[:80])
        elif n[0] == 'identifier' and i in alias and src.strip() == (v or '').strip():
            continue
        elif n[0] in ('identifier', 'prop_name', 'index_name'):
            if not src.startswith(v) and not src.startswith('`' + v):
                yield '%s %r at %s, the input there is %r' % (n[0], v[:80], n[1], src[:80])
        elif n[0] in ('integer', 'float'):
            if not src.startswith(v):
                yield '%s %r at %s, the input there is %r' % (n[0], v, n[1], src[:80])
        elif n[0] in ('label', 'reltype'):
            m = re.match(r':(?:[ \t\n\r]|//[^\n]*\n|/\*.*?\*/)*|(?=.)', src, re.S)
            if m and '\0' not in src and not src[m.end():].startswith((v, '`' + v)):
                yield '%s %r at %s, the input there is %r' % (n[0], v[:80], n[1], src[:80])
        elif n[0] == 'parameter':
            if src[:1] not in ('$', '{'):
                yield 'parameter at %s, the input there is %r' % (n[1], src[:80])
        elif n[0] == 'string' and src[:1] in '\'"' and src[:1]:
            pass
        elif n[0] in ('true', 'false', 'null'):
            if src[:len(n[0])].lower() != n[0]:
                yield '%s at %s, the input there is %r' % (n[0], n[1], src[:80])


def check_positions(t, c, text, pos):
    ix = Index(text, pos)
    base = pos[2]
    out = c.out
    def one(p, what):
        t.c['positions checked'] += 1
        m = ix.check(p)
        if m:
            t.violate('position of %s' % what, '%s: %s' % (what, m), [c])
            return False
        return True
    segs = out['segs']
    for s in segs:
        if 'rg' in s:
            if not (one(s['rg'][:3], 'segment start') and one(s['rg'][3:], 'segment end')):
                return
        if 'next' in s and not one(s['next'], 'next statement'):
            return
        if 't' in s:
            if text[s['rg'][2]:s['rg'][5]] != s['t'] and '\0' not in s['t']:
                t.violate('quick text range', 'range %s holds %r, text is %r' % (s['rg'], text[s['rg'][2]:s['rg'][5]][:80], s['t'][:80]), [c]); return
    groups = [s for s in segs if 'roots' in s] + ([out['res']] if 'res' in out else [])
    for s in groups:
        for tree in s['roots']:
            for n in tree:
                if not (one(n[1][:3], '%s start' % n[0]) and one(n[1][3:], '%s end' % n[0])):
                    return
            for m in leaf_text(tree, text, base):
                t.violate('leaf text ' + m.split()[0], m, [c]); return
        for e in s['errs']:
            t.c['error positions'] += 1
            if not one(e[0], 'error'):
                return
            if 'rg' in s and not (s['rg'][2] <= e[0][2] <= s['rg'][5]) and not odd_terminator(text[s['rg'][2] - base:s['rg'][5] - base]):
                t.violate('error outside segment', 'error at %s, segment %s' % (e[0], s['rg']), [c]); return
    if out['last'] != [4242, 4242, 4242]:
        if not one(out['last'], 'end of parse'):
            return
        # nothing that was parsed lies beyond the end of what was parsed (errors are seen
        # against their segment above)
        ends = [s['rg'][3:] for s in segs if 'rg' in s and 'roots' in s] + \
            [n[1][3:] for s in groups for tree in s['roots'] for n in tree]
        far = max(ends, key=lambda e: e[2], default=out['last'])
        t.c['ends of parses'] += 1
        if far[2] > out['last'][2]:
            t.violate('end of parse', 'the end is given as %s, but there is something up to %s' % (out['last'], far), [c])


def w_positions(seed, n, mode):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 104729 + i)
        pos = (1, 1, 0)
        o = {}
        if g.random() < 0.3:
            pos = (g.choice((g.randrange(1, 50), 65530, 4 * 10 ** 9)), g.choice((g.randrange(1, 200), 65530, 4 * 10 ** 9)), g.choice((g.randrange(0, 5000), 5 << 32))); o['pos'] = pos
        if mode == 'doc':
            doc = work.gen_doc(g, modes=('lines', 'wild', 'wild', 'normal'))
            cases.append(Case('u', doc.data, tag=(doc, pos), **o))
        elif mode == 'huge':
            k, data = work.huge(g, seed + i)
            t.kind('beyond 16 bits', k)
            cases.append(Case(g.choice('uf') if k == 'directives' else g.choice(('u', 'f', 'ue', 'fe', 'qu', 'qf')), data, tag=(None, (1, 1, 0))))
        else:
            data = work.any_input(g)
            e = g.choice(('u', 'ue', 'fe', 'f', 'qu', 'qf'))
            if e[0] == 'q':
                o, pos = {}, (1, 1, 0)
            if e in ('ue', 'fe') and g.random() < 0.3:
                o['cb'] = [0] * g.randrange(3) + [g.choice((1, -1))]
            cases.append(Case(e, data, tag=(None, pos), **o))
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        doc, pos = c.tag
        check_positions(t, c, c.data.decode('latin1'), pos)
        if doc is not None and 'pos' not in c.opts:
            r = c.out['res']
            roots = roots_of(r)
            if len(roots) == len(doc.dirs) and not r['errs']:
                for tr, rr in zip(roots, doc.dirs):
                    for k, m in compare(tr, rr.d.node, rr, doc.text):
                        if k == 'position':
                            t.violate('range ' + re.sub(r'\d+', '#', m)[:60], m, [c]); break
                    t.c['ranges compared with construction'] += len(tr)
                com = sorted(x for tr in r['roots'] for x in comments_of(tr))
                if [x[:2] for x in com] != [x[:2] for x in doc.comments]:
                    t.violate('comment ranges', 'comments at %s, expected %s' % ([x[:2] for x in com][:5], [x[:2] for x in doc.comments][:5]), [c])
            else:
                t.c['documents not parsed as expected'] += 1
    return t


def plan_c04(tier, seed):
    q = tier == 'quick'
    jobs = spread(w_positions, seed + 2, 26 if q else 400, 2, mode='huge')
    jobs += scale_jobs(seed + 7, q, ('position',), (33, 257), comments=True)
    return jobs + spread(w_positions, seed, 12000 if q else 300000, 400, mode='doc') + spread(w_positions, seed + 1, 24000 if q else 600000, 500, mode='any')


# ---------------------------------------------------------------- C05
def check_ordinals(t, c, out, trees, ordinal):
    nums = [int(m) for m in re.findall(r'(?m)^ *@(\d+) ', out)]
    want = list(range(ordinal, ordinal + sum(len(x) for x in trees)))
    return nums, want


def w_structure(seed, n, mode=None):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 15485863 + i)
        if mode == 'huge':
            k, data = work.huge(g, seed + i)
            t.kind('beyond 16 bits', k)
        elif mode == 'big':
            data = work.big_doc(g, work.ROLES[(seed + i) % len(work.ROLES)], g.choice(work.WIDTHS + work.WIDE)).data if g.random() < 0.8 else work.deep_doc(g, g.sample(Gen.NESTS, 3), g.choice((9, 40, 130, 260))).data
        else:
            data = work.gen_doc(g, depth=g.choice((2, 3, 4))).data if g.random() < 0.5 else work.any_input(g)
        o = {}
        if g.random() < 0.3:
            o['ord'] = g.choice((0, 1, 7, 98, 99, 100, 995, 123456))
        e = g.choice(('u', 'u', 'ue', 'fe', 'f'))
        if e in ('u', 'f') and g.random() < 0.5:
            o['print'] = '0:0'
        elif e in ('ue', 'fe'):
            o['flags'] = g.choice((0, 0, 0, 1, 2))
        cases.append(Case(e, data, **o))
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        anomalies(t, c, ('structure',))
        groups = c.out['segs'] if c.out['segs'] else []
        groups = groups + ([c.out['res']] if 'res' in c.out else [])
        for s in groups:
            tot = 0
            for tree in s['roots']:
                tot += len(tree)
                t.c['nodes checked'] += len(tree)
                for nn in tree:
                    t.kind('node types', nn[0])
                bad = next(wellformed.check(tree), None)
                if bad:
                    t.violate('structure ' + re.sub(r'\d+', '#', bad)[:60], bad, [c]); break
                for nn in tree:
                    if nn[3].get('') in (None, '(null)', ''):
                        t.violate('typestr', 'a %s has no type name' % nn[0], [c]); break
            if s['nn'] != tot:
                t.violate('node count', 'nnodes is %d, %d nodes are reachable' % (s['nn'], tot), [c])
            if s.get('oob'):
                t.violate('out of range index', 'an out-of-range root, error or directive index yields something', [c])
            ds = s['dirs'] if 'dirs' in s else [s['dir']] if s['dir'] != -1 else []
            if any(d < 0 for d in ds) or ds != sorted(ds) or len(set(ds)) != len(ds):
                t.violate('directives', 'directives are not roots, in order: %s' % ds, [c])
            elif [i for i, x in enumerate(s['roots']) if x[0][0] in ('statement', 'command')] != ds:
                t.violate('directives', 'directives %s of roots %s' % (ds, [x[0][0] for x in s['roots']]), [c])
        for p in c.out.get('pr', []):
            if p['of'] == 'res':
                nums, want = check_ordinals(t, c, p['out'], c.out['res']['roots'], c.opts.get('ord', 0))
                t.c['printed numberings'] += 1
                if nums != want:
                    t.violate('node numbers', 'printed numbers %s..., expected %s...' % (nums[:20], want[:20]), [c])
    return t


def plan_c05(tier, seed):
    q = tier == 'quick'
    return spread(w_structure, seed + 5, 26 if q else 200, 2, mode='huge') + spread(w_structure, seed + 6, 330 if q else 5000, 33, mode='big') + spread(w_structure, seed, 30000 if q else 800000, 500)


# ---------------------------------------------------------------- C08
def w_text(seed, n):
    """Statements dense in literals, names and comments, some very long."""
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 32452843 + i)
        doc = work.gen_doc(g, depth=2, hostile=0.6, commands=0.35, modes=('normal', 'wild'))
        cases.append(Case(g.choice(('u', 'u', 'f')), doc.data, tag=doc))
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        ok = judge_doc(t, c, c.tag, ('value', 'structure'))
        if ok:
            com = [x for tr in c.out['res']['roots'] for x in comments_of(tr)]
            t.c['comments compared'] += len(com)
            if [x[2:] for x in sorted(com)] != [x[2:] for x in c.tag.comments]:
                t.violate('comment text', 'comments %s, expected %s' % (sorted(com)[:3], c.tag.comments[:3]), [c])
    return t


def literal(g, kind, size):
    """(source, node type, value) of one literal of about the given size."""
    G = Gen(g)
    if kind == 'string':
        q = g.choice('\'"'); src = val = ''
        from ..lang import ESC
        parts, vals, k = [], [], 0
        while k < size:
            if g.random() < 0.3:
                e = g.choice(list(ESC)); parts.append('\\' + e); vals.append(ESC[e]); k += 2
            else:
                x = ''.join(chr(g.choice((g.randrange(1, 256), g.randrange(32, 127)))) for _ in range(g.choice((1, 4, 20))))
                x = x.replace(q, '').replace('\\', ''); parts.append(x); vals.append(x); k += len(x)
        return q + ''.join(parts) + q, 'string', ''.join(vals)
    if kind == 'quoted':
        v = ''.join(chr(g.randrange(1, 256)) for _ in range(size)).replace('`', '')
        return '`' + v + '`', 'identifier', v
    if kind == 'name':
        v = 'n' + ''.join(g.choice('abcXYZ019_$') for _ in range(size))
        return v, 'identifier', v
    if kind == 'integer':
        v = g.choice('123456789') + ''.join(g.choice('0123456789') for _ in range(size))
        return v, 'integer', v
    if kind == 'float':
        v = '1' + ''.join(g.choice('0123456789') for _ in range(size // 2)) + '.' + '5' * (size // 2 + 1) + g.choice(('', 'e10', 'E-3'))
        return v, 'float', v
    if kind == 'param':
        v = 'p' + ''.join(g.choice('abcXYZ019_$') for _ in range(size))
        return g.choice(('$%s', '{%s}', '{ %s }')) % v, 'parameter', v
    if kind == 'nparam':
        v = g.choice('123456789') + ''.join(g.choice('0123456789') for _ in range(size))
        return g.choice(('$%s', '{%s}', '{ %s }')) % v, 'parameter', v
    if kind == 'qparam':
        v = ''.join(chr(g.randrange(1, 256)) for _ in range(size)).replace('`', '')
        return g.choice(('$`%s`', '{`%s`}')) % v, 'parameter', v


SIZES = list(range(0, 40)) + [60, 100, 120, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 800, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1500, 2046, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8192]


# every place a name is written, and the kind of node it makes
PLACES = [('MATCH (n:%s) RETURN 1;', 'label'), ('MATCH ()-[:%s]->() RETURN 1;', 'reltype'), ('RETURN 1 ORDER BY $p.%s;', 'prop_name'), ('CREATE ({%s: 1});', 'prop_name'),
          ('CALL %s();', 'proc_name'), ('CALL a.%s();', 'proc_name'), ('START n = node:%s("x") RETURN 1;', 'index_name'), ('CREATE INDEX ON :A(%s);', 'prop_name'), ('CREATE INDEX ON :%s(p);', 'label'),
          ('RETURN %s(1);', 'function_name'), ('RETURN 1 AS %s;', 'identifier'), ('MATCH (%s) RETURN 1;', 'identifier'), ('MATCH %s = () RETURN 1;', 'identifier'), ('MATCH ()-[%s]->() RETURN 1;', 'identifier'),
          ('CALL a() YIELD %s RETURN 1;', 'identifier'), ('LOAD CSV FROM "x" AS %s RETURN 1;', 'identifier'), ('MATCH (n) WITH 1 AS %s RETURN 1;', 'identifier'), ('FOREACH (%s IN [] | CREATE ());', 'identifier'),
          ('UNWIND [] AS %s RETURN 1;', 'identifier'), ('MATCH () SET $p.%s = 1;', 'prop_name'), ('MATCH () REMOVE $p.%s;', 'prop_name'), ('DROP CONSTRAINT ON (%s:A) ASSERT $p.q IS UNIQUE;', 'identifier')]


def w_sizes(seed, n, sizes):
    """Each kind of text at each of many sizes, around every buffer boundary."""
    t = Tally()
    cases = []
    g = random.Random(seed)
    for size in sizes:
        for kind in ('string', 'quoted', 'name', 'integer', 'float', 'param', 'nparam', 'qparam'):
            src, ty, v = literal(g, kind, size)
            pre = 'RETURN ' + ' ' * g.choice((0, 0, 1, 7, 100, 1010))
            cases.append(Case(g.choice('uf'), (pre + src + ' AS r;').encode('latin1'), tag=('expr', ty, v)))
        v = ''.join(chr(g.randrange(1, 256)) for _ in range(size)).replace('\n', '').replace('\r', '')
        cases.append(Case('u', ('//' + v + '\nRETURN 1;').encode('latin1'), tag=('com', 'line_comment', v)))
        v = ''.join(chr(g.randrange(1, 256)) for _ in range(size)).replace('*', '')
        cases.append(Case('u', ('RETURN /*' + v + '*/ 1;').encode('latin1'), tag=('com', 'block_comment', v)))
        for w, ty in g.sample(PLACES, 6):
            x, _, v = literal(g, g.choice(('name', 'quoted')), size)
            src = (w % x).encode('latin1')
            dot = ty == 'proc_name' and '.%s' in w
            cases.append(Case(g.choice('uf'), src, tag=('place', ty, (w.index('%s') - 2 * dot - (ty in ('label', 'reltype')), 'a.' * dot + v))))
        v = 'f' + ''.join(g.choice('abc019_$') for _ in range(size))
        cases.append(Case('u', ('RETURN %s.%s(1) AS r;' % (v, v)).encode('latin1'), tag=('func', 'function_name', v + '.' + v)))
        v = 'c' + ''.join(chr(g.choice((g.randrange(33, 127), g.randrange(128, 256)))) for _ in range(size))
        v = ''.join(x for x in v if x not in '\'"\\;/ \x85\xa0')
        cases.append(Case('u', (':go %s "%s"\n' % (v, v)).encode('latin1'), tag=('cmd', 'string', v)))
        v = ''.join(g.choice('ab ,(x1=') for _ in range(size)) + 'z'
        cases.append(Case('u', ('RETURN 1 WITHOUT ' + v + ';').encode('latin1'), tag=('err', 'error', v)))
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        mode, ty, v = c.tag
        r = c.out['res']
        if mode == 'err':
            text = c.data.decode('latin1')
            for tree in r['roots']:
                for nd in tree:
                    if nd[0] == 'error':
                        t.c['error texts'] += 1
                        if text[nd[1][2]:nd[1][5]] != nd[3].get('value'):
                            t.violate('error text', 'error node %s %r' % (nd[1], nd[3].get('value')[:80]), [c])
            continue
        if r['errs']:
            t.violate('error on valid input', '%s' % r['errs'][:1], [c]); continue
        found = [nd for tree in r['roots'] for nd in tree if nd[0] == ty]
        vals = [nd[3].get('value') for nd in found]
        t.c['literals of chosen sizes'] += 1
        if mode == 'place':
            at, v = v
            got = [nd[3].get('value') for nd in found if nd[1][2] == at]
            if got != [v]:
                t.violate('name as ' + ty, '%r at %d, expected %r' % ([str(x)[:60] for x in got], at, v[:60]), [c])
            continue
        if mode == 'expr':
            st = [tree for tree in r['roots'] if tree[0][0] == 'statement'][0]
            pj = [nd for nd in st if nd[0] == 'projection'][0]
            e = st[pj[3]['expression']]
            if e[0] != ty or e[3].get('value') != v:
                t.violate('literal ' + ty, '%s %r, expected %s %r' % (e[0], str(e[3].get('value'))[:60], ty, v[:60]), [c])
        elif mode == 'cmd':
            cm = [tree for tree in r['roots'] if tree[0][0] == 'command'][0]
            a = [cm[i][3]['value'] for i in cm[0][3]['args']]
            if cm[cm[0][3]['name']][3]['value'] != 'go' or a != [v, v]:
                t.violate('command arguments', '%r, expected twice %r' % ([x[:40] for x in a], v[:40]), [c])
        elif vals != [v]:
            t.violate('text of ' + ty, '%r, expected %r' % ([str(x)[:60] for x in vals], v[:60]), [c])
    return t


KINDLIT = [('1', 'integer'), ('0', 'integer'), ('007', 'integer'), ('0x1F', 'integer'), ('1.5', 'float'), ('.5', 'float'), ('1e5', 'float'), ('1.0e-5', 'float'), ('1E+9', 'float'), ('0.0', 'float'),
           ('true', 'true'), ('TRUE', 'true'), ('True', 'true'), ('false', 'false'), ('FALSE', 'false'), ('null', 'null'), ('NULL', 'null'), ('Null', 'null'),
           ("'true'", 'string'), ('"null"', 'string'), ("'1'", 'string'), ('`true`', 'identifier'), ('`1`', 'identifier'), ('truex', 'identifier'), ('nulls', 'identifier'), ('false_', 'identifier'),
           ('true1', 'identifier'), ('null$', 'identifier'), ('x1', 'identifier'), ('_1', 'identifier'), ('e5', 'identifier'), ('$1', 'parameter'), ('{1}', 'parameter'), ('$true', 'parameter'), ('{null}', 'parameter'), ('{}', 'map'), ('[]', 'collection')]


def w_kinds(seed, n):
    t = Tally()
    g = random.Random(seed)
    cases = []
    ctx = ['RETURN %s AS r', 'RETURN [%s] AS r', 'RETURN {k: %s} AS r', 'RETURN f(%s) AS r', 'RETURN 1 + %s AS r', 'WITH %s AS r RETURN r', 'UNWIND %s AS r RETURN r', 'CREATE ({k: %s})', 'MATCH (n) WHERE n.p = %s RETURN n', 'RETURN -%s AS r', 'RETURN n[%s] AS r', 'RETURN CASE WHEN a THEN %s END AS r']
    for s, ty in KINDLIT:
        for x in ctx:
            w = x % s
            cases.append(Case('u', w.encode(), tag=(s, ty, x.index('%s'))))
            cases.append(Case('u', (x % (' /*a*/' + s + '\n')).encode(), tag=(s, ty, x.index('%s') + 6)))
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        s, ty, at = c.tag
        r = c.out['res']
        if r['errs']:
            t.violate('error on valid input', str(r['errs'][:1]), [c]); continue
        ns = [nd for tree in r['roots'] for nd in tree if nd[1][2] == at and (nd[0] == ty)]
        val = {'identifier': s.strip('`'), 'parameter': s.strip('${}'), 'string': s[1:-1]}.get(ty, s)
        t.c['literal kinds in context'] += 1
        if not ns or ns[0][3].get('value', val) != val:
            t.violate('literal kind ' + s, '%s at %d should be a %s with value %r; found %s' % (s, at, ty, val, [nd[0] for tree in r['roots'] for nd in tree if nd[1][2] == at]), [c])
    return t


def plan_c08(tier, seed):
    q = tier == 'quick'
    jobs = spread(w_text, seed, 36000 if q else 300000, 400)
    rep = 2 if q else 20
    for k in range(rep):
        for i, ch in enumerate(chunks(SIZES, 12)):
            jobs.append((w_sizes, dict(seed=seed * 101 + k * 1000 + i, n=0, sizes=ch)))
    if not q:
        for i, ch in enumerate(chunks(range(40, 2100), 40)):
            jobs.append((w_sizes, dict(seed=seed * 103 + i, n=0, sizes=ch)))
    for i, size in enumerate((65535, 65536, 66000, 100000, 300000) if q else (65530, 65534, 65535, 65536, 65537, 65600, 100000, 131071, 131072, 140000, 300000, 1200000)):
        jobs.append((w_sizes, dict(seed=seed * 107 + i, n=0, sizes=[size])))
    jobs.append((w_kinds, dict(seed=seed, n=0)))
    return jobs


# ---------------------------------------------------------------- C09
class Spaced(Layout):
    """Layout with a separator, starting with a blank, between any two tokens."""
    pass


def render_spaced(d, g, wild, kwcase, crlf):
    """Renders a directive with at least one blank between any two tokens; returns (text, comments)."""
    out, com = [], []
    lay = Layout(g, 'wild', kwcase=kwcase)
    pos = 0
    def put(s):
        nonlocal pos
        out.append(s); pos += len(s)
    for i, tk in enumerate(d.toks):
        if i and tk.glue is False:
            put(' ')
            if wild:
                for _ in range(g.choice((0, 0, 1, 2))):
                    k = g.random()
                    if k < 0.4:
                        x = lay.comment_text(False); com.append(('block_comment', x)); put('/*' + x + '*/')
                    elif k < 0.6:
                        x = lay.comment_text(True); com.append(('line_comment', x)); put('//' + x + '\n')
                    else:
                        put(g.choice(('\n', '\r\n', '\t', '   ')))
        put(lay.case(tk.text) if tk.kind == 'kw' else tk.text)
    put(' ;')
    return ''.join(out), com


def w_layout(seed, n, damaged):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 49979687 + i)
        G = Gen(g, depth=g.choice((2, 3)))
        if damaged:
            d = work.damage_tokens(G.statement(), g, g.choice((1, 1, 2)))
            if not d.toks or d.toks[0].text in (':', '//'):
                continue        # a client command, where lines matter
            if any(x.kind == 'optval' and set(x.text) & set('/\'"`') for x in d.toks):
                continue        # an option value out of its place may open a comment or a quotation
            group = []
            for k in range(3):
                s, com = render_spaced(d, g, k > 0, ('upper', 'lower', 'rand')[k], None)
                group.append(Case('u', s.encode('latin1'), tag=(i, None, com)))
        else:
            ds = [G.statement() if g.random() < 0.85 else G.command() for _ in range(g.choice((1, 1, 2)))]
            group = []
            for mode, kc in (('normal', 'upper'), ('tight', 'lower'), ('lines', 'rand'), ('wild', 'rand'), ('wild', 'upper')):
                doc = render(ds, Layout(g, mode, kwcase=kc), g)
                group.append(Case('u', doc.data, tag=(i, doc, None)))
        cases += group
    execute(cases)
    groups = {}
    for c in cases:
        groups.setdefault(c.tag[0], []).append(c)
    for group in groups.values():
        base = None
        for c in group:
            t.saw(c)
            if not survived(t, c):
                continue
            r = c.out['res']
            got = (not r['errs'], [strip_positions(x) for x in roots_of(r)] if not r['errs'] else None)
            if damaged:
                got = (got[0], repr(got[1]).lower())   # a displaced keyword may have become a name
            t.c['accepted' if got[0] else 'rejected'] += 1
            if base is None:
                base = (c, got)
            elif got != base[1]:
                if got[0] != base[1][0]:
                    t.violate('layout changes acceptance', 'accepted: %s, with another layout: %s' % (base[1][0], got[0]), [base[0], c])
                else:
                    t.violate('layout changes the tree', diff_text(base[1][1], got[1]), [base[0], c])
            com = [x for tr in r['roots'] for x in comments_of(tr)]
            if com != sorted(com):
                t.violate('comment order', 'comments are out of order', [c])
            want = [x[2:] for x in c.tag[1].comments] if c.tag[1] is not None else c.tag[2] if not r['errs'] else None
            if want is not None and not (r['errs'] and c.tag[1] is None):
                t.c['comments compared'] += len(want)
                if [tuple(x[2:]) for x in com] != [tuple(x) for x in want]:
                    t.violate('comments', '%d comments in the trees, %d in the input' % (len(com), len(want)), [c])
    return t


def diff_text(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '...%s | ...%s' % (a[max(0, i - 80):i + 80], b[max(0, i - 80):i + 80])


def plan_c09(tier, seed):
    q = tier == 'quick'
    return spread(w_layout, seed, 6000 if q else 150000, 150, damaged=False) + spread(w_layout, seed + 9, 8000 if q else 200000, 200, damaged=True)


CHECKS = {
    'C04': Check('C04', plan_c04, ['asan'], 'Documents from the language model (ranges known by construction) in every layout, lists of every kind at lengths up to 1025 and expressions nested up to 260 deep, texts of more than 65536 columns, lines, nodes or directives, and hostile inputs (damaged documents, token and byte soup), through all entry points, '
                 'with and without an initial position. Non-trivial: distinct (input, entry, options).', {'positions checked': 100000, 'ends of parses': 10000, 'error positions': 1000, 'ranges compared with construction': 10000, 'lists at length': 100, 'nestings at depth': 30}),
    'C05': Check('C05', plan_c05, ['asan'], 'Generated documents, long lists of every kind, texts beyond 65536 nodes, lines or directives, and hostile inputs; every tree of every segment and result is walked through its accessors and its printed numbering is read back. Non-trivial: distinct (input, entry, options).',
                 {'nodes checked': 100000, 'node types': 90, 'printed numberings': 1000}),
    'C06': Check('C06', plan_c06, ['asan'], 'Statements and commands drawn from a constructive model of the language, every ordered pair of clauses, lists of every kind at lengths up to 1025, expressions nested up to 260 deep, rendered in random layouts; the parsed tree is compared node by node through the typed accessors with the tree the model built. Non-trivial: distinct texts.',
                 {'nodes compared': 100000, 'node types': 85, 'clause sequences': 100, 'lists at length': 150, 'nestings at depth': 50}),
    'C07': Check('C07', plan_c07, ['asan'], 'Expressions over all operators: every nesting of two operators and a sample (thorough: all) of three, flat chains up to 40 operators, chains of hundreds, random deep expressions; minimal parentheses come from an independent precedence model. Non-trivial: distinct texts.',
                 {'operator nestings': 800, 'flat chains': 5000, 'long chains': 30}),
    'C08': Check('C08', plan_c08, ['asan'], 'Documents dense in literals, names, comments and command arguments, each kind of text at sizes around every buffer boundary, literal kinds in many contexts; values compared with those written. Non-trivial: distinct texts.',
                 {'literals of chosen sizes': 500, 'comments compared': 5000, 'literal kinds in context': 500}),
    'C09': Check('C09', plan_c09, ['asan'], 'Each token sequence (valid, or damaged by token edits) rendered in several layouts, comment placements and keyword cases; trees without positions, acceptance and comment lists compared across renderings. Non-trivial: distinct texts.',
                 {'accepted': 5000, 'rejected': 2000, 'comments compared': 10000}),
}
