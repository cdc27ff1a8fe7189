"""Workloads: documents from the language model, damaged variants of them, and raw bytes."""
import os, random, sys
from . import lang
from .lang import Gen, Layout, render, T, D

sys.setrecursionlimit(20000)

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = [l.rstrip('\n') for l in open(os.path.join(HERE, '..', 'corpus', 'statements.cyp'), encoding='latin1') if l.strip()]
PUNCT = list('()[]{}:;,.|*+-/%^<>=$') + ['..', '<=', '>=', '<>', '=~', '--', '->', '<-', '+=', "''", '""', '`x`', '//', '/*', '*/', '\\', "'", '"', '`', '\n', ' ']
WORDS = [w.upper() for w in sorted(lang.RESERVED)] + ['IS NOT NULL', 'ORDER BY', 'ON MATCH SET', 'UNION ALL', 'DETACH DELETE', 'a', 'x1', '1', '2.5', '0x1F', "'s'", '"t"', '$p', '{p}', ':L']


def gen_doc(g, n=None, kind=None, modes=('tight', 'normal', 'lines', 'wild', 'wild'), depth=3, hostile=0.15, commands=0.2, eof=None, kwcase=None, crlf=None):
    G = Gen(g, depth=depth, hostile=hostile)
    if n is None:
        n = g.choice((1, 1, 1, 2, 3))
    ds = [G.command() if g.random() < commands else G.statement(kind) for _ in range(n)]
    lay = Layout(g, g.choice(modes), crlf=crlf, kwcase=kwcase or g.choice(('upper', 'lower', 'rand')))
    doc = render(ds, lay, g, eof_term=eof, final=None)
    doc.used = G.used
    return doc


def damage_bytes(data, g, n=None):
    d = bytearray(data)
    for _ in range(n or g.choice((1, 1, 1, 2, 4, 8))):
        if not d:
            d += b'x'
        i = g.randrange(len(d) + 1)
        k = g.random()
        if k < 0.25:
            del d[i:i + g.choice((1, 1, 2, 5, 20))]
        elif k < 0.45:
            d[i:i] = bytes([g.choice(b'();:,\'"`[]{}+-<>=.*|aM 0\\/\n$')])
        elif k < 0.6:
            d[i:i] = g.choice(PUNCT).encode()
        elif k < 0.75:
            d[i:i] = (' ' + g.choice(WORDS) + ' ').encode()
        elif k < 0.85:
            j = g.randrange(len(d) + 1)
            d[i:i] = d[j:j + g.choice((1, 3, 10, 40))]
        elif k < 0.93:
            d[i:i + 1] = bytes([g.randrange(256)])
        else:
            del d[i:]
    return bytes(d)


def damage_tokens(d, g, n=1):
    """A directive with n token-level edits; the expected tree is lost."""
    toks = list(d.toks)
    for _ in range(n):
        if not toks:
            break
        i = g.randrange(len(toks))
        k = g.random()
        if k < 0.32:
            del toks[i]
        elif k < 0.42:
            toks.insert(i, toks[i])
        elif k < 0.5:
            toks[i:i] = [toks[i], T(toks[i].text, toks[i].kind, True)][:g.choice((1, 2))]
            toks[i + 1] = T(toks[i + 1].text, toks[i + 1].kind, True)
        elif k < 0.65:
            j = g.randrange(len(toks)); toks[i], toks[j] = toks[j], toks[i]
        elif k < 0.8:
            toks[i] = T(g.choice([w for w in WORDS if ' ' not in w and w[0] not in '\'"$:{']), 'kw')
        else:
            w = g.choice(list('()[]{}:,.|*+-%^<>=') + ['..', '<=', '>=', '<>', '=~', '+='])
            toks.insert(i, T(w, 'punct'))
    for i in range(1, len(toks)):
        if toks[i].glue and toks[i - 1].text[-1:] == '/' and toks[i].text[:1] in '/*':
            toks[i] = T(toks[i].text, toks[i].kind)     # would open a comment
    return D(toks, None, d.command)


def soup(g):
    k = g.random()
    if k < 0.2:
        return bytes(g.randrange(256) for _ in range(g.choice((0, 1, 2, 5, 30, 300))))
    if k < 0.4:
        return bytes(g.choice(b'();:,\'"`[]{}+-<>=.*|aM 0\\/\n\r\t$*') for _ in range(g.choice((1, 2, 5, 30, 300))))
    if k < 0.8:
        return ''.join(g.choice(WORDS) + g.choice(('', ' ', ' ', '\n')) if g.random() < 0.6 else g.choice(PUNCT) for _ in range(g.choice((1, 3, 10, 40)))).encode('latin1')
    s = g.choice(CORPUS).encode('latin1')
    return damage_bytes(s, g)


EDGE = ['', ' ', ';', ';;', '  ; ', '\n', '\r\n', '\r', ':', ':;', ':\n', '::', ':a', ':a\n', ':a\\\nb', ':a \\', ':a \\\n', '//', '// c', '//\n', '/*', '/**/', '/* */;', '/*/', '\'', '"', '`', "'a", '`a', '"\\', "'\\'",
        'RETURN', 'RETURN 1', 'RETURN 1;', 'RETURN 1; ', 'RETURN 1;;', 'RETURN 1 // c', 'RETURN 1 /* c', '\0', 'RETURN \0', 'RETURN 1\0;', '\xff', 'é', 'RETURN 1;\n:a b\nRETURN 2', 'x', 'x;y;z', '(', ')', '((', '))',
        'EXPLAIN', 'PROFILE;', 'CYPHER', 'CYPHER 2.', 'CYPHER a=', 'RETURN 1 UNION', 'FOREACH (x IN y |', 'RETURN [', 'RETURN {', 'RETURN (', 'MATCH', 'MATCH (', 'MATCH ()-[', 'USING', ':a "b', ":a 'b", ':a /*', ':a //x', ':a\r\n', ':a\rb']


def any_input(g, big=0.01):
    """Hostile mix used where the oracle needs no expected tree."""
    if big and g.random() < big:
        d = big_doc(g, g.choice(ROLES), g.choice(WIDTHS)).data
        return d if g.random() < 0.7 else damage_bytes(d, g, 1)
    k = g.random()
    if k < 0.06:
        return g.choice(EDGE).encode('latin1')
    if k < 0.3:
        return soup(g)
    if k < 0.45:
        return gen_doc(g).data
    if k < 0.6:
        return b';\n'.join(g.choice(CORPUS).encode('latin1') if g.random() < 0.7 else damage_bytes(g.choice(CORPUS).encode('latin1'), g) for _ in range(g.choice((1, 2, 4))))
    return damage_bytes(gen_doc(g, depth=g.choice((1, 2, 3))).data, g)


# ---------------------------------------------------------------- scale
ROLES = ('map_projection', 'case', 'apply', 'map_literal', 'node_labels', 'reltypes', 'pattern', 'hints', 'using_join', 'order_by', 'projections', 'merge_actions', 'on_set', 'set', 'property_expr', 'set_labels', 'delete', 'remove',
         'remove_labels', 'foreach', 'call_args', 'yield', 'start', 'start_ids', 'index_props', 'options', 'option_params', 'command_args', 'collection', 'comparison', 'labels_operator', 'clauses', 'pattern_path')
WIDTHS = (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300)
WIDE = (511, 512, 513, 600, 1023, 1024, 1025)


LEAN = ('apply', 'node_labels', 'reltypes', 'using_join', 'set_labels', 'delete', 'remove_labels', 'start_ids', 'index_props', 'command_args', 'collection', 'comparison', 'labels_operator', 'projections', 'map_projection')
VAST = (4097, 4100, 4200, 5000)


def vast_roles(seed, k=None):
    """Every kind of list, in an order of its own for each seed."""
    r = list(ROLES)
    random.Random(seed).shuffle(r)
    return r[:k]


def big_doc(g, role, n, modes=('tight', 'normal', 'lines', 'wild')):
    """A document in which one list, of the given kind, has n items."""
    ws = {'foreach': ('c_foreach',), 'call_args': ('c_call',), 'yield': ('c_call',), 'start': ('c_start',), 'start_ids': ('c_start',), 'set': ('c_set',), 'delete': ('c_delete',), 'remove': ('c_remove',), 'remove_labels': ('c_remove',), 'set_labels': ('c_set',),
          'merge_actions': ('c_merge',), 'on_set': ('c_merge',), 'hints': ('c_match',), 'using_join': ('c_match',), 'pattern': ('c_match',), 'node_labels': ('c_match',), 'reltypes': ('c_match',), 'pattern_path': ('c_match',), 'property_expr': ('c_set',),
          'order_by': ('c_return',), 'projections': ('c_with',)}.get(role)
    for _ in range(400):
        G = Gen(g, depth=1 if n > 40 else 2, hostile=0.05)
        G.scale = {role: n}
        if role == 'command_args':
            ds = [G.command()]
        else:
            kind = 'schema' if role == 'index_props' else 'query' if role in ('options', 'option_params', 'clauses') or not ws else list(ws)
            ds = [G.statement(kind)]
        if not G.scale:
            break
    else:
        raise AssertionError('no list of ' + role)
    G.scale = {}
    if g.random() < 0.5:
        ds.insert(g.randrange(2), Gen(g, depth=1).statement())
    mode = g.choice(modes)
    doc = render(ds, Layout(g, mode, kwcase=g.choice(('upper', 'lower', 'rand')), comments=0.3 if n < 300 else 0.02), g)
    doc.used = G.used
    return doc


def deep_doc(g, kinds, depth, modes=('tight', 'normal')):
    """A document with an expression nested to the given depth."""
    x = ('atom', 'integer')
    for i in range(depth):
        x = ('nest', kinds[i % len(kinds)], x)
    G = Gen(g, depth=0, hostile=0.05)
    d = G.expression_statement(x)
    doc = render([d], Layout(g, g.choice(modes), comments=0.02), g)
    doc.used = G.used
    return doc


def scaled(g, wide=False):
    """A long list of some kind, or an expression nested deep."""
    if g.random() < 0.7:
        return big_doc(g, g.choice(ROLES), g.choice(WIDTHS + (WIDE if wide else ())))
    return deep_doc(g, [g.choice(Gen.NESTS) for _ in range(g.choice((1, 1, 2, 3)))], g.choice((7, 15, 16, 17, 31, 33, 64, 127, 129, 200, 256, 260)))


def huge(g, k=None):
    """Counts, columns, lines and offsets beyond 16 bits: (kind, text)."""
    kinds = ('nodes', 'directives', 'columns', 'columns in a comment', 'columns of names', 'lines', 'lines in a comment', 'lines in a string', 'lines in a name', 'line comments', 'lines of commands', 'long name', 'errors')
    k = kinds[k % len(kinds)] if k is not None else g.choice(kinds)
    n = 65536 + g.choice((-3, -1, 0, 1, 5, 600))
    tail = g.choice(('RETURN 2 AS b', 'MATCH (n) x y; RETURN 3', 'RETURN "a\nb" // end')) + g.choice((';', '', '\n', ';\n:c d\nRETURN 1 1'))
    nl = g.choice(('\n', '\n', '\r\n'))
    if k == 'nodes':
        t = 'RETURN ' + ', '.join(['[' + ', '.join(['1'] * 300) + ']'] * 225) + '; ' + tail
    elif k == 'directives':
        t = ':a\n' * (n // 2) + tail
    elif k == 'columns':
        t = 'RETURN "' + 'x' * (n - 12) + '" AS a, b.c; ' + tail
    elif k == 'columns in a comment':
        t = 'RETURN /*' + 'y ' * (n // 2 - 8) + '*/ 1 + a; ' + tail
    elif k == 'columns of names':
        t = 'RETURN a' + ' ' * (n - 12) + '+ b; ' + tail
    elif k == 'lines':
        t = 'RETURN 1' + nl * n + ' + 2; ' + tail
    elif k == 'lines in a comment':
        t = 'RETURN /*' + nl * n + '*/ 2; ' + tail
    elif k == 'lines in a string':
        t = 'RETURN "' + nl * n + '" AS x; ' + tail
    elif k == 'lines in a name':
        t = 'RETURN `' + nl * n + '` AS x; ' + tail
    elif k == 'line comments':
        t = ('//' + nl) * (n // 8) + tail
    elif k == 'lines of commands':
        t = (':a \\' + nl + ' b' + nl) * (n // 8) + tail
    elif k == 'long name':
        t = 'RETURN ' + 'a' * n + ' AS `' + 'b;' * (n // 2) + '`; ' + tail
    else:
        t = 'x y;' + nl + ('x;' * 300 + nl) * 4 + tail
    return k, t.encode('latin1')
