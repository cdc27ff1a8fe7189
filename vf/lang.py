"""Constructive model of the accepted language.

Generates statements and client commands as token lists together with the tree
their syntax denotes, and renders them to text with arbitrary layout. Written from
the Cypher language and the documented node types; shares nothing with the grammar
file. All text is latin-1 (one character per byte)."""
import random, re

SYM = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$')
RESERVED = set('''cypher profile explain or xor and not in starts ends with contains is null create constraint
drop assert using periodic load start match optional unwind merge set delete detach remove foreach call return
union where as distinct yield order ascending asc descending desc skip limit case when then else end filter
extract reduce all any single none from fieldterminator true false shortestpath allshortestpaths'''.split())
SOFT = 'node rel relationship index join scan csv headers commit unique on by count type id'.split()
PLAIN = 'n m r p x y z a b foo bar name age person _x a1 x$y inner_ matches nullable trueish orders asc_x notx isx or_ andy ender caseX'.split()
ANYWORD = sorted(RESERVED) + SOFT + PLAIN

PREC = {'OR': 1, 'XOR': 2, 'AND': 3, 'NOT': 4, '=': 5, '<>': 5, '<': 6, '>': 6, '<=': 6, '>=': 6,
        '+': 7, '-': 7, '*': 8, '/': 8, '%': 8, '^': 9, '=~': 11, 'IN': 11, 'STARTS WITH': 11,
        'ENDS WITH': 11, 'CONTAINS': 11, 'IS NULL': 11, 'IS NOT NULL': 11}
BINOPS = ['OR', 'XOR', 'AND', '=', '<>', '+', '-', '*', '/', '%', '^', '=~', 'IN', 'STARTS WITH', 'ENDS WITH', 'CONTAINS']
CMPOPS = ['<', '>', '<=', '>=']
UNPREC = {'NOT': 4, '+': 10, '-': 10}
INF = 99
ESC = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v', '\\': '\\', "'": "'", '"': '"', '?': '?'}


class T:
    """A token. kind: kw, sym, punct, quoted, optval; glue: no separator may precede it."""
    __slots__ = ('text', 'kind', 'glue')
    def __init__(self, text, kind, glue=False):
        self.text, self.kind, self.glue = text, kind, glue
    def __repr__(self):
        return self.text


class N:
    """Expected node: type, roles, first and last token."""
    __slots__ = ('t', 'r', 's', 'e', 'flag')
    def __init__(self, t, s, e, r, flag=None):
        self.t, self.s, self.e, self.r, self.flag = t, s, e, r, flag
    def kids(self):
        for k, v in self.r.items():
            if isinstance(v, N):
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, N):
                        yield x
    def walk(self):
        yield self
        seen = set()
        for k in self.kids():
            if id(k) not in seen:
                seen.add(id(k))
                yield from k.walk()


class D:
    """A directive: tokens, the expected tree, and whether it is a command."""
    def __init__(self, toks, node, command=False):
        self.toks, self.node, self.command = toks, node, command
        self.term = None


def is_float_text(s):
    return bool(re.match(r'[0-9]+\.?[0-9]*[eE][-+]?[0-9]|[0-9]*\.[0-9]', s))


class Gen:
    def __init__(self, rng, depth=3, hostile=0.15):
        self.g, self.depth, self.hostile = rng, depth, hostile
        self.toks = []
        self.dbl = 0
        self.budget = 60
        self.used = {}
        self.scale = {}             # role -> number of items its next list is to have

    # ---- tokens
    def kw(self, *ws):
        for w in ws:
            self.toks.append(T(w, 'kw'))
    def p(self, *ts):
        for t in ts:
            self.toks.append(T(t, 'punct'))
    def here(self):
        return len(self.toks)
    def node(self, t, s, flag=None, **r):
        self.used[t] = self.used.get(t, 0) + 1
        return N(t, s, len(self.toks) - 1, r, flag)
    def chance(self, x):
        return self.g.random() < x

    # ---- text
    def anytext(self, avoid, n=None):
        g = self.g
        if n is None:
            n = g.choice((0, 1, 1, 2, 3, 5, 8, 13, 30)) if not self.chance(0.02) else g.randrange(100, 1600)
        out = []
        while len(out) < n:
            k = g.random()
            if k < 0.6:
                c = g.choice('abcdefgXYZ0189 _-.,:(){}[]<>|=+*/%^~$&#@!?')
            elif k < 0.75:
                c = g.choice('\n\t;\'"`\r') if not self.chance(0.2) else '\r\n'
            elif k < 0.85:
                c = g.choice(('\xc3\xa9', '\xe2\x82\xac', '\xf0\x9f\x98\x80'))
            else:
                c = chr(g.randrange(1, 256))
            if not any(x in avoid for x in c):
                out.append(c)
        return ''.join(out)

    def quoted_string(self):
        g = self.g
        q = g.choice('\'"')
        src, val = [], []
        n = g.choice((0, 1, 2, 3, 5)) if not self.chance(0.02) else g.randrange(50, 400)
        for _ in range(n):
            k = g.random()
            if k < 0.6:
                t = self.anytext(q + '\\', g.randrange(1, 6))
                src.append(t); val.append(t)
            elif k < 0.9:
                c = g.choice(list(ESC))
                src.append('\\' + c); val.append(ESC[c])
            else:
                c = g.choice('xyzdqw.;0 \n')
                src.append('\\' + c); val.append('\\' + c)
        return q + ''.join(src) + q, ''.join(val)

    def plain_name(self, reserved_ok):
        g = self.g
        k = g.random()
        if k < 0.55:
            return g.choice(PLAIN)
        if k < 0.65:
            return g.choice(SOFT)
        if k < 0.8 and reserved_ok:
            w = g.choice(ANYWORD)
            return w if self.chance(0.5) else w.upper()
        while True:
            n = g.randrange(1, 10) if not self.chance(0.01) else g.randrange(200, 1500)
            w = g.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_') + ''.join(g.choice('abcdeRSTUV019_$') for _ in range(n - 1))
            if reserved_ok or w.lower() not in RESERVED:
                return w

    def name_tok(self, reserved_ok=True):
        """Appends one name token, returns its value."""
        if self.chance(self.hostile):
            v = self.anytext('`')
            self.toks.append(T('`' + v + '`', 'quoted'))
        else:
            v = self.plain_name(reserved_ok)
            self.toks.append(T(v, 'sym'))
        return v

    def named(self, t, reserved_ok=True):
        s = self.here()
        v = self.name_tok(reserved_ok)
        return self.node(t, s, value=v)

    def identifier(self):
        return self.named('identifier', False)
    def prop_name(self):
        return self.named('prop_name')
    def label(self, t='label'):
        s = self.here()
        self.p(':')
        v = self.name_tok()
        return self.node(t, s, value=v)
    def dotted(self, t):
        s = self.here()
        n = self.g.choice((1, 1, 1, 2, 3))
        vs = []
        for i in range(n):
            if i:
                self.p('.')
            vs.append(self.name_tok(False))
        return self.node(t, s, value='.'.join(vs))
    def string(self):
        s = self.here()
        src, v = self.quoted_string()
        self.toks.append(T(src, 'quoted'))
        return self.node('string', s, value=v)
    def integer(self):
        g = self.g
        s = self.here()
        while True:
            k = g.random()
            if k < 0.6:
                v = str(g.choice((0, 1, 2, 10, 42, 500, g.randrange(10 ** 9), 2 ** 64)))
            elif k < 0.75:
                v = '0x%X' % g.randrange(1 << 20)
            elif k < 0.85:
                v = '0%o' % g.randrange(1 << 12)
            else:
                v = g.choice('0123456789') + ''.join(g.choice('019abfxz_$eE') for _ in range(g.randrange(1, 6)))
            # a trailing e would join a following sign and digit into a float
            if not is_float_text(v) and (v[-1] not in 'eE' or v[:2] == '0x'):
                break
        self.toks.append(T(v, 'sym'))
        return self.node('integer', s, value=v)
    def floating(self):
        g = self.g
        s = self.here()
        k = g.random()
        d = lambda a, b: ''.join(g.choice('0123456789') for _ in range(g.randrange(a, b)))
        if k < 0.5:
            v = d(1, 4) + '.' + d(1, 4)
        elif k < 0.65:
            v = '.' + d(1, 5)
        elif k < 0.8:
            v = d(1, 4) + g.choice('eE') + g.choice(('', '+', '-')) + d(1, 4)
        elif k < 0.9:
            v = d(1, 3) + '.' + d(0, 3) + g.choice('eE') + g.choice(('', '+', '-')) + d(1, 3)
        else:
            v = d(0, 3) + '.' + d(1, 3) + g.choice(('f', 'x1', '_0', 'e5'))
        assert is_float_text(v), v
        self.toks.append(T(v, 'sym'))
        return self.node('float', s, value=v)
    def parameter(self):
        s = self.here()
        g = self.g
        def nm():
            if self.chance(0.2):
                v = str(g.randrange(1, 10 ** g.randrange(1, 13)))
                self.toks.append(T(v, 'sym'))
                return v
            return self.name_tok()
        if self.chance(0.6):
            self.p('$'); v = nm()
        else:
            self.p('{'); v = nm(); self.p('}')
        return self.node('parameter', s, value=v)

    def count(self, role, usual):
        """How many items a list has: the number asked for in self.scale, once, or one of the usual."""
        if self.scale and role in self.scale:
            return self.scale.pop(role)
        return self.g.choice(usual)

    def comma_list(self, role, f, lo=1, hi=3):
        n = self.count(role, range(lo, hi + 1))
        out = []
        for i in range(n):
            if i:
                self.p(',')
            out.append(f())
        return out

    # ---- expressions: an abstract form first, then tokens with the parentheses it needs
    def absexpr(self, d=None):
        g = self.g
        if d is None:
            d = self.depth
        self.budget -= 1
        if d <= 0 or self.budget <= 0 or self.chance(0.25):
            return ('atom', self.pick_atom(d))
        k = g.random()
        if k < 0.45:
            return ('bin', g.choice(BINOPS), self.absexpr(d - 1), self.absexpr(d - 1))
        if k < 0.57:
            n = self.count('comparison', (1, 1, 1, 2, 3))
            return ('cmp', [g.choice(CMPOPS) for _ in range(n)], [self.absexpr(d - 1) for _ in range(n + 1)])
        if k < 0.67:
            return ('un', g.choice(('NOT', '+', '-')), self.absexpr(d - 1))
        if k < 0.73:
            return ('post', g.choice(('IS NULL', 'IS NOT NULL')), self.absexpr(d - 1))
        if k < 0.82:
            return ('prop', self.absexpr(d - 1))
        if k < 0.87:
            return ('sub', self.absexpr(d - 1), self.absexpr(d - 1))
        if k < 0.91:
            return ('slice', self.absexpr(d - 1), self.absexpr(d - 1) if self.chance(0.6) else None, self.absexpr(d - 1) if self.chance(0.6) else None)
        if k < 0.95:
            return ('proj', self.absexpr(d - 1), d - 1)
        return ('lab', self.absexpr(d - 1), self.count('labels_operator', (1, 1, 2, 3)))

    def pick_atom(self, d):
        g = self.g
        simple = ('identifier',) * 5 + ('integer', 'integer', 'float', 'string', 'string', 'parameter', 'true', 'false', 'null')
        if d <= 0 or self.budget <= 0:
            return g.choice(simple)
        return g.choice(simple + ('collection', 'collection', 'map', 'case', 'list_comprehension', 'pattern_comprehension',
                                  'filter', 'extract', 'reduce', 'all', 'any', 'single', 'none', 'pattern', 'shortest',
                                  'apply', 'apply', 'apply', 'apply_all'))

    @staticmethod
    def prec(x):
        k = x[0]
        if k == 'bin': return PREC[x[1]]
        if k == 'cmp': return 6
        if k == 'post': return 11
        if k in ('sub', 'slice', 'proj'): return 12
        if k in ('prop', 'lab'): return 13
        return INF

    # What follows mirrors how an operator grammar groups: an operand may be written bare on
    # the left of an operator if nothing open at its right edge would take the operator first,
    # and on the right if none of the operators on its left spine is looser than allowed.
    def left_of(self, x):
        k = x[0]
        return x[2] if k in ('bin', 'post') else x[2][0] if k == 'cmp' else x[1] if k in ('prop', 'sub', 'slice', 'proj', 'lab') else None

    def spine(self, x):
        if x[0] in ('atom', 'un', 'par', 'nest'):
            return INF
        return min(self.prec(x), self.spine(self.bare_left(x)))

    def bare_left(self, x):
        l = self.left_of(x)
        return ('par', l) if self.left_needs(x, l) else l

    def edges(self, x):
        k = x[0]
        if k == 'bin':
            p = PREC[x[1]]
            q = p if x[1] == '^' else p + 1
            r = x[3] if self.spine(x[3]) >= q else ('par', x[3])
            return [q] + self.edges(r)
        if k == 'cmp':
            r = x[2][-1]
            r = r if self.spine(r) >= 7 else ('par', r)
            return [7] + self.edges(r)
        if k == 'un':
            q = UNPREC[x[1]]
            r = x[2] if self.spine(x[2]) >= q else ('par', x[2])
            return [q] + self.edges(r)
        return []

    def left_needs(self, x, l):
        p = self.prec(x)
        if any(p >= q for q in self.edges(l)):
            return True
        if x[0] == 'cmp' and l[0] == 'cmp':
            return True
        if x[0] == 'lab' and l[0] == 'lab':
            return True
        if x[0] == 'prop' and l == ('atom', 'integer') or x[0] == 'prop' and l == ('atom', 'float'):
            return True
        if x[0] == 'bin' and x[1] == '-' or x[0] == 'cmp' and x[1][0] == '<':
            # a path pattern would go on
            if self.ends_in_pattern(l):
                return True
        return False

    def ends_in_pattern(self, x):
        k = x[0]
        if k == 'atom':
            return x[1] == 'pattern'
        if k == 'bin':
            return self.ends_in_pattern(x[3])
        if k == 'cmp':
            return self.ends_in_pattern(x[2][-1])
        if k == 'un':
            return self.ends_in_pattern(x[2])
        return False

    def pattern_like(self, x):
        if x[0] == 'atom':
            return x[1] in ('identifier', 'map', 'parameter')
        if x[0] == 'nest':
            return x[1] == 'map'
        if x[0] in ('lab', 'proj'):
            return x[1][0] == 'par' or self.pattern_like(x[1])
        return False

    def paren(self, x):
        n = 2 if self.dbl and self.pattern_like(x) else 1
        for _ in range(n):
            self.p('(')
        r = self.emit_top(x)
        for _ in range(n):
            self.p(')')
        return r

    def emit_top(self, x):
        d, self.dbl = self.dbl, 0
        r = self.emit(x)
        self.dbl = d
        return r

    def arg(self, x, bare):
        if not bare or self.chance(0.04):
            return self.paren(x)
        return self.emit(x)

    def expression(self, d=None):
        x = self.absexpr(d)
        d, self.dbl = self.dbl, 0
        r = self.arg(x, True)
        self.dbl = d
        return r

    def emit(self, x):
        g = self.g
        k = x[0]
        s = self.here()
        if k == 'atom':
            return self.atom(x[1])
        if k == 'par':
            return self.paren(x[1])
        if k == 'nest':
            return self.nested(x[1], x[2])
        if k == 'un':
            q = UNPREC[x[1]]
            if x[1] == 'NOT':
                self.kw('NOT')
            else:
                self.p(x[1])
            a = self.arg(x[2], self.spine(x[2]) >= q)
            return self.node('unary_operator', s, op=x[1] if x[1] == 'NOT' else 'u' + x[1], arg=a)
        l0 = self.left_of(x)
        danger = k == 'bin' and x[1] == '-' or k == 'cmp' and x[1][0] == '<'
        if danger:
            self.dbl += 1
        l = self.arg(l0, not self.left_needs(x, l0))
        if danger:
            self.dbl -= 1
        if k == 'bin':
            p = PREC[x[1]]
            q = p if x[1] == '^' else p + 1
            if x[1][0].isalpha():
                self.kw(*x[1].split())
            else:
                self.p(x[1])
            r = self.arg(x[3], self.spine(x[3]) >= q)
            return self.node('binary_operator', s, op=x[1], arg1=l, arg2=r)
        if k == 'cmp':
            args = [l]
            for i, (o, a) in enumerate(zip(x[1], x[2][1:])):
                self.p(o)
                nxt = x[1][i + 1] if i + 1 < len(x[1]) else None
                if nxt == '<':
                    self.dbl += 1
                bare = self.spine(a) >= 7
                if bare and nxt and (any(6 >= e for e in self.edges(a)) or nxt == '<' and self.ends_in_pattern(a)):
                    bare = False
                args.append(self.arg(a, bare))
                if nxt == '<':
                    self.dbl -= 1
            return self.node('comparison', s, args=args, ops=list(x[1]))
        if k == 'post':
            self.kw(*x[1].split())
            return self.node('unary_operator', s, op=x[1], arg=l)
        if k == 'prop':
            self.p('.')
            return self.node('property_operator', s, expression=l, prop_name=self.prop_name())
        if k == 'sub':
            self.p('['); e = self.emit_top(x[2]); self.p(']')
            return self.node('subscript_operator', s, expression=l, subscript=e)
        if k == 'slice':
            self.p('[')
            a = self.emit_top(x[2]) if x[2] else None
            self.p('..')
            b = self.emit_top(x[3]) if x[3] else None
            self.p(']')
            return self.node('slice_operator', s, expression=l, start=a, end=b)
        if k == 'proj':
            self.p('{')
            sel = self.comma_list('map_projection', lambda: self.selector(x[2]), 0, 3)
            self.p('}')
            return self.node('map_projection', s, expression=l, selectors=sel)
        if k == 'lab':
            return_labels = [self.label() for _ in range(x[2])]
            return self.node('labels_operator', s, expression=l, labels=return_labels)
        raise AssertionError(k)

    def selector(self, d):
        s = self.here()
        k = self.g.randrange(4)
        if k == 0:
            n = self.prop_name(); self.p(':')
            return self.node('map_projection_literal', s, prop_name=n, expression=self.expression(d))
        if k == 1:
            self.p('.')
            return self.node('map_projection_property', s, prop_name=self.prop_name())
        if k == 2:
            return self.node('map_projection_identifier', s, identifier=self.identifier())
        self.p('.', '*')
        return self.node('map_projection_all_properties', s)

    def comprehension(self, t, word, where, evl):
        s = self.here()
        self.kw(word); self.p('(')
        i = self.identifier(); self.kw('IN'); e = self.expression(1)
        r = dict(identifier=i, expression=e)
        if where:
            r['predicate'] = None
            if self.chance(0.7):
                self.kw('WHERE'); r['predicate'] = self.expression(1)
        if evl:
            r['eval'] = None
            if self.chance(0.7):
                self.p('|'); r['eval'] = self.expression(1)
        self.p(')')
        return self.node(t, s, **r)

    def atom(self, a):
        g = self.g
        s = self.here()
        d = 1
        if a in ('identifier', 'integer', 'string', 'parameter'):
            return getattr(self, a)()
        if a == 'float':
            return self.floating()
        if a in ('true', 'false', 'null'):
            self.kw(a.upper())
            return self.node(a, s)
        if a == 'map':
            return self.map_literal(d)
        if a == 'collection':
            self.p('[')
            els = []
            n = self.count('collection', (0, 1, 2, 3) if not self.chance(0.03) else range(9, 40))
            for i in range(n):
                if i:
                    self.p(',')
                t0 = self.here()
                x = self.absexpr(d if n < 5 else 0)
                e = self.arg(x, not (i == 0 and self.starts_in(x) and n == 1))
                els.append(e)
            self.p(']')
            return self.node('collection', s, elements=els)
        if a == 'list_comprehension':
            self.p('[')
            i = self.identifier(); self.kw('IN'); e = self.expression(d)
            pr = ev = None
            if self.chance(0.6):
                self.kw('WHERE'); pr = self.expression(d)
            if self.chance(0.6):
                self.p('|'); ev = self.expression(d)
            self.p(']')
            return self.node('list_comprehension', s, identifier=i, expression=e, predicate=pr, eval=ev)
        if a == 'pattern_comprehension':
            self.p('[')
            i = pr = None
            if self.chance(0.5):
                i = self.identifier(); self.p('=')
            path = self.pattern_path(1, 2)
            if self.chance(0.6):
                self.kw('WHERE'); pr = self.expression(d)
            self.p('|'); ev = self.expression(d); self.p(']')
            return self.node('pattern_comprehension', s, identifier=i, pattern=path, predicate=pr, eval=ev)
        if a == 'case':
            self.kw('CASE')
            e = self.expression(d) if self.chance(0.5) else None
            ps, vs = [], []
            for _ in range(self.count('case', (1, 1, 2, 3))):
                self.kw('WHEN'); ps.append(self.expression(d))
                self.kw('THEN'); vs.append(self.expression(d))
            df = None
            if self.chance(0.5):
                self.kw('ELSE'); df = self.expression(d)
            self.kw('END')
            return self.node('case', s, expression=e, predicates=ps, values=vs, default=df)
        if a in ('filter', 'all', 'any', 'single', 'none'):
            return self.comprehension(a, a.upper(), True, False)
        if a == 'extract':
            return self.comprehension(a, 'EXTRACT', False, True)
        if a == 'reduce':
            self.kw('REDUCE'); self.p('(')
            acc = self.identifier(); self.p('='); init = self.expression(d); self.p(',')
            i = self.identifier(); self.kw('IN'); e = self.expression(d); ev = None
            if self.chance(0.8):
                self.p('|'); ev = self.expression(d)
            self.p(')')
            return self.node('reduce', s, accumulator=acc, init=init, identifier=i, expression=e, eval=ev)
        if a == 'pattern':
            return self.pattern_path(1, 2)
        if a == 'shortest':
            return self.shortest()
        if a == 'apply':
            f = self.dotted('function_name'); self.p('(')
            ds = False
            lo = 0
            if self.chance(0.2):
                self.kw('DISTINCT'); ds, lo = True, 1
            args = self.comma_list('apply', lambda: self.expression(d), lo, 3)
            self.p(')')
            return self.node('apply_operator', s, func_name=f, distinct=ds, args=args)
        if a == 'apply_all':
            f = self.dotted('function_name'); self.p('(')
            ds = self.chance(0.2)
            if ds:
                self.kw('DISTINCT')
            self.p('*', ')')
            return self.node('apply_all_operator', s, func_name=f, distinct=ds)
        raise AssertionError(a)

    NESTS = ('collection', 'collection2', 'map', 'map2', 'apply', 'apply2', 'case', 'when', 'then', 'else', 'reduce_init', 'reduce_list', 'reduce_eval',
             'comp_list', 'comp_where', 'comp_eval', 'all_list', 'all_where', 'extract_list', 'extract_eval')
    def nested(self, k, x):
        """A construct holding the expression x in the place k."""
        s = self.here()
        e = lambda: self.emit_top(x)
        small = lambda: self.atom('integer')
        if k[:4] == 'coll':
            self.p('[')
            els = []
            if k != 'collection':
                els.append(small()); self.p(',')
            els.append(e()); self.p(']')
            return self.node('collection', s, elements=els)
        if k[:3] == 'map':
            self.p('{')
            ks, vs = [], []
            if k != 'map':
                ks.append(self.prop_name()); self.p(':'); vs.append(small()); self.p(',')
            ks.append(self.prop_name()); self.p(':'); vs.append(e()); self.p('}')
            return self.node('map', s, keys=ks, values=vs)
        if k[:5] == 'apply':
            f = self.dotted('function_name'); self.p('(')
            a = [e()]
            if k != 'apply':
                self.p(','); a.append(small())
            self.p(')')
            return self.node('apply_operator', s, func_name=f, distinct=False, args=a)
        if k in ('case', 'when', 'then', 'else'):
            self.kw('CASE')
            a = e() if k == 'case' else None
            self.kw('WHEN'); p = e() if k == 'when' else small()
            self.kw('THEN'); v = e() if k == 'then' else small()
            d = None
            if k == 'else':
                self.kw('ELSE'); d = e()
            self.kw('END')
            return self.node('case', s, expression=a, predicates=[p], values=[v], default=d)
        w, place = k.split('_')
        at = lambda q: e() if place == q else small()
        if w == 'reduce':
            self.kw('REDUCE'); self.p('(')
            acc = self.identifier(); self.p('='); init = at('init'); self.p(',')
            i = self.identifier(); self.kw('IN'); l = at('list'); self.p('|'); ev = at('eval'); self.p(')')
            return self.node('reduce', s, accumulator=acc, init=init, identifier=i, expression=l, eval=ev)
        if w == 'comp':
            self.p('[')
        else:
            self.kw(w.upper()); self.p('(')
        i = self.identifier(); self.kw('IN')
        r = dict(identifier=i, expression=at('list'))
        if w != 'extract':
            r['predicate'] = None
            if place == 'where':
                self.kw('WHERE'); r['predicate'] = e()
        if w != 'all':
            r['eval'] = None
            if place == 'eval':
                self.p('|'); r['eval'] = e()
        self.p(']' if w == 'comp' else ')')
        return self.node({'comp': 'list_comprehension'}.get(w, w), s, **r)

    def starts_in(self, x):
        """Would `[` x `]` read as `[identifier IN ...]`?"""
        while True:
            if x[0] == 'bin' and x[1] == 'IN' and x[2] in (('atom', 'identifier'), ('atom', 'true'), ('atom', 'false'), ('atom', 'null')):
                return True
            if x[0] in ('atom', 'un', 'par', 'nest'):
                return False
            x = self.left_of(x)

    def map_literal(self, d=1):
        s = self.here()
        self.p('{')
        ks, vs = [], []
        for i in range(self.count('map_literal', (0, 1, 1, 2, 3))):
            if i:
                self.p(',')
            ks.append(self.prop_name()); self.p(':'); vs.append(self.expression(d))
        self.p('}')
        return self.node('map', s, keys=ks, values=vs)

    # ---- patterns
    def props(self):
        if self.chance(0.7):
            return None
        return self.map_literal() if self.chance(0.7) else self.parameter()

    def node_pattern(self):
        s = self.here()
        self.p('(')
        i = self.identifier() if self.chance(0.6) else None
        ls = [self.label() for _ in range(self.count('node_labels', (0, 0, 1, 2)))]
        pr = self.props()
        self.p(')')
        return self.node('node_pattern', s, identifier=i, labels=ls, properties=pr)

    def rel_pattern(self):
        g = self.g
        s = self.here()
        la = self.chance(0.35)
        ra = self.chance(0.4)
        d = 'both' if la == ra else 'in' if la else 'out'
        if la:
            self.p('<')
        self.p('-')
        i = pr = vl = None
        ts = []
        if self.chance(0.6):
            self.p('[')
            if self.chance(0.5):
                i = self.identifier()
            for k in range(self.count('reltypes', (0, 1, 1, 2, 3))):
                if k:
                    self.p('|')
                    if self.chance(0.5):
                        ts.append(self.named('reltype'))
                        continue
                ts.append(self.label('reltype'))
            if self.chance(0.4):
                vl = self.varlength()
            pr = self.props()
            self.p(']')
        self.p('-')
        if ra:
            self.p('>')
        return self.node('rel_pattern', s, direction=d, identifier=i, reltypes=ts, properties=pr, varlength=vl)

    def varlength(self):
        s = self.here()
        self.p('*')
        k = self.g.randrange(5)
        a = b = None
        if k == 1:
            a = b = self.integer()
        elif k == 2:
            a = self.integer(); self.p('..')
        elif k == 3:
            self.p('..'); b = self.integer()
        elif k == 4:
            a = self.integer(); self.p('..'); b = self.integer()
            if self.chance(0.1):
                pass
        return self.node('range', s, flag='range', start=a, end=b)

    def pattern_path(self, lo=0, hi=2, role='pattern_path'):
        s = self.here()
        els = [self.node_pattern()]
        for _ in range(self.count(role, range(lo, hi + 1))):
            els.append(self.rel_pattern())
            els.append(self.node_pattern())
        return self.node('pattern_path', s, elements=els)

    def shortest(self):
        s = self.here()
        one = self.chance(0.5)
        self.kw('shortestPath' if one else 'allShortestPaths')
        self.p('(')
        pth = self.pattern_path(0, 1, None)
        self.p(')')
        return self.node('shortest_path', s, single=one, path=pth)

    def pattern_part(self):
        s = self.here()
        anon = lambda: self.shortest() if self.chance(0.15) else self.pattern_path()
        if self.chance(0.25):
            i = self.identifier(); self.p('=')
            return self.node('named_path', s, identifier=i, path=anon())
        return anon()

    def pattern(self):
        s = self.here()
        return self.node('pattern', s, paths=self.comma_list('pattern', self.pattern_part))

    # ---- clauses
    def where(self, p=0.4):
        if self.chance(p):
            self.kw('WHERE')
            return self.expression()
        return None

    def c_match(self):
        s = self.here()
        o = self.chance(0.3)
        self.kw(*(['OPTIONAL'] if o else []) + ['MATCH'])
        pt = self.pattern()
        hs = []
        for _ in range(self.count('hints', (0, 0, 0, 1, 2))):
            hs.append(self.hint())
        return self.node('match', s, optional=o, pattern=pt, hints=hs, predicate=self.where())

    def hint(self):
        s = self.here()
        k = self.g.randrange(3)
        self.kw('USING')
        if k == 0:
            self.kw('INDEX'); i = self.identifier(); l = self.label(); self.p('('); pn = self.prop_name(); self.p(')')
            return self.node('using_index', s, identifier=i, label=l, prop_name=pn)
        if k == 1:
            self.kw('JOIN', 'ON')
            return self.node('using_join', s, identifiers=self.comma_list('using_join', self.identifier))
        self.kw('SCAN')
        return self.node('using_scan', s, identifier=self.identifier(), label=self.label())

    def projection(self, ret):
        s = self.here()
        x = self.absexpr()
        e = self.arg(x, True)
        if self.chance(0.4):
            self.kw('AS')
            return self.node('projection', s, expression=e, alias=self.identifier())
        al = None
        if ret and e.t != 'identifier':
            al = N('identifier', s, self.here() - 1, {'value': None}, 'implied')
        return self.node('projection', s, expression=e, alias=al)

    def order_by(self):
        if not self.chance(0.3):
            return None
        s = self.here()
        self.kw('ORDER', 'BY')
        return self.node('order_by', s, items=self.comma_list('order_by', self.sort_item))

    def sort_item(self):
        s = self.here()
        e = self.expression()
        w = self.g.choice(('', '', 'ASC', 'ASCENDING', 'DESC', 'DESCENDING'))
        if w:
            self.kw(w)
        return self.node('sort_item', s, expression=e, ascending=not w.startswith('D'))

    def body(self, ret):
        d = self.chance(0.2)
        if d:
            self.kw('DISTINCT')
        star = self.chance(0.2)
        if star:
            self.p('*')
            ps = []
            if self.chance(0.3):
                self.p(',')
                ps = self.comma_list('projections', lambda: self.projection(ret))
        else:
            ps = self.comma_list('projections', lambda: self.projection(ret))
        r = dict(distinct=d, include_existing=star, projections=ps, order_by=self.order_by())
        r['skip'] = r['limit'] = None
        if self.chance(0.2):
            self.kw('SKIP'); r['skip'] = self.expression(1)
        if self.chance(0.2):
            self.kw('LIMIT'); r['limit'] = self.expression(1)
        return r

    def c_return(self):
        s = self.here()
        self.kw('RETURN')
        return self.node('return', s, **self.body(True))
    def c_with(self):
        s = self.here()
        self.kw('WITH')
        r = self.body(False)
        r['predicate'] = self.where()
        return self.node('with', s, **r)
    def c_unwind(self):
        s = self.here()
        self.kw('UNWIND'); e = self.expression(); self.kw('AS')
        return self.node('unwind', s, expression=e, alias=self.identifier())
    def c_merge(self):
        s = self.here()
        self.kw('MERGE')
        pth = self.pattern_part()
        acts = []
        for _ in range(self.count('merge_actions', (0, 0, 1, 2))):
            a = self.here()
            on = self.chance(0.5)
            self.kw('ON', 'MATCH' if on else 'CREATE', 'SET')
            acts.append(self.node('on_match' if on else 'on_create', a, items=self.comma_list('on_set', self.set_item)))
        return self.node('merge', s, path=pth, actions=acts)
    def c_create(self):
        s = self.here()
        u = self.chance(0.3)
        self.kw('CREATE')
        if u:
            self.kw('UNIQUE')
        return self.node('create', s, unique=u, pattern=self.pattern())
    def c_set(self):
        s = self.here()
        self.kw('SET')
        return self.node('set', s, items=self.comma_list('set', self.set_item))
    def property_expr(self):
        s = self.here()
        k = self.g.random()
        if k < 0.8:
            e = self.identifier()
        elif k < 0.9:
            self.p('('); e = self.expression(1); self.p(')')
        else:
            e = self.atom('apply')
        for _ in range(self.count('property_expr', (1, 1, 1, 2, 3))):
            self.p('.')
            e = self.node('property_operator', s, expression=e, prop_name=self.prop_name())
            e.e = self.here() - 1
        return e
    def set_item(self):
        s = self.here()
        k = self.g.randrange(4)
        if k == 0:
            pe = self.property_expr(); self.p('=')
            return self.node('set_property', s, property=pe, expression=self.expression())
        i = self.identifier()
        if k == 1:
            self.p('=')
            return self.node('set_all_properties', s, identifier=i, expression=self.expression())
        if k == 2:
            self.p('+=')
            return self.node('merge_properties', s, identifier=i, expression=self.expression())
        return self.node('set_labels', s, identifier=i, labels=[self.label() for _ in range(self.count('set_labels', (1, 1, 2)))])
    def c_delete(self):
        s = self.here()
        d = self.chance(0.4)
        self.kw(*(['DETACH'] if d else []) + ['DELETE'])
        return self.node('delete', s, detach=d, expressions=self.comma_list('delete', self.expression))
    def c_remove(self):
        s = self.here()
        self.kw('REMOVE')
        return self.node('remove', s, items=self.comma_list('remove', self.remove_item))
    def remove_item(self):
        s = self.here()
        if self.chance(0.5):
            return self.node('remove_property', s, property=self.property_expr())
        i = self.identifier()
        return self.node('remove_labels', s, identifier=i, labels=[self.label() for _ in range(self.count('remove_labels', (1, 1, 2)))])
    def c_foreach(self):
        s = self.here()
        self.kw('FOREACH'); self.p('(')
        i = self.identifier(); self.kw('IN'); e = self.expression(1); self.p('|')
        cs = [self.clause(True) for _ in range(self.count('foreach', (1, 1, 2)))]
        self.p(')')
        return self.node('foreach', s, identifier=i, expression=e, clauses=cs)
    def c_call(self):
        s = self.here()
        self.kw('CALL')
        pn = self.dotted('proc_name')
        args, prs = [], []
        if self.chance(0.7):
            self.p('(')
            args = self.comma_list('call_args', lambda: self.expression(1), 0, 3)
            self.p(')')
        if self.chance(0.6):
            self.kw('YIELD')
            if self.chance(0.25):
                self.p('-')
            else:
                prs = self.comma_list('yield', self.proc_projection)
        return self.node('call', s, proc_name=pn, args=args, projections=prs, predicate=self.where(0.25))
    def proc_projection(self):
        s = self.here()
        i = self.identifier()
        a = None
        if self.chance(0.4):
            self.kw('AS'); a = self.identifier()
        return self.node('projection', s, expression=i, alias=a)
    def c_load(self):
        s = self.here()
        self.kw('LOAD', 'CSV')
        h = self.chance(0.5)
        if h:
            self.kw('WITH', 'HEADERS')
        self.kw('FROM'); u = self.expression(1); self.kw('AS'); i = self.identifier()
        t = None
        if self.chance(0.3):
            self.kw('FIELDTERMINATOR'); t = self.string()
        return self.node('load_csv', s, with_headers=h, url=u, identifier=i, field_terminator=t)
    def c_start(self):
        s = self.here()
        self.kw('START')
        return self.node('start', s, points=self.comma_list('start', self.start_point), predicate=self.where())
    def start_point(self):
        s = self.here()
        i = self.identifier(); self.p('=')
        n = self.chance(0.5)
        self.kw('node' if n else self.g.choice(('relationship', 'rel')))
        t = 'node' if n else 'rel'
        k = self.g.randrange(4)
        lookup = lambda: self.string() if self.chance(0.6) else self.parameter()
        if k == 0:
            self.p(':'); x = self.named('index_name'); self.p('('); pn = self.prop_name(); self.p('='); l = lookup(); self.p(')')
            return self.node(t + '_index_lookup', s, identifier=i, index_name=x, prop_name=pn, lookup=l)
        if k == 1:
            self.p(':'); x = self.named('index_name'); self.p('('); l = lookup(); self.p(')')
            return self.node(t + '_index_query', s, identifier=i, index_name=x, query=l)
        self.p('(')
        if k == 2:
            ids = self.comma_list('start_ids', self.integer); self.p(')')
            return self.node(t + '_id_lookup', s, identifier=i, ids=ids)
        self.p('*', ')')
        return self.node('all_nodes_scan' if n else 'all_rels_scan', s, identifier=i)
    def c_union(self):
        s = self.here()
        self.kw('UNION')
        a = self.chance(0.5)
        if a:
            self.kw('ALL')
        return self.node('union', s, all=a)

    CLAUSES = (('c_match', 5), ('c_return', 5), ('c_with', 3), ('c_unwind', 2), ('c_merge', 3), ('c_create', 3), ('c_set', 3),
               ('c_delete', 2), ('c_remove', 2), ('c_foreach', 1), ('c_call', 2), ('c_load', 1), ('c_start', 2), ('c_union', 1))
    def clause(self, inner=False):
        names = [n for n, w in self.CLAUSES for _ in range(w) if not (inner and n in ('c_foreach',))]
        return getattr(self, self.g.choice(names))()

    # ---- statements
    def schema(self):
        s = self.here()
        k = self.g.randrange(4)
        create = self.chance(0.5)
        w = 'create' if create else 'drop'
        self.kw(w.upper())
        if k == 0:
            self.kw('INDEX', 'ON'); l = self.label(); self.p('(')
            ps = self.comma_list('index_props', self.prop_name); self.p(')')
            return self.node(w + '_node_props_index', s, label=l, prop_names=ps)
        self.kw('CONSTRAINT', 'ON')
        if k in (1, 2):
            self.p('('); i = self.identifier(); l = self.label(); self.p(')'); self.kw('ASSERT')
            e = self.expression(2)
            u = self.chance(0.5)
            if u:
                self.kw('IS', 'UNIQUE')
            return self.node(w + '_node_prop_constraint', s, identifier=i, label=l, expression=e, unique=u)
        self.p('(', ')')
        if self.chance(0.3):
            self.p('<')
        self.p('-', '['); i = self.identifier(); t = self.label('reltype'); self.p(']', '-')
        if self.chance(0.3):
            self.p('>')
        self.p('(', ')'); self.kw('ASSERT')
        e = self.expression(2)
        return self.node(w + '_rel_prop_constraint', s, identifier=i, reltype=t, expression=e, unique=False)

    def query(self, nclauses=None):
        s = self.here()
        os = []
        if self.chance(0.06):
            a = self.here()
            self.kw('USING', 'PERIODIC', 'COMMIT')
            l = self.integer() if self.chance(0.5) else None
            os.append(self.node('using_periodic_commit', a, limit=l))
        n = nclauses or self.count('clauses', (1, 1, 1, 2, 2, 3, 4))
        cs = [self.clause() for _ in range(n)]
        return self.node('query', s, options=os, clauses=cs)

    def options(self):
        os = []
        for _ in range(self.count('options', (0, 0, 0, 0, 1, 1, 2))):
            s = self.here()
            k = self.g.randrange(3)
            if k == 0:
                self.kw('EXPLAIN'); os.append(self.node('explain_option', s))
            elif k == 1:
                self.kw('PROFILE'); os.append(self.node('profile_option', s))
            else:
                self.kw('CYPHER')
                v = None
                if self.chance(0.6):
                    a = self.here()
                    t = '%d.%d' % (self.g.randrange(1, 30), self.g.randrange(0, 30))
                    self.toks.append(T(t, 'sym'))
                    v = self.node('string', a, value=t)
                ps = []
                for _ in range(self.count('option_params', (0, 1, 1, 2))):
                    a = self.here()
                    nm = self.g.choice(('planner', 'runtime', 'a_1', 'updateStrategy', '3d', 'match'))
                    self.toks.append(T(nm, 'sym'))
                    nn = self.node('string', a, value=nm)
                    self.p('=')
                    b = self.here()
                    val = self.g.choice(('cost', 'x.y', '"q"', 'a/*v*/', '=5')) if self.chance(0.5) else self.anytext(' \t\n\r;', self.g.randrange(1, 9))
                    if val[:2] in ('//', '/*'):
                        val = 'v' + val
                    self.toks.append(T(val, 'optval'))
                    vv = self.node('string', b, value=val)
                    ps.append(self.node('cypher_option_param', a, name=nn, value=vv))
                os.append(self.node('cypher_option', s, version=v, params=ps))
        return os

    def statement(self, kind=None):
        """kind: None (any), 'query', 'schema', or a list of clause methods."""
        self.toks = []
        self.budget = 60
        s = 0
        os = self.options() if kind is None or kind == 'query' else []
        if isinstance(kind, (list, tuple)):
            q = self.here()
            cs = [getattr(self, c)() for c in kind]
            b = self.node('query', q, options=[], clauses=cs)
        elif kind == 'schema' or kind is None and self.chance(0.1):
            b = self.schema()
        else:
            b = self.query()
        n = self.node('statement', s, options=os, body=b)
        return D(self.toks, n)

    def expression_statement(self, x=None):
        """RETURN <expression> AS r"""
        self.toks = []
        self.budget = 60
        s = 0
        self.kw('RETURN')
        ps = self.here()
        e = self.emit(x) if x else self.expression(self.depth + 1)
        self.kw('AS')
        i = self.here()
        self.toks.append(T('r', 'sym'))
        al = N('identifier', i, i, {'value': 'r'})
        pr = self.node('projection', ps, expression=e, alias=al)
        rt = self.node('return', s, distinct=False, include_existing=False, projections=[pr], order_by=None, skip=None, limit=None)
        q = self.node('query', s, options=[], clauses=[rt])
        return D(self.toks, self.node('statement', s, options=[], body=q))

    def command(self):
        self.toks = []
        self.p(':')
        def arg():
            g = self.g
            src, val = '', ''
            for i in range(g.choice((1, 1, 1, 2, 3))):
                if self.chance(0.35):
                    a, b = self.quoted_string()
                else:
                    a = b = ''
                    for _ in range(g.choice((1, 1, 2))):
                        k = g.random()
                        if k < 0.7:
                            t = self.anytext(' \t\n\r\'"\\;/', g.randrange(1, 8)).replace(':', 'c')
                            a += t; b += t
                        elif k < 0.8:
                            a += '\\;'; b += ';'
                        elif k < 0.85:
                            a += '/x'; b += '/x'
                        else:
                            c = g.choice(list(ESC)); a += '\\' + c; b += ESC[c]
                if not a or src.endswith('/') and a[0] in '/*':
                    a, b = 'q', 'q'
                src += a; val += b
            i = self.here()
            self.toks.append(T(src, 'arg'))
            return self.node('string', i, value=val)
        nm = arg()
        args = [arg() for _ in range(self.count('command_args', (0, 0, 1, 2, 3)))]
        return D(self.toks, self.node('command', 0, name=nm, args=args), True)


# ---------------------------------------------------------------- layout
class Layout:
    """mode: tight (only needed blanks), normal (single blanks), lines (newlines), wild (anything)."""
    def __init__(self, rng, mode='normal', crlf=None, kwcase='upper', comments=0.3):
        self.g, self.mode, self.kwcase, self.pc = rng, mode, kwcase, comments
        self.eol = '\r\n' if crlf else '\n'
        self.mix = crlf is None

    def nl(self):
        return self.g.choice(('\n', '\r\n')) if self.mix else self.eol

    def case(self, w):
        k = self.kwcase
        if k == 'upper': return w.upper()
        if k == 'lower': return w.lower()
        if k == 'asis': return w
        return ''.join(c.upper() if self.g.random() < 0.5 else c.lower() for c in w)

    def comment_text(self, line):
        g = self.g
        n = g.choice((0, 1, 3, 8, 20)) if g.random() > 0.02 else g.randrange(100, 1500)
        out = []
        while len(out) < n:
            c = g.choice('abc xyz ;:\'"`/*-{}()[]\\$') if g.random() < 0.8 else g.choice(('\xc3\xa9', '\t', chr(g.randrange(1, 256))))
            out.append(c)
        s = ''.join(out)
        if line:
            s = s.replace('\r', '').replace('\n', '')
        else:
            if g.random() < 0.3:
                s += self.nl() + 'more'
            while '*/' in s:
                s = s.replace('*/', '* ')
            if s.endswith('*'):
                s += ' '
            if s.startswith('/'):
                pass
        return s


class Doc:
    """Rendered document: text, directives with token offsets, expected comments and segment ends."""
    def __init__(self):
        self.parts = []
        self.pos = 0
        self.dirs = []
        self.comments = []          # (start, end, type, text)
    def add(self, s):
        self.parts.append(s)
        self.pos += len(s)
    @property
    def text(self):
        return ''.join(self.parts)
    @property
    def data(self):
        return self.text.encode('latin1')


class R:
    """Rendered directive."""
    __slots__ = ('d', 'offs', 'lead', 'end', 'term', 'next', 'ncom')
    # offs: [(start, end)] per token; lead: where it starts (with its leading layout); end: end of the segment
    # term: terminator text ('' for end of input); next: layout end


def sep(doc, lay, prev, nxt, hws=False, need=False, first=False, last=False, nocomment=False):
    """Emits a separator between two tokens; hws: only blanks and block comments (client commands)."""
    g = lay.g
    must = need
    if not hws and prev is not None and nxt is not None:
        a, b = prev.text, nxt.text
        if prev.kind in ('kw', 'sym') and b[0] in SYM:
            must = True
        if prev.kind == 'optval':
            must = True
    mode = lay.mode
    out0 = doc.pos
    if mode == 'tight':
        if must:
            doc.add(' ')
        return
    if mode == 'normal':
        if must or prev is not None and nxt is not None and g.random() < 0.8:
            doc.add(' ')
        return
    if mode == 'lines':
        if must or g.random() < 0.8:
            doc.add(lay.nl() if not hws and g.random() < 0.4 else g.choice((' ', '  ', '\t')))
        return
    n = g.choice((0, 0, 1, 1, 1, 2, 3))
    if must and n == 0:
        n = 1
    wsfirst = prev is not None and (prev.kind == 'optval' or prev.text.endswith('/') and prev.kind in ('punct', 'arg'))
    emitted = False
    for i in range(n):
        com = g.random() < lay.pc and not nocomment
        if com and not (wsfirst and not emitted):
            if not hws and g.random() < 0.4:
                t = lay.comment_text(True)
                s = doc.pos + 2
                doc.comments.append((s, s + len(t), 'line_comment', t))
                doc.add('//' + t + lay.nl())
            else:
                t = lay.comment_text(False)
                s = doc.pos + 2
                doc.comments.append((s, s + len(t), 'block_comment', t))
                doc.add('/*' + t + '*/')
        else:
            doc.add(g.choice((' ', ' ', '\t', '   ')) if hws or g.random() < 0.7 else lay.nl())
        emitted = True


def render(dirs, lay, rng, eof_term=None, final=None):
    """Renders directives one after another. eof_term: whether the last one ends at end of input
    (None: random). Returns a Doc."""
    doc = Doc()
    for k, d in enumerate(dirs):
        r = R()
        r.d, r.lead, r.offs = d, doc.pos, []
        c0 = len(doc.comments)
        last = k == len(dirs) - 1
        sep(doc, lay, None, None, first=True)
        prev = None
        for i, t in enumerate(d.toks):
            if i and not t.glue:
                if d.command:
                    if t.kind == 'arg' and i > 1:
                        cont = lay.mode in ('lines', 'wild') and rng.random() < 0.15
                        sep(doc, lay, prev, t, hws=True, need=True)
                        if cont:
                            doc.add('\\' + rng.choice(('', ' ')))
                            if rng.random() < 0.3:
                                ct = lay.comment_text(True)
                                s = doc.pos + 2
                                doc.comments.append((s, s + len(ct), 'line_comment', ct))
                                doc.add('//' + ct)
                            doc.add(lay.nl())
                            sep(doc, lay, None, t, hws=True)
                    else:
                        sep(doc, lay, prev, t, hws=True)
                else:
                    sep(doc, lay, prev, t)
            txt = lay.case(t.text) if t.kind == 'kw' else t.text
            r.offs.append((doc.pos, doc.pos + len(txt)))
            doc.add(txt)
            prev = t
        r.next = None
        eof = last and (eof_term if eof_term is not None else rng.random() < 0.3)
        if d.command:
            sep(doc, lay, prev, None, hws=True)
            if eof:
                r.term = ''
            elif rng.random() < 0.4:
                r.term = ';'
                doc.add(';')
            else:
                if prev.text.endswith('/') and doc.text.endswith(prev.text):
                    doc.add(' ')
                r.term = '\n'
                if rng.random() < 0.25 and lay.mode == 'wild':
                    ct = lay.comment_text(True)
                    s = doc.pos + 2
                    doc.comments.append((s, s + len(ct), 'line_comment', ct))
                    doc.add('//' + ct)
                doc.add(lay.nl())
        else:
            sep(doc, lay, prev, None)
            if eof:
                r.term = ''
            else:
                if prev.kind == 'optval' and doc.pos == r.offs[-1][1]:
                    doc.add(' ')
                r.term = ';'
                r.offs.append((doc.pos, doc.pos + 1))
                doc.add(';')
        r.end = doc.pos
        r.ncom = (c0, len(doc.comments))
        doc.dirs.append(r)
    if final:
        sep(doc, lay, None, None)
    return doc
