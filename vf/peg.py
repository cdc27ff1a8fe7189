"""A recogniser of the accepted language that shares no code with the library.

vf/cypher.peg gives the language; this module interprets it, and decides which directives of an
input are well-formed, how far a malformed one can be read (the farthest point at which a named
expectation was not met, and which expectations those are), and what is skipped to go on after it.
Matchers return the new position, or ~p on failure, p being where the attempt was left."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
END = r'$(?![\s\S])'
LAYOUT = re.compile(r'(?:[ \t]|\r?\n|//(?:(?!\r?\n)[\s\S])*(?:\r?\n|' + END + r')|/\*(?:(?!\*/)[\s\S])*\*/)*')
HLAYOUT = re.compile(r'(?:[ \t]|/\*(?:(?!\*/)[\s\S])*\*/)*')
LINEEND = re.compile(r'//(?:(?!\r?\n)[\s\S])*(?:\r?\n|' + END + r')|\r?\n|' + END)
SYM = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$')
ESCAPED = frozenset('abfnrtv\\\'"?')
LABELS = {'SHORTESTPATH': 'shortestPath', 'ALLSHORTESTPATHS': 'allShortestPaths', 'NODE': 'node', 'REL': 'rel', 'RELATIONSHIP': 'relationship'}
PREC = {'OR': 1, 'XOR': 2, 'AND': 3, 'NOT': 4, '=': 5, '<>': 5, '<': 6, '>': 6, '<=': 6, '>=': 6, '+': 7, '-': 7, '*': 8, '/': 8, '%': 8, '^': 9,
        'u+': 10, 'u-': 10, '=~': 11, 'IN': 11, 'STARTS WITH': 11, 'ENDS WITH': 11, 'CONTAINS': 11, 'IS NULL': 11, 'IS NOT NULL': 11, '{': 12, '[': 12, '.': 13, ':': 13}
INFIX = ['AND', 'OR', 'XOR', '=~', '=', '<>', '+', '-', '*', '/', '%', '^', 'IN', 'CONTAINS', 'STARTS WITH', 'ENDS WITH']
TOKEN = re.compile(r'''\s*(?:(?P<kw>~?"[A-Z][A-Z ]*")|(?P<label>\^"(?:"\.\.\.string\.\.\."|[^"]*)")|(?P<ilit>'[a-z]+'i)|(?P<lit>'[^\s]+?'(?=[\s?*+^)]|$)|"'")|(?P<cls>\[[^\]]+\])|(?P<pun><\S{1,2}?>(?=[\s?*+)]|$))|(?P<name>[a-z_]+)|(?P<op>[()/?*+!&.]))''')


class Loop(Exception):
    pass


class Grammar:
    def __init__(self):
        self.rules = {}
        self.src = {}
        cur = None
        for line in open(os.path.join(HERE, 'cypher.peg'), encoding='latin1'):
            line = line.rstrip('\n')
            if not line or line.startswith('#'):
                continue
            m = re.match(r'([a-z_]+) = (.*)$', line)
            self.src[m.group(1)] = m.group(2)
        nat = dict(_=self._layout, __=self._hlayout, line_end=self._line_end, eof=self._eof, ws=self._ws, eol=self._eol, wb=self._wb, escaped_char=self._escaped,
                   expression=lambda p: self.expr(p, 0), squote=self._quote("'", "'"), dquote=self._quote('"', '"'))
        self.rules.update(nat)
        for k in self.src:
            self.rules[k] = self._rule(k)
        self.body = {k: self._compile(s, k) for k, s in self.src.items()}
        self.op = {o: (self._kw(o, False, False) if o[0].isalpha() else self._pun(o)) for o in PREC if o[0] != 'u'}
        self.opu = {'u+': self._pun('+'), 'u-': self._pun('-')}

    # ---- state
    def start(self, text, base):
        self.t, self.n, self.memo = text, len(text), {}
        self.far, self.labels, self.lasterr = base, [], -1
        self.skips, self.errors = [], []

    def note(self, p, label):
        if p < self.far or p <= self.lasterr:
            return
        if p > self.far:
            self.far, self.labels = p, []
        if label not in self.labels:
            self.labels.append(label)

    # ---- terminals
    def _layout(self, p):
        k = ('_', p)
        e = self.memo.get(k)
        if e is None:
            e = self.memo[k] = LAYOUT.match(self.t, p).end()
            if self.t.startswith('/*', e):
                self.note(self.n, '*/')
        return e
    def _hlayout(self, p):
        e = HLAYOUT.match(self.t, p).end()
        if self.t.startswith('/*', e):
            self.note(self.n, '*/')
        return e
    def _line_end(self, p):
        m = LINEEND.match(self.t, p)
        return m.end() if m else ~p
    def _eof(self, p):
        return p if p >= self.n else ~p
    def _eol(self, p):
        t = self.t
        return p + 1 if t.startswith('\n', p) else p + 2 if t.startswith('\r\n', p) else ~p
    def _ws(self, p):
        return p + 1 if self.t[p:p + 1] in (' ', '\t') else self._eol(p)
    def _wb(self, p):
        return p if p >= self.n or self.t[p] not in SYM else ~p
    def _escaped(self, p):
        return p + 2 if self.t[p:p + 1] == '\\' and self.t[p + 1:p + 2] in ESCAPED and p + 1 < self.n else ~p
    def _quote(self, c, label):
        def f(p):
            if self.t.startswith(c, p):
                return p + 1
            self.note(p, label)
            return ~p
        return f
    def _chars(self, w):
        w = w.lower()
        def f(p):
            t = self.t
            for c in w:
                if t[p:p + 1].lower() != c:
                    return ~p
                p += 1
            return p
        return f
    def _kw(self, words, exempt, trail):
        label = LABELS.get(words, words)
        ws = [w.lower() for w in words.split()]
        lay = self._layout
        def f(p0):
            t, n = self.t, self.n
            p = p0
            first = exempt
            for i, w in enumerate(ws):
                if i:
                    p = lay(p)
                for c in w:
                    if p >= n or t[p].lower() != c:
                        if not first:
                            self.note(p, label)
                        return ~p0
                    p += 1
                    first = False
                if p < n and t[p] in SYM:
                    self.note(p, label)
                    return ~p0
            return lay(p) if trail else p
        return f
    def _pun(self, s):
        label = "'%s'" % s
        k = len(s)
        def f(p):
            if self.t.startswith(s, p):
                return p + k
            if k > 1 and p < self.n and self.n - p < k and s.startswith(self.t[p:]):
                p = self.n          # cut short by the end of the input
            self.note(p, label)
            return ~p
        return f

    # ---- rules
    def _rule(self, name):
        def f(p):
            k = (name, p)
            r = self.memo.get(k)
            if r is None:
                r = self.body[name](p)
                if r < 0:
                    r = ~p
                self.memo[k] = r
            return r
        return f

    def _compile(self, src, where):
        toks, i = [], 0
        while i < len(src):
            m = TOKEN.match(src, i)
            if not m:
                raise ValueError('%s: %r' % (where, src[i:]))
            i = m.end()
            toks.append((m.lastgroup, m.group(m.lastgroup)))
        f, i = self._alt(toks, 0)
        if i != len(toks):
            raise ValueError('%s: unread %r' % (where, toks[i:]))
        return f

    def _alt(self, toks, i):
        fs = []
        while True:
            f, i = self._seq(toks, i)
            fs.append(f)
            if i < len(toks) and toks[i] == ('op', '/'):
                i += 1
                continue
            break
        if len(fs) == 1:
            return fs[0], i
        def alt(p):
            for f in fs:
                r = f(p)
                if r >= 0:
                    return r
            return r
        return alt, i

    def _seq(self, toks, i):
        fs = []
        while i < len(toks) and toks[i] not in (('op', '/'), ('op', ')')):
            f, i = self._item(toks, i)
            fs.append(f)
        if len(fs) == 1:
            return fs[0], i
        def seq(p):
            for f in fs:
                p = f(p)
                if p < 0:
                    return p
            return p
        return seq, i

    def _item(self, toks, i):
        k, s = toks[i]
        if (k, s) in (('op', '!'), ('op', '&')):
            f, i = self._item(toks, i + 1)
            neg = s == '!'
            return (lambda p: (p if f(p) < 0 else ~p)) if neg else (lambda p: (p if f(p) >= 0 else ~p)), i
        i += 1
        if k == 'op' and s == '(':
            f, i = self._alt(toks, i)
            assert toks[i] == ('op', ')'), toks
            i += 1
        elif k == 'op' and s == '.':
            f = lambda p: p + 1 if p < self.n else ~p
        elif k == 'kw':
            ex = s[0] == '~'
            w = s.strip('~').strip('"')
            f = self._kw(w.strip(), ex, w.endswith(' '))
        elif k == 'ilit':
            f = self._chars(s[1:-2])
        elif k == 'lit':
            w = s[1:-1]
            f = (lambda w: lambda p: p + len(w) if self.t.startswith(w, p) else ~p)(w)
        elif k == 'cls':
            rx = re.compile(s)
            f = lambda p: p + 1 if p < self.n and rx.match(self.t[p]) else ~p
        elif k == 'pun':
            f = self._pun(s[1:-1])
        elif k == 'name':
            f = self.rules.get(s) or self._late(s)
        else:
            raise ValueError((k, s))
        while i < len(toks):
            k, s = toks[i]
            if k == 'label':
                f = (lambda f, l: lambda p: self._named(f, l, p))(f, s[2:-1])
            elif k == 'op' and s == '?':
                f = (lambda f: lambda p: max(p, f(p)))(f)
            elif k == 'op' and s in '*+':
                f = (lambda f, s: lambda p: self._many(f, p, s == '+'))(f, s)
            else:
                break
            i += 1
        return f, i

    def _late(self, name):
        return lambda p: self.rules[name](p)

    def _named(self, f, label, p):
        r = f(p)
        if r < 0:
            self.note(~r, label)
        return r

    def _many(self, f, p, one):
        q = f(p)
        if q < 0:
            return q if one else p
        while True:
            r = f(q)
            if r < 0:
                return q
            if r == q:
                raise Loop()
            q = r

    # ---- expressions
    def expr(self, p, prec):
        k = ('e', p, prec)
        r = self.memo.get(k)
        if r is None:
            r = self._expr(p, prec)
            if r < 0:
                r = ~p
            self.memo[k] = r
        return r

    def _expr(self, p, prec):
        R, lay, op = self.rules, self._layout, self.op
        for o, f in (('NOT', op['NOT']), ('u+', self.opu['u+']), ('u-', self.opu['u-'])):
            q = f(p)
            if q >= 0:
                q = self.expr(lay(q), PREC[o])
                if q >= 0:
                    p1 = q
                    break
                p1 = R['atom'](p)
                break
        else:
            p1 = R['atom'](p)
        if p1 < 0:
            return p1
        p = p1
        while True:
            q = self._suffix(p, prec)
            if q < 0:
                return p
            if q == p:
                raise Loop()
            p = q

    def _suffix(self, p, prec):
        R, lay, op = self.rules, self._layout, self.op
        ok = lambda o: PREC[o] >= prec
        q = op['.'](p)
        if q >= 0 and ok('.'):
            q = R['prop_name'](lay(q))
            if q >= 0:
                return q
        for o in INFIX:
            q = op[o](p)
            if q >= 0:
                q = lay(q)
                if ok(o):
                    q = self.expr(q, PREC[o] if o == '^' else PREC[o] + 1)
                    if q >= 0:
                        return q
                break
        def cmp(p):
            for o in ('<=', '>=', '<', '>'):
                q = op[o](p)
                if q >= 0:
                    q = lay(q)
                    return self.expr(q, PREC[o] + 1) if ok(o) else ~p
            return ~p
        q = self._many(cmp, p, True)
        if q >= 0:
            return q
        for o in ('IS NULL', 'IS NOT NULL'):
            q = op[o](p)
            if q >= 0:
                if ok(o):
                    return lay(q)
                break
        q = op['['](p)
        if q >= 0 and ok('['):
            q = lay(q)
            a = self.expr(q, 0)
            if a >= 0:
                b = op[']'](a)
                if b >= 0:
                    return lay(b)
                b = self._slice(a)
            if a < 0 or b < 0:
                b = self._slice(q)
            if b >= 0:
                return b
        q = op['{'](p)
        if q >= 0 and ok('{'):
            q = lay(q)
            e = R['map_projection_element'](q)
            while e >= 0:
                q = e
                c = self._comma(e)
                if c < 0:
                    break
                e = R['map_projection_element'](lay(c))
            q = self._rcurly(q)
            if q >= 0:
                return lay(q)
        return self._many(R['label'], p, True) if ok(':') else ~p

    def _slice(self, p):
        q = self._dots(p)
        if q < 0:
            return q
        q = self._layout(q)
        q = max(q, self.expr(q, 0))
        q = self.op[']'](q)
        return self._layout(q) if q >= 0 else q

    # ---- directives and recovery
    def _reify(self):
        if self.labels:
            self.errors.append((self.far, list(self.labels)))
            self.lasterr, self.far, self.labels = self.far, self.base, []

    def _skip(self, p, resync, command=False):
        s = p
        first = True
        command = command and self.t[p:p + 1] == ':'
        while True:
            if not first:
                if p >= self.n or self.rules['semicolon'](p) >= 0:
                    break
                q = self._ws(p)
                if q < 0:
                    q = self._comment(p)
                if q >= 0 and resync(q):
                    break
            q = self._part(p)
            if command and p < self.n - 1 and self.t[p] == '\\' and self.t[p + 1] in ';\'"\\':
                q = p + 2
            elif command and p < self.n and self.t[p] == '`':
                q = p + 1
            if q < 0:
                if first:
                    return ~p
                break
            p, first = q, False
        self.skips.append((s, p))
        return p

    def _comment(self, p):
        m = re.compile(r'//(?:(?!\r?\n)[\s\S])*(?:\r?\n|' + END + ')').match(self.t, p)
        if m:
            return m.end()
        if self.t.startswith('/*', p):
            e = self.t.find('*/', p + 2)
            if e >= 0:
                return e + 2
            self.note(self.n, '*/')
        return ~p

    def _part(self, p):
        t, n = self.t, self.n
        if p >= n:
            return ~p
        c = t[p]
        if c in '\'"':
            p += 1
            while p < n and t[p] != c:
                p += 2 if t[p] == '\\' and t[p + 1:p + 2] in ('\\', "'", '"') and p + 1 < n else 1
            return min(p + 1, n)
        if c == '`':
            e = t.find('`', p + 1)
            return n if e < 0 else e + 1
        if t.startswith('//', p):
            return re.compile(r'(?:(?!\r?\n)[\s\S])*').match(t, p).end()
        if t.startswith('/*', p):
            e = t.find('*/', p + 2)
            return n if e < 0 else e + 2
        return p + 1

    def directive(self, text, base, statements_only):
        """Reads one directive. Returns dict(end, kind, errors=[(pos, labels)], skips=[(start, end)], eof)."""
        self.start(text, base)
        self.base = base
        R = self.rules
        p = self._layout(base)
        while True:
            r = self._one(p, statements_only)
            if r is not None:
                end, kind = r
                break
            self._reify()
            if p < self.n:
                p = self._skip(p, self._resync_s if statements_only else self._resync_d, not statements_only)
        return dict(end=end, kind=kind, errors=self.errors, skips=self.skips, eof=end >= self.n)

    def _one(self, p, only):
        R = self.rules
        if p >= self.n:
            return p, 'none'
        q = R['semicolon'](p)
        if q >= 0:
            return q, 'none'
        if not only:
            q = R['client_command'](p)
            if q >= 0:
                return q, 'command'
        # a statement: options, then clauses with recovery between them, or a schema command
        q = self._many(R['statement_option'], p, False)
        q = self._layout(q)
        c = self._many(R['periodic_commit'], q, False)
        e = R['clause'](c)
        if e >= 0:
            while True:
                s = R['semicolon'](e)
                if s >= 0:
                    return s, 'statement'
                if e >= self.n:
                    return e, 'statement'
                s = R['clause'](e)
                if s >= 0:
                    e = s
                    continue
                self._reify()
                if e < self.n:
                    e = self._skip(e, self._resync_c)
                e = self._layout(e)
        e = R['schema_command'](q)
        if e >= 0:
            return e, 'statement'
        return None

    def _resync_c(self, p):
        return any(f(p) >= 0 for f in self.rc)
    def _resync_s(self, p):
        return self._resync_c(p) or any(f(p) >= 0 for f in self.rs)
    def _resync_d(self, p):
        return self._resync_s(p) or self.op[':'](p) >= 0


class Recogniser(Grammar):
    def __init__(self):
        super().__init__()
        self._comma, self._rcurly, self._dots = self._pun(','), self._pun('}'), self._pun('..')
        self.op.update({x: self._pun(x) for x in ('[', ']', '{', '.', ':')})
        K = lambda w: self._kw(w, True, True)
        self.rc = [K('LOAD CSV'), K('START'), K('MATCH'), K('UNWIND'), K('MERGE'), K('CREATE'), K('SET'), K('DELETE'), K('REMOVE'), K('FOREACH'), K('WITH'), K('CALL'), K('RETURN'), self._rule_drop]
        self.rs = [self._kw(w, True, False) for w in ('CYPHER', 'PROFILE', 'EXPLAIN')]

    def _rule_drop(self, p):
        q = self._chars('drop')(p)
        return self._layout(q) if q >= 0 and self._wb(q) >= 0 else ~p

    def read(self, text, statements_only=False, single=False):
        """All directives of an input, as segments."""
        out, p = [], 0
        while True:
            d = self.directive(text, p, statements_only)
            if d['end'] == p:
                break
            d['start'] = p
            out.append(d)
            if d['eof'] or single:
                break
            p = d['end']
        return out
