"""Oracles over what the driver observed."""
import bisect, re

CSPACE = ' \t\n\v\f\r'


class Index:
    """line/column of every offset, from the text alone: lines end at LF or CRLF, columns count bytes from 1."""
    def __init__(self, text, pos=(1, 1, 0)):
        self.text, self.base = text, pos
        self.starts = [0] + [i + 1 for i, c in enumerate(text) if c == '\n']
    def at(self, off):
        """off: absolute offset as reported."""
        o = off - self.base[2]
        k = bisect.bisect_right(self.starts, o) - 1
        return [self.base[0] + k, o - self.starts[k] + (self.base[1] if k == 0 else 1), off]
    def check(self, p):
        o = p[2] - self.base[2]
        if o < 0 or o > len(self.text):
            return 'offset %d outside the input (%d bytes)' % (p[2], len(self.text))
        if list(p) != self.at(p[2]):
            return 'position %s does not denote offset %d, which is at %s' % (p[:2], p[2], self.at(p[2])[:2])
        return None


def comments_and_blanks(s):
    """Is s only blanks, comments and line continuations (layout)?"""
    return re.fullmatch(r'(?:[ \t\n\r]|//[^\n]*(?:\n|$)|/\*.*?\*/|\\)*', s, re.S) is not None


def refs(node):
    """Indexes a node's accessors yielded, in role order, without repetition."""
    out = []
    for k, v in node[3].items():
        if k == '':
            continue
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, int) and not isinstance(x, bool):
                out.append(x)
    return out


class Diff(list):
    def add(self, kind, msg):
        if len(self) < 12:
            self.append((kind, msg))


OPTYPES = ('unary_operator', 'binary_operator', 'comparison', 'property_operator', 'subscript_operator', 'slice_operator',
           'map_projection', 'labels_operator')


def compare(tree, exp, r, text, base=0, diff=None, nextlimit=None):
    """Compares one observed root (list of nodes in pre-order) with the expected tree of
    rendered directive r. base: offset added to rendered offsets to get reported ones."""
    d = Diff() if diff is None else diff
    offs = r.offs
    nodes = {i: n for i, n in enumerate(tree)}
    seen = set()
    starts = [o[0] for o in offs]

    def limit(e):
        # where the token after e starts: layout extends up to there
        return offs[e + 1][0] if e + 1 < len(offs) else (r.end if nextlimit is None else nextlimit)

    def walk(i, n, path):
        if i is None or i not in nodes:
            d.add('structure', '%s: expected %s, accessor yields nothing' % (path, n.t)); return
        a = nodes[i]
        if a[0] != n.t:
            d.add('operator' if a[0] in OPTYPES or n.t in OPTYPES else 'structure', '%s: expected %s, found %s at %s' % (path, n.t, a[0], a[1])); return
        if i in seen and n.flag != 'again':
            d.add('structure', '%s: node %d (%s) is reached twice' % (path, i, a[0]))
        seen.add(i)
        s, e = offs[n.s][0] + base, offs[n.e][1] + base
        sb, se = a[1][2], a[1][5]
        if n.t in ('query', 'statement'):
            # includes its terminator
            if sb != s:
                d.add('position', '%s %s starts at %d, its first character is at %d' % (path, n.t, sb, s))
            if se < e or se > r.end + base:
                d.add('position', '%s %s ends at %d, outside [%d, %d]' % (path, n.t, se, e, r.end + base))
        elif n.flag == 'range':
            after = limit(n.s) + base
            if sb != s and sb != after and not (n.r['start'] is None and n.r['end'] is None and s < sb <= after):
                d.add('position', '%s range starts at %d, expected %d or %d' % (path, sb, s, after))
            if se < e or se > limit(n.e) + base:
                d.add('position', '%s range ends at %d, outside [%d, %d]' % (path, se, e, limit(n.e) + base))
        else:
            if sb != s:
                d.add('position', '%s %s starts at %d, its first character is at %d' % (path, n.t, sb, s))
            if se < e or se > limit(n.e) + base:
                d.add('position', '%s %s ends at %d, outside [%d, %d]' % (path, n.t, se, e, limit(n.e) + base))
        got = {k: v for k, v in a[3].items() if k != ''}
        if n.flag == 'implied':
            want = text[sb - base:se - base].strip(CSPACE)
            if got.get('value') != want:
                d.add('value', '%s implied name is %r, the text is %r' % (path, got.get('value'), want))
            return
        if set(got) != set(n.r):
            d.add('structure', '%s %s: roles %s, expected %s' % (path, n.t, sorted(got), sorted(n.r))); return
        for k, v in n.r.items():
            g = got[k]
            p = path + '.' + k
            if isinstance(v, list) and (not v or isinstance(v[0], list) is False and hasattr(v[0], 't')):
                if not isinstance(g, list) or len(g) != len(v):
                    d.add('structure', '%s: %s items, expected %d' % (p, len(g) if isinstance(g, list) else g, len(v)))
                else:
                    for j, (x, y) in enumerate(zip(g, v)):
                        walk(x, y, '%s[%d]' % (p, j))
            elif hasattr(v, 't'):
                if n.t == 'range' and k == 'end' and v is n.r['start']:
                    if g != got['start']:
                        d.add('structure', '%s: the end of an exact length is not its start' % p)
                    continue
                walk(g, v, p)
            elif g != v:
                kind = 'value' if isinstance(v, str) and k == 'value' else 'operator' if k in ('op', 'ops') else 'structure'
                d.add(kind, '%s of %s is %r, expected %r' % (p, n.t, g, v))
    walk(0, exp, exp.t)
    extra = [n for i, n in nodes.items() if i not in seen and n[0] not in ('line_comment', 'block_comment')]
    if extra and not d:
        d.add('structure', 'unexpected node %s at %s' % (extra[0][0], extra[0][1]))
    return d


def comments_of(tree):
    return [(n[1][2], n[1][5], n[0], n[3].get('value')) for n in tree if n[0] in ('line_comment', 'block_comment')]


def strip_positions(tree, text=None):
    """A tree without positions and comment nodes, for comparing meaning. Implied names are
    replaced by a mark, as they quote the layout."""
    def w(i):
        n = tree[i]
        r = {}
        for k, v in n[3].items():
            if isinstance(v, list):
                r[k] = tuple(w(x) if isinstance(x, int) and not isinstance(x, bool) else x for x in v)
            elif isinstance(v, int) and not isinstance(v, bool):
                r[k] = w(v)
            else:
                r[k] = v
        if n[0] == 'projection' and isinstance(n[3].get('alias'), int):
            al = tree[n[3]['alias']]
            if al[1][2] == n[1][2] and al[1][5] >= tree[n[3]['expression']][1][5]:
                r['alias'] = '<implied>'
        return (n[0],) + tuple(sorted(r.items(), key=lambda x: x[0]))
    return w(0)


LAY = r'(?:\s|//[^\n]*\n|/\*.*?\*/)*'


def odd_terminator(seg):
    """A segment of malformed input about whose end nothing is claimed, since the language leaves
    it ambiguous: a client command (where quoting and escaping differ from statements), one whose
    statement options have values (which may hold quotes, comment openers and semicolons), and
    one ending with an escaped semicolon."""
    return bool(re.match(LAY + ':', seg, re.S) or re.match(LAY + r'(?:(?:explain|profile)\b' + LAY + r')*cypher\b.*=', seg, re.S | re.I)
                or seg.endswith('\\;'))


def odd_segments(segs, data):
    """Does the input hold a malformed segment about whose end nothing is claimed?"""
    return any(s['errs'] and odd_terminator(data[s['rg'][2]:s['rg'][5]].decode('latin1')) for s in segs)
