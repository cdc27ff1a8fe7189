"""Structural well-formedness of observed trees, from the documented roles of each node type."""
from . import gen

T = gen.load()
_isa = {}


def isa(t, c):
    k = (t, c)
    if k not in _isa:
        _isa[k] = gen.isa(T, t, c)
    return _isa[k]


ROLES = {}
for _n, _t in T.items():
    L = []
    for r in _t['roles']:
        k = r['k']
        if k in 'no':
            L.append((r['role'], k, r['cls']))
        elif k == 'l':
            L.append((r['role'], 'l', r['cls']))
        elif k == 'cmp':
            L.append(('args', 'l', ['expression']))
        elif k == 'alt':
            L += [('predicates', 'l', ['expression']), ('values', 'l', ['expression'])]
        elif k == 'ent':
            L += [('keys', 'l', ['prop_name']), ('values', 'l', ['expression'])]
    ROLES[_n] = L
# Several roles may legitimately yield one child: an exact length is both ends of its range,
# and an index hint or an item may share nothing else.
LEAVES = ('line_comment', 'block_comment', 'error')


def check(tree):
    """Yields a message per defect of one root, given as its list of nodes in pre-order."""
    nxt = 1
    parent = {}
    for i, n in enumerate(tree):
        t, rg, kids, roles = n
        if t not in T:
            yield 'node %d has the unknown type %s' % (i, t)
            continue
        if rg[2] > rg[5] or (rg[0], rg[1]) > (rg[3], rg[4]):
            yield '%s at %s ends before it starts' % (t, rg)
        for k in kids:
            if k < 0 or k >= len(tree) or k <= i:
                yield '%s: child index %s' % (t, k)
                continue
            if k in parent:
                yield 'node %d occurs twice' % k
            parent[k] = i
            c = tree[k][1]
            if c[2] < rg[2] or c[5] > rg[5]:
                yield '%s %s is not within its parent %s %s' % (tree[k][0], c, t, rg)
        reach = set()
        for role, kind, cls in ROLES[t]:
            v = roles.get(role, 'missing')
            if v == 'missing':
                yield '%s: accessor for %s gave nothing to judge' % (t, role)
                continue
            vs = v if isinstance(v, list) else [v]
            for x in vs:
                if x is None:
                    if kind != 'o':
                        if t == 'case' and role in ('predicates', 'values'):
                            yield 'case: a part of an alternative is missing'
                        else:
                            yield '%s: %s yields nothing' % (t, role)
                    continue
                if isinstance(x, bool) or not isinstance(x, int) or x not in kids:
                    yield '%s: %s yields a node that is not a child' % (t, role)
                    continue
                if not any(isa(tree[x][0], c) for c in cls):
                    yield '%s: %s yields a %s' % (t, role, tree[x][0])
                reach.add(x)
            if isinstance(v, list) and len(set(map(str, v))) != len(v):
                yield '%s: %s yields a child twice' % (t, role)
        for k in kids:
            if 0 <= k < len(tree) and k not in reach and tree[k][0] not in LEAVES:
                yield '%s: no accessor yields its child %s' % (t, tree[k][0])
        if t == 'comparison' and len(roles['ops']) + 1 != len(roles['args']):
            yield 'comparison: %d operators, %d operands' % (len(roles['ops']), len(roles['args']))
    for i in range(1, len(tree)):
        if i not in parent:
            yield 'node %d has no parent' % i
