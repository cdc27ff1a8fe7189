"""C18 annotations, against a map."""
import random
from collections import Counter
from ..core import Check, Tally, execute, survived, spread
from ..run import Case
from .. import work


class Model:
    """A map per context, and who would be told what when something is freed."""
    def __init__(self):
        self.ctx = {}       # id -> [(handler, userdata) or None, {(obj, node): val}]
        self.obj = {}       # id -> node count

    def release_node(self, o):
        out = []
        for c, (h, m) in self.ctx.items():
            for k in [k for k in m if k[0] == o]:
                v = m.pop(k)
                if h:
                    out.append(h + k + (v,))
        return out


def handler(c, h, u):
    return (h, 4 * c + u if u < 4 else -1) if h else None


DOCS = ['RETURN 1;', 'MATCH (a:B {c: 1})-[r:R]->(x) WHERE a.b > 1 RETURN a, r.x AS y ORDER BY y;', ':help me\nRETURN 1; // x', 'bad bad; RETURN [1, 2, {a: 3}]', '/* c */ RETURN CASE WHEN 1 THEN 2 END']




def w_annot(seed, n, flavour):
    t = Tally()
    # First learn how many nodes each document and kind of object has.
    docs = []
    probe = []
    for i in range(24):
        g = random.Random(seed * 48611 + i)
        d = g.choice(DOCS).encode() if g.random() < 0.4 else work.gen_doc(g, n=1, depth=g.choice((1, 2))).data if g.random() < 0.7 else work.any_input(g)[:300]
        docs.append(d)
        probe.append(Case('u', d, flags=0))
    execute(probe, flavour)
    info = []
    for c in probe:
        roots = c.out['res']['roots']
        flat, base = [], 0
        for r in roots:
            flat += [(x[0], x[1][2], base + j) for j, x in enumerate(r)]
            base += len(r)
        # the preorder extent of each node's subtree
        ext, base = [], 0
        for r in roots:
            e = [0] * len(r)
            for j in range(len(r) - 1, -1, -1):
                e[j] = 1 + sum(e[k] for k in r[j][2])
            ext += e
            base += len(r)
        info.append((flat, ext))
    cases = []
    for i in range(n):
        g = random.Random(seed * 6700417 + i)
        ops, want = [], []
        M = Model()
        meta = {}           # obj -> [(type, offset)], extents, kind
        no = nc = 0
        val = 0
        dense = g.random() < 0.5
        nops = g.choice((10, 30, 80, 200, 500))
        def newctx():
            nonlocal nc
            h, u = g.choice((0, 1, 1, 2)), g.randrange(5)
            ops.append('N %d %d' % (h, u)); want.append((0, -1, []))
            M.ctx[nc] = [handler(nc, h, u), {}]
            nc += 1
        def newobj():
            nonlocal no
            k = g.randrange(len(docs))
            kind = g.choice('rrsbc')
            ops.append('P %s %d %s' % (kind, 0, docs[k].hex() or '-'))
            meta[no] = ([x[:2] for x in info[k][0]], info[k][1], kind)
            M.obj[no] = len(info[k][0])
            want.append((0, M.obj[no], []))
            no += 1
        def scripts(o, c):
            """What the handler does at the first release when tree o or context c is
            freed: operations on other trees and contexts."""
            nonlocal val
            if g.random() < 0.4:
                return lambda: None
            handlers = {c: h for c, (h, m) in M.ctx.items()}
            any_release = any(h and any(k[0] == o for k in m) for h, m in M.ctx.values()) if o is not None else bool(M.ctx[c][0] and M.ctx[c][1])
            todo = []
            for _ in range(g.choice((1, 1, 2, 3))):
                oo = [x for x in M.obj if x != o and M.obj[x]]; cc = [x for x in M.ctx if x != c]
                if not oo or not cc:
                    break
                x = g.random(); a = g.choice(sorted(cc)); b = g.choice(oo); k = g.randrange(M.obj[b])
                keys = [(y, z) for y in cc for z in M.ctx[y][1] if z[0] != o]
                if x < 0.5 and keys:
                    a, (b, k) = g.choice(keys)
                if x < 0.25:
                    todo.append(('R', a, b, k))
                elif x < 0.4:
                    todo.append(('G', a, b, k))
                elif x < 0.6:
                    val += 1
                    todo.append(('A', a, b, k, val, 1))
                elif x < 0.8 and len(M.obj) > 2 and (c is None or not any(z[0] == b for z in M.ctx[c][1])):
                    todo.append(('F', b))
                elif len(M.ctx) > 2 and (o is None or not any(z[0] == o for z in M.ctx[a][1])):
                    todo.append(('X', a))
                if todo and todo[-1][0] in 'FX':
                    break
            if (not todo or todo[-1][0] not in 'FX') and g.random() < 0.4 and len(todo) < 4:
                # take away another of the annotations that are just being released;
                # its node is still there, as its own release has not returned
                keys = [(y, z) for y in M.ctx if M.ctx[y][0] for z in M.ctx[y][1] if z[0] == o] if o is not None else [(c, z) for z in M.ctx[c][1]] if M.ctx[c][0] else []
                if keys:
                    a, (b, k) = g.choice(keys)
                    todo.append(('R', a, b, k, 'self', M.ctx[a][1][(b, k)]))
            for d in todo:
                ops.append('S ' + ' '.join(map(str, d[:4] if d[0] == 'R' else d)))
            def told():
                w = want[-1]; got = []; rel = list(w[2])
                if any_release:
                    for d in todo:
                        t.c['operations in a release handler'] += 1
                        if d[4:5] == ('self',):
                            t.c['removals of what is being released'] += 1
                            got.append((0, ('self',) + tuple(w for w in rel if w[2:] == d[2:4] + d[5:]  and handlers.get(d[1]) == w[:2])))
                        elif d[0] == 'R':
                            got.append((0, M.ctx[d[1]][1].pop(d[2:4], -1)))
                        elif d[0] == 'G':
                            got.append((0, M.ctx[d[1]][1].get(d[2:4], -1)))
                        elif d[0] == 'A':
                            got.append((0, M.ctx[d[1]][1].get(d[2:4], -1))); M.ctx[d[1]][1][d[2:4]] = d[4]
                        elif d[0] == 'F':
                            got.append((0, -1)); rel += M.release_node(d[1]); del M.obj[d[1]]
                        else:
                            got.append((0, -1)); h, m = M.ctx.pop(d[1]); rel += [h + k + (v,) for k, v in m.items()] if h else []
                want[-1] = (w[0], w[1], rel, got)
            return told
        newctx(); newobj()
        crowd = g.random() < 0.1       # many contexts, over one or two nodes
        if crowd:
            t.c['crowded histories'] += 1
            for _ in range(g.choice((9, 16, 17, 33, 50))):
                newctx()
        for _ in range(nops):
            live = [o for o in M.obj if M.obj[o]]
            x = g.random()
            if x < 0.03 and nc < 12 or not M.ctx:
                if nc < 60:
                    newctx()
                continue
            if x < 0.07 and no < 16 or not M.obj:
                if no < 60:
                    newobj()
                continue
            if x < 0.10 and live and no < 16:
                o = g.choice(live); k = g.randrange(M.obj[o])
                ops.append('K %d %d' % (o, k))
                e = meta[o][1][k]
                meta[no] = (meta[o][0][k:k + e], meta[o][1][k:k + e], 'k')
                M.obj[no] = e
                want.append((0, e, []))
                no += 1
                continue
            if x < 0.125 and len(M.obj) > 1:
                o = g.choice(sorted(M.obj))
                told = scripts(o, None)
                c = 'D' if meta[o][2] in 'bck' and g.random() < 0.5 else 'F'
                ops.append('%s %d' % (c, o))
                want.append((0, -1, M.release_node(o)))
                del M.obj[o]
                told()
                continue
            if x < 0.145 and len(M.ctx) > 1:
                c = g.choice(sorted(M.ctx))
                told = scripts(None, c)
                h, m = M.ctx.pop(c)
                ops.append('X %d' % c)
                want.append((0, -1, [h + k + (v,) for k, v in m.items()] if h else []))
                told()
                continue
            if x < 0.17:
                c = g.choice(sorted(M.ctx)); h, u = g.randrange(3), g.randrange(5)
                if h and M.ctx[c][0]:
                    t.c['handlers replaced'] += 1
                ops.append('H %d %d %d' % (c, h, u)); M.ctx[c][0] = handler(c, h, u)
                want.append((0, -1, []))
                continue
            if not live:
                continue
            c = g.choice(sorted(M.ctx)); o = g.choice(live); k = g.randrange(min(M.obj[o], 2) if crowd else min(M.obj[o], 4) if dense else M.obj[o])
            m = M.ctx[c][1]
            if x < 0.55:
                val += 1
                v = val
                if flavour == 'ndebug' and g.random() < 0.05:
                    ops.append('A %d %d %d 0 1' % (c, o, k)); want.append((-1, -2, []))
                    continue
                p = g.random() < 0.8
                ops.append('A %d %d %d %d %d' % (c, o, k, v, p))
                want.append((0, m.get((o, k), -1) if p else -2, []))
                m[(o, k)] = v
            elif x < 0.75:
                ops.append('G %d %d %d' % (c, o, k)); want.append((0, m.get((o, k), -1), []))
            else:
                ops.append('R %d %d %d' % (c, o, k)); want.append((0, m.pop((o, k), -1), []))
        # every remaining value is looked up, and everything is freed, in any order
        for c in sorted(M.ctx):
            for (o, k), v in sorted(M.ctx[c][1].items()):
                ops.append('G %d %d %d' % (c, o, k)); want.append((0, v, []))
        ops.append('Z'); want.append((0, -1, []))
        rest = [('o', o) for o in M.obj] + [('c', c) for c in M.ctx]
        g.shuffle(rest)
        for w, x in rest:
            if w == 'o':
                ops.append('F %d' % x); want.append((0, -1, M.release_node(x)))
            else:
                h, m = M.ctx.pop(x)
                ops.append('X %d' % x); want.append((0, -1, [h + k + (v,) for k, v in m.items()] if h else []))
        c = Case('annot', '\n'.join(ops))
        c.tag = (ops, want, meta)
        cases.append(c)
    execute(cases, flavour, extra=('annot',))
    for c in cases:
        t.saw(c, extra=flavour)
        if not survived(t, c, '[%s] ' % flavour):
            continue
        ops, want, meta = c.tag
        log = c.out['log']
        n0 = t.nviol
        t.c['histories'] += 1
        t.kind('distinct histories', hash(tuple(o[0] for o in ops)))
        if len(log) != len(want):
            t.violate('history', 'the driver ran %d of %d operations' % (len(log), len(want)), [c]); continue
        for j, (o, w, l) in enumerate(zip([x for x in ops if x[0] != 'S'], want, log)):
            op = o[0]
            t.c['operations ' + {'A': 'attach', 'G': 'get', 'R': 'remove', 'F': 'free tree', 'D': 'free node by node', 'X': 'free context', 'P': 'parse', 'K': 'clone', 'N': 'new context', 'H': 'set handler', 'Z': 'free nothing'}[op]] += 1
            if op == 'A' and w[1] > 0:
                t.c['values replaced'] += 1
            if op == 'R' and w[1] > 0:
                t.c['values removed'] += 1
            where = 'operation %d (%s)' % (j, o[:60])
            if op == 'H':
                pass
            if (l[0], l[1]) != (w[0], w[1]):
                t.violate('annotation ' + {'A': 'attach', 'G': 'lookup', 'R': 'remove'}.get(op, op), '%s: returned %s, value %s; a map gives %s, value %s' % (where, l[0], l[1], w[0], w[1]), [c])
                break
            exp = Counter(w[2])
            if len(w) > 3:
                w = list(w); w[3] = list(w[3])
                for i, x in enumerate(w[3]):
                    if isinstance(x[1], tuple) and i < len(l[3]):
                        # either it had been released, or it is given back and is not
                        v = l[3][i][1]
                        w[3][i] = (0, -1)
                        if v == x[1][1][4]:
                            w[3][i] = (0, v); exp[x[1][1]] -= 1; exp += Counter()
                            t.c['removed while being released'] += 1
            if len(w) > 3 and [tuple(x) for x in l[3]] != w[3]:
                t.violate('annotation in handler', '%s: the operations of a release handler returned %s; a map gives %s' % (where, l[3], w[3]), [c])
                break
            got = Counter(tuple(e[:5]) for e in l[2])
            t.c['releases observed'] += sum(got.values())
            if got != exp:
                t.violate('annotation release', '%s: releases [handler, userdata, tree, node, value] not expected: %s; missing: %s' % (where, list((got - exp).items())[:4], list((exp - got).items())[:4]), [c])
                break
            for e in l[2]:
                if e[2] in meta and (e[5], e[6]) != tuple(meta[e[2]][0][e[3]]):
                    t.violate('annotation release node', '%s: in the handler, node %s reads as %s at %s, it is %s' % (where, e[3], e[5], e[6], meta[e[2]][0][e[3]]), [c])
                    break
        if c.out['rest'] and t.nviol == n0:
            t.violate('history', '%d objects remain that should have been freed' % c.out['rest'], [c])
        if c.out['leak']:
            t.violate('leak', '%d blocks remain after everything was freed' % c.out['leak'], [c])
    return t


def plan_c18(tier, seed):
    q = tier == 'quick'
    return spread(w_annot, seed, 7500 if q else 120000, 75, flavour='asan') + spread(w_annot, seed + 1, 2000 if q else 30000, 50, flavour='ndebug')


CHECKS = {
    'C18': Check('C18', plan_c18, ['asan', 'ndebug'], 'Random histories of 10 to 500 attach, get, remove, handler, clone, parse and free operations over several contexts and trees (results, retained segments, rebuilt trees, clones), freed whole or node by node, in any order, with further operations from within release handlers; every returned value and every release compared with a map. Non-trivial: distinct history.',
                 {'histories': 2500, 'crowded histories': 100, 'releases observed': 30000, 'values replaced': 5000, 'values removed': 5000, 'operations free node by node': 300, 'operations free context': 2000, 'operations clone': 500, 'handlers replaced': 1000, 'operations in a release handler': 1000, 'removed while being released': 400}),
}
