"""Generates the node table (nodes.c) from harness/spec.txt."""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, '..', 'harness', 'spec.txt')
ABSTRACT = {  # name -> parents
    'statement_option': [], 'schema_command': [], 'query_option': [], 'query_clause': [],
    'start_point': [], 'match_hint': [], 'merge_action': [], 'set_item': [], 'remove_item': [],
    'expression': [], 'boolean': ['expression'], 'comment': [], 'map_projection_selector': [],
}

def load():
    types = {}
    for line in open(SPEC):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        m = re.match(r'(\w+) \(([\w ]*)\):\s*(.*)$', line)
        name, parents, rest = m.group(1), m.group(2).split(), m.group(3)
        roles = []
        for part in filter(None, (p.strip() for p in rest.split(';'))):
            f = part.split()
            k = f[0]
            if k in 'no':
                roles.append(dict(k=k, role=f[1], get=f[2], cls=f[3].split('|')))
            elif k == 'l':
                roles.append(dict(k=k, role=f[1], cnt=f[2], get=f[3], cls=f[4].split('|')))
            elif k in ('b', 's', 'op', 'dir'):
                roles.append(dict(k=k, role=f[1], get=f[2]))
            elif k in ('cmp', 'alt', 'ent'):
                roles.append(dict(k=k))
            else:
                raise ValueError(part)
        types[name] = dict(name=name, parents=parents, roles=roles)
    return types

def parents_of(types, n):
    return types[n]['parents'] if n in types else ABSTRACT[n]

def isa(types, n, target):
    return n == target or any(isa(types, p, target) for p in parents_of(types, n))

def fn(t, g):
    return 'cypher_ast_' + (g[1:] if g.startswith('@') else '%s_%s' % (t, g))

def generate(out):
    T = load()
    o = ['#include "vf.h"', '']
    for t in T.values():
        n = t['name']
        o.append('static void roles_%s(const cypher_astnode_t *n, vf_map *m, S *o)\n{\n    (void)n; (void)m; (void)o;' % n)
        for r in t['roles']:
            k = r['k']
            if k in 'no':
                o.append('    r_node(o, m, "%s", %s(n));' % (r['role'], fn(n, r['get'])))
            elif k == 'l':
                o.append('    r_list(o, m, "%s", n, %s(n), %s);' % (r['role'], fn(n, r['cnt']), fn(n, r['get'])))
            elif k == 'b':
                o.append('    r_bool(o, "%s", %s(n));' % (r['role'], fn(n, r['get'])))
            elif k == 's':
                o.append('    r_str(o, "%s", %s(n));' % (r['role'], fn(n, r['get'])))
            elif k == 'op':
                o.append('    r_str(o, "%s", op_name(%s(n)));' % (r['role'], fn(n, r['get'])))
            elif k == 'dir':
                o.append('    { enum cypher_rel_direction d = %s(n); r_str(o, "%s", d == CYPHER_REL_INBOUND ? "in" : d == CYPHER_REL_OUTBOUND ? "out" : d == CYPHER_REL_BIDIRECTIONAL ? "both" : "?"); }' % (fn(n, r['get']), r['role']))
            elif k == 'cmp':
                o.append('''    unsigned len = cypher_ast_comparison_get_length(n);
    r_list(o, m, "args", n, len + 1, cypher_ast_comparison_get_argument);
    s_puts(o, ",\\"ops\\":[");
    for (unsigned i = 0; i < len; ++i) { const char *p = op_name(cypher_ast_comparison_get_operator(n, i)); s_puts(o, i ? "," : ""); s_json(o, p, strlen(p)); }
    s_puts(o, "]");
    if (cypher_ast_comparison_get_operator(n, len) || cypher_ast_comparison_get_operator(n, UINT_MAX)) vf_chk(m, "comparison: out-of-range operator");''')
            elif k == 'alt':
                o.append('''    unsigned na = cypher_ast_case_nalternatives(n);
    r_list(o, m, "predicates", n, na, cypher_ast_case_get_predicate);
    r_list(o, m, "values", n, na, cypher_ast_case_get_value);''')
            elif k == 'ent':
                o.append('''    unsigned ne = cypher_ast_map_nentries(n);
    r_list(o, m, "keys", n, ne, cypher_ast_map_get_key);
    r_list(o, m, "values", n, ne, cypher_ast_map_get_value);''')
        o.append('}')
        # rebuild
        pre, args, post, a = [], [], [], 0
        argcls = []
        leaf = all(r['k'] not in ('n', 'o', 'l', 'cmp', 'alt', 'ent') for r in t['roles'])
        for r in t['roles']:
            k = r['k']
            if k in 'no':
                args.append('rb_arg(m, %s(n), %d)' % (fn(n, r['get']), a)); argcls.append((k, r['cls'])); a += 1
            elif k == 'l':
                pre.append('unsigned c%d = %s(n); cypher_astnode_t **l%d = rb_list(m, n, c%d, %s, %d);' % (a, fn(n, r['cnt']), a, a, fn(n, r['get']), a))
                args += ['l%d' % a, 'c%d' % a]; post.append('free(l%d);' % a); argcls.append(('l', r['cls'])); a += 1
            elif k in 'b' or k in ('op', 'dir'):
                args.append('%s(n)' % fn(n, r['get']))
            elif k == 's':
                args += ['%s(n)' % fn(n, r['get']), 'strlen(%s(n))' % fn(n, r['get'])]
            elif k == 'cmp':
                pre.append('unsigned len = cypher_ast_comparison_get_length(n); cypher_astnode_t **l0 = rb_list(m, n, len + 1, cypher_ast_comparison_get_argument, 0);'
                           ' const cypher_operator_t **ops = calloc(len + 1, sizeof(*ops)); for (unsigned i = 0; i < len; ++i) ops[i] = cypher_ast_comparison_get_operator(n, i);')
                args += ['len', 'ops', 'l0']; post += ['free(l0);', 'free(ops);']; argcls.append(('l', ['expression'])); a += 1
            elif k == 'alt':
                pre.append('unsigned na = cypher_ast_case_nalternatives(n); cypher_astnode_t **ps = rb_list(m, n, na, cypher_ast_case_get_predicate, %d), **vs = rb_list(m, n, na, cypher_ast_case_get_value, %d);'
                           ' cypher_astnode_t **al = calloc(2 * na + 1, sizeof(*al)); for (unsigned i = 0; i < na; ++i) { al[2*i] = ps[i]; al[2*i+1] = vs[i]; }' % (a, a + 1))
                args += ['al', 'na']; post += ['free(ps);', 'free(vs);', 'free(al);']; argcls += [('l', ['expression'])] * 2; a += 2
            elif k == 'ent':
                pre.append('unsigned ne = cypher_ast_map_nentries(n); cypher_astnode_t **ks = rb_list(m, n, ne, cypher_ast_map_get_key, 0), **vs = rb_list(m, n, ne, cypher_ast_map_get_value, 1);')
                args += ['ks', 'vs', 'ne']; post += ['free(ks);', 'free(vs);']; argcls += [('l', ['prop_name']), ('l', ['expression'])]; a += 2
        has_children = not (leaf and (n in ('explain_option', 'profile_option', 'true', 'false', 'null') or any(r['k'] == 's' for r in t['roles'])))
        t['argcls'] = argcls
        o.append('static cypher_astnode_t *rebuild_%s(const cypher_astnode_t *n, vf_map *m, cypher_astnode_t **ch, unsigned nch)\n{\n    (void)m; (void)ch; (void)nch;' % n)
        o += ['    ' + p for p in pre]
        tail = ['ch', 'nch'] if has_children else []
        call = 'cypher_ast_%s(%s)' % (n, ', '.join(args + tail + ['cypher_astnode_range(n)']))
        if n == 'map':
            # either of its constructors
            pre.append('cypher_astnode_t **kv = calloc(2 * ne + 1, sizeof(*kv)); for (unsigned i = 0; i < ne; ++i) { kv[2*i] = ks[i]; kv[2*i+1] = vs[i]; }')
            o.append('    ' + pre[-1])
            post.append('free(kv);')
            call = 'cypher_astnode_range(n).start.offset % 2 ? cypher_ast_pair_map(kv, ne, ch, nch, cypher_astnode_range(n)) : ' + call
        o.append('    cypher_astnode_t *r = %s;' % call)
        o.append('    int e = errno;')
        o += ['    ' + p for p in post]
        o.append('    errno = e;\n    return r;\n}')
        o.append('static const char *const par_%s[] = { %s };' % (n, ', '.join(['"%s"' % p for p in t['parents']] + ['NULL'])))
    for n, ps in ABSTRACT.items():
        o.append('static const char *const par_%s[] = { %s };' % (n, ', '.join(['"%s"' % p for p in ps] + ['NULL'])))
    o.append('const struct vf_type vf_types[] = {')
    for t in T.values():
        n = t['name']
        o.append('    { "%s", &CYPHER_AST_%s, roles_%s, rebuild_%s, par_%s, %d },' % (n, n.upper(), n, n, n, len(t['argcls'])))
    o.append('};\nconst unsigned vf_ntypes = sizeof(vf_types) / sizeof(vf_types[0]);')
    o.append('const struct vf_text vf_texts[] = {')
    for t in T.values():
        if [r['k'] for r in t['roles']] == ['s']:
            o.append('    { "%s", &CYPHER_AST_%s, cypher_ast_%s, %s },' % (t['name'], t['name'].upper(), t['name'], fn(t['name'], t['roles'][0]['get'])))
    o.append('};\nconst unsigned vf_ntexts = sizeof(vf_texts) / sizeof(vf_texts[0]);')
    o.append('const struct vf_abstract vf_abstracts[] = {')
    for n in ABSTRACT:
        o.append('    { "%s", &CYPHER_AST_%s, par_%s },' % (n, n.upper(), n))
    o.append('};\nconst unsigned vf_nabstracts = sizeof(vf_abstracts) / sizeof(vf_abstracts[0]);')
    # operand classes, for refused constructions
    o.append('struct vf_argcls { const char *type; unsigned arg; char kind; const char *cls[3]; };')
    o.append('const struct vf_argcls vf_argclasses[] = {')
    for t in T.values():
        for i, (k, c) in enumerate(t['argcls']):
            o.append('    { "%s", %d, \'%s\', { %s } },' % (t['name'], i, k, ', '.join(['"%s"' % x for x in c] + ['NULL'])))
    o.append('};\nconst unsigned vf_nargclasses = sizeof(vf_argclasses) / sizeof(vf_argclasses[0]);')
    open(out, 'w').write('\n'.join(o) + '\n')

if __name__ == '__main__':
    generate(sys.argv[1])
