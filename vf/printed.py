"""What printing a tree must yield, written from the accessors' values alone."""
TYPESTR = {
    'all': 'all', 'all_nodes_scan': 'all nodes scan', 'all_rels_scan': 'all rels scan', 'any': 'any', 'apply_all_operator': 'apply all',
    'apply_operator': 'apply', 'binary_operator': 'binary operator', 'block_comment': 'block_comment', 'call': 'CALL', 'case': 'case',
    'collection': 'collection', 'command': 'command', 'comparison': 'comparison', 'create': 'CREATE',
    'create_node_prop_constraint': 'create node prop constraint', 'create_node_props_index': 'CREATE INDEX',
    'create_rel_prop_constraint': 'create rel prop constraint', 'cypher_option': 'CYPHER', 'cypher_option_param': 'cypher parameter', 'delete': 'DELETE',
    'drop_node_prop_constraint': 'drop node prop constraint', 'drop_node_props_index': 'DROP INDEX',
    'drop_rel_prop_constraint': 'drop rel prop constraint', 'error': 'error', 'explain_option': 'EXPLAIN', 'extract': 'extract', 'false': 'FALSE',
    'filter': 'filter', 'float': 'float', 'foreach': 'FOREACH', 'function_name': 'function name', 'identifier': 'identifier', 'index_name': 'index name',
    'integer': 'integer', 'label': 'label', 'labels_operator': 'has labels', 'line_comment': 'line_comment', 'list_comprehension': 'list comprehension',
    'load_csv': 'LOAD CSV', 'map': 'map', 'map_projection': 'map projection', 'map_projection_all_properties': 'all properties projection',
    'map_projection_identifier': 'identifier projection', 'map_projection_literal': 'literal projection', 'map_projection_property': 'property projection',
    'match': 'MATCH', 'merge': 'MERGE', 'merge_properties': 'merge properties', 'named_path': 'named path', 'node_id_lookup': 'node id lookup',
    'node_index_lookup': 'node index lookup', 'node_index_query': 'node index query', 'node_pattern': 'node pattern', 'none': 'none', 'null': 'NULL',
    'on_create': 'ON CREATE', 'on_match': 'ON MATCH', 'order_by': 'ORDER BY', 'parameter': 'parameter', 'pattern': 'pattern',
    'pattern_comprehension': 'pattern comprehension', 'pattern_path': 'pattern path', 'proc_name': 'proc name', 'profile_option': 'PROFILE',
    'projection': 'projection', 'prop_name': 'prop name', 'property_operator': 'property', 'query': 'query', 'range': 'range', 'reduce': 'reduce',
    'rel_id_lookup': 'rel id lookup', 'rel_index_lookup': 'rel index lookup', 'rel_index_query': 'rel index query', 'rel_pattern': 'rel pattern',
    'reltype': 'rel type', 'remove': 'REMOVE', 'remove_labels': 'remove labels', 'remove_property': 'remove property', 'return': 'RETURN', 'set': 'SET',
    'set_all_properties': 'set all properties', 'set_labels': 'set labels', 'set_property': 'set property', 'shortest_path': 'shortestPath',
    'single': 'single', 'slice_operator': 'slice', 'sort_item': 'sort item', 'start': 'START', 'statement': 'statement', 'string': 'string',
    'subscript_operator': 'subscript', 'true': 'TRUE', 'unary_operator': 'unary operator', 'union': 'UNION', 'unwind': 'UNWIND',
    'using_index': 'USING INDEX', 'using_join': 'USING JOIN', 'using_periodic_commit': 'USING PERIODIC_COMMIT', 'using_scan': 'USING SCAN', 'with': 'WITH',
}


def seq(xs, o):
    return '[' + ', '.join('@%d' % o(x) for x in xs) + ']'


def detail(node, o):
    """The detail text of a node; o maps a node's index in its tree to its number."""
    t, r = node[0], node[3]
    def a(k):
        return '@%d' % o(r[k])
    def opt(k, fmt, none=''):
        return fmt % ('@%d' % o(r[k])) if r.get(k) is not None else none
    def lst(k):
        return seq(r[k], o)
    if t in ('explain_option', 'profile_option', 'true', 'false', 'null'):
        return ''
    if t in ('identifier', 'function_name', 'index_name', 'proc_name', 'prop_name'):
        return '`%s`' % r['value']
    if t in ('label', 'reltype'):
        return ':`%s`' % r['value']
    if t in ('integer', 'float'):
        return r['value']
    if t == 'string':
        return '"%s"' % r['value']
    if t == 'parameter':
        return '$`%s`' % r['value']
    if t == 'line_comment':
        return '//' + r['value']
    if t == 'block_comment':
        return '/*%s*/' % r['value']
    if t == 'error':
        return '>>%s<<' % r['value']
    if t == 'statement':
        return ('options=%s, ' % lst('options') if r['options'] else '') + 'body=' + a('body')
    if t == 'cypher_option':
        return ', '.join([s for s in (opt('version', 'version=%s'), 'params=' + lst('params') if r['params'] else '') if s])
    if t == 'cypher_option_param':
        return a('name') + ' = ' + a('value')
    if t in ('create_node_props_index', 'drop_node_props_index'):
        return 'ON=:%s(%s)' % (a('label'), lst('prop_names')[1:-1])
    if t in ('create_node_prop_constraint', 'drop_node_prop_constraint', 'create_rel_prop_constraint', 'drop_rel_prop_constraint'):
        return 'ON=(%s:%s), expression=%s%s' % (a('identifier'), a('label' if 'node' in t else 'reltype'), a('expression'), ', IS UNIQUE' if r['unique'] else '')
    if t == 'query':
        return 'clauses=' + lst('clauses')
    if t == 'using_periodic_commit':
        return opt('limit', 'limit=%s')
    if t == 'load_csv':
        return '%surl=%s, identifier=%s%s' % ('WITH HEADERS, ' if r['with_headers'] else '', a('url'), a('identifier'), opt('field_terminator', ', field_terminator=%s'))
    if t == 'start':
        return 'points=%s%s' % (lst('points'), opt('predicate', ', WHERE=%s'))
    if t in ('node_index_lookup', 'rel_index_lookup'):
        return '%s = %s:%s(%s = %s)' % (a('identifier'), t.split('_')[0], a('index_name'), a('prop_name'), a('lookup'))
    if t in ('node_index_query', 'rel_index_query'):
        return '%s = %s:%s(%s)' % (a('identifier'), t.split('_')[0], a('index_name'), a('query'))
    if t in ('node_id_lookup', 'rel_id_lookup'):
        return '%s = %s(%s)' % (a('identifier'), t.split('_')[0], lst('ids')[1:-1])
    if t in ('all_nodes_scan', 'all_rels_scan'):
        return 'identifier=' + a('identifier')
    if t == 'match':
        return '%spattern=%s%s%s' % ('OPTIONAL, ' if r['optional'] else '', a('pattern'), ', hints=' + lst('hints') if r['hints'] else '', opt('predicate', ', where=%s'))
    if t == 'using_index':
        return '%s:%s(%s)' % (a('identifier'), a('label'), a('prop_name'))
    if t == 'using_join':
        return 'on=' + lst('identifiers')
    if t == 'using_scan':
        return '%s:%s' % (a('identifier'), a('label'))
    if t == 'merge':
        return 'path=%s%s' % (a('path'), ', action' + lst('actions') if r['actions'] else '')
    if t in ('on_match', 'on_create', 'set', 'remove', 'order_by'):
        return 'items=' + lst('items')
    if t == 'create':
        return '%spattern=%s' % ('UNIQUE, ' if r['unique'] else '', a('pattern'))
    if t == 'set_property':
        return '%s = %s' % (a('property'), a('expression'))
    if t == 'set_all_properties':
        return '%s = %s' % (a('identifier'), a('expression'))
    if t == 'merge_properties':
        return '%s += %s' % (a('identifier'), a('expression'))
    if t in ('set_labels', 'remove_labels'):
        return a('identifier') + ''.join(':@%d' % o(x) for x in r['labels'])
    if t == 'delete':
        return '%sexpressions=%s' % ('DETACH, ' if r['detach'] else '', lst('expressions'))
    if t == 'remove_property':
        return 'prop=' + a('property')
    if t == 'foreach':
        return '[%s IN %s | %s]' % (a('identifier'), a('expression'), lst('clauses')[1:-1])
    if t in ('with', 'return'):
        h = [x for x in ('DISTINCT' if r['distinct'] else '', '*' if r['include_existing'] else '') if x]
        return ', '.join(h + ['projections=' + lst('projections')]) + opt('order_by', ', ORDER BY=%s') + opt('skip', ', SKIP=%s') + opt('limit', ', LIMIT=%s') + (opt('predicate', ', WHERE=%s') if t == 'with' else '')
    if t == 'unwind':
        return 'expression=%s, alias=%s' % (a('expression'), a('alias'))
    if t == 'call':
        return 'name=' + a('proc_name') + (', args=' + lst('args') if r['args'] else '') + (', YIELD=' + lst('projections') if r['projections'] else '') + opt('predicate', ', WHERE=%s')
    if t == 'projection':
        return 'expression=' + a('expression') + opt('alias', ', alias=%s')
    if t == 'sort_item':
        return 'expression=%s, %s' % (a('expression'), 'ASCENDING' if r['ascending'] else 'DESCENDING')
    if t == 'union':
        return 'ALL' if r['all'] else ''
    if t == 'unary_operator':
        return '%s %s' % (r['op'].lstrip('u') if r['op'] in ('u+', 'u-') else r['op'], a('arg'))
    if t == 'binary_operator':
        return '%s %s %s' % (a('arg1'), r['op'], a('arg2'))
    if t == 'comparison':
        return ''.join('@%d %s ' % (o(x), p) for x, p in zip(r['args'], r['ops'])) + '@%d' % o(r['args'][-1])
    if t == 'apply_operator':
        return '%s(%s%s)' % (a('func_name'), 'DISTINCT ' if r['distinct'] else '', lst('args')[1:-1])
    if t == 'apply_all_operator':
        return '%s(%s*)' % (a('func_name'), 'DISTINCT ' if r['distinct'] else '')
    if t == 'property_operator':
        return '%s.%s' % (a('expression'), a('prop_name'))
    if t == 'subscript_operator':
        return '%s[%s]' % (a('expression'), a('subscript'))
    if t == 'slice_operator':
        return '%s[%s..%s]' % (a('expression'), opt('start', '%s'), opt('end', '%s'))
    if t == 'map_projection':
        return '%s{%s}' % (a('expression'), lst('selectors')[1:-1])
    if t == 'map_projection_literal':
        return '%s: %s' % (a('prop_name'), a('expression'))
    if t == 'map_projection_property':
        return '.' + a('prop_name')
    if t == 'map_projection_identifier':
        return a('identifier')
    if t == 'map_projection_all_properties':
        return '.*'
    if t == 'labels_operator':
        return a('expression') + ''.join(':@%d' % o(x) for x in r['labels'])
    if t in ('list_comprehension', 'filter', 'extract', 'all', 'any', 'single', 'none'):
        return '[%s IN %s%s%s]' % (a('identifier'), a('expression'), opt('predicate', ' WHERE %s'), opt('eval', ' | %s'))
    if t == 'pattern_comprehension':
        return '[%s%s %s| %s]' % (opt('identifier', '%s = '), a('pattern'), opt('predicate', 'WHERE %s '), a('eval'))
    if t == 'reduce':
        return '[%s=%s, %s IN %s%s]' % (a('accumulator'), a('init'), a('identifier'), a('expression'), opt('eval', ' | %s'))
    if t == 'case':
        return opt('expression', 'expression=%s, ') + 'alternatives=[' + ', '.join('(@%d:@%d)' % (o(x), o(y)) for x, y in zip(r['predicates'], r['values'])) + ']' + opt('default', ', default=%s')
    if t == 'collection':
        return lst('elements')
    if t == 'map':
        return '{' + ', '.join('@%d:@%d' % (o(x), o(y)) for x, y in zip(r['keys'], r['values'])) + '}'
    if t == 'pattern':
        return 'paths=' + lst('paths')
    if t == 'named_path':
        return '%s = %s' % (a('identifier'), a('path'))
    if t == 'shortest_path':
        return 'single=%s, path=%s' % ('true' if r['single'] else 'false', a('path'))
    if t == 'pattern_path':
        return ''.join(('-[@%d]-' if i % 2 else '(@%d)') % o(x) for i, x in enumerate(r['elements']))
    if t == 'node_pattern':
        return '(' + opt('identifier', '%s') + ''.join(':@%d' % o(x) for x in r['labels']) + opt('properties', ' {%s}') + ')'
    if t == 'rel_pattern':
        return ('<' if r['direction'] == 'in' else '') + '-[' + opt('identifier', '%s') + ''.join(('|' if i else '') + ':@%d' % o(x) for i, x in enumerate(r['reltypes'])) \
            + opt('varlength', '*%s') + opt('properties', ' {%s}') + ']-' + ('>' if r['direction'] == 'out' else '')
    if t == 'range':
        if r['start'] is None and r['end'] is None:
            return '*'
        return '*%s..%s' % (opt('start', '%s'), opt('end', '%s'))
    if t == 'command':
        return 'name=%s, args=%s' % (a('name'), lst('args'))
    raise KeyError(t)


ESC = {'\a': '\\a', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\v': '\\v'}


def escaped(s):
    return ''.join(ESC.get(c, c) for c in s)


def depths(tree):
    d = [0] * len(tree)
    for i, n in enumerate(tree):
        for c in n[2]:
            d[c] = d[i] + 1
    return d


def fold(text, width, offset):
    """Escapes a detail text, folding it at width columns counted from offset; the last
    character (with its escape) stays on its line."""
    if not width:
        return escaped(text)
    full = width - offset if offset < width else 10
    w, out = full, []
    for n, ch in enumerate(text):
        for e in ESC.get(ch, ch):
            out.append(e)
            w -= 1
            if w == 0 and n + 1 < len(text):
                out.append('\n' + ' ' * offset)
                w = full
    return ''.join(out)


def render(trees, first, width=0, color=0):
    """trees: [[node...]]; first: the number of the first node of each tree."""
    mk = (lambda k, s: '\1' + k + s + '\2' + k) if color == 2 else (lambda k, s: s)
    top = max([f + len(t) - 1 for t, f in zip(trees, first)], default=0)
    ms = max([n[1][2] for t in trees for n in t], default=0)
    me = max([n[1][5] for t in trees for n in t], default=0)
    wo, ws, we = len(str(top)) + 1, len(str(ms)), len(str(me))
    dd = [depths(t) for t in trees]
    wn = max([len(TYPESTR[n[0]]) + 2 * d for t, ds in zip(trees, dd) for n, d in zip(t, ds)], default=0)
    out = []
    for t, f, ds in zip(trees, first, dd):
        for i, (n, d) in enumerate(zip(t, ds)):
            s = mk('o', ('@%d' % (f + i)).rjust(wo)) + '  ' + mk('r', str(n[1][2]).rjust(ws) + '..' + str(n[1][5]).ljust(we)) + '  ' + mk('i', '> ' * d) + mk('t', TYPESTR[n[0]])
            x = detail(n, lambda j: f + j)
            if x:
                s += ' ' * (wn - 2 * d - len(TYPESTR[n[0]]) + 2)
                s += ('\1d' if color == 2 else '') + fold(x, width, wn + ws + we + wo + 8) + '\n' + ('\2d' if color == 2 else '')
            else:
                s += '\n'
            out.append(s)
    return ''.join(out)
