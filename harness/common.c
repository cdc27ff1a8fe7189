#include "vf.h"
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/ioctl.h>
#include <sys/socket.h>

void s_free(S *s) { free(s->p); memset(s, 0, sizeof(*s)); }
static void s_need(S *s, size_t k)
{
    if (s->n + k + 1 > s->cap) {
        s->cap = (s->n + k + 1) * 2 + 256;
        s->p = realloc(s->p, s->cap);
        if (!s->p) abort();
    }
}
void s_put(S *s, const char *p, size_t n) { s_need(s, n); memcpy(s->p + s->n, p, n); s->n += n; s->p[s->n] = 0; }
void s_puts(S *s, const char *p) { s_put(s, p, strlen(p)); }
void s_printf(S *s, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    char b[512]; int k = vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    if (k < 0) abort();
    if ((size_t)k < sizeof(b)) { s_put(s, b, k); return; }
    char *m = malloc(k + 1); if (!m) abort();
    va_start(ap, fmt); vsnprintf(m, k + 1, fmt, ap); va_end(ap);
    s_put(s, m, k); free(m);
}
void s_json(S *s, const char *p, size_t n)
{
    static const char hx[] = "0123456789abcdef";
    s_need(s, n * 6 + 2);
    s->p[s->n++] = '"';
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = (unsigned char)p[i];
        if (c == '"' || c == '\\') { s->p[s->n++] = '\\'; s->p[s->n++] = c; }
        else if (c >= 32 && c < 127) s->p[s->n++] = c;
        else { memcpy(s->p + s->n, "\\u00", 4); s->n += 4; s->p[s->n++] = hx[c >> 4]; s->p[s->n++] = hx[c & 15]; }
    }
    s->p[s->n++] = '"'; s->p[s->n] = 0;
}

void m_init(vf_map *m) { memset(m, 0, sizeof(*m)); m->mut_arg = -1; }
void m_free(vf_map *m) { free(m->keys); free(m->vals); m->keys = NULL; m->vals = NULL; m->cap = m->n = 0; }
static size_t m_h(const void *p) { uint64_t x = (uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; return (size_t)x; }
void m_put(vf_map *m, const cypher_astnode_t *k, long v)
{
    if (m->n * 2 >= m->cap) {
        size_t oc = m->cap; const cypher_astnode_t **ok = m->keys; long *ov = m->vals;
        m->cap = oc ? oc * 2 : 64; m->keys = calloc(m->cap, sizeof(*m->keys)); m->vals = calloc(m->cap, sizeof(long));
        if (!m->keys || !m->vals) abort();
        for (size_t i = 0; i < oc; ++i) if (ok[i]) {
            size_t h = m_h(ok[i]) & (m->cap - 1); while (m->keys[h]) h = (h + 1) & (m->cap - 1);
            m->keys[h] = ok[i]; m->vals[h] = ov[i];
        }
        free(ok); free(ov);
    }
    size_t h = m_h(k) & (m->cap - 1);
    while (m->keys[h] && m->keys[h] != k) h = (h + 1) & (m->cap - 1);
    if (!m->keys[h]) m->n++;
    m->keys[h] = k; m->vals[h] = v;
}
long m_get(vf_map *m, const cypher_astnode_t *k)
{
    if (!m->cap) return -1;
    size_t h = m_h(k) & (m->cap - 1);
    while (m->keys[h]) { if (m->keys[h] == k) return m->vals[h]; h = (h + 1) & (m->cap - 1); }
    return -1;
}
void vf_chk(vf_map *m, const char *fmt, ...)
{
    if (!m->chk) return;
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    if (m->nchk < 20) { if (m->nchk) s_puts(m->chk, ","); s_json(m->chk, b, strlen(b)); }
    m->nchk++;
}

void r_node(S *o, vf_map *m, const char *role, const cypher_astnode_t *x)
{
    if (!x) { s_printf(o, ",\"%s\":null", role); return; }
    s_printf(o, ",\"%s\":%ld", role, m_get(m, x));
}
void r_list(S *o, vf_map *m, const char *role, const cypher_astnode_t *n,
        unsigned cnt, const cypher_astnode_t *(*get)(const cypher_astnode_t *, unsigned))
{
    s_printf(o, ",\"%s\":[", role);
    for (unsigned i = 0; i < cnt; ++i) {
        const cypher_astnode_t *x = get(n, i);
        if (!x) { s_printf(o, "%snull", i ? "," : ""); vf_chk(m, "%s element %u of %u is NULL", role, i, cnt); }
        else s_printf(o, "%s%ld", i ? "," : "", m_get(m, x));
    }
    s_puts(o, "]");
    if (get(n, cnt) || get(n, cnt + 1) || get(n, UINT_MAX)) vf_chk(m, "%s: out-of-range index yields a node", role);
}
void r_bool(S *o, const char *role, bool v) { s_printf(o, ",\"%s\":%s", role, v ? "true" : "false"); }
void r_str(S *o, const char *role, const char *v)
{
    s_printf(o, ",\"%s\":", role);
    if (!v) s_puts(o, "null"); else s_json(o, v, strlen(v));
}
const char *op_name(const cypher_operator_t *op)
{
    const struct { const cypher_operator_t *p; const char *n; } t[] = {
        {CYPHER_OP_OR,"OR"},{CYPHER_OP_XOR,"XOR"},{CYPHER_OP_AND,"AND"},{CYPHER_OP_NOT,"NOT"},
        {CYPHER_OP_EQUAL,"="},{CYPHER_OP_NEQUAL,"<>"},{CYPHER_OP_LT,"<"},{CYPHER_OP_GT,">"},
        {CYPHER_OP_LTE,"<="},{CYPHER_OP_GTE,">="},{CYPHER_OP_PLUS,"+"},{CYPHER_OP_MINUS,"-"},
        {CYPHER_OP_MULT,"*"},{CYPHER_OP_DIV,"/"},{CYPHER_OP_MOD,"%"},{CYPHER_OP_POW,"^"},
        {CYPHER_OP_UNARY_PLUS,"u+"},{CYPHER_OP_UNARY_MINUS,"u-"},{CYPHER_OP_SUBSCRIPT,"[]"},
        {CYPHER_OP_MAP_PROJECTION,"{}"},{CYPHER_OP_REGEX,"=~"},{CYPHER_OP_IN,"IN"},
        {CYPHER_OP_STARTS_WITH,"STARTS WITH"},{CYPHER_OP_ENDS_WITH,"ENDS WITH"},{CYPHER_OP_CONTAINS,"CONTAINS"},
        {CYPHER_OP_IS_NULL,"IS NULL"},{CYPHER_OP_IS_NOT_NULL,"IS NOT NULL"},{CYPHER_OP_PROPERTY,"."},{CYPHER_OP_LABEL,":"},
    };
    if (!op) return "(null)";
    for (unsigned i = 0; i < sizeof(t) / sizeof(t[0]); ++i) if (t[i].p == op) return t[i].n;
    return "(unknown)";
}

cypher_astnode_t *rb_arg(vf_map *m, const cypher_astnode_t *x, int arg)
{
    m->seen_arg = arg;
    if (m->mut_arg == arg && m->mut_elem < 0) return (cypher_astnode_t *)m->mut_val;
    if (!x) return NULL;
    unsigned n = cypher_astnode_nchildren(m->orig);
    for (unsigned i = 0; i < n; ++i) if (cypher_astnode_get_child(m->orig, i) == x) return m->ch[i];
    return NULL;
}
cypher_astnode_t **rb_list(vf_map *m, const cypher_astnode_t *n, unsigned cnt,
        const cypher_astnode_t *(*get)(const cypher_astnode_t *, unsigned), int arg)
{
    cypher_astnode_t **v = calloc(cnt + 1, sizeof(*v)); if (!v) abort();
    for (unsigned i = 0; i < cnt; ++i) {
        v[i] = (m->mut_arg == arg && m->mut_elem == (int)i) ? (cypher_astnode_t *)m->mut_val : rb_arg(m, get(n, i), -100);
    }
    return v;
}

static const struct vf_type *by_type[256];
static bool by_type_init;
static _Thread_local bool inst_done[256];
void vf_init(void)
{
    for (unsigned i = 0; i < vf_ntypes; ++i) by_type[*vf_types[i].type & 255] = &vf_types[i];
    by_type_init = true;
}
const struct vf_type *vf_type_of(const cypher_astnode_t *n)
{
    if (!by_type_init) vf_init();
    return by_type[cypher_astnode_type(n) & 255];
}
const cypher_astnode_type_t *vf_type_by_name(const char *name)
{
    for (unsigned i = 0; i < vf_ntypes; ++i) if (!strcmp(vf_types[i].name, name)) return vf_types[i].type;
    for (unsigned i = 0; i < vf_nabstracts; ++i) if (!strcmp(vf_abstracts[i].name, name)) return vf_abstracts[i].type;
    return NULL;
}
static bool reach(const char *from, const char *target)
{
    if (!strcmp(from, target)) return true;
    const char *const *ps = NULL;
    for (unsigned i = 0; i < vf_ntypes; ++i) if (!strcmp(vf_types[i].name, from)) ps = vf_types[i].parents;
    for (unsigned i = 0; i < vf_nabstracts; ++i) if (!strcmp(vf_abstracts[i].name, from)) ps = vf_abstracts[i].parents;
    for (; ps && *ps; ++ps) if (reach(*ps, target)) return true;
    return false;
}
static void check_instanceof(vf_map *m, const cypher_astnode_t *n, const struct vf_type *t)
{
    unsigned ty = cypher_astnode_type(n) & 255;
    if (inst_done[ty] || !m->chk) return;
    inst_done[ty] = true;
    for (unsigned i = 0; i < vf_ntypes; ++i) {
        bool e = reach(t->name, vf_types[i].name), g = cypher_astnode_instanceof(n, *vf_types[i].type);
        if (e != g) vf_chk(m, "instanceof(%s, %s) is %d", t->name, vf_types[i].name, g);
    }
    for (unsigned i = 0; i < vf_nabstracts; ++i) {
        bool e = reach(t->name, vf_abstracts[i].name), g = cypher_astnode_instanceof(n, *vf_abstracts[i].type);
        if (e != g) vf_chk(m, "instanceof(%s, %s) is %d", t->name, vf_abstracts[i].name, g);
    }
}

static void number(vf_map *m, const cypher_astnode_t *n, long *next)
{
    if (m_get(m, n) >= 0) { vf_chk(m, "node %ld occurs twice", m_get(m, n)); return; }
    m_put(m, n, (*next)++);
    unsigned k = cypher_astnode_nchildren(n);
    for (unsigned i = 0; i < k; ++i) {
        const cypher_astnode_t *c = cypher_astnode_get_child(n, i);
        if (!c) { vf_chk(m, "child %u of %u is NULL", i, k); continue; }
        number(m, c, next);
    }
    if (cypher_astnode_get_child(n, k) || cypher_astnode_get_child(n, k + 1) || cypher_astnode_get_child(n, UINT_MAX))
        vf_chk(m, "out-of-range child index yields a node");
}
void dump_range(S *o, struct cypher_input_range r)
{
    s_printf(o, "[%u,%u,%zu,%u,%u,%zu]", r.start.line, r.start.column, r.start.offset,
            r.end.line, r.end.column, r.end.offset);
}
static void dump_node(S *o, vf_map *m, const cypher_astnode_t *n, long *next, int depth)
{
    const struct vf_type *t = vf_type_of(n);
    if ((*next)++ > 0) s_puts(o, ",");
    s_printf(o, "[\"%s\",", t ? t->name : "?");
    dump_range(o, cypher_astnode_range(n));
    s_puts(o, ",[");
    unsigned k = cypher_astnode_nchildren(n);
    for (unsigned i = 0; i < k; ++i) {
        const cypher_astnode_t *c = cypher_astnode_get_child(n, i);
        s_printf(o, "%s%ld", i ? "," : "", c ? m_get(m, c) : -2L);
    }
    s_puts(o, "],{\"\":");
    const char *ts = cypher_astnode_typestr(cypher_astnode_type(n));
    s_json(o, ts ? ts : "(null)", strlen(ts ? ts : "(null)"));
    if (t) { t->roles(n, m, o); check_instanceof(m, n, t); }
    s_puts(o, "}]");
    for (unsigned i = 0; i < k; ++i) {
        const cypher_astnode_t *c = cypher_astnode_get_child(n, i);
        if (c && m_get(m, c) == *next) dump_node(o, m, c, next, depth + 1);
    }
}
unsigned vf_dump(S *o, const cypher_astnode_t *root, S *chk, unsigned *nchk)
{
    vf_map m; m_init(&m); m.chk = chk; m.nchk = nchk ? *nchk : 0;
    long next = 0;
    number(&m, root, &next);
    long cnt = next; next = 0;
    s_puts(o, "[");
    dump_node(o, &m, root, &next, 0);
    s_puts(o, "]");
    if (nchk) *nchk = m.nchk;
    m_free(&m);
    return (unsigned)cnt;
}
unsigned vf_count(const cypher_astnode_t *root)
{
    unsigned c = 1, k = cypher_astnode_nchildren(root);
    for (unsigned i = 0; i < k; ++i) c += vf_count(cypher_astnode_get_child(root, i));
    return c;
}
void vf_collect(const cypher_astnode_t *root, const cypher_astnode_t ***list, size_t *n, size_t *cap)
{
    if (*n == *cap) { *cap = *cap ? *cap * 2 : 64; *list = realloc(*list, *cap * sizeof(**list)); if (!*list) abort(); }
    (*list)[(*n)++] = root;
    unsigned k = cypher_astnode_nchildren(root);
    for (unsigned i = 0; i < k; ++i) vf_collect(cypher_astnode_get_child(root, i), list, n, cap);
}
cypher_astnode_t *vf_rebuild(const cypher_astnode_t *root)
{
    unsigned k = cypher_astnode_nchildren(root);
    cypher_astnode_t **ch = calloc(k + 1, sizeof(*ch)); if (!ch) abort();
    cypher_astnode_t *res = NULL;
    unsigned i;
    for (i = 0; i < k; ++i) {
        ch[i] = vf_rebuild(cypher_astnode_get_child(root, i));
        if (!ch[i]) goto fail;
    }
    vf_map m; m_init(&m); m.orig = root; m.ch = ch; m.nch = k;
    res = vf_type_of(root)->rebuild(root, &m, ch, k);
    if (res) { free(ch); return res; }
fail:
    for (unsigned j = 0; j < i; ++j) cypher_ast_free(ch[j]);
    free(ch);
    return NULL;
}

void dump_error(S *o, const cypher_parse_error_t *e)
{
    struct cypher_input_position p = cypher_parse_error_position(e);
    s_printf(o, "[[%u,%u,%zu],", p.line, p.column, p.offset);
    const char *m = cypher_parse_error_message(e);
    if (m) s_json(o, m, strlen(m)); else s_puts(o, "null");
    s_puts(o, ",");
    m = cypher_parse_error_context(e);
    if (m) s_json(o, m, strlen(m)); else s_puts(o, "null");
    s_printf(o, ",%zu]", cypher_parse_error_context_offset(e));
}

extern const cypher_astnode_t *cypher_parse_segment_get_node(const cypher_parse_segment_t *, unsigned) __attribute__((weak));
#pragma weak cypher_parse_segment_get_root
int vf_no_get_root;
const cypher_astnode_t *vf_segment_root(const cypher_parse_segment_t *s, unsigned i)
{
    const cypher_astnode_t *(*volatile f)(const cypher_parse_segment_t *, unsigned) = cypher_parse_segment_get_root;
    if (f) return f(s, i);
    vf_no_get_root = 1;
    f = cypher_parse_segment_get_node;
    return f ? f(s, i) : NULL;
}
void dump_segment(S *o, const cypher_parse_segment_t *seg, S *chk, unsigned *nchk)
{
    s_puts(o, "{\"rg\":"); dump_range(o, cypher_parse_segment_get_range(seg));
    s_printf(o, ",\"eof\":%d,\"nn\":%u,\"roots\":[", cypher_parse_segment_is_eof(seg), cypher_parse_segment_nnodes(seg));
    unsigned n = cypher_parse_segment_nroots(seg);
    const cypher_astnode_t *d = cypher_parse_segment_get_directive(seg);
    long di = d ? -2 : -1;
    for (unsigned i = 0; i < n; ++i) {
        const cypher_astnode_t *r = vf_segment_root(seg, i);
        if (i) s_puts(o, ",");
        if (!r) { s_puts(o, "null"); continue; }
        if (r == d) di = i;
        vf_dump(o, r, chk, nchk);
    }
    s_printf(o, "],\"dir\":%ld,\"errs\":[", di);
    unsigned ne = cypher_parse_segment_nerrors(seg);
    for (unsigned i = 0; i < ne; ++i) { if (i) s_puts(o, ","); dump_error(o, cypher_parse_segment_get_error(seg, i)); }
    s_puts(o, "]");
    if (vf_segment_root(seg, n) || vf_segment_root(seg, UINT_MAX) || cypher_parse_segment_get_error(seg, ne) || cypher_parse_segment_get_error(seg, UINT_MAX))
        s_puts(o, ",\"oob\":1");
    s_puts(o, "}");
}
void dump_result(S *o, const cypher_parse_result_t *res, S *chk, unsigned *nchk)
{
    unsigned n = cypher_parse_result_nroots(res);
    s_printf(o, "{\"eof\":%d,\"nn\":%u,\"roots\":[", cypher_parse_result_eof(res), cypher_parse_result_nnodes(res));
    for (unsigned i = 0; i < n; ++i) { if (i) s_puts(o, ","); vf_dump(o, cypher_parse_result_get_root(res, i), chk, nchk); }
    s_puts(o, "],\"dirs\":[");
    unsigned nd = cypher_parse_result_ndirectives(res);
    for (unsigned i = 0; i < nd; ++i) {
        const cypher_astnode_t *d = cypher_parse_result_get_directive(res, i);
        long k = -2;
        for (unsigned j = 0; j < n; ++j) if (cypher_parse_result_get_root(res, j) == d) k = j;
        s_printf(o, "%s%ld", i ? "," : "", k);
    }
    s_puts(o, "],\"errs\":[");
    unsigned ne = cypher_parse_result_nerrors(res);
    for (unsigned i = 0; i < ne; ++i) { if (i) s_puts(o, ","); dump_error(o, cypher_parse_result_get_error(res, i)); }
    s_puts(o, "]");
    if (cypher_parse_result_get_root(res, n) || cypher_parse_result_get_root(res, UINT_MAX) || cypher_parse_result_get_error(res, ne) || cypher_parse_result_get_directive(res, nd) || cypher_parse_result_get_directive(res, UINT_MAX))
        s_puts(o, ",\"oob\":1");
    s_puts(o, "}");
}

const struct cypher_parser_colorization vf_markers = {
    .normal = {"\1N", "\2N"}, .error = {"\1E", "\2E"}, .error_token = {"\1T", "\2T"}, .error_message = {"\1M", "\2M"},
    .ast_ordinal = {"\1o", "\2o"}, .ast_range = {"\1r", "\2r"}, .ast_indent = {"\1i", "\2i"}, .ast_type = {"\1t", "\2t"}, .ast_desc = {"\1d", "\2d"},
};
const struct cypher_parser_colorization *vf_color(int mode)
{
    return mode == 0 ? cypher_parser_no_colorization : mode == 1 ? cypher_parser_ansi_colorization : mode == 2 ? &vf_markers : NULL;
}

/* ---- streams */
static ssize_t st_read(void *c, char *buf, size_t size)
{
    struct vf_stream *s = c;
    s->reqs++;
    if (size == 0) return 0;
    if (s->errat >= 0 && s->pos >= (size_t)s->errat) { s->erred++; if (s->err >= 0) errno = s->err ? s->err : EIO; return -1; }
    size_t k = s->n - s->pos;
    if (k > size) k = size;
    if (s->nchunks) { size_t c2 = (size_t)s->chunks[s->ci++ % s->nchunks]; if (c2 < 1) c2 = 1; if (k > c2) k = c2; }
    if (s->errat >= 0 && s->pos + k > (size_t)s->errat) k = (size_t)s->errat - s->pos;
    if (k == 0) { s->eofs++; return 0; }
    memcpy(buf, s->data + s->pos, k); s->pos += k;
    return (ssize_t)k;
}
static void put_all(int fd, const unsigned char *p, size_t n)
{
    while (n) { ssize_t k = write(fd, p, n); if (k <= 0) { perror("filling a stream"); exit(3); } p += k; n -= (size_t)k; }
}
/* The stream holds `pre` bytes of something else, which are read before anyone
 * else gets it, and then the data; with `unget` the first byte of the data was
 * read and pushed back. */
FILE *vf_open(struct vf_stream *st, int unbuffered)
{
    FILE *f = NULL;
    st->wfd = -1; st->own = NULL;
    int first = st->unget && st->n > 0 && st->errat != 0 ? st->data[0] : -1;
    if (first < 0) st->unget = 0;
    if (st->pre || st->unget) {
        st->own = malloc(st->pre + st->n + 1);
        memset(st->own, '"', st->pre);
        if (st->n) memcpy(st->own + st->pre, st->data + st->unget, st->n - (size_t)st->unget);
        st->data = st->own; st->n = st->pre + st->n - (size_t)st->unget;
        if (st->errat >= 0) st->errat += (long)st->pre - st->unget;
    }
    size_t send = st->n;
    if (st->errat >= 0 && (size_t)st->errat < send) send = (size_t)st->errat;
    if (st->chan == CH_COOKIE) {
        cookie_io_functions_t io = { .read = st_read };
        f = fopencookie(st, "r", io);
    } else if (st->chan == CH_FILE) {
        int fd = memfd_create("vf", MFD_CLOEXEC);
        if (fd < 0) { perror("memfd_create"); exit(3); }
        put_all(fd, st->data, st->n); lseek(fd, 0, SEEK_SET);
        f = fdopen(fd, "r");
    } else if (st->chan == CH_MEM) {
        f = fmemopen((void *)st->data, st->n, "r");
    } else {
        int p[2];
        if (st->chan == CH_PIPE ? pipe(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p)) { perror("pipe"); exit(3); }
        put_all(p[1], st->data, send); st->sent = send;
        if (st->errat >= 0) { st->wfd = p[1]; fcntl(p[0], F_SETFL, O_NONBLOCK); } else close(p[1]);
        f = fdopen(p[0], "r");
    }
    if (!f) { perror("opening a stream"); exit(3); }
    if (unbuffered == 1) setvbuf(f, NULL, _IONBF, 0);
    else if (unbuffered > 1) setvbuf(f, NULL, _IOFBF, (size_t)unbuffered);
    for (size_t i = 0; i < st->pre; ++i) if (getc(f) == EOF) { perror("reading ahead of the data"); exit(3); }
    if (st->stale && (putc('x', f) != EOF || !ferror(f))) { fputs("a stream to read from took a byte\n", stderr); exit(3); }
    if (first >= 0 && ungetc(first, f) == EOF) { perror("ungetc"); exit(3); }
    return f;
}
#if defined(__clang__)
__attribute__((no_sanitize("memory"))) /* looks inside a FILE the C library filled */
#endif
size_t vf_stream_taken(struct vf_stream *st, FILE *f)
{
    size_t at = st->pos; int k = 0; long held = 0;
    if (st->chan == CH_MEM) return (size_t)ftello(f) + (size_t)st->unget - st->pre;
    if (st->chan == CH_FILE) at = (size_t)lseek(fileno(f), 0, SEEK_CUR);
    else if (st->chan != CH_COOKIE) { ioctl(fileno(f), FIONREAD, &k); at = st->sent - (size_t)k; }
    held = f->_IO_read_end - f->_IO_read_ptr;
    if (f->_flags & 0x100) held += f->_IO_save_end - f->_IO_save_base; /* a byte was pushed back */
    return at + (size_t)st->unget - (size_t)held - st->pre;
}
void vf_close(struct vf_stream *st, FILE *f)
{
    fclose(f);
    if (st->wfd >= 0) close(st->wfd);
    free(st->own);
}
static ssize_t st_write(void *c, const char *buf, size_t size)
{
    struct vf_wstream *s = c;
    if (s->written + size > s->limit && !(s->once && s->failed)) {
        s->failed = 1;
        size_t k = s->limit - s->written;
        if (k == 0) { errno = ENOSPC; return 0; }
        s_put(&s->out, buf, k); s->written += k; return (ssize_t)k;
    }
    s_put(&s->out, buf, size); s->written += size;
    return (ssize_t)size;
}
FILE *vf_wopen(struct vf_wstream *st)
{
    cookie_io_functions_t io = { .write = st_write };
    FILE *f = fopencookie(st, "w", io);
    if (!f) abort();
    setvbuf(f, NULL, _IONBF, 0);
    return f;
}
