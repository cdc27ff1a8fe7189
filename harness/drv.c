/* Batch driver: reads one case per line, prints one JSON object per case.
 *   id entry key=value ... hexinput
 * entries: u ue f fe p pe (full parser; p = NUL-terminated string macros),
 *          qu qf qp (quick parser). */
#include "vf.h"
#include <unistd.h>
#include <sys/mman.h>

#define MAXV 4096
struct opts {
    char entry[8];
    unsigned flags; int usecfg, cfgid; struct cypher_input_position pos; int haspos; long ord; int color;
    int chunks[64]; unsigned nchunks; int unbuf; long errat; int chan, err, unget, stale; size_t pre;
    int cbs[MAXV]; unsigned ncbs;
    int keep, clone, rebuild, texts, pfail, ctor, dump, share;
    struct { unsigned w; int c; } pr[16]; unsigned npr;
    int segpr; int nolast; size_t tail; double budget; long oomk; int oommode; int oom;
};
static struct { int used; cypher_parser_config_t *c; } cfgs[64];

struct seg { S dump; cypher_parse_segment_t *p; };
struct run {
    struct opts *o; struct vf_stream *st; FILE *f; S *out; unsigned n; S chk; unsigned nchk;
    cypher_parse_segment_t **kept; S *kdump; unsigned nkept; const unsigned char *buf; size_t bufn; int text_bad; unsigned ntexts;
};

static void print_opts(S *out, struct opts *o, const char *what, unsigned idx, bool *first,
        int (*pf)(const void *, FILE *, unsigned, const struct cypher_parser_colorization *), const void *obj)
{
    for (unsigned i = 0; i < o->npr; ++i) {
        char *p = NULL; size_t n = 0;
        FILE *f = open_memstream(&p, &n);
        errno = 0;
        int rc = pf(obj, f, o->pr[i].w, vf_color(o->pr[i].c)); int e = errno;
        fclose(f);
        s_printf(out, "%s{\"of\":\"%s\",\"i\":%u,\"w\":%u,\"c\":%d,\"rc\":%d,\"e\":%d,\"out\":", *first ? "" : ",", what, idx, o->pr[i].w, o->pr[i].c, rc, e);
        *first = false;
        s_json(out, p, n); s_puts(out, "}");
        free(p);
    }
    if (o->pfail && o->npr) {
        struct vf_wstream ws = { .limit = SIZE_MAX };
        FILE *f = vf_wopen(&ws); int rc = pf(obj, f, o->pr[0].w, vf_color(o->pr[0].c)); fclose(f);
        size_t full = ws.out.n; s_free(&ws.out);
        s_printf(out, "%s{\"of\":\"%s\",\"i\":%u,\"pfail\":%zu,\"rc\":%d,\"bad\":[", *first ? "" : ",", what, idx, full, rc); *first = false;
        unsigned nb = 0, nt = 0;
        for (size_t lim = 0; lim < full; lim += 1 + (full > 400 ? full / 200 : 0)) {
            struct vf_wstream w2 = { .limit = lim };
            f = vf_wopen(&w2); rc = pf(obj, f, o->pr[0].w, vf_color(o->pr[0].c)); fclose(f); s_free(&w2.out);
            nt++;
            if (rc != -1 && nb < 10) s_printf(out, "%s[%zu,%d]", nb++ ? "," : "", lim, rc);
            // and a stream that fails that once, and then works again
            struct vf_wstream w3 = { .limit = lim, .once = 1 };
            f = vf_wopen(&w3); rc = pf(obj, f, o->pr[0].w, vf_color(o->pr[0].c)); fclose(f); s_free(&w3.out);
            nt++;
            if (w3.failed && rc != -1 && nb < 10) s_printf(out, "%s[%zu,%d,1]", nb++ ? "," : "", lim, rc);
        }
        s_printf(out, "],\"tried\":%u}", nt);
    }
}
static int pf_root(const void *o, FILE *f, unsigned w, const struct cypher_parser_colorization *c) { return cypher_ast_fprint(o, f, w, c, 0); }
static int pf_seg(const void *o, FILE *f, unsigned w, const struct cypher_parser_colorization *c) { return cypher_parse_segment_fprint_ast(o, f, w, c, 0); }
static int pf_res(const void *o, FILE *f, unsigned w, const struct cypher_parser_colorization *c) { return cypher_parse_result_fprint_ast(o, f, w, c, 0); }

static void bad(struct run *r, const char *fmt, ...) __attribute__((format(printf,2,3)));
#include <stdarg.h>
static void bad(struct run *r, const char *fmt, ...)
{
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    if (r->nchk < 20) { if (r->nchk) s_puts(&r->chk, ","); s_json(&r->chk, b, strlen(b)); }
    r->nchk++;
}

static int on_seg(void *u, cypher_parse_segment_t *seg)
{
    struct run *r = u;
    size_t start = r->out->n;
    if (r->o->budget > 0) { s_printf(r->out, "%s%llu", r->n++ ? "," : "", (unsigned long long)vf_work()); return 0; }
    s_puts(r->out, r->n ? "," : "");
    size_t at = r->out->n;
    dump_segment(r->out, seg, &r->chk, &r->nchk);
    r->out->n--; /* reopen the object */
    s_printf(r->out, ",\"rd\":%zu", r->st ? vf_stream_taken(r->st, r->f) : 0);
    if (r->o->segpr) { s_puts(r->out, ",\"pr\":["); bool first = true; print_opts(r->out, r->o, "seg", 0, &first, pf_seg, seg); s_puts(r->out, "]"); }
    s_puts(r->out, "}");
    (void)start; (void)at;
    if (r->o->keep) {
        cypher_parse_segment_retain(seg);
        if (r->o->keep > 1) {
            /* far more owners at once than a narrow count can hold, for the first */
            unsigned owners = r->nkept ? 1 : 66000;
            for (unsigned i = 0; i < owners; ++i) cypher_parse_segment_retain(seg);
            for (unsigned i = 0; i < owners; ++i) cypher_parse_segment_release(seg);
        }
        r->kept = realloc(r->kept, (r->nkept + 1) * sizeof(*r->kept)); r->kdump = realloc(r->kdump, (r->nkept + 1) * sizeof(S));
        r->kept[r->nkept] = seg; memset(&r->kdump[r->nkept], 0, sizeof(S));
        unsigned z = 0; dump_segment(&r->kdump[r->nkept], seg, NULL, &z);
        r->nkept++;
    }
    int rv = r->n < r->o->ncbs ? r->o->cbs[r->n] : 0;
    r->n++;
    errno = rv < 0 ? 77 : 0;
    return rv;
}
static int on_quick(void *u, const cypher_quick_parse_segment_t *seg)
{
    struct run *r = u;
    if (r->o->budget > 0) { s_printf(r->out, "%s%llu", r->n++ ? "," : "", (unsigned long long)vf_work()); return 0; }
    size_t n = (size_t)-1; const char *t = cypher_quick_parse_segment_get_text(seg, &n);
    s_puts(r->out, r->n ? ",{\"t\":" : "{\"t\":");
    s_json(r->out, t, n);
    s_puts(r->out, ",\"rg\":"); dump_range(r->out, cypher_quick_parse_segment_get_range(seg));
    struct cypher_input_position p = cypher_quick_parse_segment_get_next(seg);
    s_printf(r->out, ",\"next\":[%u,%u,%zu],\"st\":%d,\"cmd\":%d,\"eof\":%d,\"rd\":%zu}", p.line, p.column, p.offset,
            cypher_quick_parse_segment_is_statement(seg), cypher_quick_parse_segment_is_command(seg),
            cypher_quick_parse_segment_is_eof(seg), r->st ? vf_stream_taken(r->st, r->f) : 0);
    int rv = r->n < r->o->ncbs ? r->o->cbs[r->n] : 0;
    r->n++;
    errno = rv < 0 ? 77 : 0;
    return rv;
}

/* ---- clone and rebuild checks */
static _Thread_local int handler_calls;
static void on_release(void *ud, const cypher_astnode_t *n, void *a) { (void)ud; (void)n; (void)a; handler_calls++; }
static void sdump(S *s, const cypher_astnode_t *n, struct run *r) { s->n = 0; vf_dump(s, n, r ? &r->chk : NULL, r ? &r->nchk : NULL); }
static void check_same(struct run *r, S *a, S *b, const char *what)
{
    if (a->n != b->n || memcmp(a->p, b->p, a->n)) {
        size_t i = 0; while (i < a->n && i < b->n && a->p[i] == b->p[i]) i++;
        size_t k = i > 40 ? i - 40 : 0;
        bad(r, "%s: dumps differ: ...%.*s | ...%.*s", what, (int)(a->n - k > 120 ? 120 : a->n - k), a->p + k, (int)(b->n - k > 120 ? 120 : b->n - k), b->p + k);
    }
}
static void disjoint(struct run *r, const cypher_astnode_t *a, const cypher_astnode_t *b, const char *what)
{
    vf_map m; m_init(&m);
    const cypher_astnode_t **l = NULL; size_t n = 0, c = 0;
    vf_collect(a, &l, &n, &c);
    for (size_t i = 0; i < n; ++i) m_put(&m, l[i], 1);
    n = 0; vf_collect(b, &l, &n, &c);
    for (size_t i = 0; i < n; ++i) if (m_get(&m, l[i]) >= 0) { bad(r, "%s: shares a node with the original", what); break; }
    free(l); m_free(&m);
}
static char *print_str(const cypher_astnode_t *t)
{
    char *p = NULL; size_t n = 0; FILE *f = open_memstream(&p, &n);
    if (cypher_ast_fprint(t, f, 0, NULL, 0)) { fclose(f); free(p); return NULL; }
    fclose(f); return p;
}
static void clone_checks(struct run *r, const cypher_astnode_t *root, cypher_astnode_t **keep_clone)
{
    S d0 = {0}, d1 = {0};
    sdump(&d0, root, NULL);
    cypher_ast_annotation_context_t *ctx = cypher_ast_annotation_context();
    if (!ctx) abort();
    handler_calls = 0;
    cypher_ast_annotation_context_set_release_handler(ctx, on_release, NULL);
    const cypher_astnode_t **l = NULL; size_t n = 0, cap = 0;
    vf_collect(root, &l, &n, &cap);
    static int tag;
    for (size_t i = 0; i < n; ++i) if (cypher_astnode_attach_annotation(ctx, l[i], &tag, NULL)) abort();
    char *p0 = print_str(root);
    errno = 0;
    cypher_astnode_t *c = cypher_ast_clone(root);
    if (!c) { bad(r, "clone failed, errno %d", errno); goto out; }
    sdump(&d1, c, r); check_same(r, &d0, &d1, "clone");
    disjoint(r, root, c, "clone");
    char *p1 = print_str(c);
    if (!p1) bad(r, "clone cannot be printed"); free(p1);
    const cypher_astnode_t **l2 = NULL; size_t n2 = 0, cap2 = 0;
    vf_collect(c, &l2, &n2, &cap2);
    for (size_t i = 0; i < n2; ++i) if (cypher_astnode_get_annotation(ctx, l2[i])) { bad(r, "clone carries an annotation"); break; }
    free(l2);
    cypher_astnode_t *cc = cypher_ast_clone(c);
    if (!cc) bad(r, "clone of clone failed, errno %d", errno);
    else { disjoint(r, c, cc, "clone of clone"); }
    cypher_ast_free(c);
    if (handler_calls) bad(r, "freeing a clone released annotations of the original");
    sdump(&d1, root, NULL); check_same(r, &d0, &d1, "original after its clone was freed");
    if (cc) { sdump(&d1, cc, r); check_same(r, &d0, &d1, "clone of clone after the clone was freed"); }
    *keep_clone = cc;
    /* subtrees */
    size_t step = n > 60 ? n / 60 : 1;
    for (size_t i = 1; i < n; i += step) {
        struct vf_ledger a, b; led_get(&a);
        cypher_astnode_t *sc = cypher_ast_clone(l[i]);
        if (!sc) { bad(r, "clone of a %s subtree failed, errno %d", vf_type_of(l[i])->name, errno); continue; }
        S x = {0}, y = {0}; sdump(&x, l[i], NULL); sdump(&y, sc, NULL); check_same(r, &x, &y, "subtree clone");
        s_free(&x); s_free(&y);
        cypher_ast_free(sc);
        led_get(&b); if (a.live != b.live) bad(r, "cloning and freeing a %s subtree leaks %zd blocks", vf_type_of(l[i])->name, (ssize_t)(b.live - a.live));
    }
out:
    if (handler_calls) bad(r, "release handler ran %d times before anything was freed", handler_calls);
    cypher_ast_annotation_context_free(ctx);
    if (handler_calls != (int)n) bad(r, "release handler ran %d times for %zu annotations", handler_calls, n);
    free(p0); free(l); s_free(&d0); s_free(&d1);
}
/* every kind of text node made of the n bytes at s, which are then gone */
static void text_checks(struct run *r, const unsigned char *s, size_t n)
{
    size_t z = strnlen((const char *)s, n);
    for (unsigned i = 0; i < vf_ntexts; ++i) {
        const struct vf_text *t = &vf_texts[i];
        struct cypher_input_range rg = { { 3 + i, 70000 + (unsigned)n, n << 20 }, { 4000000000u, (unsigned)n * 2 + 1, (n << 21) + 5 } }, g;
        char *p = malloc(n ? n : 1); memcpy(p, s, n);
        struct vf_ledger a, b; led_get(&a);
        errno = 0;
        cypher_astnode_t *x = t->make(p, n, rg);
        memset(p, 0x5A, n); free(p);
        if (!x) { bad(r, "text: %s of %zu bytes cannot be made, errno %d", t->name, n, errno); continue; }
        cypher_astnode_t *y = cypher_ast_clone(x);
        if (!y) bad(r, "text: clone of %s of %zu bytes failed, errno %d", t->name, n, errno);
        for (int k = 0; k < 2; ++k) {
            cypher_astnode_t *v = k ? y : x; 
            if (!v) continue;
            const char *w = t->get(v);
            if (!w || strlen(w) != z || memcmp(w, s, z)) bad(r, "text: %s%s made of %zu bytes holds %zu", k ? "clone of " : "", t->name, z, w ? strlen(w) : 0);
            g = cypher_astnode_range(v);
            if (g.start.line != rg.start.line || g.start.column != rg.start.column || g.start.offset != rg.start.offset || g.end.line != rg.end.line || g.end.column != rg.end.column || g.end.offset != rg.end.offset)
                bad(r, "text: %s%s made with another range", k ? "clone of " : "", t->name);
            if (cypher_astnode_type(v) != *t->type) bad(r, "text: %s%s has another type", k ? "clone of " : "", t->name);
            if (cypher_astnode_nchildren(v) || cypher_astnode_get_child(v, 0)) bad(r, "text: %s%s has children", k ? "clone of " : "", t->name);
            char *q = print_str(v); if (!q) bad(r, "text: %s cannot be printed", t->name); free(q);
            cypher_ast_free(v);
        }
        led_get(&b); if (a.live != b.live) bad(r, "text: making and freeing a %s leaks %zd blocks", t->name, (ssize_t)(b.live - a.live));
        r->ntexts++;
    }
}
static void rebuild_checks(struct run *r, const cypher_astnode_t *root)
{
    S d0 = {0}, d1 = {0};
    sdump(&d0, root, NULL);
    errno = 0;
    struct vf_ledger a, b; led_get(&a);
    cypher_astnode_t *c = vf_rebuild(root);
    if (!c) { bad(r, "rebuild through constructors failed, errno %d", errno); s_free(&d0); return; }
    sdump(&d1, c, r); check_same(r, &d0, &d1, "rebuilt tree");
    char *p1 = print_str(c);
    if (!p1) bad(r, "rebuilt tree cannot be printed"); free(p1);
    cypher_ast_annotation_context_t *ctx = cypher_ast_annotation_context();
    handler_calls = 0; static int tag; void *prev;
    cypher_ast_annotation_context_set_release_handler(ctx, on_release, NULL);
    if (cypher_astnode_attach_annotation(ctx, c, &tag, &prev) || cypher_astnode_get_annotation(ctx, c) != &tag) bad(r, "rebuilt tree cannot be annotated");
    cypher_astnode_t *cc = cypher_ast_clone(c);
    if (!cc) bad(r, "rebuilt tree cannot be cloned, errno %d", errno);
    else { sdump(&d1, cc, NULL); check_same(r, &d0, &d1, "clone of rebuilt tree"); }
    cypher_ast_free(c);
    if (handler_calls != 1) bad(r, "freeing a rebuilt tree released %d annotations instead of 1", handler_calls);
    if (cc) { sdump(&d1, cc, NULL); check_same(r, &d0, &d1, "clone of rebuilt tree, alone"); cypher_ast_free(cc); }
    cypher_ast_annotation_context_free(ctx);
    led_get(&b); if (a.live != b.live) bad(r, "rebuilding and freeing leaks %zd blocks", (ssize_t)(b.live - a.live));
    s_free(&d0); s_free(&d1);
}

/* ---- refused constructions (builds with NDEBUG) */
struct vf_argcls { const char *type; unsigned arg; char kind; const char *cls[3]; };
extern const struct vf_argcls vf_argclasses[]; extern const unsigned vf_nargclasses;
static unsigned long ctor_tried, ctor_refused;
static bool cls_ok(const struct vf_argcls *ac, const cypher_astnode_t *x)
{
    for (unsigned i = 0; i < 3 && ac->cls[i]; ++i) if (cypher_astnode_instanceof(x, *vf_type_by_name(ac->cls[i]))) return true;
    return false;
}
static void expect_refused(struct run *r, const cypher_astnode_t *n, unsigned arg, int elem, const cypher_astnode_t *val,
        cypher_astnode_t **ch, unsigned nch, const char *how)
{
    const struct vf_type *t = vf_type_of(n);
    vf_map m; m_init(&m); m.orig = n; m.ch = ch; m.nch = nch < cypher_astnode_nchildren(n) ? nch : cypher_astnode_nchildren(n);
    m.mut_arg = (int)arg; m.mut_elem = elem; m.mut_val = val;
    struct vf_ledger a, b; led_get(&a); errno = 0;
    cypher_astnode_t *x = t->rebuild(n, &m, ch, nch);
    int e = errno;
    ctor_tried++;
    if (x) { bad(r, "ctor %s operand %u%s: %s accepted", t->name, arg, elem >= 0 ? " element" : "", how); cypher_astnode_free(x); return; }
    ctor_refused++;
    if (e != EINVAL) bad(r, "ctor %s operand %u: %s refused with errno %d", t->name, arg, how, e);
    led_get(&b); if (a.live != b.live) bad(r, "ctor %s operand %u: %s refused but leaks %zd blocks", t->name, arg, how, (ssize_t)(b.live - a.live));
}
static unsigned list_len(const cypher_astnode_t *n, const struct vf_type *t, unsigned arg);
static void ctor_checks(struct run *r, const cypher_astnode_t *root)
{
    const cypher_astnode_t **l = NULL; size_t n = 0, cap = 0;
    vf_collect(root, &l, &n, &cap);
    struct cypher_input_range rg = { {1,1,0}, {1,1,0} };
    for (size_t i = 0; i < n; ++i) {
        const cypher_astnode_t *x = l[i]; const struct vf_type *t = vf_type_of(x);
        if (!t->nargs) continue;
        unsigned k = cypher_astnode_nchildren(x);
        cypher_astnode_t **ch = calloc(k + 2, sizeof(*ch)); unsigned j;
        for (j = 0; j < k; ++j) { ch[j] = vf_rebuild(cypher_astnode_get_child(x, j)); if (!ch[j]) break; }
        if (j < k) { bad(r, "rebuild failed under a %s", t->name); goto next; }
        cypher_astnode_t *alien = cypher_ast_error("zz", 2, rg);
        if (!alien) abort();
        ch[k] = alien; /* a child of no operand class */
        for (unsigned a = 0; a < vf_nargclasses; ++a) {
            const struct vf_argcls *ac = &vf_argclasses[a];
            if (strcmp(ac->type, t->name)) continue;
            if (ac->kind == 'l') {
                unsigned len = list_len(x, t, ac->arg);
                for (unsigned e = 0; e < len && e < 3; ++e) {
                    unsigned ee = e == 2 ? len - 1 : e;
                    expect_refused(r, x, ac->arg, (int)ee, alien, ch, k + 1, "operand of the wrong kind");
                    expect_refused(r, x, ac->arg, (int)ee, NULL, ch, k + 1, "NULL list element");
                    for (unsigned c = 0; c < k; ++c) if (cls_ok(ac, ch[c])) {
                        cypher_astnode_t *f = vf_rebuild(cypher_astnode_get_child(x, c));
                        if (f) { expect_refused(r, x, ac->arg, (int)ee, f, ch, k, "operand not among the children"); cypher_ast_free(f); }
                        break;
                    }
                }
            } else {
                expect_refused(r, x, ac->arg, -1, alien, ch, k + 1, "operand of the wrong kind");
                if (ac->kind == 'n') expect_refused(r, x, ac->arg, -1, NULL, ch, k, "NULL mandatory operand");
                for (unsigned c = 0; c < k; ++c) if (cls_ok(ac, ch[c])) {
                    cypher_astnode_t *f = vf_rebuild(cypher_astnode_get_child(x, c));
                    if (f) { expect_refused(r, x, ac->arg, -1, f, ch, k, "operand not among the children"); cypher_ast_free(f); }
                    break;
                }
            }
        }
        /* the same children still make a good node: nothing was taken over */
        vf_map m; m_init(&m); m.orig = x; m.ch = ch; m.nch = k;
        cypher_astnode_t *good = t->rebuild(x, &m, ch, k);
        if (!good) bad(r, "ctor %s refuses valid operands, errno %d", t->name, errno);
        else { cypher_ast_free(good); for (j = 0; j < k; ++j) ch[j] = NULL; }
        cypher_ast_free(alien);
    next:
        for (j = 0; j < k; ++j) if (ch[j]) cypher_ast_free(ch[j]);
        free(ch);
    }
    free(l);
}
/* length of list operand: count via roles dump is overkill; use rebuild's own list building */
static unsigned list_len(const cypher_astnode_t *n, const struct vf_type *t, unsigned arg)
{
    S o = {0}; vf_map m; m_init(&m); m.chk = NULL;
    /* roles output: parse the arg-th node operand's list */
    t->roles(n, &m, &o);
    unsigned seen = 0, len = 0; const char *p = o.p ? o.p : "";
    /* operands appear in constructor order; skip booleans, strings, operators */
    while (*p) {
        while (*p && *p != ':') p++;
        if (!*p) break;
        p++;
        bool node = *p == '[' || *p == 'n' || *p == '-' || (*p >= '0' && *p <= '9');
        if (node) {
            if (seen == arg) { if (*p == '[' && p[1] != ']') { len = 1; for (; *p && *p != ']'; ++p) if (*p == ',') len++; } break; }
            seen++;
        }
        if (*p == '[') while (*p && *p != ']') p++;
        else if (*p == '"') { p++; while (*p && *p != '"') { if (*p == '\\') p++; p++; } }
    }
    s_free(&o);
    return len;
}

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static void config(struct opts *o, cypher_parser_config_t **cp, bool *own)
{
    *cp = NULL; *own = false;
    if (!o->usecfg) return;
    if (o->cfgid >= 0 && cfgs[o->cfgid & 63].used) { *cp = cfgs[o->cfgid & 63].c; return; }
    cypher_parser_config_t *c = cypher_parser_new_config();
    if (!c) { fprintf(stderr, "new_config failed\n"); exit(3); }
    if (o->haspos) cypher_parser_config_set_initial_position(c, o->pos);
    if (o->ord >= 0) cypher_parser_config_set_initial_ordinal(c, (unsigned)o->ord);
    if (o->color >= 0) cypher_parser_config_set_error_colorization(c, vf_color(o->color));
    if (o->cfgid >= 0) { cfgs[o->cfgid & 63].used = 1; cfgs[o->cfgid & 63].c = c; } else *own = true;
    *cp = c;
}

static void parse_opts(struct opts *o, char **tok, int nt)
{
    memset(o, 0, sizeof(*o)); o->ord = -1; o->color = -1; o->errat = -1; o->cfgid = -1; o->unbuf = 0; o->dump = 1;
    snprintf(o->entry, sizeof(o->entry), "%s", tok[1]);
    for (int i = 2; i < nt; ++i) {
        char *v = strchr(tok[i], '='); if (!v) { fprintf(stderr, "bad option %s\n", tok[i]); exit(3); }
        *v++ = 0; const char *k = tok[i];
        if (!strcmp(k, "flags")) o->flags = (unsigned)atoi(v);
        else if (!strcmp(k, "pos")) { o->usecfg = o->haspos = 1; sscanf(v, "%u,%u,%zu", &o->pos.line, &o->pos.column, &o->pos.offset); }
        else if (!strcmp(k, "ord")) { o->usecfg = 1; o->ord = atol(v); }
        else if (!strcmp(k, "color")) { o->usecfg = 1; o->color = atoi(v); }
        else if (!strcmp(k, "cfg")) { o->usecfg = 1; o->cfgid = atoi(v); }
        else if (!strcmp(k, "chunk")) { for (char *sv = NULL, *p = strtok_r(v, ",", &sv); p && o->nchunks < 64; p = strtok_r(NULL, ",", &sv)) o->chunks[o->nchunks++] = atoi(p); }
        else if (!strcmp(k, "unbuf")) o->unbuf = atoi(v);
        else if (!strcmp(k, "errat")) o->errat = atol(v);
        else if (!strcmp(k, "err")) o->err = atoi(v);
        else if (!strcmp(k, "unget")) o->unget = atoi(v);
        else if (!strcmp(k, "stale")) o->stale = atoi(v);
        else if (!strcmp(k, "pre")) o->pre = (size_t)atol(v);
        else if (!strcmp(k, "chan")) {
            static const char *const names[] = { "cookie", "file", "pipe", "sock", "mem" };
            o->chan = -1;
            for (int j = 0; j < 5; ++j) if (!strcmp(v, names[j])) o->chan = j;
            if (o->chan < 0) { fprintf(stderr, "unknown channel %s\n", v); exit(3); }
        }
        else if (!strcmp(k, "cb")) { for (char *sv = NULL, *p = strtok_r(v, ",", &sv); p && o->ncbs < MAXV; p = strtok_r(NULL, ",", &sv)) o->cbs[o->ncbs++] = atoi(p); }
        else if (!strcmp(k, "keep")) o->keep = atoi(v);
        else if (!strcmp(k, "clone")) o->clone = atoi(v);
        else if (!strcmp(k, "rebuild")) o->rebuild = atoi(v);
        else if (!strcmp(k, "texts")) o->texts = atoi(v);
        else if (!strcmp(k, "ctor")) o->ctor = atoi(v);
        else if (!strcmp(k, "pfail")) o->pfail = atoi(v);
        else if (!strcmp(k, "dump")) o->dump = atoi(v);
        else if (!strcmp(k, "budget")) o->budget = atof(v);
        else if (!strcmp(k, "tail")) o->tail = (size_t)strtoull(v, NULL, 10); /* the input begins a buffer of that length, zero from there on */
        else if (!strcmp(k, "nolast")) o->nolast = atoi(v);
        else if (!strcmp(k, "print")) { for (char *sv = NULL, *p = strtok_r(v, ",", &sv); p && o->npr < 16; p = strtok_r(NULL, ",", &sv)) { sscanf(p, "%u:%d", &o->pr[o->npr].w, &o->pr[o->npr].c); o->npr++; } o->segpr = 1; }
        else { fprintf(stderr, "unknown option %s\n", k); exit(3); }
    }
}

void vf_shared_config(char *line)
{
    char *tok[64]; int nt = 0;
    for (char *sv = NULL, *p = strtok_r(line, " \n", &sv); p && nt < 64; p = strtok_r(NULL, " \n", &sv)) tok[nt++] = p;
    struct opts o; parse_opts(&o, tok, nt - 1);
    cypher_parser_config_t *c; bool own;
    if (o.cfgid >= 0) config(&o, &c, &own);
}
void vf_run_case(char *line, S *out)
{
    char *tok[64]; int nt = 0;
    for (char *sv = NULL, *p = strtok_r(line, " \n", &sv); p && nt < 64; p = strtok_r(NULL, " \n", &sv)) tok[nt++] = p;
    if (nt < 3) { fprintf(stderr, "bad case line\n"); exit(3); }
    struct opts *o = malloc(sizeof(*o)); char *hex = tok[nt - 1]; char *id = tok[0];
    parse_opts(o, tok, nt - 1);
    size_t n = hex[0] == '-' ? 0 : strlen(hex) / 2;
    int z = o->entry[0] == 'p' || !strcmp(o->entry, "qp");
    unsigned char *buf = malloc(n + z ? n + z : 1); unsigned char *orig = malloc(n + 1);
    for (size_t i = 0; i < n; ++i) orig[i] = buf[i] = (unsigned char)(hexv(hex[2*i]) * 16 + hexv(hex[2*i+1]));
    if (z) buf[n] = 0;
    size_t nn = o->texts ? 0 : n;   /* a text is for the constructors, not to be parsed */
    if (o->tail > n) {
        unsigned char *m = mmap(NULL, o->tail, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { fprintf(stderr, "cannot map %zu bytes\n", o->tail); exit(3); }
        memcpy(m, buf, n); free(buf); buf = m; nn = o->tail;
    }
    struct run r = { .o = o, .out = out, .buf = orig, .bufn = n };
    struct vf_stream st = { .data = buf, .n = n, .chunks = o->chunks, .nchunks = o->nchunks, .errat = o->errat,
        .chan = o->chan, .err = o->err, .unget = o->unget, .stale = o->stale, .pre = o->pre };
    FILE *f = NULL;
    bool own; cypher_parser_config_t *cfg; 
    struct vf_ledger l0, l1; 
    led_fail_at(0, 0);
    if (o->cfgid >= 0) config(o, &cfg, &own);
    led_get(&l0);
    if (o->cfgid < 0) config(o, &cfg, &own);
    struct cypher_input_position last = { 4242, 4242, 4242 };
    struct cypher_input_position *lp = o->nolast ? NULL : &last;
    cypher_parse_result_t *res = NULL; int ret = -99, e; 
    const char *en = o->entry;
    if (en[0] == 'f' || !strcmp(en, "qf")) { f = vf_open(&st, o->unbuf); r.st = &st; r.f = f; }
    s_printf(out, "{\"id\":\"%s\",\"segs\":[", id);
    struct vf_ledger w0, w1; led_get(&w0);
    if (o->budget > 0) vf_work_budget((uint64_t)o->budget);
    uint64_t work0 = vf_work();
    errno = 0;
    if (!strcmp(en, "u")) res = cypher_uparse((char *)buf, nn, lp, cfg, o->flags);
    else if (!strcmp(en, "p")) res = cypher_parse((char *)buf, lp, cfg, o->flags);
    else if (!strcmp(en, "f")) res = cypher_fparse(f, lp, cfg, o->flags);
    else if (!strcmp(en, "ue")) ret = cypher_uparse_each((char *)buf, nn, on_seg, &r, lp, cfg, o->flags);
    else if (!strcmp(en, "pe")) ret = cypher_parse_each((char *)buf, on_seg, &r, lp, cfg, o->flags);
    else if (!strcmp(en, "fe")) ret = cypher_fparse_each(f, on_seg, &r, lp, cfg, o->flags);
    else if (!strcmp(en, "qu")) ret = cypher_quick_uparse((char *)buf, nn, on_quick, &r, o->flags);
    else if (!strcmp(en, "qp")) ret = cypher_quick_parse((char *)buf, on_quick, &r, o->flags);
    else if (!strcmp(en, "qf")) ret = cypher_quick_fparse(f, on_quick, &r, o->flags);
    else { fprintf(stderr, "unknown entry %s\n", en); exit(3); }
    e = errno;
    uint64_t work1 = vf_work(); vf_work_budget(0); led_get(&w1);
    int isres = !strcmp(en, "u") || !strcmp(en, "p") || !strcmp(en, "f");
    if (isres) ret = res ? 0 : -1;
    if (o->budget > 0) {
        uint64_t f0 = vf_work();
        unsigned ne = res ? cypher_parse_result_nerrors(res) : 0;
        cypher_parse_result_free(res);
        if (own) cypher_parser_config_free(cfg);
        if (f) vf_close(&st, f);
        s_printf(out, "],\"ret\":%d,\"at\":%llu,\"work\":%llu,\"freeing\":%llu,\"bytes\":%zu,\"errs\":%u,\"chk\":[]}\n", ret, (unsigned long long)work0, (unsigned long long)(work1 - work0), (unsigned long long)(vf_work() - f0), w1.asked - w0.asked, ne);
        if (nn > n) munmap(buf, nn); else free(buf);
        free(orig); free(o);
        return;
    }
    s_printf(out, "],\"ret\":%d,\"errno\":%d,\"last\":[%u,%u,%zu]", ret, ret < 0 ? e : 0, last.line, last.column, last.offset);
    if (f) {
        size_t rd = vf_stream_taken(&st, f), left = 0; int c, same = 1;
        s_printf(out, ",\"rd\":%zu,\"reqs\":%zu,\"eofs\":%zu,\"erred\":%d", rd, st.reqs, st.eofs, st.erred);
        /* what is still in the stream for the next reader */
        while ((c = getc(f)) != EOF) { if (rd + left >= n || orig[rd + left] != c) same = 0; left++; }
        s_printf(out, ",\"left\":%zu,\"leftok\":%d", left, same);
    }
    /* the input goes away before results are looked at */
    if (memcmp(orig, buf, n)) bad(&r, "input buffer modified");
    if (f) vf_close(&st, f);
    if (nn > n) munmap(buf, nn);
    else { memset(buf, 0xA5, n); free(buf); }
    buf = NULL;
    if (own) { cypher_parser_config_free(cfg); }
    if (o->keep) {
        int bad_ = 0;
        S d = {0};
        for (unsigned i = 0; i < r.nkept; ++i) {
            unsigned k = (o->keep & 1) ? i : r.nkept - 1 - i;
            d.n = 0; unsigned zc = 0; dump_segment(&d, r.kept[k], NULL, &zc);
            if (d.n != r.kdump[k].n || memcmp(d.p, r.kdump[k].p, d.n)) bad_++;
            cypher_parse_segment_release(r.kept[k]); s_free(&r.kdump[k]);
        }
        s_free(&d); free(r.kept); free(r.kdump);
        s_printf(out, ",\"kept\":%u", r.nkept);
        if (bad_) bad(&r, "%d retained segments changed after the parse ended", bad_);
    }
    if (res) {
        s_puts(out, ",\"res\":"); 
        size_t at = out->n;
        dump_result(out, res, &r.chk, &r.nchk);
        S d2 = {0}; d2.n = 0; unsigned zc = 0; dump_result(&d2, res, NULL, &zc);
        if (d2.n != out->n - at || memcmp(d2.p, out->p + at, d2.n)) bad(&r, "reading a result twice gives different values");
        s_free(&d2);
        unsigned nr = cypher_parse_result_nroots(res);
        if (o->npr || o->pfail) {
            s_puts(out, ",\"pr\":["); bool first = true;
            print_opts(out, o, "res", 0, &first, pf_res, res);
            for (unsigned i = 0; i < nr; ++i) print_opts(out, o, "root", i, &first, pf_root, cypher_parse_result_get_root(res, i));
            s_puts(out, "]");
        }
        if (o->texts) text_checks(&r, orig, n);
        if (o->rebuild) for (unsigned i = 0; i < nr; ++i) rebuild_checks(&r, cypher_parse_result_get_root(res, i));
        if (o->ctor) for (unsigned i = 0; i < nr; ++i) ctor_checks(&r, cypher_parse_result_get_root(res, i));
        if (o->clone) {
            cypher_astnode_t **cl = calloc(nr + 1, sizeof(*cl)); S *ds = calloc(nr + 1, sizeof(S));
            for (unsigned i = 0; i < nr; ++i) { sdump(&ds[i], cypher_parse_result_get_root(res, i), NULL); clone_checks(&r, cypher_parse_result_get_root(res, i), &cl[i]); }
            cypher_parse_result_free(res); res = NULL;
            for (unsigned i = 0; i < nr; ++i) {
                if (cl[i]) { S d = {0}; sdump(&d, cl[i], &r); check_same(&r, &ds[i], &d, "clone after the original was freed"); s_free(&d); cypher_ast_free(cl[i]); }
                s_free(&ds[i]);
            }
            free(cl); free(ds);
        }
        if (res) cypher_parse_result_free(res);
    }
    led_get(&l1);
    if (l1.live != l0.live) {
        S d = {0}; led_describe(&d);
        bad(&r, "LEAK: %zd blocks (%zd bytes) not released: %s", (ssize_t)(l1.live - l0.live), (ssize_t)(l1.bytes - l0.bytes), d.p ? d.p : ""); s_free(&d);
    }
    if (o->ctor) { s_printf(out, ",\"ctor\":[%lu,%lu]", ctor_tried, ctor_refused); ctor_tried = ctor_refused = 0; }
    s_printf(out, ",\"na\":%zu,\"chk\":[%s]", l1.nalloc - l0.nalloc, r.chk.p ? r.chk.p : "");
    if (o->texts) s_printf(out, ",\"texts\":%u", r.ntexts);
    if (vf_no_get_root) s_puts(out, ",\"noroot\":1");
    s_puts(out, "}\n");
    s_free(&r.chk); free(orig); free(o);
}

#ifndef VF_FUZZ
int vf_oom_main(int argc, char **argv);
int vf_annot_main(int argc, char **argv);
int vf_work_main(int argc, char **argv);
int vf_threads_main(int argc, char **argv);
int main(int argc, char **argv)
{
    if (argc > 1 && !strcmp(argv[1], "oom")) return vf_oom_main(argc - 1, argv + 1);
    if (argc > 1 && !strcmp(argv[1], "annot")) return vf_annot_main(argc - 1, argv + 1);
    if (argc > 1 && !strcmp(argv[1], "threads")) return vf_threads_main(argc - 1, argv + 1);
    char *line = NULL; size_t cap = 0; ssize_t k;
    unsigned lim = argc > 1 ? (unsigned)atoi(argv[1]) : 30;
    S out = {0};
    while ((k = getline(&line, &cap, stdin)) > 0) {
        alarm(lim);
        out.n = 0;
        vf_run_case(line, &out);
        alarm(0);
        if (fwrite(out.p, 1, out.n, stdout) != out.n || fflush(stdout)) exit(3);
    }
    for (int i = 0; i < 64; ++i) if (cfgs[i].used) cypher_parser_config_free(cfgs[i].c);
    free(line); s_free(&out);
    return 0;
}
#endif
