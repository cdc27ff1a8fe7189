/* Runs annotation histories. A case's data is a list of operations, one per line:
 *   P kind flags hexdoc   parse; kind r: result, s: retained segments, b: rebuilt roots, c: cloned roots
 *   K obj node            clone a subtree into a new object
 *   N h k                 new context, with release handler h (0: none) and userdata k (4: NULL)
 *   H ctx h k             set the handler and the userdata of a context
 *   A ctx obj node val w  attach (w: ask for the previous value)
 *   G ctx obj node        get
 *   R ctx obj node        remove
 *   F obj                 free an object      D obj   free it node by node, from the leaves up
 *   X ctx                 free a context      Z       free NULL objects
 *   S op...               at the first release of the next operation, its handler does this one
 * Output: per operation, a list of what it returned, and the releases seen during it. */
#include "vf.h"
#include <unistd.h>

#define MAXO 64
struct obj { int live; cypher_parse_result_t *res; cypher_parse_segment_t **segs; unsigned nsegs; cypher_astnode_t **roots; unsigned nroots;
    const cypher_astnode_t **l; size_t n, cap; };
static struct obj objs[MAXO]; static unsigned nobjs;
static struct ctx { int live; cypher_ast_annotation_context_t *c; char ud[4]; } ctxs[MAXO]; static unsigned nctxs;
static S ev; static unsigned nev; static unsigned handled;
static char *script[4]; static unsigned nscript; static S sout; static int nested;
static void op(S *out, char *line);

/* which userdata: 4 * context + k, or -1 for NULL */
static long udname(const void *ud)
{
    for (unsigned c = 0; c < nctxs; ++c) for (unsigned k = 0; k < 4; ++k) if (ud == &ctxs[c].ud[k]) return 4 * (long)c + (long)k;
    return ud ? -2 : -1;
}
static void event(int h, void *ud, const cypher_astnode_t *node, void *data)
{
    long o = -1, k = -1;
    for (unsigned i = 0; i < nobjs && o < 0; ++i) if (objs[i].live)
        for (size_t j = 0; j < objs[i].n; ++j) if (objs[i].l[j] == node) { o = (long)i; k = (long)j; break; }
    const struct vf_type *t = o >= 0 ? vf_type_of(node) : NULL; /* the node must still be readable */
    struct cypher_input_range r = { { 0 } }; if (o >= 0) r = cypher_astnode_range(node);
    s_printf(&ev, "%s[%d,%ld,%ld,%ld,%ld,\"%s\",%zu]", nev++ ? "," : "", h, udname(ud), o, k, (long)(intptr_t)data - 1000, t ? t->name : "?", r.start.offset);
    handled++;
    if (nscript && !nested) {
        nested = 1;
        for (unsigned i = 0; i < nscript; ++i) op(&sout, script[i]);
        nested = 0; nscript = 0;
    }
}
static void h1(void *u, const cypher_astnode_t *n, void *a) { event(1, u, n, a); }
static void h2(void *u, const cypher_astnode_t *n, void *a) { event(2, u, n, a); }
static void sethandler(unsigned c, int h, unsigned k)
{
    cypher_ast_annotation_context_set_release_handler(ctxs[c].c, h == 1 ? h1 : h == 2 ? h2 : NULL, k < 4 ? &ctxs[c].ud[k] : NULL);
}
static struct obj *newobj(void) { if (nobjs >= MAXO) exit(3); struct obj *o = &objs[nobjs++]; memset(o, 0, sizeof(*o)); o->live = 1; return o; }
static void addroot(struct obj *o, const cypher_astnode_t *r) { vf_collect(r, &o->l, &o->n, &o->cap); }
static int keepseg(void *u, cypher_parse_segment_t *s)
{
    struct obj *o = u;
    cypher_parse_segment_retain(s);
    o->segs = realloc(o->segs, (o->nsegs + 1) * sizeof(*o->segs)); o->segs[o->nsegs++] = s;
    for (unsigned i = 0; i < cypher_parse_segment_nroots(s); ++i) addroot(o, vf_segment_root(s, i));
    return 0;
}
static void freeobj(struct obj *o, int byNode)
{
    if (o->res) cypher_parse_result_free(o->res);
    for (unsigned i = 0; i < o->nsegs; ++i) cypher_parse_segment_release(o->segs[i]);
    if (byNode && o->roots) {
        for (size_t i = o->n; i-- > 0; ) cypher_astnode_free((cypher_astnode_t *)(uintptr_t)o->l[i]);
    } else {
        for (unsigned i = 0; i < o->nroots; ++i) cypher_ast_free(o->roots[i]);
    }
    free(o->segs); free(o->roots); free(o->l); o->live = 0; o->n = 0;
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static unsigned char *unhex(const char *h, size_t *n)
{
    *n = h[0] == '-' ? 0 : strlen(h) / 2;
    unsigned char *b = malloc(*n + 1);
    for (size_t i = 0; i < *n; ++i) b[i] = (unsigned char)(hexv(h[2*i]) * 16 + hexv(h[2*i+1]));
    b[*n] = 0;
    return b;
}
static void op(S *out, char *line)
{
    char *v[8]; int n = 0; char *save = NULL;
    if (line[0] == 'S') { if (nscript >= 4) exit(3); script[nscript++] = line + 2; return; }
    for (char *p = strtok_r(line, " ", &save); p && n < 8; p = strtok_r(NULL, " ", &save)) v[n++] = p;
    if (!n) return;
    char c = v[0][0];
    unsigned a[6] = { 0 };
    for (int i = 1; i < n && i < 6; ++i) a[i] = (unsigned)strtoul(v[i], NULL, 10);
    if (!nested) { ev.n = 0; nev = 0; sout.n = 0; s_puts(&sout, "["); }
    long r0 = 0, r1 = -1;
    /* only after releases that were not due: what comes next does not exist any more */
    int oi = c == 'K' || c == 'F' || c == 'D' ? 1 : strchr("AGR", c) ? 2 : 0, ci = strchr("HAGRX", c) ? 1 : 0;
    int gone = (oi && (a[oi] >= nobjs || !objs[a[oi]].live)) || (ci && (a[ci] >= nctxs || !ctxs[a[ci]].live));
    if (gone) r0 = -8;
    else if (c == 'P') {
        size_t m; unsigned char *in = unhex(v[3], &m);
        struct obj *o = newobj();
        if (v[1][0] == 's') r0 = cypher_uparse_each((char *)in, m, keepseg, o, NULL, NULL, a[2]);
        else {
            cypher_parse_result_t *res = cypher_uparse((char *)in, m, NULL, NULL, a[2]);
            if (!res) exit(3);
            unsigned k = cypher_parse_result_nroots(res);
            if (v[1][0] == 'r') { o->res = res; for (unsigned i = 0; i < k; ++i) addroot(o, cypher_parse_result_get_root(res, i)); }
            else {
                o->roots = calloc(k + 1, sizeof(*o->roots)); o->nroots = k;
                for (unsigned i = 0; i < k; ++i) {
                    const cypher_astnode_t *x = cypher_parse_result_get_root(res, i);
                    o->roots[i] = v[1][0] == 'c' ? cypher_ast_clone(x) : vf_rebuild(x);
                    if (!o->roots[i]) exit(3);
                    addroot(o, o->roots[i]);
                }
                cypher_parse_result_free(res);
            }
        }
        free(in); r1 = (long)o->n;
    } else if (c == 'K') {
        const cypher_astnode_t *x = objs[a[1]].l[a[2]];
        struct obj *o = newobj();
        o->roots = calloc(1, sizeof(*o->roots)); o->nroots = 1;
        o->roots[0] = cypher_ast_clone(x);
        if (!o->roots[0]) exit(3);
        addroot(o, o->roots[0]); r1 = (long)o->n;
    } else if (c == 'N') {
        if (nctxs >= MAXO) exit(3);
        ctxs[nctxs].c = cypher_ast_annotation_context(); ctxs[nctxs].live = 1;
        nctxs++;
        if (a[1]) sethandler(nctxs - 1, (int)a[1], a[2]);
    } else if (c == 'H') sethandler(a[1], (int)a[2], a[3]);
    else if (c == 'A') {
        static int poison; void *prev = &poison;
        errno = 0;
        r0 = cypher_astnode_attach_annotation(ctxs[a[1]].c, objs[a[2]].l[a[3]], a[4] ? (void *)(intptr_t)(1000 + a[4]) : NULL, a[5] ? &prev : NULL);
        r1 = prev == &poison ? -2 : prev ? (long)(intptr_t)prev - 1000 : -1;
        if (r0 && errno != EINVAL) r0 = -9;
    } else if (c == 'G') { void *p = cypher_astnode_get_annotation(ctxs[a[1]].c, objs[a[2]].l[a[3]]); r1 = p ? (long)(intptr_t)p - 1000 : -1; }
    else if (c == 'R') { void *p = cypher_astnode_remove_annotation(ctxs[a[1]].c, objs[a[2]].l[a[3]]); r1 = p ? (long)(intptr_t)p - 1000 : -1; }
    else if (c == 'F' || c == 'D') freeobj(&objs[a[1]], c == 'D');
    else if (c == 'X') { cypher_ast_annotation_context_free(ctxs[a[1]].c); ctxs[a[1]].live = 0; }
    else if (c == 'Z') { cypher_ast_annotation_context_free(NULL); cypher_ast_free(NULL); cypher_parse_result_free(NULL); }
    else exit(3);
    if (nested) { s_printf(out, "%s[%ld,%ld]", out->p[out->n - 1] == '[' ? "" : ",", r0, r1); return; }
    nscript = 0;
    s_printf(out, "%s[%ld,%ld,[%s],%.*s]]", out->p[out->n - 1] == '[' ? "" : ",", r0, r1, nev ? ev.p : "", (int)sout.n, sout.p);
}
int vf_annot_main(int argc, char **argv)
{
    unsigned lim = argc > 1 ? (unsigned)atoi(argv[1]) : 60;
    char *line = NULL; size_t cap = 0; S out = {0};
    while (getline(&line, &cap, stdin) > 0) {
        alarm(lim);
        char *save = NULL, *id = strtok_r(line, " \n", &save), *t, *hex = NULL;
        while ((t = strtok_r(NULL, " \n", &save))) hex = t;
        if (!hex) exit(3);
        size_t n; unsigned char *in = unhex(hex, &n);
        struct vf_ledger l0, l1; led_fail_at(0, 0); led_get(&l0);
        nobjs = nctxs = 0; handled = 0; out.n = 0;
        s_printf(&out, "{\"id\":\"%s\",\"log\":[", id);
        char *s2 = NULL;
        for (char *p = strtok_r((char *)in, "\n", &s2); p; p = strtok_r(NULL, "\n", &s2)) op(&out, p);
        unsigned rest = 0; /* none, unless a release that was due did not happen */
        for (unsigned i = 0; i < nobjs; ++i) if (objs[i].live) { freeobj(&objs[i], 0); rest++; }
        for (unsigned i = 0; i < nctxs; ++i) if (ctxs[i].live) { cypher_ast_annotation_context_free(ctxs[i].c); rest++; }
        led_get(&l1);
        s_printf(&out, "],\"rest\":%u,\"leak\":%zd,\"na\":%zu,\"chk\":[]}\n", rest, (ssize_t)(l1.live - l0.live), l1.nalloc - l0.nalloc);
        alarm(0);
        fwrite(out.p, 1, out.n, stdout); fflush(stdout);
        free(in);
    }
    free(line); s_free(&out); s_free(&ev); s_free(&sout);
    return 0;
}
