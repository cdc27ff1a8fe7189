/* Allocation failure sweeps. One case per line: "id opts hex"; opts is a comma
 * separated list of what to sweep: u f ue fe qu qf (parsing), clone, print,
 * rebuild (every constructor), annot, config. For each, every k-th allocation is
 * made to fail, once (mode 1) and with all later ones (mode 2), up to maxk=. */
#include "vf.h"
#include <stdarg.h>
#include <unistd.h>

static char note[200];
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death(void) { fprintf(stderr, "\nVF-OOM: %s\n", note); fflush(stderr); }

static S chk; static unsigned nchk;
static unsigned long faults, cleanfail, fullok, points;
static void bad(const char *fmt, ...) __attribute__((format(printf,1,2)));
static void bad(const char *fmt, ...)
{
    char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    if (nchk < 12) { if (nchk) s_puts(&chk, ","); s_json(&chk, b, strlen(b)); }
    nchk++;
}

struct pr { S out; unsigned n; cypher_parse_segment_t *keep[8]; unsigned nkeep; int stop; };
static int on_seg(void *u, cypher_parse_segment_t *seg)
{
    struct pr *p = u; unsigned z = 0;
    dump_segment(&p->out, seg, NULL, &z); s_puts(&p->out, "\n"); p->n++;
    if (p->nkeep < 8) { cypher_parse_segment_retain(seg); p->keep[p->nkeep++] = seg; }
    return 0;
}
static int on_quick(void *u, const cypher_quick_parse_segment_t *seg)
{
    struct pr *p = u; size_t n; const char *t = cypher_quick_parse_segment_get_text(seg, &n);
    s_json(&p->out, t, n); dump_range(&p->out, cypher_quick_parse_segment_get_range(seg)); s_puts(&p->out, "\n"); p->n++;
    return 0;
}
/* one parse; returns 0 or -1, text of what was delivered in p->out */
static int one(const char *en, const unsigned char *in, size_t n, struct pr *p, cypher_parser_config_t *cfg, int *e, long k, int mode)
{
    struct vf_stream st = { .data = in, .n = n, .errat = -1 };
    FILE *f = NULL;
    p->out.n = 0; p->n = 0; p->nkeep = 0;
    if (en[0] == 'f' || !strcmp(en, "qf")) f = vf_open(&st, 0);
    cypher_parse_result_t *res = NULL; int ret = 0;
    struct cypher_input_position last;
    led_fail_at(k, mode); errno = 0;
    if (!strcmp(en, "u")) { res = cypher_uparse((const char *)in, n, &last, cfg, 0); ret = res ? 0 : -1; }
    else if (!strcmp(en, "f")) { res = cypher_fparse(f, &last, cfg, 0); ret = res ? 0 : -1; }
    else if (!strcmp(en, "ue")) ret = cypher_uparse_each((const char *)in, n, on_seg, p, &last, cfg, 0);
    else if (!strcmp(en, "fe")) ret = cypher_fparse_each(f, on_seg, p, &last, cfg, 0);
    else if (!strcmp(en, "qu")) ret = cypher_quick_uparse((const char *)in, n, on_quick, p, 0);
    else if (!strcmp(en, "qf")) ret = cypher_quick_fparse(f, on_quick, p, 0);
    else { fprintf(stderr, "unknown entry %s\n", en); exit(3); }
    *e = errno;
    size_t nf = led_failed();
    led_fail_at(0, 0);
    if (f) fclose(f);
    if (res) { unsigned z = 0; dump_result(&p->out, res, NULL, &z); cypher_parse_result_free(res); }
    for (unsigned i = 0; i < p->nkeep; ++i) {   /* what was delivered stays readable */
        S d = {0}; unsigned z = 0; dump_segment(&d, p->keep[i], NULL, &z); s_free(&d);
        cypher_parse_segment_release(p->keep[i]);
    }
    faults += nf; p->stop = nf == 0;
    return ret;
}

static void verdict(const char *what, long k, int mode, int ret, int e, int stopped, const S *got, const S *base, int prefix_ok)
{
    if (stopped) { /* nothing failed */
        if (ret || got->n != base->n || memcmp(got->p ? got->p : "", base->p ? base->p : "", base->n)) bad("%s: run without faults differs after failures (k=%ld mode %d)", what, k, mode);
        return;
    }
    if (ret < 0) {
        cleanfail++;
        if (e != ENOMEM) bad("%s: allocation %ld (mode %d) failed and errno is %d", what, k, mode, e);
        if (!prefix_ok && got->n) bad("%s: allocation %ld (mode %d): a failed call delivered a result", what, k, mode);
        if (got->n > base->n || memcmp(got->p ? got->p : "", base->p ? base->p : "", got->n)) bad("%s: allocation %ld (mode %d): segments delivered before the failure differ", what, k, mode);
        return;
    }
    fullok++;
    if (got->n != base->n || memcmp(got->p ? got->p : "", base->p ? base->p : "", base->n)) bad("%s: allocation %ld (mode %d) failed, the call succeeded with a different result", what, k, mode);
}

static void sweep_parse(const char *en, const unsigned char *in, size_t n, long maxk, long step, cypher_parser_config_t *cfg)
{
    struct pr b = {0}, p = {0}; int e;
    snprintf(note, sizeof(note), "%s baseline", en);
    if (one(en, in, n, &b, cfg, &e, 0, 0)) { bad("%s: parse fails without faults, errno %d", en, e); s_free(&b.out); return; }
    for (int mode = 1; mode <= 2; ++mode) {
        for (long k = 1; k <= maxk; k += (k < maxk / 2 ? 1 : step)) {
            struct vf_ledger l0, l1; led_get(&l0);
            snprintf(note, sizeof(note), "%s allocation %ld mode %d", en, k, mode);
            p.stop = 0;
            int ret = one(en, in, n, &p, cfg, &e, k, mode);
            points++;
            verdict(en, k, mode, ret, e, p.stop, &p.out, &b.out, en[1] == 'e' || en[0] == 'q');
            led_get(&l1);
            if (l0.live != l1.live) { S d = {0}; led_describe(&d); bad("LEAK %s: allocation %ld (mode %d) failed, %zd blocks are never released: %s", en, k, mode, (ssize_t)(l1.live - l0.live), d.p ? d.p : ""); s_free(&d); led_get(&l0); }
            if (p.stop) break;
        }
        snprintf(note, sizeof(note), "%s after failures", en);
        p.stop = 0; int ret = one(en, in, n, &p, cfg, &e, 0, 0); verdict(en, 0, mode, ret, e, p.stop, &p.out, &b.out, 1);
    }
    s_free(&b.out); s_free(&p.out);
}

static void sweep_tree(const cypher_astnode_t *root, int clone, int print, int rebuild, int annot)
{
    S base = {0}, got = {0};
    struct vf_ledger l0, l1;
    vf_dump(&base, root, NULL, NULL);
    char *pbase = NULL; size_t pn = 0;
    { FILE *f = open_memstream(&pbase, &pn); if (cypher_ast_fprint(root, f, 0, NULL, 0)) bad("print fails without faults"); fclose(f); }
    if (clone) for (int mode = 1; mode <= 2; ++mode) for (long k = 1; k < 100000; ++k) {
        led_get(&l0); snprintf(note, sizeof(note), "clone allocation %ld mode %d", k, mode);
        led_fail_at(k, mode); errno = 0;
        cypher_astnode_t *c = cypher_ast_clone(root); int e = errno;
        size_t nf = led_failed(); led_fail_at(0, 0); faults += nf; points++;
        if (!c && !nf) { bad("clone fails without faults, errno %d", e); break; }
        if (!c && e != ENOMEM) bad("clone: allocation %ld (mode %d) failed and errno is %d", k, mode, e);
        if (!c) cleanfail++;
        if (c) { got.n = 0; vf_dump(&got, c, NULL, NULL); if (got.n != base.n || memcmp(got.p, base.p, base.n)) bad("clone: allocation %ld (mode %d) failed, the clone differs", k, mode); cypher_ast_free(c); if (nf) fullok++; }
        led_get(&l1);
        if (l0.live != l1.live) { S d = {0}; led_describe(&d); bad("LEAK clone: allocation %ld (mode %d) failed, %zd blocks are never released", k, mode, (ssize_t)(l1.live - l0.live)); s_free(&d); }
        if (!nf) break;
    }
    if (print) for (int mode = 1; mode <= 2; ++mode) for (long k = 1; k < 100000; ++k) {
        led_get(&l0); snprintf(note, sizeof(note), "print allocation %ld mode %d", k, mode);
        char *pp = NULL; size_t n2 = 0; FILE *f = open_memstream(&pp, &n2);
        led_fail_at(k, mode); errno = 0;
        int rc = cypher_ast_fprint(root, f, (k & 1) ? 0 : 60, NULL, 0); int e = errno;
        size_t nf = led_failed(); led_fail_at(0, 0); faults += nf; points++;
        fclose(f);
        if (rc && !nf) { bad("print fails without faults, errno %d", e); free(pp); break; }
        if (rc && e != ENOMEM) bad("print: allocation %ld (mode %d) failed and errno is %d", k, mode, e);
        if (rc) cleanfail++;
        else { if (nf) fullok++; if ((k & 1) && (n2 != pn || memcmp(pp, pbase, pn))) bad("print: allocation %ld (mode %d) failed, the text differs", k, mode); }
        free(pp); led_get(&l1);
        if (l0.live != l1.live) bad("LEAK print: allocation %ld (mode %d) failed, %zd blocks are never released", k, mode, (ssize_t)(l1.live - l0.live));
        if (!nf) break;
    }
    if (rebuild) {
        const cypher_astnode_t **l = NULL; size_t n = 0, cap = 0;
        vf_collect(root, &l, &n, &cap);
        for (size_t i = 0; i < n; ++i) {
            const struct vf_type *t = vf_type_of(l[i]); unsigned nc = cypher_astnode_nchildren(l[i]);
            cypher_astnode_t **ch = calloc(nc + 1, sizeof(*ch)); unsigned j;
            for (j = 0; j < nc; ++j) if (!(ch[j] = vf_rebuild(cypher_astnode_get_child(l[i], j)))) break;
            if (j == nc) for (int mode = 1; mode <= 2; ++mode) for (long k = 1; k < 1000; ++k) {
                vf_map m; m_init(&m); m.orig = l[i]; m.ch = ch; m.nch = nc;
                led_get(&l0); snprintf(note, sizeof(note), "constructor of %s, allocation %ld mode %d", t->name, k, mode);
                led_fail_at(k, mode); errno = 0;
                cypher_astnode_t *x = t->rebuild(l[i], &m, ch, nc); int e = errno;
                size_t nf = led_failed(); led_fail_at(0, 0); faults += nf; points++;
                if (!x && !nf) { bad("constructor of %s fails without faults, errno %d", t->name, e); break; }
                if (!x && e != ENOMEM) bad("constructor of %s: allocation %ld failed and errno is %d", t->name, k, e);
                if (!x) {
                    cleanfail++; led_get(&l1);
                    if (l0.live != l1.live) bad("LEAK constructor of %s: allocation %ld failed, %zd blocks are never released", t->name, k, (ssize_t)(l1.live - l0.live));
                    for (unsigned q = 0; q < nc; ++q) (void)cypher_astnode_type(ch[q]); /* operands still ours */
                    continue;
                }
                if (nf) fullok++;
                S a = {0}, b2 = {0}; vf_dump(&a, l[i], NULL, NULL); vf_dump(&b2, x, NULL, NULL);
                if (a.n != b2.n || memcmp(a.p, b2.p, a.n)) bad("constructor of %s: allocation %ld failed, the node differs", t->name, k);
                s_free(&a); s_free(&b2);
                cypher_astnode_free(x);     /* frees the node alone */
                led_get(&l1);
                if (l0.live != l1.live) bad("LEAK constructor of %s: freeing the node leaves %zd blocks", t->name, (ssize_t)(l1.live - l0.live));
                if (!nf) break;
            } else bad("rebuild of a child of %s fails", t->name);
            for (unsigned q = 0; q < j; ++q) cypher_ast_free(ch[q]);
            free(ch);
        }
        free(l);
    }
    if (annot) {
        snprintf(note, sizeof(note), "annotations");
        led_get(&l0);
        static int x, y; void *prev = &y;
        led_fail_at(1, 2); errno = 0;
        cypher_ast_annotation_context_t *c = cypher_ast_annotation_context(); int e = errno;
        faults += led_failed(); points++; led_fail_at(0, 0);
        if (c || e != ENOMEM) bad("annotation context: %s, errno %d with no memory", c ? "created" : "refused", e);
        if (!c) c = cypher_ast_annotation_context();
        if (!c) abort();
        const cypher_astnode_t **l = NULL; size_t n = 0, cap = 0;
        vf_collect(root, &l, &n, &cap);
        for (size_t i = 0; i < n; ++i) {
            led_fail_at(1, 2); errno = 0; prev = &y;
            int rc = cypher_astnode_attach_annotation(c, l[i], &x, &prev); e = errno;
            faults += led_failed(); points++; led_fail_at(0, 0);
            if (rc == 0 && led_failed() == 0 && cypher_astnode_get_annotation(c, l[i]) != &x) bad("attach succeeds without attaching");
            if (rc && (e != ENOMEM || rc != -1)) bad("attach: returns %d, errno %d with no memory", rc, e);
            if (rc && cypher_astnode_get_annotation(c, l[i])) bad("attach failed and attached");
            if (rc) { cleanfail++; if (cypher_astnode_attach_annotation(c, l[i], &x, &prev) || prev || cypher_astnode_get_annotation(c, l[i]) != &x) bad("attach fails after memory returned"); }
        }
        free(l);
        cypher_ast_annotation_context_free(c);
        led_get(&l1);
        if (l0.live != l1.live) bad("LEAK annotations: %zd blocks", (ssize_t)(l1.live - l0.live));
    }
    got.n = 0; vf_dump(&got, root, NULL, NULL);
    if (got.n != base.n || memcmp(got.p, base.p, base.n)) bad("the tree changed during failed calls");
    s_free(&base); s_free(&got); free(pbase);
}

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
int vf_oom_main(int argc, char **argv)
{
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    unsigned lim = argc > 1 ? (unsigned)atoi(argv[1]) : 60;
    char *line = NULL; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        alarm(lim);
        char *id = strtok(line, " \n"), *entry = strtok(NULL, " \n"), *opts = strtok(NULL, " \n"), *hex = strtok(NULL, " \n");
        (void)entry;
        if (!hex) { fprintf(stderr, "bad case line\n"); exit(3); }
        size_t n = hex[0] == '-' ? 0 : strlen(hex) / 2;
        unsigned char *in = malloc(n + 1);
        for (size_t i = 0; i < n; ++i) in[i] = (unsigned char)(hexv(hex[2*i]) * 16 + hexv(hex[2*i+1]));
        chk.n = 0; nchk = 0; faults = cleanfail = fullok = points = 0;
        long maxk = 100000, step = 1; int clone = 0, print = 0, rebuild = 0, annot = 0;
        cypher_parser_config_t *cfg = NULL;
        struct vf_ledger l0, l1; led_get(&l0);
        char *save = NULL;
        char *o = strchr(opts, '=') + 1;
        for (char *t = strtok_r(o, ",", &save); t; t = strtok_r(NULL, ",", &save)) {
            if (!strncmp(t, "max:", 4)) maxk = atol(t + 4);
            else if (!strncmp(t, "step:", 5)) step = atol(t + 5);
            else if (!strcmp(t, "clone")) clone = 1;
            else if (!strcmp(t, "print")) print = 1;
            else if (!strcmp(t, "rebuild")) rebuild = 1;
            else if (!strcmp(t, "annot")) annot = 1;
            else if (!strcmp(t, "config")) {
                led_fail_at(1, 2); errno = 0; cfg = cypher_parser_new_config(); int e = errno;
                if (cfg ? led_failed() != 0 : e != ENOMEM) bad("new config: errno %d with no memory", e);
                faults += led_failed(); points++; led_fail_at(0, 0);
                if (!cfg) cfg = cypher_parser_new_config();
                struct cypher_input_position p = { 3, 5, 100 };
                cypher_parser_config_set_initial_position(cfg, p);
            } else sweep_parse(t, in, n, maxk, step, cfg);
        }
        if (clone || print || rebuild || annot) {
            cypher_parse_result_t *res = cypher_uparse((char *)in, n, NULL, cfg, 0);
            if (!res) bad("parse failed without faults");
            else {
                for (unsigned i = 0; i < cypher_parse_result_nroots(res); ++i) sweep_tree(cypher_parse_result_get_root(res, i), clone, print, rebuild, annot);
                cypher_parse_result_free(res);
            }
        }
        cypher_parser_config_free(cfg);
        led_get(&l1);
        if (l0.live != l1.live && !nchk) bad("LEAK: %zd blocks after the case", (ssize_t)(l1.live - l0.live));
        alarm(0);
        printf("{\"id\":\"%s\",\"points\":%lu,\"faults\":%lu,\"cleanfail\":%lu,\"fullok\":%lu,\"chk\":[%s]}\n", id, points, faults, cleanfail, fullok, nchk ? chk.p : "");
        fflush(stdout);
        free(in);
    }
    free(line); s_free(&chk);
    return 0;
}
