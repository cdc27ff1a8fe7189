/* Runs cases from several threads at once: "drv threads LIMIT NTHREADS ROUNDS SEED".
 * Every thread runs every case, in its own order, with random pauses; what each yields must be
 * what it yields afterwards in a single thread. In later rounds the threads also read, print and
 * clone the same results. The first round runs before the library was used at all. */
#include "vf.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#define MAXC 4096
static char *lines[MAXC]; static unsigned nlines;
static S base[MAXC];
static unsigned nthreads, rounds; static uint64_t seed;
#define NSHARED 12
static cypher_parse_result_t *shared[NSHARED]; static S sdump[NSHARED], sprint[NSHARED]; static unsigned nshared;
struct ev { uint64_t a, b; unsigned what; };
struct out { unsigned which; S s; };
struct th { pthread_t t; unsigned id; unsigned round; uint64_t rng; struct ev *ev; unsigned nev, cev; struct out *o; unsigned no, co; unsigned long nshare; unsigned bad; char msg[300]; };
static pthread_barrier_t bar;

static uint64_t rnd(uint64_t *s) { uint64_t x = *s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return *s = x; }
static uint64_t now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000u + (uint64_t)t.tv_nsec; }
static void pause_(uint64_t *s)
{
    uint64_t r = rnd(s) % 16;
    if (r < 4) sched_yield();
    else if (r < 6) usleep((unsigned)(rnd(s) % 60));
    else if (r < 10) for (volatile unsigned i = 0; i < rnd(s) % 2000; ++i) ;
}
static void shared_read(cypher_parse_result_t *r, S *d, S *p)
{
    unsigned z = 0;
    d->n = 0; dump_result(d, r, NULL, &z);
    char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
    int rc = cypher_parse_result_fprint_ast(r, f, 70, cypher_parser_ansi_colorization, 0);
    fclose(f);
    p->n = 0; s_printf(p, "%d ", rc); s_put(p, b, n); free(b);
}
static void *work(void *a)
{
    struct th *t = a;
    unsigned *ord = malloc(sizeof(*ord) * (nlines + 1));
    for (unsigned i = 0; i < nlines; ++i) ord[i] = i;
    for (unsigned i = nlines; i > 1; --i) { unsigned j = (unsigned)(rnd(&t->rng) % i), x = ord[i-1]; ord[i-1] = ord[j]; ord[j] = x; }
    S d = {0}, p = {0};
    pthread_barrier_wait(&bar);
    for (unsigned i = 0; i < nlines; ++i) {
        pause_(&t->rng);
        if (t->nev + 2 >= t->cev) { t->cev = t->cev ? t->cev * 2 : 512; t->ev = realloc(t->ev, t->cev * sizeof(*t->ev)); }
        struct ev *e = &t->ev[t->nev++];
        if (nshared && rnd(&t->rng) % 3 == 0) {
            unsigned k = (unsigned)(rnd(&t->rng) % nshared);
            e->what = MAXC + k; e->a = now();
            shared_read(shared[k], &d, &p);
            unsigned nr = cypher_parse_result_nroots(shared[k]);
            if (nr) {
                const cypher_astnode_t *x = cypher_parse_result_get_root(shared[k], (unsigned)(rnd(&t->rng) % nr));
                cypher_astnode_t *c = cypher_ast_clone(x);
                S s1 = {0}, s2 = {0};
                vf_dump(&s1, x, NULL, NULL); vf_dump(&s2, c, NULL, NULL);
                if (s1.n != s2.n || memcmp(s1.p, s2.p, s1.n)) { if (!t->bad++) snprintf(t->msg, sizeof(t->msg), "a clone taken while others read the tree differs"); }
                s_free(&s1); s_free(&s2);
                cypher_ast_free(c);
            }
            e->b = now(); t->nshare++;
            if (d.n != sdump[k].n || memcmp(d.p, sdump[k].p, d.n)) { if (!t->bad++) snprintf(t->msg, sizeof(t->msg), "shared result %u read differently by a thread", k); }
            if (p.n != sprint[k].n || memcmp(p.p, sprint[k].p, p.n)) { if (!t->bad++) snprintf(t->msg, sizeof(t->msg), "shared result %u printed differently by a thread", k); }
            e = &t->ev[t->nev++];
        }
        char *l = strdup(lines[ord[i]]);
        if (t->no >= t->co) { t->co = t->co ? t->co * 2 : 512; t->o = realloc(t->o, t->co * sizeof(*t->o)); }
        struct out *o = &t->o[t->no++]; memset(o, 0, sizeof(*o)); o->which = ord[i];
        e->what = ord[i]; e->a = now();
        vf_run_case(l, &o->s);
        e->b = now();
        free(l);
    }
    s_free(&d); s_free(&p); free(ord);
    return NULL;
}
static int byStart(const void *x, const void *y) { const struct ev *a = x, *b = y; return a->a < b->a ? -1 : a->a > b->a; }
int vf_threads_main(int argc, char **argv)
{
    if (argc < 5) return 3;
    alarm((unsigned)atoi(argv[1])); nthreads = (unsigned)atoi(argv[2]); rounds = (unsigned)atoi(argv[3]); seed = strtoull(argv[4], NULL, 10) * 2654435761u + 88172645463325252u;
    vf_init();
    char *line = NULL; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0 && nlines < MAXC) { char *l = strdup(line); vf_shared_config(l); free(l); lines[nlines++] = strdup(line); }
    free(line);
    struct th *ts = calloc(nthreads * rounds, sizeof(*ts));
    unsigned long ops = 0, overlaps = 0, shares = 0;
    S ho = {0};
    for (unsigned r = 0; r < rounds; ++r) {
        if (r == 1) {
            for (unsigned i = 0; i < nlines && nshared < NSHARED; i += 1 + nlines / NSHARED) {
                char *l = strdup(lines[i]), *h = NULL, *sv = NULL;
                for (char *p = strtok_r(l, " \n", &sv); p; p = strtok_r(NULL, " \n", &sv)) h = p;
                size_t n = h[0] == '-' ? 0 : strlen(h) / 2; char *b = malloc(n + 1);
                for (size_t j = 0; j < n; ++j) { unsigned v; sscanf(h + 2 * j, "%2x", &v); b[j] = (char)v; }
                shared[nshared] = cypher_uparse(b, n, NULL, NULL, 0);
                free(b); free(l);
                if (!shared[nshared]) return 3;
                shared_read(shared[nshared], &sdump[nshared], &sprint[nshared]);
                nshared++;
            }
        }
        pthread_barrier_init(&bar, NULL, nthreads);
        for (unsigned k = 0; k < nthreads; ++k) {
            struct th *t = &ts[r * nthreads + k];
            t->id = k; t->round = r; t->rng = seed ^ ((uint64_t)(r * nthreads + k + 1) * 0x9E3779B97F4A7C15u); if (!t->rng) t->rng = 1;
            if (pthread_create(&t->t, NULL, work, t)) return 3;
        }
        for (unsigned k = 0; k < nthreads; ++k) pthread_join(ts[r * nthreads + k].t, NULL);
        pthread_barrier_destroy(&bar);
        /* how the threads' operations lay against each other */
        struct ev *all = NULL; size_t n = 0;
        for (unsigned k = 0; k < nthreads; ++k) {
            struct th *t = &ts[r * nthreads + k];
            all = realloc(all, (n + t->nev + 1) * sizeof(*all));
            for (unsigned i = 0; i < t->nev; ++i) { all[n] = t->ev[i]; all[n++].what |= k << 16; }
            shares += t->nshare; ops += t->nev;
        }
        qsort(all, n, sizeof(*all), byStart);
        uint64_t h = 1469598103934665603u;
        for (size_t i = 0; i < n; ++i) {
            h = (h ^ all[i].what) * 1099511628211u;
            for (size_t j = i + 1; j < n && all[j].a < all[i].b; ++j) if (all[j].what >> 16 != all[i].what >> 16) overlaps++;
        }
        s_printf(&ho, "%s\"%016lx\"", r ? "," : "", (unsigned long)h);
        free(all);
    }
    for (unsigned i = 0; i < nlines; ++i) { char *l = strdup(lines[i]); vf_run_case(l, &base[i]); free(l); }
    printf("{\"ops\":%lu,\"overlaps\":%lu,\"shared\":%lu,\"orders\":[%s],\"bad\":[", ops, overlaps, shares, ho.p);
    unsigned nb = 0; unsigned long cmp = 0;
    for (unsigned k = 0; k < nthreads * rounds; ++k) {
        struct th *t = &ts[k];
        if (t->bad && nb < 10) printf("%s[-1,\"%s\"]", nb++ ? "," : "", t->msg);
        for (unsigned i = 0; i < t->no; ++i) {
            struct out *o = &t->o[i]; cmp++;
            if ((o->s.n != base[o->which].n || memcmp(o->s.p, base[o->which].p, o->s.n)) && nb < 10) {
                size_t x = 0; while (x < o->s.n && x < base[o->which].n && o->s.p[x] == base[o->which].p[x]) x++;
                size_t y = x > 30 ? x - 30 : 0;
                S m = {0};
                s_printf(&m, "thread %u round %u: ...%.*s | alone: ...%.*s", t->id, t->round, (int)(o->s.n - y > 100 ? 100 : o->s.n - y), o->s.p + y, (int)(base[o->which].n - y > 100 ? 100 : base[o->which].n - y), base[o->which].p + y);
                printf("%s[%u,", nb++ ? "," : "", o->which); S j = {0}; s_json(&j, m.p, m.n); printf("%s]", j.p); s_free(&j); s_free(&m);
            }
            s_free(&o->s);
        }
        free(t->o); free(t->ev);
    }
    printf("],\"compared\":%lu}\n", cmp);
    for (unsigned i = 0; i < nshared; ++i) { cypher_parse_result_free(shared[i]); s_free(&sdump[i]); s_free(&sprint[i]); }
    for (unsigned i = 0; i < nlines; ++i) { free(lines[i]); s_free(&base[i]); }
    free(ts); s_free(&ho);
    return 0;
}
