/* Allocation ledger and fault injector. The objects of the library have their
 * malloc/calloc/realloc/free references renamed to these. */
#include "vf.h"
#include <pthread.h>
#include <malloc.h>
#include <stdarg.h>
#ifdef VF_NO_LEDGER
void *vf_malloc(size_t n) { return malloc(n); }
void *vf_calloc(size_t a, size_t b) { return calloc(a, b); }
void *vf_realloc(void *p, size_t n) { return realloc(p, n); }
void vf_free(void *p) { free(p); }
char *vf_strdup(const char *s) { return strdup(s); }
char *vf_strndup(const char *s, size_t n) { return strndup(s, n); }
void *vf_reallocarray(void *p, size_t a, size_t b) { return reallocarray(p, a, b); }
int vf_vasprintf(char **r, const char *f, va_list ap) { return vasprintf(r, f, ap); }
void led_get(struct vf_ledger *l) { memset(l, 0, sizeof(*l)); }
void led_fail_at(long k, int mode) { (void)k; (void)mode; }
size_t led_count(void) { return 0; }
size_t led_failed(void) { return 0; }
void led_describe(S *o) { (void)o; }
#else
static long fail_k; static int fail_mode; static size_t cnt, nfailed, live, bytes, total, asked;
static void **tab; static size_t *sizes; static size_t cap, used;

static size_t hash(void *p) { uint64_t x = (uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; return (size_t)x; }
#define TOMB ((void *)1)
static void t_add(void *p, size_t n);
static void grow(void)
{
    void **ot = tab; size_t *os = sizes; size_t oc = cap;
    cap = cap ? cap * 2 : 4096;
    tab = calloc(cap, sizeof(void *)); sizes = calloc(cap, sizeof(size_t)); used = 0;
    if (!tab || !sizes) abort();
    for (size_t i = 0; i < oc; ++i) if (ot[i] && ot[i] != TOMB) {
        size_t h = hash(ot[i]) & (cap - 1); while (tab[h]) h = (h + 1) & (cap - 1);
        tab[h] = ot[i]; sizes[h] = os[i]; used++;
    }
    free(ot); free(os);
}
static void t_add(void *p, size_t n)
{
    if (used * 2 >= cap) {
        /* rehash at same size when mostly tombstones */
        grow();
    }
    size_t h = hash(p) & (cap - 1);
    while (tab[h] && tab[h] != TOMB) h = (h + 1) & (cap - 1);
    if (!tab[h]) used++;
    tab[h] = p; sizes[h] = n; live++; bytes += n; total++; asked += n;
}
static int t_del(void *p)
{
    if (!cap) return 0;
    size_t h = hash(p) & (cap - 1);
    while (tab[h]) {
        if (tab[h] == p) { bytes -= sizes[h]; tab[h] = TOMB; live--; 
            if (live == 0) { memset(tab, 0, cap * sizeof(void *)); used = 0; }
            return 1; }
        h = (h + 1) & (cap - 1);
    }
    return 0;
}
static int refuse(void)
{
    ++cnt;
    if ((fail_mode == 1 && (long)cnt == fail_k) || (fail_mode == 2 && (long)cnt >= fail_k)) {
        ++nfailed; errno = ENOMEM; return 1;
    }
    return 0;
}
void *vf_malloc(size_t n) { if (refuse()) return NULL; void *p = malloc(n); if (p) t_add(p, n); return p; }
void *vf_calloc(size_t a, size_t b) { if (refuse()) return NULL; void *p = calloc(a, b); if (p) t_add(p, a * b); return p; }
void *vf_realloc(void *q, size_t n)
{
    if (refuse()) return NULL;
    if (q) t_del(q);        /* a block from elsewhere (say, from asprintf) is let through */
    void *p = realloc(q, n);
    if (p) t_add(p, n);
    return p;
}
void vf_free(void *p)
{
    if (!p) return;
    t_del(p);   /* a block from elsewhere is let through; the sanitizer describes a double free */
    free(p);
}
char *vf_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = vf_malloc(n); if (p) memcpy(p, s, n); return p; }
char *vf_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = vf_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *vf_reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    return vf_realloc(p, n);
}
int vf_vasprintf(char **r, const char *f, va_list ap)
{
    va_list aq; va_copy(aq, ap); int n = vsnprintf(NULL, 0, f, aq); va_end(aq);
    if (n < 0 || !(*r = vf_malloc((size_t)n + 1))) return -1;
    return vsnprintf(*r, (size_t)n + 1, f, ap);
}
void led_get(struct vf_ledger *l) { l->live = live; l->bytes = bytes; l->nalloc = total; l->asked = asked; }
void led_fail_at(long k, int mode) { fail_k = k; fail_mode = mode; cnt = 0; nfailed = 0; }
size_t led_count(void) { return cnt; }
size_t led_failed(void) { return nfailed; }
void led_describe(S *o)
{
    unsigned k = 0;
    for (size_t i = 0; i < cap && k < 4; ++i) if (tab[i] && tab[i] != TOMB) {
        s_printf(o, "%s[%zu bytes: ", k ? ", " : "", sizes[i]);
        for (size_t j = 0; j < sizes[i] && j < 24; ++j) {
            unsigned char c = ((unsigned char *)tab[i])[j];
            if (c >= 32 && c < 127 && c != '"' && c != '\\') s_put(o, (char *)&c, 1); else s_puts(o, ".");
        }
        s_puts(o, "]"); k++;
    }
}
#endif
int vf_asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = vf_vasprintf(r, f, ap); va_end(ap); return n; }
