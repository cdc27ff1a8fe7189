/* Shared harness declarations. The harness only uses the public header of the
 * library; it never looks inside library structures. */
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cypher-parser.h>
#include <assert.h>
#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>

/* ---- growable output buffer */
typedef struct { char *p; size_t n, cap; } S;
void s_free(S *s);
void s_put(S *s, const char *p, size_t n);
void s_puts(S *s, const char *p);
void s_printf(S *s, const char *fmt, ...) __attribute__((format(printf,2,3)));
void s_json(S *s, const char *p, size_t n);   /* JSON string, bytes as latin-1 */

/* ---- node table (generated from spec.txt) */
typedef struct vf_map vf_map;
struct vf_type {
    const char *name;
    const cypher_astnode_type_t *type;
    void (*roles)(const cypher_astnode_t *n, vf_map *m, S *o);
    cypher_astnode_t *(*rebuild)(const cypher_astnode_t *n, vf_map *m,
            cypher_astnode_t **ch, unsigned nch);
    const char *const *parents;
    unsigned nargs;             /* node operands (list elements count as one) */
};
extern const struct vf_type vf_types[];
extern const unsigned vf_ntypes;
struct vf_text { const char *name; const cypher_astnode_type_t *type; cypher_astnode_t *(*make)(const char *, size_t, struct cypher_input_range); const char *(*get)(const cypher_astnode_t *); };
extern const struct vf_text vf_texts[];   /* kinds that hold a text and nothing else */
extern const unsigned vf_ntexts;
struct vf_abstract { const char *name; const cypher_astnode_type_t *type; const char *const *parents; };
extern const struct vf_abstract vf_abstracts[];
extern const unsigned vf_nabstracts;
void vf_init(void);
void vf_run_case(char *line, S *out);
void vf_shared_config(char *line);
const struct vf_type *vf_type_of(const cypher_astnode_t *n);
const cypher_astnode_type_t *vf_type_by_name(const char *name);

struct vf_map {
    const cypher_astnode_t **keys; long *vals; size_t cap, n;
    /* rebuild support */
    const cypher_astnode_t *orig;
    cypher_astnode_t **ch; unsigned nch;
    int mut_arg, mut_elem; const cypher_astnode_t *mut_val; /* operand mutation */
    int seen_arg;
    S *chk; unsigned nchk;
};
void m_init(vf_map *m);
void m_free(vf_map *m);
void m_put(vf_map *m, const cypher_astnode_t *k, long v);
long m_get(vf_map *m, const cypher_astnode_t *k); /* -1 when missing */
void vf_chk(vf_map *m, const char *fmt, ...) __attribute__((format(printf,2,3)));

/* roles helpers used by generated code */
void r_node(S *o, vf_map *m, const char *role, const cypher_astnode_t *x);
void r_list(S *o, vf_map *m, const char *role, const cypher_astnode_t *n,
        unsigned cnt, const cypher_astnode_t *(*get)(const cypher_astnode_t *, unsigned));
void r_bool(S *o, const char *role, bool v);
void r_str(S *o, const char *role, const char *v);
const char *op_name(const cypher_operator_t *op);
/* rebuild helpers */
cypher_astnode_t *rb_arg(vf_map *m, const cypher_astnode_t *x, int arg);
cypher_astnode_t **rb_list(vf_map *m, const cypher_astnode_t *n, unsigned cnt,
        const cypher_astnode_t *(*get)(const cypher_astnode_t *, unsigned), int arg);

/* dump: appends JSON array of nodes (pre-order) for one root; returns count */
unsigned vf_dump(S *o, const cypher_astnode_t *root, S *chk, unsigned *nchk);
unsigned vf_count(const cypher_astnode_t *root);
cypher_astnode_t *vf_rebuild(const cypher_astnode_t *root);
void vf_collect(const cypher_astnode_t *root, const cypher_astnode_t ***list,
        size_t *n, size_t *cap);
void dump_error(S *o, const cypher_parse_error_t *e);
void dump_range(S *o, struct cypher_input_range r);
const cypher_astnode_t *vf_segment_root(const cypher_parse_segment_t *s, unsigned i);
extern int vf_no_get_root;
void dump_segment(S *o, const cypher_parse_segment_t *seg, S *chk, unsigned *nchk);
void dump_result(S *o, const cypher_parse_result_t *res, S *chk, unsigned *nchk);
extern const struct cypher_parser_colorization vf_markers;
const struct cypher_parser_colorization *vf_color(int mode);

/* ---- allocation ledger; the library's calls are redirected here by objcopy */
struct vf_ledger { size_t live, bytes, nalloc, asked; };
uint64_t vf_work(void);
void vf_work_budget(uint64_t n);
void led_get(struct vf_ledger *l);
void led_fail_at(long k, int mode);   /* mode 0: off, 1: only k-th fails, 2: k-th and later */
size_t led_count(void);               /* allocation calls since last led_fail_at */
size_t led_failed(void);
void led_describe(S *o);

/* ---- streams */
struct vf_stream {
    const unsigned char *data; size_t n, pos;
    const int *chunks; unsigned nchunks, ci;
    long errat; int erred; size_t reqs, eofs;
    int chan, err, unget, stale; size_t pre; /* what kind of stream, errno of a failure, first byte pushed back, bytes read before */
    unsigned char *own; size_t sent; int wfd;
};
enum { CH_COOKIE, CH_FILE, CH_PIPE, CH_SOCK, CH_MEM };
size_t vf_stream_taken(struct vf_stream *st, FILE *f); /* bytes consumed by whoever reads f */
void vf_close(struct vf_stream *st, FILE *f);
FILE *vf_open(struct vf_stream *st, int unbuffered);
struct vf_wstream { size_t limit, written; S out; int once, failed; };
FILE *vf_wopen(struct vf_wstream *st);
#endif
