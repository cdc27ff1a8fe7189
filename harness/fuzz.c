/* libFuzzer target: the first bytes choose the entry point, flags, configuration
 * and what is done with the results; the rest is the input. */
#ifdef VF_FUZZ
#include "vf.h"
static int seg_cb(void *u, cypher_parse_segment_t *seg)
{
    S *o = u; unsigned z = 0; o->n = 0;
    dump_segment(o, seg, NULL, &z);
    return 0;
}
static int quick_cb(void *u, const cypher_quick_parse_segment_t *seg)
{
    size_t n; const char *t = cypher_quick_parse_segment_get_text(seg, &n);
    S *o = u; o->n = 0; s_put(o, t, n); dump_range(o, cypher_quick_parse_segment_get_range(seg));
    return 0;
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n);
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    if (n < 2) return 0;
    unsigned a = d[0], b = d[1]; d += 2; n -= 2;
    char *in = malloc(n ? n : 1); memcpy(in, d, n);
    static int chunks[4][2] = { {1, 1}, {3, 1000}, {1024, 1024}, {7, 13} };
    struct vf_stream st = { .data = (unsigned char *)in, .n = n, .errat = -1, .chunks = chunks[a & 3], .nchunks = 2 };
    cypher_parser_config_t *cfg = NULL;
    if (b & 1) {
        cfg = cypher_parser_new_config();
        struct cypher_input_position p = { b, a, n };
        cypher_parser_config_set_initial_position(cfg, p);
        cypher_parser_config_set_initial_ordinal(cfg, a);
        cypher_parser_config_set_error_colorization(cfg, vf_color((int)(b >> 1 & 3) % 3));
    }
    S o = {0}; struct cypher_input_position last; FILE *f = NULL;
    unsigned flags = a >> 2 & 3;
    switch (a >> 4 & 7) {
    case 0: case 1: case 2: case 3: {
        if (a & 0x10) f = vf_open(&st, 0);
        cypher_parse_result_t *r = f ? cypher_fparse(f, &last, cfg, flags) : cypher_uparse(in, n, &last, cfg, flags);
        if (f) fclose(f);
        memset(in, 0xA5, n);
        if (r) {
            unsigned z = 0; dump_result(&o, r, NULL, &z);
            if (b & 8) { char *p; size_t k; FILE *m = open_memstream(&p, &k); cypher_parse_result_fprint_ast(r, m, b & 16 ? 40 : 0, vf_color(b & 32 ? 2 : 0), 0); fclose(m); free(p); }
            if (b & 64) for (unsigned i = 0; i < cypher_parse_result_nroots(r); ++i) cypher_ast_free(cypher_ast_clone(cypher_parse_result_get_root(r, i)));
            cypher_parse_result_free(r);
        }
        break; }
    case 4: cypher_uparse_each(in, n, seg_cb, &o, &last, cfg, flags); break;
    case 5: f = vf_open(&st, b & 4); cypher_fparse_each(f, seg_cb, &o, &last, cfg, flags); fclose(f); break;
    case 6: cypher_quick_uparse(in, n, quick_cb, &o, flags); break;
    case 7: f = vf_open(&st, b & 4); cypher_quick_fparse(f, quick_cb, &o, flags); fclose(f); break;
    }
    cypher_parser_config_free(cfg);
    s_free(&o); free(in);
    return 0;
}
#endif
