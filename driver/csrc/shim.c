/* The library as a C program sees it: everything goes through the public header. */
#include "libimagequant.h"
#include <stddef.h>

const char *sh_err(int e) {
    switch ((liq_error)e) {
        case LIQ_OK: return "Ok";
        case LIQ_QUALITY_TOO_LOW: return "QualityTooLow";
        case LIQ_VALUE_OUT_OF_RANGE: return "ValueOutOfRange";
        case LIQ_OUT_OF_MEMORY: return "OutOfMemory";
        case LIQ_ABORTED: return "Aborted";
        case LIQ_BITMAP_NOT_AVAILABLE: return "BitmapNotAvailable";
        case LIQ_BUFFER_TOO_SMALL: return "BufferTooSmall";
        case LIQ_INVALID_POINTER: return "InvalidPointer";
        case LIQ_UNSUPPORTED: return "Unsupported";
    }
    return "unknown error code";
}
void *sh_attr_create(void *freefn) { return freefn ? liq_attr_create_with_allocator(NULL, freefn) : liq_attr_create(); }
void *sh_attr_copy(void *a) { return liq_attr_copy(a); }
void sh_attr_destroy(void *a) { liq_attr_destroy(a); }
int sh_set(void *a, int what, int v, int w) {
    switch (what) {
        case 0: return liq_set_max_colors(a, v);
        case 1: return liq_set_quality(a, v, w);
        case 2: return liq_set_speed(a, v);
        case 3: return liq_set_min_posterization(a, v);
        case 4: liq_set_last_index_transparent(a, v); return 0;
        case 5: return liq_set_min_opacity(a, v);
    }
    return -1;
}
int sh_get(void *a, int what) {
    switch (what) {
        case 0: return liq_get_max_colors(a);
        case 1: return liq_get_min_quality(a);
        case 2: return liq_get_max_quality(a);
        case 3: return liq_get_speed(a);
        case 4: return liq_get_min_posterization(a);
    }
    return -2;
}
void sh_set_log(void *a, void *f, void *u) { liq_set_log_callback(a, (liq_log_callback_function *)f, u); }
void sh_set_flush(void *a, void *f, void *u) { liq_set_log_flush_callback(a, (liq_log_flush_callback_function *)f, u); }
void sh_set_progress(void *a, void *f, void *u) { liq_attr_set_progress_callback(a, (liq_progress_callback_function *)f, u); }
void sh_set_rprogress(void *r, void *f, void *u) { liq_result_set_progress_callback(r, (liq_progress_callback_function *)f, u); }
void *sh_image_rows(void *a, void *rows, int w, int h, double g) { return liq_image_create_rgba_rows(a, (void *const *)rows, w, h, g); }
void *sh_image_rgba(void *a, void *px, int w, int h, double g) { return liq_image_create_rgba(a, px, w, h, g); }
void *sh_image_custom(void *a, void *f, void *u, int w, int h, double g) { return liq_image_create_custom(a, (liq_image_get_rgba_row_callback *)f, u, w, h, g); }
int sh_image_own(void *i, int flags) { return liq_image_set_memory_ownership(i, flags); }
int sh_own_flag(int n) { return n == 0 ? LIQ_OWN_ROWS : n == 1 ? LIQ_OWN_PIXELS : LIQ_COPY_PIXELS; }
int sh_image_bg(void *i, void *b) { return liq_image_set_background(i, b); }
int sh_image_imp(void *i, void *m, size_t n, int own) { return liq_image_set_importance_map(i, m, n, (enum liq_ownership)own); }
int sh_image_fix(void *i, int r, int g, int b, int a) { liq_color c = {(unsigned char)r, (unsigned char)g, (unsigned char)b, (unsigned char)a}; return liq_image_add_fixed_color(i, c); }
int sh_image_dim(void *i, int h) { return h ? liq_image_get_height(i) : liq_image_get_width(i); }
void sh_image_destroy(void *i) { liq_image_destroy(i); }
void *sh_hist_create(void *a) { return liq_histogram_create(a); }
void sh_hist_destroy(void *h) { liq_histogram_destroy(h); }
int sh_hist_image(void *h, void *a, void *i) { return liq_histogram_add_image(h, a, i); }
int sh_hist_colors(void *h, void *a, void *e, int n, double g) { return liq_histogram_add_colors(h, a, (liq_histogram_entry *)e, n, g); }
int sh_hist_fix(void *h, int r, int g, int b, int a, double gamma) { liq_color c = {(unsigned char)r, (unsigned char)g, (unsigned char)b, (unsigned char)a}; return liq_histogram_add_fixed_color(h, c, gamma); }
int sh_hist_quantize(void *h, void *a, void **out) { return liq_histogram_quantize(h, a, (liq_result **)out); }
int sh_image_quantize(void *i, void *a, void **out) { return liq_image_quantize(i, a, (liq_result **)out); }
void *sh_quantize_image(void *a, void *i) { return liq_quantize_image(a, i); }
int sh_set_dither(void *r, float v) { return liq_set_dithering_level(r, v); }
int sh_set_gamma(void *r, double g) { return liq_set_output_gamma(r, g); }
double sh_get_gamma(void *r) { return liq_get_output_gamma(r); }
/* palette is copied out entry by entry, as declared in the header */
int sh_palette(void *r, unsigned char *out) {
    const liq_palette *p = liq_get_palette(r);
    if (!p) return -1;
    for (unsigned int i = 0; i < p->count && i < 256; i++) {
        out[4*i] = p->entries[i].r; out[4*i+1] = p->entries[i].g; out[4*i+2] = p->entries[i].b; out[4*i+3] = p->entries[i].a;
    }
    return (int)p->count;
}
int sh_remap(void *r, void *i, void *buf, size_t n) { return liq_write_remapped_image(r, i, buf, n); }
int sh_remap_rows(void *r, void *i, void *rows) { return liq_write_remapped_image_rows(r, i, (unsigned char **)rows); }
double sh_error(void *r, int remapped) { return remapped ? liq_get_remapping_error(r) : liq_get_quantization_error(r); }
int sh_quality(void *r, int remapped) { return remapped ? liq_get_remapping_quality(r) : liq_get_quantization_quality(r); }
void sh_result_destroy(void *r) { liq_result_destroy(r); }
int sh_version(void) { return liq_version(); }
