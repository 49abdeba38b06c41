// Environment model of libjpeg, used in both builds (JPEG compression is lossy, the model is not): a mark, extents, the scanlines as they are.
#include <cstdio>
#include <cstring>
#include <jpeglib.h>
extern "C" {
void sx_assert(bool, const char*);
struct SxJ { FILE* f; int stage; unsigned char* rows[64]; void* arr[64]; int n; struct jpeg_memory_mgr mem; };
static SxJ* st(j_common_ptr c) { return (SxJ*)c->client_data; }
static JSAMPARRAY sarray(j_common_ptr c, int, JDIMENSION w, JDIMENSION n) { SxJ* s = st(c); JSAMPARRAY a = new JSAMPROW[n]; s->arr[s->n] = a; unsigned char* d = new unsigned char[(size_t)w * n + 1]; s->rows[s->n++] = d; for (JDIMENSION i = 0; i < n; i++) a[i] = d + (size_t)w * i; return a; }
static void make(j_common_ptr c) { SxJ* s = new SxJ; memset(s, 0, sizeof *s); s->mem.alloc_sarray = sarray; c->client_data = s; c->mem = &s->mem; }
static void done(j_common_ptr c) { SxJ* s = st(c); if (!s) return; for (int i = 0; i < s->n; i++) { delete[] s->rows[i]; delete[] (JSAMPARRAY)s->arr[i]; } delete s; c->client_data = 0; c->mem = 0; }
struct jpeg_error_mgr* jpeg_std_error(struct jpeg_error_mgr* e) { memset(e, 0, sizeof *e); return e; }
void jpeg_CreateDecompress(j_decompress_ptr c, int, size_t) { struct jpeg_error_mgr* e = c->err; memset(c, 0, sizeof *c); c->err = e; c->is_decompressor = TRUE; make((j_common_ptr)c); }
void jpeg_CreateCompress(j_compress_ptr c, int, size_t) { struct jpeg_error_mgr* e = c->err; memset(c, 0, sizeof *c); c->err = e; make((j_common_ptr)c); }
void jpeg_stdio_src(j_decompress_ptr c, FILE* f) { st((j_common_ptr)c)->f = f; }
void jpeg_stdio_dest(j_compress_ptr c, FILE* f) { st((j_common_ptr)c)->f = f; }
static unsigned get(FILE* f) { unsigned char b[2] = {0, 0}; sx_assert(fread(b, 1, 2, f) == 2, "a picture is complete"); return b[0] | (b[1] << 8); }
int jpeg_read_header(j_decompress_ptr c, boolean) { SxJ* s = st((j_common_ptr)c); FILE* f = s->f; sx_assert(get(f) == 0x4a50, "mark of a picture"); c->image_width = get(f); c->image_height = get(f); c->num_components = get(f); s->stage = 1; return JPEG_HEADER_OK; }
boolean jpeg_start_decompress(j_decompress_ptr c) { SxJ* s = st((j_common_ptr)c); sx_assert(s->stage == 1, "the header is read first"); c->output_width = c->image_width; c->output_height = c->image_height; c->output_components = c->out_color_components = c->num_components; c->output_scanline = 0; s->stage = 2; return TRUE; }
JDIMENSION jpeg_read_scanlines(j_decompress_ptr c, JSAMPARRAY r, JDIMENSION n) { SxJ* s = st((j_common_ptr)c); sx_assert(s->stage == 2, "decompression is started first"); if (n == 0 || c->output_scanline >= c->output_height) return 0; size_t w = (size_t)c->output_width * c->output_components; sx_assert(fread(r[0], 1, w, s->f) == w, "a picture is complete"); c->output_scanline++; return 1; }
boolean jpeg_finish_decompress(j_decompress_ptr c) { SxJ* s = st((j_common_ptr)c); sx_assert(s->stage == 2 && c->output_scanline == c->output_height, "the whole picture is read"); s->stage = 3; return TRUE; }
void jpeg_abort_decompress(j_decompress_ptr) {} void jpeg_destroy_decompress(j_decompress_ptr c) { done((j_common_ptr)c); }
void jpeg_set_defaults(j_compress_ptr c) { SxJ* s = st((j_common_ptr)c); sx_assert(c->input_components == (c->in_color_space == JCS_RGB ? 3 : 1), "channels of a picture"); s->stage = 1; } void jpeg_set_quality(j_compress_ptr, int q, boolean) { sx_assert(q == 100, "pictures are stored in full quality"); }
static void put(FILE* f, unsigned v) { unsigned char b[2] = {(unsigned char)v, (unsigned char)(v >> 8)}; fwrite(b, 1, 2, f); }
void jpeg_start_compress(j_compress_ptr c, boolean) { SxJ* s = st((j_common_ptr)c); sx_assert(s->stage == 1, "the settings are made first"); put(s->f, 0x4a50); put(s->f, c->image_width); put(s->f, c->image_height); put(s->f, c->input_components); c->next_scanline = 0; s->stage = 2; }
JDIMENSION jpeg_write_scanlines(j_compress_ptr c, JSAMPARRAY r, JDIMENSION n) { SxJ* s = st((j_common_ptr)c); JDIMENSION k = 0; for (; k < n && c->next_scanline < c->image_height; k++) { fwrite(r[k], 1, (size_t)c->image_width * c->input_components, s->f); c->next_scanline++; } return k; }
void jpeg_finish_compress(j_compress_ptr c) { SxJ* s = st((j_common_ptr)c); sx_assert(s->stage == 2 && c->next_scanline == c->image_height, "the whole picture is written"); s->stage = 3; }
void jpeg_abort_compress(j_compress_ptr) {} void jpeg_destroy_compress(j_compress_ptr c) { done((j_common_ptr)c); }
}
