// Environment model of libpng (symbolic build only; the replay uses the real library): signature, a 13 byte header, the rows as they are, an end mark.
#include <png.h>
#include <cstring>
struct png_struct_def { void* io; png_rw_ptr rd, wr; bool write; png_uint_32 w, h; int depth, color, channels, stage; };
struct png_info_def { int x; };
extern "C" void sx_assert(bool, const char*);
static const unsigned char SIG[8] = {137, 80, 78, 71, 13, 10, 26, 10};
static int channels(int c) { return (c & PNG_COLOR_MASK_PALETTE) ? 1 : ((c & PNG_COLOR_MASK_COLOR) ? 3 : 1) + ((c & PNG_COLOR_MASK_ALPHA) ? 1 : 0); }
extern "C" {
int png_sig_cmp(png_const_bytep s, size_t a, size_t n) { for (size_t i = a; i < a + n && i < 8; i++) if (s[i] != SIG[i]) return s[i] < SIG[i] ? -1 : 1; return 0; }
static png_structp mk(bool w) { png_structp p = new png_struct; memset(p, 0, sizeof *p); p->write = w; return p; }
png_structp png_create_read_struct(png_const_charp, png_voidp, png_error_ptr, png_error_ptr) { return mk(false); }
png_structp png_create_write_struct(png_const_charp, png_voidp, png_error_ptr, png_error_ptr) { return mk(true); }
png_infop png_create_info_struct(png_const_structrp) { return new png_info; }
void png_destroy_info_struct(png_const_structrp, png_infopp i) { if (i && *i) { delete *i; *i = 0; } }
void png_destroy_read_struct(png_structpp p, png_infopp i, png_infopp e) { sx_assert(p && *p && !(*p)->write, "image handles are released with their own kind"); if (i && *i) { delete *i; *i = 0; } if (e && *e) { delete *e; *e = 0; } delete *p; *p = 0; }
void png_destroy_write_struct(png_structpp p, png_infopp i) { sx_assert(p && *p && (*p)->write, "image handles are released with their own kind"); if (i && *i) { delete *i; *i = 0; } delete *p; *p = 0; }
void png_set_read_fn(png_structrp p, png_voidp io, png_rw_ptr f) { p->io = io; p->rd = f; }
void png_set_write_fn(png_structrp p, png_voidp io, png_rw_ptr f, png_flush_ptr) { p->io = io; p->wr = f; }
png_voidp png_get_io_ptr(png_const_structrp p) { return p->io; }
static png_uint_32 be(const unsigned char* b) { return ((png_uint_32)b[0] << 24) | ((png_uint_32)b[1] << 16) | ((png_uint_32)b[2] << 8) | b[3]; }
static void eb(unsigned char* b, png_uint_32 v) { b[0] = v >> 24; b[1] = v >> 16; b[2] = v >> 8; b[3] = v; }
void png_read_info(png_structrp p, png_inforp) { unsigned char b[8]; p->rd(p, b, 8); sx_assert(png_sig_cmp(b, 0, 8) == 0, "the reader starts at the signature"); unsigned char h[13]; p->rd(p, h, 13); p->w = be(h); p->h = be(h + 4); p->depth = h[8]; p->color = h[9]; p->channels = channels(p->color); p->stage = 1; }
png_uint_32 png_get_image_width(png_const_structrp p, png_const_inforp) { return p->w; } png_uint_32 png_get_image_height(png_const_structrp p, png_const_inforp) { return p->h; }
png_byte png_get_bit_depth(png_const_structrp p, png_const_inforp) { return p->depth; } png_byte png_get_channels(png_const_structrp p, png_const_inforp) { return p->channels; } png_byte png_get_color_type(png_const_structrp p, png_const_inforp) { return p->color; }
static size_t row(png_const_structrp p) { return ((size_t)p->w * p->channels * p->depth + 7) / 8; }
void png_read_image(png_structrp p, png_bytepp r) { sx_assert(p->stage == 1, "the header is read before the image"); for (png_uint_32 y = 0; y < p->h; y++) p->rd(p, r[y], row(p)); p->stage = 2; }
void png_set_IHDR(png_const_structrp q, png_inforp, png_uint_32 w, png_uint_32 h, int d, int c, int, int, int) { png_structrp p = (png_structrp)q; p->w = w; p->h = h; p->depth = d; p->color = c; p->channels = channels(c); p->stage = 1; }
void png_write_info(png_structrp p, png_const_inforp) { sx_assert(p->stage == 1, "the header is set before it is written"); p->wr(p, (png_bytep)SIG, 8); unsigned char h[13] = {0}; eb(h, p->w); eb(h + 4, p->h); h[8] = p->depth; h[9] = p->color; p->wr(p, h, 13); p->stage = 2; }
void png_write_image(png_structrp p, png_bytepp r) { sx_assert(p->stage == 2, "the header is written before the image"); for (png_uint_32 y = 0; y < p->h; y++) p->wr(p, r[y], row(p)); p->stage = 3; }
void png_write_row(png_structrp p, png_const_bytep r) { p->wr(p, (png_bytep)r, row(p)); p->stage = 3; }
void png_write_end(png_structrp p, png_inforp) { sx_assert(p->stage == 3, "the image is written before its end"); unsigned char e[4] = {'I', 'E', 'N', 'D'}; p->wr(p, e, 4); p->stage = 4; }
}
