#include <stddef.h>
#include <stdio.h>
#include <jpeglib.h>
#define O(f) offsetof(struct jpeg_decompress_struct, f)
const size_t __sa_jpeg_off[10] = { O(err), O(mem), O(client_data), O(out_color_space), O(output_width), O(output_height), O(rec_outbuf_height), O(output_scanline), O(out_color_components), O(output_components) };
#define E(f) offsetof(struct jpeg_error_mgr, f)
const size_t __sa_jerr_off[3] = { E(error_exit), E(emit_message), E(reset_error_mgr) };
