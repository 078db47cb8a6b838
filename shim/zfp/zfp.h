#pragma once
// Stand-in for zfp (not installed).  In accuracy mode the stored values are
// rounded down to a multiple of the largest power of 2 not exceeding the
// tolerance, so the error is as large as zfp's contract allows and one-sided.
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#define ZFP_CODEC 5
#define ZFP_VERSION 0x1010
#define ZFP_HEADER_MAGIC 0x1u
#define ZFP_HEADER_META 0x2u
#define ZFP_HEADER_MODE 0x4u
typedef unsigned int uint;
typedef enum { zfp_type_none = 0, zfp_type_int32, zfp_type_int64,
               zfp_type_float, zfp_type_double } zfp_type;
struct zfp_field { zfp_type type; size_t nx, ny, nz, nw; void* data; };
struct bitstream { std::uint8_t* data; size_t capacity; size_t position; };
struct zfp_stream { double accuracy; bitstream* stream; };
inline zfp_stream* zfp_stream_open(bitstream* s) { return new zfp_stream{0, s}; }
inline void zfp_stream_close(zfp_stream* z) { delete z->stream; delete z; }
inline void zfp_stream_set_reversible(zfp_stream* z) { z->accuracy = 0; }
inline double zfp_stream_set_accuracy(zfp_stream* z, double a) { z->accuracy = a; return a; }
inline void zfp_stream_set_bit_stream(zfp_stream* z, bitstream* s) { z->stream = s; }
inline bitstream* stream_open(void* p, size_t n) { return new bitstream{static_cast<std::uint8_t*>(p), n, 0}; }
inline void stream_close(bitstream* s) { delete s; }
inline void* stream_data(bitstream const* s) { return s->data; }
inline size_t stream_size(bitstream const* s) { return s->position; }
inline size_t zfp_field_size(zfp_field const* f, size_t*) {
  return (f->nx ? f->nx : 1) * (f->ny ? f->ny : 1) * (f->nz ? f->nz : 1) * (f->nw ? f->nw : 1);
}
inline size_t zfp_stream_maximum_size(zfp_stream const*, zfp_field const* f) {
  return 24 + 8 * zfp_field_size(f, nullptr);
}
inline zfp_field* zfp_field_1d(void* p, zfp_type t, size_t x) { return new zfp_field{t, x, 0, 0, 0, p}; }
inline zfp_field* zfp_field_2d(void* p, zfp_type t, size_t x, size_t y) { return new zfp_field{t, x, y, 0, 0, p}; }
inline zfp_field* zfp_field_3d(void* p, zfp_type t, size_t x, size_t y, size_t z) { return new zfp_field{t, x, y, z, 0, p}; }
inline zfp_field* zfp_field_4d(void* p, zfp_type t, size_t x, size_t y, size_t z, size_t w) { return new zfp_field{t, x, y, z, w, p}; }
inline void zfp_field_free(zfp_field* f) { delete f; }
inline size_t zfp_write_header(zfp_stream* z, zfp_field const*, uint) {
  std::memcpy(z->stream->data + z->stream->position, "zfp\5\0\0\0\0", 8);
  std::memcpy(z->stream->data + z->stream->position + 8, &z->accuracy, 8);
  z->stream->position += 16;
  return 128;
}
inline size_t zfp_read_header(zfp_stream* z, zfp_field*, uint) {
  if (z->stream->position + 16 > z->stream->capacity ||
      std::memcmp(z->stream->data + z->stream->position, "zfp\5\0\0\0\0", 8) != 0) return 0;
  std::memcpy(&z->accuracy, z->stream->data + z->stream->position + 8, 8);
  z->stream->position += 16;
  return 128;
}
inline size_t zfp_compress(zfp_stream* z, zfp_field const* f) {
  size_t const n = zfp_field_size(f, nullptr);
  for (size_t i = 0; i < n; ++i) {
    double v = static_cast<double const*>(f->data)[i];
    if (z->accuracy > 0) {
      double const q = std::exp2(std::floor(std::log2(z->accuracy)));
      v = std::floor(v / q) * q;
    }
    if (z->stream->position + 8 > z->stream->capacity) return 0;
    std::memcpy(z->stream->data + z->stream->position, &v, 8);
    z->stream->position += 8;
  }
  return z->stream->position;
}
inline size_t zfp_decompress(zfp_stream* z, zfp_field* f) {
  size_t const n = zfp_field_size(f, nullptr);
  if (z->stream->position + 8 * n > z->stream->capacity) return 0;
  std::memcpy(f->data, z->stream->data + z->stream->position, 8 * n);
  z->stream->position += 8 * n;
  return z->stream->position;
}
