#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include "gipfeli/compression.h"
namespace google {
namespace compression {
// A run-length codec: 4 bytes of uncompressed length, then either <0x00 byte>
// literals for bytes >= 0xF0, or <0xF0+n byte> for a run of n+2 bytes, or the
// byte itself.  Like gipfeli, it shrinks repetitive blocks and expands others,
// and it checks that what it decodes is one well-formed block.
class RunLengthCompressor : public Compressor {
 public:
  size_t MaxCompressedLength(size_t n) const override { return 2 * n + 4; }
  size_t Compress(const std::string& in, std::string* out) override {
    out->assign(Encode(in));
    return out->size();
  }
  bool Uncompress(const std::string& in, std::string* out) override {
    return Decode(in, out);
  }
  size_t CompressStream(Source* source, Sink* sink) override {
    std::string in;
    while (source->Available() > 0) {
      size_t n;
      char const* p = source->Peek(&n);
      in.append(p, n);
      source->Skip(n);
    }
    std::string const out = Encode(in);
    sink->Append(out.data(), out.size());
    return out.size();
  }
  bool UncompressStream(Source* source, Sink* sink) override {
    std::string in;
    while (source->Available() > 0) {
      size_t n;
      char const* p = source->Peek(&n);
      in.append(p, n);
      source->Skip(n);
    }
    std::string out;
    if (!Decode(in, &out)) {
      return false;
    }
    size_t allocated = 0;
    char* const buffer =
        sink->GetAppendBuffer(1, out.size(), nullptr, 0, &allocated);
    if (allocated >= out.size()) {
      std::memcpy(buffer, out.data(), out.size());
      sink->Append(buffer, out.size());
    } else {
      return false;
    }
    return true;
  }
  bool GetUncompressedLength(const std::string& in, size_t* result) override {
    if (in.size() < 4) return false;
    std::uint32_t n;
    std::memcpy(&n, in.data(), 4);
    *result = n;
    return true;
  }

 private:
  static std::string Encode(std::string const& in) {
    std::uint32_t const size = in.size();
    std::string out(reinterpret_cast<char const*>(&size), 4);
    for (size_t i = 0; i < in.size();) {
      unsigned char const c = in[i];
      size_t run = 1;
      while (run < 17 && i + run < in.size() && in[i + run] == in[i]) ++run;
      if (run >= 3) {
        out.push_back(static_cast<char>(0xF0 + (run - 2)));
        out.push_back(static_cast<char>(c));
        i += run;
      } else {
        if (c >= 0xF0 || c == 0) out.push_back(0);
        out.push_back(static_cast<char>(c));
        ++i;
      }
    }
    return out;
  }
  static bool Decode(std::string const& in, std::string* out) {
    size_t size;
    if (in.size() < 4) return false;
    std::uint32_t n;
    std::memcpy(&n, in.data(), 4);
    size = n;
    out->clear();
    for (size_t i = 4; i < in.size();) {
      unsigned char const c = in[i++];
      if (c == 0) {
        if (i == in.size()) return false;
        out->push_back(in[i++]);
      } else if (c >= 0xF0) {
        if (i == in.size()) return false;
        out->append(c - 0xF0 + 2, in[i++]);
      } else {
        out->push_back(static_cast<char>(c));
      }
    }
    return out->size() == size;
  }
};
inline std::unique_ptr<Compressor> NewGipfeliCompressor() {
  return std::make_unique<RunLengthCompressor>();
}
}  // namespace compression
}  // namespace google
