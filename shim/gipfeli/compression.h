#pragma once
#include <string>
#include "gipfeli/sinksource.h"
namespace google {
namespace compression {
class Compressor {
 public:
  virtual ~Compressor() = default;
  virtual size_t Compress(const std::string& input, std::string* output) = 0;
  virtual bool Uncompress(const std::string& input, std::string* output) = 0;
  virtual size_t CompressStream(Source* source, Sink* sink) = 0;
  virtual bool UncompressStream(Source* source, Sink* sink) = 0;
  virtual size_t MaxCompressedLength(size_t nbytes) const = 0;
  virtual bool GetUncompressedLength(const std::string& compressed,
                                     size_t* result) = 0;
};
}  // namespace compression
}  // namespace google
