#pragma once
// Stand-in for gipfeli (not installed): same interface, different codec.
#include <cstddef>
namespace google {
namespace compression {
class Sink {
 public:
  virtual ~Sink() = default;
  virtual void Append(const char* bytes, size_t n) = 0;
  virtual char* GetAppendBuffer(size_t min_size, size_t desired_size_hint,
                                char* scratch, size_t scratch_size,
                                size_t* allocated_size) = 0;
};
class Source {
 public:
  virtual ~Source() = default;
  virtual size_t Available() const = 0;
  virtual const char* Peek(size_t* len) = 0;
  virtual void Skip(size_t n) = 0;
};
}  // namespace compression
}  // namespace google
