// C07, C08: PullSerializer and PushDeserializer.
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "base/array.hpp"
#include "base/pull_serializer.hpp"
#include "base/push_deserializer.hpp"
#include "google/protobuf/struct.pb.h"
#include "google/protobuf/wrappers.pb.h"
#include "harness/mc_util.h"

using namespace principia::base::_array;
using namespace principia::base::_not_null;
using namespace principia::base::_pull_serializer;
using namespace principia::base::_push_deserializer;
using namespace mcu;
using google::compression::Compressor;
using google::compression::Sink;
using google::compression::Source;

namespace {
enum { kDone = 1, kAllDone = 2, kPulled = 3 };

// Doubles each byte, with a length in front: blocks must be preserved.
class Doubler : public Compressor {
 public:
  size_t Compress(std::string const& in, std::string* out) override {
    out->assign(1, static_cast<char>(in.size()));
    for (char const c : in) { out->append(2, c); }
    return out->size();
  }
  bool Uncompress(std::string const& in, std::string* out) override {
    if (in.empty() ||
        in.size() != 1 + 2 * static_cast<unsigned char>(in[0])) {
      return false;
    }
    out->clear();
    for (std::size_t i = 1; i < in.size(); i += 2) {
      if (in[i] != in[i + 1]) { return false; }
      out->push_back(in[i]);
    }
    return true;
  }
  size_t CompressStream(Source* source, Sink* sink) override {
    std::string out;
    Compress(All(source), &out);
    mc::Point("compress");
    sink->Append(out.data(), out.size());
    return out.size();
  }
  bool UncompressStream(Source* source, Sink* sink) override {
    std::string out;
    if (!Uncompress(All(source), &out)) { return false; }
    sink->Append(out.data(), out.size());
    return true;
  }
  size_t MaxCompressedLength(size_t n) const override { return 2 * n + 1; }
  bool GetUncompressedLength(std::string const& c, size_t* r) override {
    *r = static_cast<unsigned char>(c[0]);
    return true;
  }

 private:
  static std::string All(Source* source) {
    std::string in;
    while (source->Available() > 0) {
      size_t n;
      char const* p = source->Peek(&n);
      in.append(p, n);
      source->Skip(n);
    }
    return in;
  }
};

std::unique_ptr<Compressor> MakeCompressor(bool const compress) {
  return compress ? std::make_unique<Doubler>() : nullptr;
}

std::unique_ptr<google::protobuf::BytesValue> MakeMessage(int const size) {
  auto m = std::make_unique<google::protobuf::BytesValue>();
  std::string s;
  for (int i = 0; i < size; ++i) { s.push_back('a' + i % 26); }
  m->set_value(s);
  return m;
}

std::unique_ptr<google::protobuf::ListValue> MakeList(int const n) {
  auto m = std::make_unique<google::protobuf::ListValue>();
  for (int i = 0; i < n; ++i) {
    m->add_values()->set_string_value(std::string(3 * i + 1, 'p' + i));
  }
  return m;
}

std::string ToString(Array<std::uint8_t> const a) {
  return std::string(reinterpret_cast<char const*>(a.data), a.size);
}

template<typename M>
void TestSerializer(M const& message, int const chunk_size,
                    int const number_of_chunks, bool const compress,
                    bool const owned) {
  std::string const expected = message.SerializeAsString();
  std::string result;
  std::string sizes;
  {
    PullSerializer serializer(chunk_size, number_of_chunks,
                              MakeCompressor(compress));
    if (owned) {
      serializer.Start(make_not_null_unique<M const>(message));
    } else {
      serializer.Start(&message);
    }
    Doubler doubler;
    for (;;) {
      auto const chunk = serializer.Pull();
      if (chunk.size == 0) {
        break;
      }
      mc::Check(chunk.size <=
                    static_cast<int>(compress
                                         ? doubler.MaxCompressedLength(chunk_size)
                                         : chunk_size),
                "a chunk that is too large");
      std::string const before = ToString(chunk);
      // The chunk must remain valid until the next `Pull`.
      mc::Point("use");
      std::string const after = ToString(chunk);
      mc::Check(before == after, "a chunk was reused while in use");
      sizes += std::to_string(chunk.size) + " ";
      if (compress) {
        std::string block;
        mc::Check(doubler.Uncompress(before, &block),
                  "not a well-formed compressed block");
        result += block;
      } else {
        result += before;
      }
      mc::Check(result.size() <= expected.size(), "too much data");
    }
  }
  mc::Check(result == expected, "not the serialized message");
  mc::Observe(sizes);
}

template<typename M>
void TestDeserializer(M const& message, int const chunk_size,
                      int const number_of_chunks, bool const compress,
                      int const push_size, bool const owned) {
  std::string const data = message.SerializeAsString();
  M result;
  int pushes = 0;
  // Heap buffers poisoned by `done`, to check that they are not used after.
  std::vector<std::unique_ptr<std::string>> buffers;
  {
    PushDeserializer deserializer(chunk_size, number_of_chunks,
                                  MakeCompressor(compress));
    auto const done = [&](google::protobuf::Message const& m) {
      mc::Check(Count(kAllDone) == 0, "completed twice");
      mc::Check(Count(kDone) == pushes + 1,
                "completed before all the chunks have been consumed");
      mc::Check(m.SerializeAsString() == data, "completed with bad data");
      mc::Log(kAllDone);
    };
    std::size_t n = (data.size() + push_size - 1) / push_size;
    pushes = n;
    if (owned) {
      deserializer.Start(make_not_null_unique<M>(), done);
    } else {
      deserializer.Start(&result, done);
    }
    for (std::size_t i = 0; i <= n; ++i) {
      std::string chunk =
          i == n ? "" : data.substr(i * push_size, push_size);
      if (compress && i < n) {
        std::string c;
        Doubler().Compress(chunk, &c);
        chunk = c;
      }
      std::uint8_t* const buffer =
          i == n ? nullptr : new std::uint8_t[chunk.size()];
      if (i < n) { std::memcpy(buffer, chunk.data(), chunk.size()); }
      deserializer.Push(
          Array<std::uint8_t>(buffer, chunk.size()),
          [buffer, i] {
            mc::Check(Count(kDone) == static_cast<int>(i),
                      "callbacks out of order, or repeated");
            mc::Log(kDone, i);
            delete[] buffer;
          });
    }
  }
  mc::Check(Count(kAllDone) == 1, "not completed when destroyed");
  mc::Check(Count(kDone) == pushes + 1, "a callback was not run");
  if (!owned) {
    mc::Check(result.SerializeAsString() == data, "not the message");
  }
  mc::Observe(Trace());
}
}  // namespace

#if defined(SERIALIZER)
MC_HARNESS(small, .preemptions = 4, .thorough_preemptions = 5) {
  bool const compress = mc::Choose(2) == 1;
  int const number_of_chunks = (compress ? 4 : 3) + mc::Choose(2);
  TestSerializer(*MakeMessage(20), /*chunk_size=*/6, number_of_chunks,
                 compress, mc::Choose(2) == 1);
}
MC_HARNESS(list, .preemptions = 4, .thorough_preemptions = 5) {
  bool const compress = mc::Choose(2) == 1;
  TestSerializer(*MakeList(4), /*chunk_size=*/8,
                 /*number_of_chunks=*/compress ? 4 : 3, compress, false);
}
// All the alignments of the end of the message with the end of a chunk.
MC_HARNESS(sizes, .preemptions = 1, .thorough_preemptions = 1) {
  bool const compress = mc::Choose(2) == 1;
  // Not the empty message: the protobuf library that is installed violates the
  // contract of the stream for it.
  int const size = 1 + mc::Choose(29);
  int const chunk_size = 1 + mc::Choose(9);
  int const number_of_chunks = (compress ? 4 : 3) + mc::Choose(3);
  TestSerializer(*MakeMessage(size), chunk_size, number_of_chunks, compress,
                 false);
}
MC_HARNESS(lists, .preemptions = 1, .thorough_preemptions = 1) {
  bool const compress = mc::Choose(2) == 1;
  int const n = 1 + mc::Choose(7);
  int const chunk_size = 1 + mc::Choose(24);
  int const number_of_chunks = (compress ? 4 : 3) + mc::Choose(3);
  TestSerializer(*MakeList(n), chunk_size, number_of_chunks, compress, true);
}
#else
MC_HARNESS(small, .preemptions = 5, .thorough_preemptions = 7) {
  bool const compress = mc::Choose(2) == 1;
  TestDeserializer(*MakeMessage(20), /*chunk_size=*/6,
                   /*number_of_chunks=*/1 + mc::Choose(2), compress,
                   /*push_size=*/6, mc::Choose(2) == 1);
}
// Pushes that must be split in several chunks.
MC_HARNESS(split, .preemptions = 5, .thorough_preemptions = 7) {
  TestDeserializer(*MakeList(3), /*chunk_size=*/5,
                   /*number_of_chunks=*/1 + mc::Choose(2), /*compress=*/false,
                   /*push_size=*/12, false);
}
MC_HARNESS(sizes, .preemptions = 1, .thorough_preemptions = 1) {
  bool const compress = mc::Choose(2) == 1;
  int const size = mc::Choose(30);
  int const chunk_size = 1 + mc::Choose(9);
  int const number_of_chunks = 1 + mc::Choose(3);
  int const push_size = compress ? 1 + mc::Choose(chunk_size)
                                 : 1 + mc::Choose(12);
  if (size == 0) {
    TestDeserializer(google::protobuf::BytesValue(), chunk_size,
                     number_of_chunks, compress, push_size, false);
  } else {
    TestDeserializer(*MakeMessage(size), chunk_size, number_of_chunks, compress,
                     push_size, false);
  }
}
// Ownership of the buffers is taken, and there is no completion callback.
MC_HARNESS(owned_buffers, .preemptions = 5, .thorough_preemptions = 7) {
  std::string const data = MakeList(3)->SerializeAsString();
  google::protobuf::ListValue result;
  {
    PushDeserializer deserializer(8, 2, nullptr);
    deserializer.Start(&result, nullptr);
    for (std::size_t i = 0; i < data.size(); i += 10) {
      std::string const s = data.substr(i, 10);
      UniqueArray<std::uint8_t> a(s.size());
      std::memcpy(a.data.get(), s.data(), s.size());
      deserializer.Push(std::move(a));
    }
    deserializer.Push(Array<std::uint8_t>(), nullptr);
  }
  mc::Check(result.SerializeAsString() == data, "not the message");
}
// Round trip.
MC_HARNESS(round_trip, .preemptions = 2, .thorough_preemptions = 3) {
  bool const compress = mc::Choose(2) == 1;
  auto const message = MakeList(3);
  google::protobuf::ListValue result;
  {
    PushDeserializer deserializer(7, 2, MakeCompressor(compress));
    PullSerializer serializer(7, compress ? 4 : 3, MakeCompressor(compress));
    deserializer.Start(&result, [](google::protobuf::Message const&) {
      mc::Log(kAllDone);
    });
    serializer.Start(message.get());
    for (;;) {
      auto const chunk = serializer.Pull();
      UniqueArray<std::uint8_t> a(chunk.size);
      std::memcpy(a.data.get(), chunk.data, chunk.size);
      deserializer.Push(std::move(a));
      if (chunk.size == 0) { break; }
    }
  }
  mc::Check(Count(kAllDone) == 1, "completion");
  mc::Check(result.SerializeAsString() == message->SerializeAsString(),
            "not the message");
}
#endif
