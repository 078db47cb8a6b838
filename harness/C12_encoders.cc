// C12: hexadecimal, base64 and base32768 encodings; arrays.
#include <memory>
#include <string>
#include <vector>

#include "base/array.hpp"
#include "base/base32768.hpp"
#include "base/base64.hpp"
#include "base/hexadecimal.hpp"
#include "seq/seq.h"

using namespace principia::base::_array;
using namespace principia::base::_base32768;
using namespace principia::base::_base64;
using namespace principia::base::_hexadecimal;
using seq::Check;
using seq::CheckEq;
using seq::Choose;

namespace {
using Bytes = std::vector<std::uint8_t>;

// Heap blocks of the exact size, so that any overflow is caught by ASan.
template<typename T>
struct Block {
  explicit Block(std::int64_t const n) : p(new T[n]), n(n) {}
  explicit Block(std::vector<T> const& v) : Block(v.size()) {
    std::copy(v.begin(), v.end(), p.get());
  }
  std::vector<T> vector() const { return {p.get(), p.get() + n}; }
  std::unique_ptr<T[]> p;
  std::int64_t n;
};

// The inputs: all the strings of a length up to 2 over all the bytes; then
// around each length up to 40, patterns that exercise each bit.
Bytes Input() {
  switch (Choose(4)) {
    case 0: {  // Each pair of bytes.
      int const n = Choose(3);
      Bytes b;
      for (int i = 0; i < n; ++i) { b.push_back(Choose(256)); }
      return b;
    }
    case 1: {  // Each single bit (or its complement) at each length.
      int const n = 1 + Choose(seq::Thorough() ? 64 : 32);
      int const bit = Choose(8 * n);
      std::uint8_t const background = Choose(2) ? 0xFF : 0;
      Bytes b(n, background);
      b[bit / 8] ^= 1 << (bit % 8);
      return b;
    }
    case 2: {  // Each byte value at each position.
      int const n = 3 + Choose(14);
      int const at = Choose(n);
      Bytes b(n);
      for (int i = 0; i < n; ++i) { b[i] = 37 * i + 11; }
      b[at] = Choose(256);
      return b;
    }
    default: {  // All the strings over a small alphabet.
      int const n = 3 + Choose(seq::Thorough() ? 6 : 4);
      Bytes b;
      for (int i = 0; i < n; ++i) { b.push_back(seq::Of({0x00, 0x5A, 0xFE, 0xFF})); }
      return b;
    }
  }
}

// The reference: a stream of bits, most significant first.
std::vector<int> Bits(Bytes const& b) {
  std::vector<int> r;
  for (auto const x : b) {
    for (int i = 7; i >= 0; --i) { r.push_back(x >> i & 1); }
  }
  return r;
}

std::string HexReference(Bytes const& b) {
  std::string s;
  for (auto const x : b) {
    s += "0123456789ABCDEF"[x >> 4];
    s += "0123456789ABCDEF"[x & 15];
  }
  return s;
}
std::string Base64Reference(Bytes const& b) {
  auto bits = Bits(b);
  std::string s;
  while (bits.size() % 6 != 0) { bits.push_back(0); }
  for (std::size_t i = 0; i < bits.size(); i += 6) {
    int k = 0;
    for (int j = 0; j < 6; ++j) { k = 2 * k + bits[i + j]; }
    s += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[k];
  }
  return s;
}

template<typename E, typename C>
void RoundTrip(Bytes const& input, std::basic_string<C> const* const reference,
               bool const null_terminated) {
  E encoder;
  std::int64_t const extra = null_terminated ? 1 : 0;
  Block<std::uint8_t> in(input);
  Array<std::uint8_t const> const in_array(in.p.get(), in.n);
  std::int64_t const length = encoder.EncodedLength(in_array);
  if (reference != nullptr) {
    CheckEq(length, static_cast<std::int64_t>(reference->size()) + extra,
            "encoded length");
  }
  // Callee-allocated.
  UniqueArray<C> const encoded = encoder.Encode(in_array);
  CheckEq(encoded.size, length, "size of the encoding");
  if (null_terminated) {
    Check(encoded.data[length - 1] == 0, "not null-terminated");
  }
  if (reference != nullptr) {
    Check(std::basic_string<C>(encoded.data.get(), length - extra) == *reference,
          "not the expected encoding");
  }
  for (int i = 0; i < length - extra; ++i) {
    Check(encoded.data[i] != 0, "null character in the encoding");
  }
  CheckEq(std::memcmp(in.p.get(), input.data(), input.size()), 0,
          "the input was modified");
  // Caller-allocated, exactly or with some space.
  for (int space = 0; space < 3; space += 2) {
    Block<C> out(length + space);
    for (int i = 0; i < out.n; ++i) { out.p[i] = 0x7E; }
    encoder.Encode(in_array, Array<C>(out.p.get(), out.n));
    Check(std::equal(out.p.get(), out.p.get() + length, encoded.data.get()),
          "the two ways of encoding differ");
    for (int i = length; i < out.n; ++i) {
      Check(out.p[i] == 0x7E, "written past the end of the encoding");
    }
  }
  // Decoding, without the null.
  std::vector<C> characters(encoded.data.get(),
                            encoded.data.get() + length - extra);
  Block<C> text(characters);
  Array<C const> const text_array(text.p.get(), text.n);
  CheckEq(encoder.DecodedLength(text_array),
          static_cast<std::int64_t>(input.size()), "decoded length");
  UniqueArray<std::uint8_t> const decoded = encoder.Decode(text_array);
  CheckEq(decoded.size, static_cast<std::int64_t>(input.size()), "decoded size");
  Check(std::equal(input.begin(), input.end(), decoded.data.get()),
        "decoding doesn't invert encoding");
  for (int space = 0; space < 3; space += 2) {
    Block<std::uint8_t> out(input.size() + space);
    for (int i = 0; i < out.n; ++i) { out.p[i] = 0x7E; }
    encoder.Decode(text_array, Array<std::uint8_t>(out.p.get(), input.size()));
    Check(std::equal(input.begin(), input.end(), out.p.get()),
          "the two ways of decoding differ");
    for (int i = input.size(); i < out.n; ++i) {
      Check(out.p[i] == 0x7E, "written past the end when decoding");
    }
  }
  seq::Step(6);
}
}  // namespace

SEQ_HARNESS(round_trip) {
  Bytes const input = Input();
  std::string const hex = HexReference(input);
  std::string const b64 = Base64Reference(input);
  seq::State(hex);
  seq::Notes("input ", hex);
  // Null pointers are not acceptable inputs; Block never has one.
  RoundTrip<HexadecimalEncoder<false>>(input, &hex, false);
  RoundTrip<HexadecimalEncoder<true>>(input, &hex, true);
  RoundTrip<Base64Encoder<false>>(input, &b64, false);
  RoundTrip<Base64Encoder<true>>(input, &b64, true);
  RoundTrip<Base32768Encoder<false>, char16_t>(input, nullptr, false);
  RoundTrip<Base32768Encoder<true>, char16_t>(input, nullptr, true);
}

// The structure of the base 32768 encoding: 15 bits per code point, padded with
// 1s, and a distinct repertoire for a last code point of 7 bits.
SEQ_HARNESS(base32768, .split = 1) {
  static std::vector<char16_t> fifteen, seven;
  Base32768Encoder<false> encoder;
  auto const encode = [&](Bytes const& b) {
    auto const e = encoder.Encode(Array<std::uint8_t const>(b.data(), b.size()));
    return std::vector<char16_t>(e.data.get(), e.data.get() + e.size);
  };
  if (fifteen.empty()) {
    for (int k = 0; k < 1 << 15; ++k) {
      // The first code point encodes the first 15 bits.
      fifteen.push_back(encode({static_cast<std::uint8_t>(k >> 7),
                                static_cast<std::uint8_t>(k << 1), 0, 0})[0]);
    }
    for (int k = 0; k < 1 << 7; ++k) {
      // 14 bytes, 112 bits = 7 * 15 + 7.
      Bytes b(14, 0);
      b[13] = k;
      seven.push_back(encode(b)[7]);
      // Alone, it is not even a byte.
      CheckEq(encoder.DecodedLength(
                  Array<char16_t const>(&seven.back(), std::int64_t(1))),
              std::int64_t(0), "length of a single final code point");
    }
    for (auto const* v : {&fifteen, &seven}) {
      for (std::size_t i = 1; i < v->size(); ++i) {
        Check((*v)[i - 1] < (*v)[i], "the repertoire isn't monotonic at ", i);
      }
    }
    for (auto const s : seven) {
      Check(std::find(fifteen.begin(), fifteen.end(), s) == fifteen.end(),
            "the repertoires overlap");
    }
    // The extremities of the repertoires of the specification.
    Check(fifteen.front() == u'\u04A0' && seven.front() == u'\u0180' &&
              seven.back() == u'\u029F',
          "wrong repertoires: ", (int)fifteen.front(), " ", (int)seven.front(),
          " ", (int)seven.back());
  }
  Bytes const input = Input();
  if (input.empty()) { seq::Prune(); }
  auto bits = Bits(input);
  std::vector<char16_t> expected;
  std::size_t at = 0;
  while (at < bits.size()) {
    std::size_t const left = bits.size() - at;
    int const width = left <= 7 ? 7 : 15;
    int k = 0;
    for (int j = 0; j < width; ++j) {
      k = 2 * k + (at + j < bits.size() ? bits[at + j] : 1);
    }
    expected.push_back(width == 7 ? seven[k] : fifteen[k]);
    at += width;
  }
  seq::State(HexReference(input));
  Check(encode(input) == expected, "unexpected encoding");
  seq::Step();
}

// Hexadecimal: in-place and overlapping uses that are documented.
SEQ_HARNESS(overlap) {
  int const n = 1 + Choose(5);
  Bytes input(n);
  for (int i = 0; i < n; ++i) { input[i] = 16 * (i + 9) + 2 * i + 1; }
  bool const null_terminated = Choose(2);
  int const length = 2 * n + (null_terminated ? 1 : 0);
  // The text is at `t` and the bytes at `b`.
  bool const encode = Choose(2);
  int const t = Choose(2 * n + 3);
  int const b = Choose(2 * n + 3);
  Block<std::uint8_t> memory(4 * n + 8);
  std::string const hex = HexReference(input);
  seq::Notes(encode, null_terminated, " text at ", t, ", bytes at ", b);
  seq::State((t * 100 + b) * 100 + n * 4 + encode * 2 + null_terminated);
  for (int i = 0; i < memory.n; ++i) { memory.p[i] = 0x7E; }
  auto* const text = reinterpret_cast<char*>(memory.p.get() + t);
  auto* const bytes = memory.p.get() + b;
  bool legal;
  if (encode) {
    legal = b <= t + 1 || t + 2 * n <= b;
    std::copy(input.begin(), input.end(), bytes);
    auto f = [&] {
      if (null_terminated) {
        HexadecimalEncoder<true>().Encode(
            Array<std::uint8_t const>(bytes, n), Array<char>(text, length));
      } else {
        HexadecimalEncoder<false>().Encode(
            Array<std::uint8_t const>(bytes, n), Array<char>(text, length));
      }
    };
    if (!legal) {
      Check(seq::Dies(f), "a bad overlap isn't detected");
    } else {
      f();
      Check(std::string(text, 2 * n) == hex, "bad encoding with overlap");
      Check(!null_terminated || text[2 * n] == 0, "not terminated");
      for (int i = 0; i < memory.n; ++i) {
        if (!(t <= i && i < t + length) && !(b <= i && i < b + n)) {
          Check(memory.p[i] == 0x7E, "memory overwritten at ", i);
        }
      }
    }
  } else {
    legal = b <= t + 1 || t + 2 * n <= b;
    std::copy(hex.begin(), hex.end(), text);
    auto f = [&] {
      HexadecimalEncoder<true>().Decode(Array<char const>(text, 2 * n),
                                        Array<std::uint8_t>(bytes, n));
    };
    if (!legal) {
      Check(seq::Dies(f), "a bad overlap isn't detected");
    } else {
      f();
      Check(std::equal(input.begin(), input.end(), bytes),
            "bad decoding with overlap");
      for (int i = 0; i < memory.n; ++i) {
        if (!(t <= i && i < t + 2 * n) && !(b <= i && i < b + n)) {
          Check(memory.p[i] == 0x7E, "memory overwritten at ", i);
        }
      }
    }
  }
  seq::Step();
}

// Hexadecimal: each pair of characters; odd sizes; invalid digits are 0.
SEQ_HARNESS(hexadecimal_digits) {
  int const c1 = Choose(256);
  int const c2 = Choose(256);
  int const odd = Choose(2);
  auto const digit = [](int const c) {
    return c >= '0' && c <= '9' ? c - '0'
         : c >= 'a' && c <= 'f' ? c - 'a' + 10
         : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0;
  };
  std::vector<char> v{static_cast<char>(c1), static_cast<char>(c2)};
  if (odd) { v.push_back('7'); }
  Block<char> text(v);
  HexadecimalEncoder<false> encoder;
  auto const decoded = encoder.Decode(Array<char const>(text.p.get(), text.n));
  CheckEq(decoded.size, 1, "size");
  CheckEq(int{decoded.data[0]}, 16 * digit(c1) + digit(c2), "digits ", c1, " ",
          c2);
  seq::State(c1 * 512 + c2 * 2 + odd);
  seq::Step();
}

// Deep comparison of arrays.
SEQ_HARNESS(array_equality) {
  int const n = Choose(4);
  int const m = Choose(4);
  std::vector<char16_t> a, b;
  for (int i = 0; i < n; ++i) { a.push_back(seq::Of({u'a', u'b', u'\u0161'})); }
  for (int i = 0; i < m; ++i) { b.push_back(seq::Of({u'a', u'b', u'\u0161'})); }
  Array<char16_t> const aa(a.data(), n);
  Array<char16_t> const ba(b.data(), m);
  UniqueArray<char16_t> au(n), bu(m);
  std::copy(a.begin(), a.end(), au.data.get());
  std::copy(b.begin(), b.end(), bu.data.get());
  bool const expected = a == b;
  CheckEq(aa == ba, expected, "array == array");
  CheckEq(aa == bu, expected, "array == unique array");
  CheckEq(au == ba, expected, "unique array == array");
  CheckEq(au == bu, expected, "unique array == unique array");
  std::vector<std::uint8_t> a8(a.begin(), a.end()), b8(b.begin(), b.end());
  CheckEq(Array<std::uint8_t>(a8.data(), n) == Array<std::uint8_t>(b8.data(), m),
          a8 == b8, "bytes");
  std::vector<std::int64_t> a64, b64;
  for (auto const x : a) { a64.push_back(std::int64_t{x} << 40); }
  for (auto const x : b) { b64.push_back(std::int64_t{x} << 40); }
  CheckEq(Array<std::int64_t>(a64.data(), n) == Array<std::int64_t>(b64.data(), m),
          expected, "64-bit elements");
  seq::Step(6);
  std::string s;
  for (auto const x : a) { s += x; }
  s += '/';
  for (auto const x : b) { s += x; }
  seq::State(s);
}

// A bounded array is a vector.
SEQ_HARNESS(bounded_array) {
  int const initial = Choose(4);
  BoundedArray<int, 4> array = initial == 0 ? BoundedArray<int, 4>()
      : initial == 1 ? BoundedArray<int, 4>(11)
      : initial == 2 ? BoundedArray<int, 4>(11, 12)
      : BoundedArray<int, 4>(11, 12, 13);
  std::vector<int> model{11, 12, 13};
  model.resize(initial);
  int const pushes = Choose(5 - initial);
  for (int i = 0; i <= pushes; ++i) {
    auto const& const_array = array;
    CheckEq(array.size(), model.size(), "size");
    CheckEq(array.empty(), model.empty(), "empty");
    Check(std::vector<int>(array.begin(), array.end()) == model, "elements");
    Check(std::vector<int>(const_array.begin(), const_array.end()) == model,
          "const elements");
    Check(std::vector<int>(const_array.rbegin(), const_array.rend()) ==
              std::vector<int>(model.rbegin(), model.rend()), "reverse");
    if (!model.empty()) {
      CheckEq(array.front(), model.front(), "front");
      CheckEq(const_array.back(), model.back(), "back");
      array.back() = 100 + i;
      model.back() = 100 + i;
      array.front() += 1000;
      model.front() += 1000;
    }
    seq::Step();
    std::string s;
    for (int const x : model) { s += std::to_string(x) + ","; }
    seq::State(s);
    if (i < pushes) {
      if (Choose(2)) {
        array.push_back(20 + i);
      } else {
        int const x = 20 + i;
        array.push_back(x);
      }
      model.push_back(20 + i);
    }
  }
}
