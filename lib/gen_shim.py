#!/usr/bin/python3
"""Writes, into the directory given, patched copies of a few system headers.

The code under test expects a newer Abseil and a newer protobuf than the ones
installed.  Each patch only adds inline members, so the ABI is unchanged."""
import os
import re
import sys

PATCHES = [
    ('absl/strings/string_view.h',
     r'(  template <typename Allocator>\n)',
     '  string_view(std::basic_string_view<char> const s)'
     ' noexcept : string_view(s.data(), s.size()) {}\n'
     '  operator std::basic_string_view<char>() const noexcept {'
     ' return {data(), size()}; }\n\\1',
     '#include <string_view>\n'),
    ('absl/container/internal/btree_container.h',
     r'(  node_type extract\(iterator position\) \{)',
     '''  struct extract_and_get_next_return_type {
    node_type node;
    iterator next;
  };
  extract_and_get_next_return_type extract_and_get_next(iterator position) {
    auto node =
        CommonAccess::Construct<node_type>(get_allocator(), position.slot());
    auto const next = erase(position);
    return {std::move(node), next};
  }
  extract_and_get_next_return_type extract_and_get_next(
      const_iterator position) {
    return extract_and_get_next(iterator(position));
  }
\\1''', ''),
    ('absl/container/internal/hash_function_defaults.h',
     r'(struct HashEq<std::string> : StringHashEq \{\};)',
     '''struct HashEq<std::string> : StringHashEq {};
template <typename T>
struct HashEq<T, std::void_t<typename T::absl_container_hash,
                             typename T::absl_container_eq>> {
  using Hash = typename T::absl_container_hash;
  using Eq = typename T::absl_container_eq;
};
''', ''),
    ('absl/strings/str_cat.h',
     r'(  AlphaNum\(absl::string_view pc\))',
     '  AlphaNum(std::basic_string_view<char> pc)'
     ' : piece_(pc.data(), pc.size()) {}\n\\1',
     '#include <string_view>\n'),
    ('absl/synchronization/mutex.h',
     r'(  explicit (Reader|Writer|)MutexLock\(Mutex \*mu\))',
     '  explicit \\2MutexLock(Mutex& mu) : \\2MutexLock(&mu) {}\n\\1', ''),
    ('google/protobuf/arena.h',
     r'(class PROTOBUF_EXPORT PROTOBUF_ALIGNAS\(8\) Arena final \{\n public:\n)',
     '''\\1
  struct VerifDeleter {
    bool heap = true;
    template<typename T>
    void operator()(T* const t) const { if (heap) { delete t; } }
  };
  template<typename T>
  using UniquePtr = std::unique_ptr<T, VerifDeleter>;
  template<typename T, typename... Args>
  static UniquePtr<T> MakeUnique(Arena* const arena, Args&&... args) {
    T* const t = Arena::CreateMessage<T>(arena);
    if constexpr (sizeof...(Args) > 0) { *t = T(std::forward<Args>(args)...); }
    return UniquePtr<T>(t, VerifDeleter{arena == nullptr});
  }
''', '#include <memory>\n'),
]


# Only for the model checker, whose absl::Mutex is not in the inline namespace.
MC_PATCHES = [
    ('absl/base/internal/low_level_scheduling.h',
     r'class Mutex;', 'class NotTheMutex;', ''),
    ('absl/base/internal/low_level_scheduling.h',
     r'friend class absl::Mutex;', '', ''),
    ('absl/base/internal/low_level_scheduling.h',
     r'(?m)^class CondVar;', 'class NotTheCondVar;', ''),
    ('absl/base/internal/low_level_scheduling.h',
     r'friend class absl::CondVar;', '', ''),
]


def apply(out, patches):
    texts = {}
    for header, pattern, replacement, include in patches:
        if header not in texts:
            with open(os.path.join('/usr/include', header),
                      encoding='utf-8') as f:
                texts[header] = f.read()
        text, n = re.subn(pattern, replacement, texts[header])
        assert n >= 1, header
        if include:
            text = re.sub(r'(?m)^#include', include + '#include', text, count=1)
        texts[header] = text
    for header, text in texts.items():
        path = os.path.join(out, header)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path) or open(path, encoding='utf-8').read() != text:
            with open(path, 'w', encoding='utf-8') as f:
                f.write(text)


def main():
    apply(sys.argv[1], PATCHES)
    apply(sys.argv[2], MC_PATCHES)


if __name__ == '__main__':
    main()
