// C13: disjoint sets, and manipulations of bits.
#include <algorithm>
#include <list>
#include <optional>
#include <vector>

#include "base/bits.hpp"
#include "base/disjoint_sets.hpp"
#include "harness/principia.h"

namespace principia {
namespace base {
namespace _disjoint_sets {
struct Element {
  int id;
  Subset<Element>::Node* node = nullptr;
};
}  // namespace _disjoint_sets
}  // namespace base
}  // namespace principia

using namespace principia::base::_bits;
using namespace principia::base::_disjoint_sets;
using seq::Notes;

namespace principia {
namespace base {
namespace _disjoint_sets {
namespace internal {
template<>
class Subset<Element>::Properties final {
 public:
  Properties(int const id, int const tag) : elements{id}, tag(tag) {}
  void MergeWith(Properties& other) {
    elements.splice(elements.end(), other.elements);
    tag += other.tag;
  }
  std::list<int> elements;
  int tag;
};

template<>
not_null<Subset<Element>::Node*> Subset<Element>::Node::Get(Element& element) {
  return element.node;
}
}  // namespace internal
}  // namespace _disjoint_sets
}  // namespace base
}  // namespace principia

namespace {
using S = Subset<Element>;

void TestSets(int const n, int const depth) {
  std::vector<S::Node> nodes(n);
  std::vector<Element> elements(n);
  std::vector<int> label(n);
  auto const singletons = [&](int const tag) {
    for (int i = 0; i < n; ++i) {
      S::MakeSingleton(elements[i], i, tag << (4 * i));
      label[i] = i;
    }
  };
  for (int i = 0; i < n; ++i) elements[i] = Element{i, &nodes[i]};
  int tag = 1;
  singletons(tag);
  auto const subset_is = [&](S const& s, int const l) {
    std::list<int> found = s.properties().elements;
    found.sort();
    std::list<int> expected;
    int expected_tag = 0;
    for (int i = 0; i < n; ++i) {
      if (label[i] == l) {
        expected.push_back(i);
        expected_tag += tag << (4 * i);
      }
    }
    Check(found == expected, "elements of the subset");
    CheckEq(s.properties().tag, expected_tag, "merged properties");
  };
  for (int d = 0; d < depth; ++d) {
    seq::Step();
    int const op = Choose(n * n + 1);
    if (op == n * n) {
      // A new partition, with the same nodes.
      Notes("singletons");
      singletons(++tag);
      continue;
    }
    int const i = op / n;
    int const j = op % n;
    if (i == j) {
      Notes("find ", i);
      subset_is(S::Find(elements[i]), label[i]);
    } else {
      Notes("unite ", i, " ", j);
      S const si = S::Find(elements[i]);
      S const sj = S::Find(elements[j]);
      CheckEq(si == sj, label[i] == label[j], "same subset");
      S const united = S::Unite(si, sj);
      int const from = label[j];
      for (int& l : label) {
        if (l == from) l = label[i];
      }
      subset_is(united, label[i]);
    }
  }
  bool const backwards = Choose(2) == 1;
  for (int k = 0; k < n; ++k) {
    int const i = backwards ? n - 1 - k : k;
    S s = S::Find(elements[i]);
    subset_is(s, label[i]);
    for (int j = 0; j < n; ++j) {
      CheckEq(s == S::Find(elements[j]), label[i] == label[j], "partition ", i,
              " ", j);
      CheckEq(s != S::Find(elements[j]), label[i] != label[j], "partition ", i,
              " ", j);
    }
    s.mutable_properties().tag += 0;
  }
}

// Unites all the elements, two adjacent subsets at a time, and searches only at
// the end, so that the trees are as high as they may be.
void TestTrees(int const n, bool const tournament) {
  std::vector<S::Node> nodes(n);
  std::vector<Element> elements(n);
  for (int i = 0; i < n; ++i) {
    elements[i] = Element{i, &nodes[i]};
    S::MakeSingleton(elements[i], i, 1 << i);
  }
  // How the subsets to be united are found: by their first or last element or
  // as the result of the previous union.
  int const mode = Choose(3);
  bool const backwards = Choose(2) == 1;
  int const stop = Choose(2);  // The number of subsets left.
  struct Group {
    int first;
    int last;
    std::optional<S> united;
  };
  std::list<Group> groups;
  for (int i = 0; i < n; ++i) groups.push_back({i, i, std::nullopt});
  auto const find = [&](Group const& group) {
    return mode == 0 ? S::Find(elements[group.first])
           : mode == 1 || !group.united.has_value()
               ? S::Find(elements[group.last])
               : *group.united;
  };
  auto it = groups.begin();
  while (static_cast<int>(groups.size()) > 1 + stop) {
    seq::Step();
    if (tournament) {
      if (it == groups.end() || std::next(it) == groups.end()) {
        it = groups.begin();
      }
    } else {
      it = std::next(groups.begin(),
                     Choose(static_cast<int>(groups.size()) - 1));
    }
    auto const right = std::next(it);
    bool const swap = Choose(2) == 1;
    S const s1 = find(*it);
    S const s2 = find(*right);
    Check(s1 != s2, "subsets not yet united");
    S const united = swap ? S::Unite(s2, s1) : S::Unite(s1, s2);
    CheckEq(united.properties().tag,
            (1 << (right->last + 1)) - (1 << it->first), "united properties");
    Group group{it->first, right->last, std::nullopt};
    group.united.emplace(united);
    groups.erase(right);
    auto const next = std::next(it);
    groups.erase(it);
    it = groups.insert(next, group);
    if (tournament) ++it;
  }
  for (int k = 0; k < n; ++k) {
    int const i = backwards ? n - 1 - k : k;
    S const s = S::Find(elements[i]);
    for (auto const& group : groups) {
      if (group.first <= i && i <= group.last) {
        CheckEq(s.properties().tag,
                (1 << (group.last + 1)) - (1 << group.first),
                "subset of element ", i);
      } else {
        Check(s != S::Find(elements[group.first]), "not united: ", i, " and ",
              group.first);
      }
    }
  }
}

void TestBits(int const max_bits) {
  int const bits = Choose(max_bits + 1);
  std::int64_t const size = std::int64_t(1) << bits;
  auto const reverse = [&](std::int64_t const n) {
    std::int64_t result = 0;
    for (int b = 0; b < bits; ++b) {
      if (n >> b & 1) result |= std::int64_t(1) << (bits - 1 - b);
    }
    return result;
  };
  for (std::int64_t n = 0; n < size; ++n) {
    if (n % 4096 == 0) seq::Step();
    // The increment of the last one wraps around.
    CheckEq(BitReversedIncrement(n, bits), reverse((reverse(n) + 1) % size),
            "increment of ", n);
  }
  // All the numbers with that many bits, when there are few; or with at most
  // 3 bits equal to one or at most 3 bits equal to zero.
  auto const log = [&](std::int64_t const n) {
    std::int64_t floor = 0;
    while (floor < 62 && std::int64_t(1) << (floor + 1) <= n) ++floor;
    CheckEq(FloorLog2(n), floor, "logarithm of ", n);
    CheckEq(PowerOf2Le(n), n == 0 ? 0 : std::int64_t(1) << floor,
            "power of two for ", n);
  };
  for (std::int64_t n = size / 2; n < size; ++n) log(n);
}

void TestLargeBits() {
  int const high = Choose(63);
  for (int b = 0; b <= high; ++b) {
    seq::Step();
    for (int c = 0; c <= b; ++c) {
      std::int64_t const few = std::int64_t(1) << high |
                               std::int64_t(1) << b | std::int64_t(1) << c;
      std::int64_t const ones =
          (std::int64_t(1) << high) | ((std::int64_t(1) << high) - 1);
      for (std::int64_t const n : {few, ones & ~(std::int64_t(1) << c) &
                                            ~(std::int64_t(1) << b) |
                                            std::int64_t(1) << high}) {
        CheckEq(FloorLog2(n), std::int64_t(high), "logarithm of ", n);
        CheckEq(PowerOf2Le(n), std::int64_t(1) << high, "power for ", n);
      }
    }
  }
}
}  // namespace

SEQ_HARNESS(five_elements, .split = 1) { TestSets(5, seq::Thorough() ? 6 : 5); }
SEQ_HARNESS(seven_elements, .split = 2) {
  if (!seq::Thorough()) {
    TestSets(7, 4);
  } else {
    TestSets(7, 5);
  }
}
SEQ_HARNESS(four_elements, .split = 1) { TestSets(4, seq::Thorough() ? 7 : 5); }
SEQ_HARNESS(trees, .split = 5) {
  TestTrees(seq::Thorough() ? 9 : 8, /*tournament=*/false);
}
SEQ_HARNESS(tournaments, .split = 4) { TestTrees(16, /*tournament=*/true); }
SEQ_HARNESS(bits) { TestBits(seq::Thorough() ? 22 : 18); }
SEQ_HARNESS(large_bits) { TestLargeBits(); }
