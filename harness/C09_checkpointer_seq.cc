// C09: Checkpointer against a map, sequentially.
#include <map>
#include <string>
#include <vector>

#include "geometry/instant.hpp"
#include "physics/checkpointer.hpp"
#include "quantities/si.hpp"
#include "seq/seq.h"
#include "serialization/testing_utilities.pb.h"

using namespace principia::base::_not_null;
using namespace principia::geometry::_instant;
using namespace principia::physics::_checkpointer;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using Message = principia::serialization::CheckpointerTestMessage;
using Checkpoint = Message::Checkpoint;
using seq::Check;
using seq::CheckEq;
using seq::Choose;

namespace {
constexpr int n = 5;
Instant T(int const i) {
  return i < 0   ? InfinitePast
         : i > n ? InfiniteFuture
                 : Instant() + i * Second;
}
int const none = -1;

struct Fixture {
  int payload = 100;
  int last_read = none;
  absl::Status status;
  std::map<int, int> model;
  Checkpointer<Message>::Writer writer = [this](not_null<Checkpoint*> const m) {
    m->set_payload(payload);
  };
  Checkpointer<Message>::Reader reader = [this](Checkpoint const& m) {
    CheckEq(last_read, none, "read twice");
    last_read = m.payload();
    return status;
  };
  std::unique_ptr<Checkpointer<Message>> c;
  Fixture() : c(std::make_unique<Checkpointer<Message>>(writer, reader)) {}

  void Read(char const* const what, absl::Status const& s,
            std::map<int, int>::const_iterator const it) {
    if (it == model.end()) {
      Check(absl::IsNotFound(s), what, ": not NOT_FOUND");
      CheckEq(last_read, none, what, " called the reader");
    } else {
      CheckEq(s.code(), status.code(), what, ": status of the reader");
      CheckEq(last_read, it->second, what, ": read the wrong checkpoint");
    }
    last_read = none;
    seq::Step();
  }

  void Compare() {
    CheckEq(c->size(), static_cast<std::int64_t>(model.size()), "size");
    CheckEq(c->oldest_checkpoint(),
            model.empty() ? InfiniteFuture : T(model.begin()->first), "oldest");
    CheckEq(c->newest_checkpoint(),
            model.empty() ? InfinitePast : T(model.rbegin()->first), "newest");
    auto const collect = [&](int const lo, int const hi) {
      std::vector<Instant> v;
      for (auto const& [t, _] : model) {
        if (lo <= t && t <= hi) { v.push_back(T(t)); }
      }
      return v;
    };
    auto const vector = [](auto const& s) {
      return std::vector<Instant>(s.begin(), s.end());
    };
    Check(vector(c->all_checkpoints()) == collect(0, n), "all_checkpoints");
    for (int i = -1; i <= n + 1; ++i) {
      auto const v = collect(i, n);
      CheckEq(c->checkpoint_at_or_after(T(i)),
              v.empty() ? InfiniteFuture : v.front(), "at_or_after ", i);
      auto const u = collect(0, i);
      CheckEq(c->checkpoint_at_or_before(T(i)),
              u.empty() ? InfinitePast : u.back(), "at_or_before ", i);
      Check(vector(c->all_checkpoints_at_or_before(T(i))) == u,
            "all_at_or_before ", i);
      for (int j = -1; j <= n + 1; ++j) {
        Check(vector(c->all_checkpoints_between(T(i), T(j))) == collect(i, j),
              "all_between ", i, " ", j);
      }
      auto before = model.upper_bound(i);
      before = before == model.begin() ? model.end() : std::prev(before);
      Read("ReadFromCheckpointAtOrBefore",
           c->ReadFromCheckpointAtOrBefore(T(i)), before);
      Read("ReadFromCheckpointAt", c->ReadFromCheckpointAt(T(i)),
           model.find(i));
      Read("ReadFromCheckpointAt with reader",
           c->ReadFromCheckpointAt(T(i), reader), model.find(i));
    }
    Read("ReadFromOldestCheckpoint", c->ReadFromOldestCheckpoint(),
         model.begin());
    Read("ReadFromNewestCheckpoint", c->ReadFromNewestCheckpoint(),
         model.empty() ? model.end() : std::prev(model.end()));
    seq::Step(5 + (n + 3) * (n + 5));
  }
};

SEQ_HARNESS(histories, .split = 2) {
  Fixture f;
  int const depth = seq::Thorough() ? 4 : 3;
  for (int i = 0; i < depth; ++i) {
    switch (Choose(4)) {
      case 0: {
        int const t = Choose(n + 1);
        if (f.model.contains(t)) {
          Check(seq::Dies([&] { f.c->WriteToCheckpoint(T(t)); }),
                "wrote twice at the same time");
          seq::Prune();  // The object is in an unspecified state.
        }
        ++f.payload;
        f.model[t] = f.payload;
        f.c->WriteToCheckpoint(T(t));
        seq::Notes("write ", t);
        break;
      }
      case 1: {
        int const t = Choose(n + 1);
        int const max = Choose(4);
        ++f.payload;
        bool const expected =
            f.model.empty() || max < t - f.model.rbegin()->first;
        CheckEq(f.c->WriteToCheckpointIfNeeded(T(t), max * Second), expected,
                "write if needed ", t, " ", max);
        if (expected) { f.model[t] = f.payload; }
        seq::Notes("write if needed ", t, " ", max);
        break;
      }
      case 2: {  // Serialize and deserialize.
        Message m;
        f.c->WriteToMessage(m.mutable_checkpoint());
        CheckEq(m.checkpoint_size(), static_cast<int>(f.model.size()),
                "serialized size");
        int j = 0;
        for (auto const& [t, p] : f.model) {
          CheckEq(Instant::ReadFromMessage(m.checkpoint(j).time()), T(t),
                  "serialized time");
          CheckEq(m.checkpoint(j).payload(), p, "serialized payload");
          ++j;
        }
        if (Choose(2)) {
          f.c = Checkpointer<Message>::ReadFromMessage(
              f.writer, f.reader,
              [](Checkpoint c) {
                c.set_payload(c.payload() + 1000);
                return c;
              },
              m.checkpoint());
          for (auto& [_, p] : f.model) { p += 1000; }
        } else {
          f.c = Checkpointer<Message>::ReadFromMessage(
              f.writer, f.reader, nullptr, m.checkpoint());
        }
        seq::Notes("round trip");
        break;
      }
      default:
        f.status = Choose(2) ? absl::CancelledError("test") : absl::OkStatus();
        f.c->set_writer([&f](not_null<Checkpoint*> const m) {
          m->set_payload(f.payload += 7);
        });
        seq::Notes("set writer");
        // The model has to follow.
        {
          int const t = Choose(n + 1);
          if (f.model.contains(t)) { seq::Prune(); }
          f.c->WriteToCheckpoint(T(t));
          f.model[t] = f.payload;
          f.c->set_writer(f.writer);
        }
        break;
    }
    f.Compare();
    std::string s;
    for (auto const& [t, p] : f.model) {
      s += std::to_string(t) + ":" + std::to_string(p) + " ";
    }
    seq::State(s);
  }
}
}  // namespace
