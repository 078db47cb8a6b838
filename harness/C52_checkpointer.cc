// C52: checkpointers are maps from instants to checkpoints.
#include <map>

#include "google/protobuf/repeated_field.h"
#include "harness/principia.h"
#include "physics/checkpointer.hpp"
#include "serialization/testing_utilities.pb.h"

using namespace principia::physics::_checkpointer;
using seq::Notes;

namespace {
using Message = serialization::CheckpointerTestMessage;
using C = Checkpointer<Message>;

constexpr int times = 4;
Instant At(double const i) { return Instant() + 10 * i * Second; }

// The model.
using Model = std::map<int, int>;

struct System {
  Model model;
  int written = 0;  // How many checkpoints were ever written.
  int writer = 1;   // Identifies the current writer.
  std::vector<int> read;
  std::unique_ptr<C> c;

  C::Writer MakeWriter(int const id) {
    return [this, id](not_null<Message::Checkpoint*> const message) {
      message->set_payload(1000 * id + ++written);
    };
  }
  C::Reader MakeReader() {
    return [this](Message::Checkpoint const& message) {
      read.push_back(message.payload());
      return message.payload() % 2 == 0
                 ? absl::OkStatus()
                 : absl::Status(absl::StatusCode::kDataLoss, "odd");
    };
  }

  void CheckRead(absl::Status const& status, Model::const_iterator const it,
                 char const* const what) {
    if (it == model.end()) {
      Check(absl::IsNotFound(status), what, ": found ", status.ToString());
      Check(read.empty(), what, ": the reader was called");
    } else {
      CheckEq(read.size(), std::size_t(1), what);
      CheckEq(read[0], it->second, what);
      CheckEq(status.code(),
              it->second % 2 == 0 ? absl::StatusCode::kOk
                                  : absl::StatusCode::kDataLoss,
              what);
    }
    read.clear();
  }

  absl::btree_set<Instant> Between(double const t1, double const t2) const {
    absl::btree_set<Instant> result;
    for (auto const& [t, _] : model) {
      if (t1 <= t && t <= t2) result.insert(At(t));
    }
    return result;
  }

  void CheckAll() {
    CheckEq(c->size(), std::int64_t(model.size()), "size");
    Check(c->oldest_checkpoint() ==
              (model.empty() ? InfiniteFuture : At(model.begin()->first)),
          "oldest");
    Check(c->newest_checkpoint() ==
              (model.empty() ? InfinitePast : At(model.rbegin()->first)),
          "newest");
    Check(c->all_checkpoints() == Between(-1, times), "all");
    for (double t = -0.5; t <= times; t += 0.5) {
      auto const after =
          model.lower_bound(static_cast<int>(std::ceil(t)));
      Check(c->checkpoint_at_or_after(At(t)) ==
                (after == model.end() ? InfiniteFuture : At(after->first)),
            "at or after ", t);
      auto before = model.upper_bound(static_cast<int>(std::floor(t)));
      before = before == model.begin() ? model.end() : std::prev(before);
      Check(c->checkpoint_at_or_before(At(t)) ==
                (before == model.end() ? InfinitePast : At(before->first)),
            "at or before ", t);
      Check(c->all_checkpoints_at_or_before(At(t)) == Between(-1, t),
            "all at or before ", t);
      CheckRead(c->ReadFromCheckpointAtOrBefore(At(t)), before,
                "read at or before");
      auto const at =
          t == std::floor(t) ? model.find(static_cast<int>(t)) : model.end();
      CheckRead(c->ReadFromCheckpointAt(At(t)), at, "read at");
      int other = 0;
      auto const status = c->ReadFromCheckpointAt(
          At(t), [&](Message::Checkpoint const& message) {
            other = message.payload();
            return absl::Status(absl::StatusCode::kAborted, "other");
          });
      CheckEq(other, at == model.end() ? 0 : at->second, "read by another");
      CheckEq(status.code(),
              at == model.end() ? absl::StatusCode::kNotFound
                                : absl::StatusCode::kAborted,
              "status of another");
      Check(read.empty(), "the reader was not replaced");
      for (double u = -0.5; u <= times; u += 0.5) {
        Check(c->all_checkpoints_between(At(t), At(u)) == Between(t, u),
              "all between ", t, " and ", u);
      }
    }
    CheckRead(c->ReadFromOldestCheckpoint(), model.begin(), "read oldest");
    CheckRead(c->ReadFromNewestCheckpoint(),
              model.empty() ? model.end() : std::prev(model.end()),
              "read newest");
  }
};

void Test(int const depth) {
  System s;
  s.c = std::make_unique<C>(s.MakeWriter(1), s.MakeReader());
  s.CheckAll();
  for (int i = 0; i < depth; ++i) {
    seq::Step();
    int const op = Choose(3 * times + 3);
    if (op < times) {
      if (s.model.contains(op)) seq::Prune();
      Notes("write ", op);
      s.c->WriteToCheckpoint(At(op));
      s.model[op] = 1000 * s.writer + s.written;
    } else if (op < 3 * times) {
      int const t = op % times;
      // Exactly the distance between consecutive times, or less than that.
      double const gap = op < 2 * times ? 1 : 0.5;
      Notes("write if needed ", t, " ", gap);
      int const before = s.written;
      bool const needed =
          s.model.empty() || gap < t - s.model.rbegin()->first;
      CheckEq(s.c->WriteToCheckpointIfNeeded(At(t), gap * 10 * Second), needed,
              "needed");
      CheckEq(s.written, before + (needed ? 1 : 0), "written");
      if (needed) s.model[t] = 1000 * s.writer + s.written;
    } else if (op == 3 * times) {
      Notes("set writer");
      s.c->set_writer(s.MakeWriter(++s.writer));
    } else {
      bool const rewrite = op == 3 * times + 2;
      Notes(rewrite ? "save and rewrite" : "save");
      Message message;
      s.c->WriteToMessage(message.mutable_checkpoint());
      CheckEq(message.checkpoint_size(), int(s.model.size()), "saved");
      auto it = s.model.begin();
      for (auto const& checkpoint : message.checkpoint()) {
        Check(Instant::ReadFromMessage(checkpoint.time()) == At(it->first),
              "saved time");
        CheckEq(checkpoint.payload(), it->second, "saved payload");
        ++it;
      }
      C::Rewriter rewriter = nullptr;
      if (rewrite) {
        rewriter = [](Message::Checkpoint const& checkpoint) {
          Message::Checkpoint result = checkpoint;
          result.set_payload(result.payload() + 501);
          return result;
        };
        for (auto& [_, payload] : s.model) payload += 501;
      }
      s.c = C::ReadFromMessage(s.MakeWriter(++s.writer), s.MakeReader(),
                               rewriter, message.checkpoint());
    }
    s.CheckAll();
  }
}
}  // namespace

SEQ_HARNESS(histories, .split = 2) { Test(seq::Thorough() ? 5 : 4); }
