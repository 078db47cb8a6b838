// C09: Checkpointer, under concurrency.
#include <string>
#include <thread>

#include "geometry/instant.hpp"
#include "harness/mc_util.h"
#include "physics/checkpointer.hpp"
#include "quantities/si.hpp"
#include "serialization/testing_utilities.pb.h"

using namespace principia::base::_not_null;
using namespace principia::geometry::_instant;
using namespace principia::physics::_checkpointer;
using namespace principia::quantities::_si;
using Message = principia::serialization::CheckpointerTestMessage;
using Checkpoint = Message::Checkpoint;

namespace {
enum { kWriting = 1, kWritten = 2, kRead = 3 };
Instant T(int const i) { return Instant() + i * Second; }

void Fill(not_null<Checkpoint*> const checkpoint) {
  mc::Log(kWriting);
  checkpoint->set_payload(1);
  mc::Point("writing");
  checkpoint->set_payload(42);
  mc::Log(kWritten);
}
absl::Status CheckFilled(Checkpoint const& checkpoint) {
  mc::Log(kRead);
  mc::Check(checkpoint.payload() == 42,
            "a checkpoint was read before it was completely written");
  mc::Point("reading");
  mc::Check(checkpoint.payload() == 42, "a checkpoint changed while read");
  return absl::OkStatus();
}
void Ok(absl::Status const& s) { mc::Check(s.ok(), "read failed"); }
}  // namespace

// An existing checkpoint is read while others are being created.
MC_HARNESS(read_while_writing, .preemptions = 3, .thorough_preemptions = 4) {
  int const how = mc::Choose(3);
  Checkpointer<Message> checkpointer(Fill, CheckFilled);
  checkpointer.WriteToCheckpoint(T(1));
  {
    std::thread reader([&] {
      if (how == 0) {
        Ok(checkpointer.ReadFromCheckpointAt(T(1)));
      } else if (how == 1) {
        Ok(checkpointer.ReadFromOldestCheckpoint());
      } else {
        Ok(checkpointer.ReadFromCheckpointAtOrBefore(T(1)));
      }
    });
    checkpointer.WriteToCheckpoint(T(2));
    checkpointer.WriteToCheckpoint(T(3));
    reader.join();
  }
  mc::Check(mcu::Count(kRead) == 1, "read once");
  mc::Check(checkpointer.size() == 3, "size");
}

// A checkpoint is either invisible or complete.
MC_HARNESS(visibility, .preemptions = 3, .thorough_preemptions = 4) {
  int const how = mc::Choose(5);
  Checkpointer<Message> checkpointer(Fill, CheckFilled);
  {
    std::thread reader([&] {
      absl::Status status;
      switch (how) {
        case 0: status = checkpointer.ReadFromCheckpointAt(T(1)); break;
        case 1: status = checkpointer.ReadFromOldestCheckpoint(); break;
        case 2: status = checkpointer.ReadFromNewestCheckpoint(); break;
        case 3:
          status = checkpointer.ReadFromCheckpointAtOrBefore(T(2));
          break;
        default: {
          Message m;
          checkpointer.WriteToMessage(m.mutable_checkpoint());
          for (auto const& c : m.checkpoint()) {
            mc::Check(c.payload() == 42, "an incomplete checkpoint was saved");
            mc::Check(c.time().scalar().magnitude() == 1, "time");
          }
        }
      }
      mc::Check(status.ok() || status.code() == absl::StatusCode::kNotFound,
                "status");
      mc::Observe(status.ok() ? "ok" : "nok");
    });
    checkpointer.WriteToCheckpoint(T(1));
    reader.join();
  }
  mc::Check(checkpointer.oldest_checkpoint() == T(1), "oldest");
}

// Two writers.
MC_HARNESS(writers, .preemptions = 3, .thorough_preemptions = 4) {
  Checkpointer<Message> checkpointer(Fill, CheckFilled);
  {
    std::thread writer([&] { checkpointer.WriteToCheckpoint(T(1)); });
    checkpointer.WriteToCheckpoint(T(2));
    writer.join();
  }
  mc::Check(checkpointer.size() == 2, "size");
  mc::Check(checkpointer.oldest_checkpoint() == T(1), "oldest");
  mc::Check(checkpointer.newest_checkpoint() == T(2), "newest");
  Ok(checkpointer.ReadFromCheckpointAt(T(1)));
  Ok(checkpointer.ReadFromCheckpointAt(T(2)));
}

// Two clients that need a checkpoint at the same time: only one is created.
MC_HARNESS(if_needed, .preemptions = 3, .thorough_preemptions = 4) {
  Checkpointer<Message> checkpointer(Fill, CheckFilled);
  bool created[2];
  bool const before = mc::Choose(2) == 1;
  if (before) { checkpointer.WriteToCheckpoint(T(1)); }
  {
    std::thread client([&] {
      created[0] = checkpointer.WriteToCheckpointIfNeeded(T(20), 10 * Second);
    });
    created[1] = checkpointer.WriteToCheckpointIfNeeded(T(21), 10 * Second);
    client.join();
  }
  mc::Check(created[0] + created[1] == 1,
            "not exactly one checkpoint was created");
  mc::Check(checkpointer.size() == before + 1, "size");
  mc::Check(checkpointer.newest_checkpoint() == (created[0] ? T(20) : T(21)),
            "newest");
  mc::Observe(created[0] ? "0" : "1");
}

// Queries while a checkpoint is created.
MC_HARNESS(queries, .preemptions = 3, .thorough_preemptions = 4) {
  int const how = mc::Choose(6);
  Checkpointer<Message> checkpointer(Fill, CheckFilled);
  checkpointer.WriteToCheckpoint(T(1));
  {
    std::thread reader([&] {
      switch (how) {
        case 0: {
          auto const t = checkpointer.newest_checkpoint();
          mc::Check(t == T(1) || t == T(5), "newest");
          break;
        }
        case 1:
          mc::Check(checkpointer.oldest_checkpoint() == T(1), "oldest");
          break;
        case 2: {
          auto const t = checkpointer.checkpoint_at_or_after(T(2));
          mc::Check(t == T(5) || t == InfiniteFuture, "at or after");
          break;
        }
        case 3: {
          auto const t = checkpointer.checkpoint_at_or_before(T(5));
          mc::Check(t == T(1) || t == T(5), "at or before");
          break;
        }
        case 4: {
          auto const s = checkpointer.all_checkpoints();
          mc::Check(s.contains(T(1)) && s.size() <= 2, "all");
          break;
        }
        default: {
          auto const s = checkpointer.all_checkpoints_between(T(1), T(9));
          mc::Check(s.contains(T(1)) && s.size() <= 2, "between");
        }
      }
    });
    checkpointer.WriteToCheckpoint(T(5));
    reader.join();
  }
}

// The writer is replaced while it is in use.
MC_HARNESS(set_writer, .preemptions = 3, .thorough_preemptions = 4) {
  Checkpointer<Message> checkpointer(
      [s = std::string("a string that is on the heap, not in the object")](
          not_null<Checkpoint*> const checkpoint) {
        mc::Point("writing");
        checkpoint->set_payload(s.size() == 47 ? 42 : 0);
      },
      CheckFilled);
  {
    std::thread client([&] { checkpointer.set_writer(Fill); });
    checkpointer.WriteToCheckpoint(T(1));
    client.join();
  }
  Ok(checkpointer.ReadFromNewestCheckpoint());
}

// The callbacks are not run under a lock.
MC_HARNESS(reentrancy, .preemptions = 1, .thorough_preemptions = 2) {
  Checkpointer<Message>* p = nullptr;
  Checkpointer<Message> checkpointer(
      [&](not_null<Checkpoint*> const checkpoint) {
        p->all_checkpoints();
        Fill(checkpoint);
      },
      [&](Checkpoint const& checkpoint) {
        p->WriteToCheckpointIfNeeded(T(100), 10 * Second);
        return CheckFilled(checkpoint);
      });
  p = &checkpointer;
  checkpointer.WriteToCheckpoint(T(1));
  Ok(checkpointer.ReadFromOldestCheckpoint());
  mc::Check(checkpointer.size() == 2, "size");
}

// Reading a save, with the rewriting done by several threads.
MC_HARNESS(rewriting, .preemptions = 0, .thorough_preemptions = 1) {
  Message m;
  for (int i = 1; i <= 3; ++i) {
    auto* const c = m.add_checkpoint();
    T(i).WriteToMessage(c->mutable_time());
    c->set_payload(i);
  }
  auto const checkpointer = Checkpointer<Message>::ReadFromMessage(
      Fill,
      [](Checkpoint const& c) { return absl::OkStatus(); },
      [](Checkpoint const& c) {
        mc::Point("rewriting");
        Checkpoint r = c;
        r.set_payload(10 * c.payload());
        return r;
      },
      m.checkpoint());
  mc::Check(checkpointer->size() == 3, "size");
  for (int i = 1; i <= 3; ++i) {
    Ok(checkpointer->ReadFromCheckpointAt(T(i), [i](Checkpoint const& c) {
      mc::Check(c.payload() == 10 * i, "the wrong checkpoint was rewritten");
      return absl::OkStatus();
    }));
  }
}
