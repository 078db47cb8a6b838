// C11: Clientele.
#include <thread>

#include "harness/mc_util.h"
#include "physics/clientele.hpp"

using namespace principia::physics::_clientele;
using namespace mcu;

namespace {
enum { kJoined = 1, kLeaving = 2 };
}

// `first` is the smallest key of the clients, at some time during the call.
MC_HARNESS(first, .preemptions = 4, .thorough_preemptions = 6) {
  Clientele<int> clientele(1000);
  mc::Check(clientele.first() == 1000, "default");
  {
    Client<int> me(50, clientele);
    mc::Check(clientele.first() == 50, "me");
    {
      std::thread other([&] {
        Client<int> client(30, clientele);
        mc::Log(kJoined);
        mc::Point("joined");
        mc::Log(kLeaving);
      });
      int const before = mc::LogSize();
      int const f = clientele.first();
      bool const left = Logged(kLeaving);
      mc::Check(f == 50 || f == 30, "not the key of a client");
      if (before == 1 && !left) {
        mc::Check(f == 30, "not the smallest key");
      }
      mc::Observe(std::to_string(f));
      other.join();
    }
    mc::Check(clientele.first() == 50, "not after leaving");
  }
  mc::Check(clientele.first() == 1000, "default again");
}

// The same key several times.
MC_HARNESS(duplicates, .preemptions = 3, .thorough_preemptions = 4) {
  Clientele<int> clientele(1000);
  {
    std::thread a([&] { clientele.Join(3); });
    std::thread b([&] { clientele.Join(3); clientele.Join(7); });
    a.join();
    b.join();
  }
  mc::Check(clientele.first() == 3, "3");
  {
    std::thread a([&] {
      clientele.Leave(3);
      int const f = clientele.first();
      mc::Check(f == 3 || f == 7, "3 or 7");
    });
    clientele.Leave(3);
    a.join();
  }
  mc::Check(clientele.first() == 7, "7");
  clientele.Leave(7);
  mc::Check(clientele.first() == 1000, "default");
}
