// P33: transactional settings used by several threads: a staged transaction is withdrawn once
#include "symx.h"
#include <chrono>
#include <Transactions.hpp>
#include "opaque_format.h"
using namespace opencmw;
struct Tok {
    int id = 0;
    bool empty() const { return id == 0; }
    bool operator==(const Tok &) const = default;
};
HARNESS(h_tx_two_withdraw) {
    SettingBase<int32_t, int32_t, Tok, 16> s;
    s.stage(7, Tok{ 1 });
    bool a = false, b = false;
    auto t1 = [&] { a = s.retireStaged(Tok{ 1 }); };
    auto t2 = [&] { b = s.retireStaged(Tok{ 1 }); };
    THREAD(t1); THREAD(t2);
    symx_threads_run();
    CHECKM(a != b, "a staged transaction is withdrawn once");
    if (a) REACH("first"); else REACH("second");
}
