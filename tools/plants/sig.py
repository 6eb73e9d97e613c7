S = "include/kl/signal.hpp"
PRE = r'''
#include <kl/signal.hpp>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <thread>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); std::fflush(stdout); std::_Exit(1); } } while (0)
'''
BUGS = [
 dict(id="s08-swap-right", prop="S08",
  edits=[(S, "terminate_if_emitting_locked(left.emission_in_progress() ||\n                                     right.emission_in_progress());",
             "terminate_if_emitting_locked(left.emission_in_progress());")],
  needs="the right-hand operand of swap (or of a move assignment) is the one being emitted while the other is idle",
  breaks="swapping a signal that is being emitted continues instead of terminating",
  flags="-O1 -g -DNDEBUG",
  demo=PRE + r'''
int main() {
    pid_t p = fork();
    if (!p) {
        fclose(stderr);
        kl::signal<void()> a, b;
        b.connect([&] { swap(a, b); });
        b();
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
    puts("ok");
}
'''),
 dict(id="s06-stop-lost-by-nested", prop="S06",
  edits=[(S, """        auto prev_emission_state = emission_state;
        KL_DEFER(emission_state = prev_emission_state);

        emission_state.emission_stopped = false;
""", """        emission_state.emission_stopped = false;
        auto prev_emission_state = emission_state;
        KL_DEFER(emission_state = prev_emission_state);
""")],
  needs="a slot stops its emission and then, still inside the slot, emits a signal (same or other)",
  breaks="the stop request of the outer emission is forgotten once a nested emission has run",
  demo=PRE + r'''
int main() {
    kl::signal<void()> outer, inner; int later = 0;
    outer.connect([&] { kl::this_signal::stop_emission(); inner(); });
    outer.connect([&] { ++later; });
    outer();
    CHECK(later == 0);
    puts("ok");
}
'''),
 dict(id="s09-self-assign", prop="S09",
  edits=[(S, """    connection& operator=(const connection& other)
    {
        if (this != &other)
        {
            if (slot_)
                slot_->release();
            slot_ = other.slot_;
            if (slot_)
                slot_->add_ref();
        }
        return *this;
    }""", """    connection& operator=(const connection& other)
    {
        if (slot_)
            slot_->release();
        slot_ = other.slot_;
        if (slot_)
            slot_->add_ref();
        return *this;
    }""")],
  needs="self-assignment of a handle that holds the only reference to its slot (the signal is gone or the slot was disconnected)",
  breaks="the slot is destroyed and then used: use after free",
  flags="-O1 -g -fsanitize=address",
  demo=PRE + r'''
int main() {
    kl::connection c; auto tok = std::make_shared<int>(1);
    { kl::signal<void()> s; c = s.connect([tok] {}); }
    kl::connection& alias = c;
    c = alias;
    CHECK(!c.connected());
    c = kl::connection{};
    puts("ok");
}
'''),
 dict(id="s03-unblock-lost-update", prop="S03",
  edits=[(S, """        const auto prev = blocking_.fetch_sub(1, std::memory_order_relaxed);
        assert(prev > 0);
        (void)prev;""", """        const auto prev = blocking_.load(std::memory_order_relaxed);
        assert(prev > 0);
        blocking_.store(prev - 1, std::memory_order_relaxed);""")],
  needs="two threads creating or destroying blockers of the same slot at the same time (one preempted between load and store)",
  breaks="an update of the blocker count is lost: a slot is invoked while blocked or stays blocked for ever",
  demo=PRE + r'''
int main() {
    kl::signal<void()> s; std::atomic<int> n{0};
    auto c = s.connect([&] { ++n; });
    std::vector<std::thread> t; std::atomic<bool> go{false};
    for (int i = 0; i < 4; ++i) t.emplace_back([&] { auto mine = c; while (!go) ; for (int k = 0; k < 300000; ++k) { auto b = mine.get_blocker(); } });
    go = true; for (auto& x : t) x.join();
    s();
    CHECK(n == 1);
    puts("ok");
}
'''),
]
