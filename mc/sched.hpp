// Controlled scheduler for real threads (mc/sched.cpp).
//
// While a Session exists, only one thread runs at a time. At every synchronization
// operation (mutex lock, thread creation and termination, join, atomic access, use of a
// function-local static) the explorer chooses which thread continues. A choice that
// suspends a thread that could have continued costs one deviation (preemption bound =
// deviation budget). Deadlocks are detected, and if the code under test is compiled with
// -fsanitize=thread (san="sched"), data races are detected by means of vector clocks in
// every explored schedule.
#pragma once
#include "mc.hpp"

namespace sched {

class Session {
public:
    explicit Session(mc::Ctx&);
    ~Session(); // checks that all threads were joined
};

// Accesses made while an Ignore object exists are not subject to race detection, and
// synchronization operations are not scheduling points
class Ignore {
public:
    Ignore() noexcept;
    ~Ignore() noexcept;
};

int self() noexcept;              // 0: thread that opened session, 1: first created thread, ...
void point() noexcept;            // explicit scheduling point
bool holds_any_lock() noexcept;
std::uint64_t switches() noexcept; // number of context switches in this session
extern int (*create_hook)(); // if set: called for each thread to be created, nonzero: error code of pthread_create()
int max_live() noexcept;           // largest number of simultaneously live threads

} // namespace sched
