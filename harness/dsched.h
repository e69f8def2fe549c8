// Deterministic cooperative scheduler: one thread runs at a time, and at scheduling points (basic blocks of the engine's code through
// -fsanitize-coverage=trace-pc, OpenSSL allocations, lock acquisitions) the drawn schedule decides whether another thread continues.
#pragma once
#include <vector>
#include <string>
#include <functional>
#include <cstdint>
namespace sched {
struct Switch{ uint64_t after; unsigned to; };     // after that many scheduling points, continue with thread (current + 1 + to) mod live
struct Stat{ uint64_t points=0; unsigned switches=0, blocked=0; bool deadlock=false; };
// runs the bodies; returns when all are finished (or sets deadlock and releases everything)
Stat run(const std::vector<std::function<void()>>&bodies,const std::vector<Switch>&plan,uint64_t fair);
void point();
int self();                                        // index of the running thread, -1 outside run()
}
