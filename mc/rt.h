// Access monitor: the code under test is compiled with -fsanitize=thread and linked with the small
// runtime in rt.cpp instead of libtsan/libgomp. Every load and store of the code under test and
// every parallel region passes through it.
#pragma once
#include <cstddef>
#include <cstdint>
namespace rt {
// ---- footprint (P20) ----
struct Region {
    const char* lo; // start of the buffer, guards included
    const char* hi;
    const char* dlo; // data
    const char* dhi;
    const char* touched; // per element: the model says the call writes it
    unsigned elsize;
    bool any; // false: nothing of it may be written
};
struct Foot {
    bool on = false;
    const char* top = nullptr;    // frames of the code under test lie below
    bool fortran = false;
    Region r[64];
    int n = 0;
    // findings
    int bad = 0; // 1 read outside the data, 2 write outside the data, 3 write of an element that is not part of the result, 4 write to memory that is none of the call's
    int region = -1;
    long elem = 0;
    unsigned size = 0;
    long reads = 0, writes = 0;
};
extern Foot foot;
void foot_begin(const void* top, bool fortran);
void foot_end();
// ---- schedules (P19) ----
struct Sched {
    int nthreads = 1;
    const int* order = nullptr; // execution order of the threads, nullptr: 0,1,2,...
    bool track = false;         // detect conflicting accesses of different threads
    // findings
    bool conflict = false;
    const char* addr = nullptr;
    int t1 = 0, t2 = 0;
    bool ww = false;
    long regions = 0, accesses = 0, active = 0; // active: iterations (threads) that wrote something
};
extern Sched sched;
} // namespace rt
