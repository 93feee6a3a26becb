#pragma once
#include "mc.h"
#include <climits>
#include <string>
#include <vector>
// fault injection: the n-th copy of a Fragile object (from the moment the fuse is set) fails
struct Blown { int where; };
struct Fuse { static inline int left = -1; static inline int copies = 0, live = 0; static void set(int n) { left = n; } 
    // (not instrumented: bookkeeping of the harness)
    __attribute__((no_sanitize_thread, noinline)) static bool burn() { copies++; if (left > 0 && --left == 0) { left = -1; return true; } return false; }
    __attribute__((no_sanitize_thread, noinline)) static void alive(int d) { live += d; }
    static void copy(int v) { if (burn()) throw Blown{v}; } };
struct Fragile {
    int v; explicit Fragile(int x = 0) : v(x) { Fuse::alive(1); }
    Fragile(const Fragile& o) : v(o.v) { Fuse::copy(v); Fuse::alive(1); }
    Fragile(Fragile&& o) noexcept : v(o.v) { o.v = -7; Fuse::alive(1); }
    Fragile& operator=(const Fragile& o) { Fuse::copy(o.v); v = o.v; return *this; }
    Fragile& operator=(Fragile&& o) noexcept { v = o.v; if (&o != this) o.v = -7; return *this; }
    ~Fragile() { Fuse::alive(-1); }
    bool operator==(const Fragile& o) const { return v == o.v; }
};
