// String assignments of the engine, step by step: those of the C++ library are compiled code without
// preemption points, so a value read while it is being replaced would never be seen half replaced.
// The build redirects the engine's calls (and no others) to these.
#include "sim/core/sim.h"
#include <cstring>
#include <string>

extern "C" {
void __tsan_read_range(void* p, size_t n);
void __tsan_write_range(void* p, size_t n);

static void put(std::string* s, const char* d, size_t n) {
    __tsan_write_range(s, 16);
    if (n > s->capacity()) {
        std::string t;
        t.reserve(n);
        memcpy(t.data(), d, n);
        s->swap(t); // the old text is released before the new length is set
        reinterpret_cast<size_t*>(s)[1] = t.size() < n ? t.size() : n;
        __tsan_write_range(s->data(), n);
    } else if (n != 0) {
        __tsan_write_range(s->data(), n);
        memcpy(s->data(), d, n / 2);
        sim::point(1);
        memcpy(s->data() + n / 2, d + n / 2, n - n / 2);
    }
    __tsan_write_range(s, 16);
    reinterpret_cast<size_t*>(s)[1] = n;
    s->data()[n] = 0;
}

std::string* sim_string_assign(std::string* s, const std::string& o) {
    if (s == &o) return s;
    __tsan_read_range(const_cast<std::string*>(&o), 16);
    const char* d = o.data();
    size_t n = o.size();
    if (n != 0) __tsan_read_range(const_cast<char*>(d), n);
    put(s, d, n);
    return s;
}

void sim_string_assign_to(std::string* s, const std::string& o) { sim_string_assign(s, o); }

std::string* sim_string_replace(std::string* s, size_t pos, size_t n1, const char* d, size_t n) {
    if (pos != 0 || n1 != s->size() || (d + n >= s->data() && d <= s->data() + s->size())) {
        s->replace(pos, n1, d, n);
        return s;
    }
    if (n != 0) __tsan_read_range(const_cast<char*>(d), n);
    put(s, d, n);
    return s;
}
}
