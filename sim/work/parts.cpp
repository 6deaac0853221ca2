#include <cstdarg>
#include <cstdio>
#include <map>
#include <thread>
#include <vector>

#include "exec.h"
#include "sim/part/part.h"

namespace part {

static std::map<std::string, Fn>& all() {
    static std::map<std::string, Fn> m;
    return m;
}

Reg::Reg(const char* name, Fn f) { all()[name] = f; }

Fn find(const std::string& name) {
    auto it = all().find(name);
    return it == all().end() ? nullptr : it->second;
}

void Ctx::threads(const std::function<void(int)>& f) const {
    std::vector<std::thread> th;
    for (int c = 0; c < clients(); ++c) th.emplace_back([&f, c] { f(c); });
    for (auto&& t : th) t.join();
}

void fail(const char* props, const char* fmt, ...) {
    char b[480];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    work::inline_bad(props, b);
}

void progress() { work::inline_progress(); }

std::string key_of(uint64_t x) {
    static const char* ks[] = {"", "a", "b", "ab", "b\x01", "c", "\xff"};
    if (x % 8 == 7) return std::string(static_cast<std::size_t>(x / 8 % 40), 'a');
    if (x % 8 == 6) return std::string("a\0b", 3);
    return ks[x % 7];
}

} // namespace part
