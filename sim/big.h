// Content of many gigabytes that is made when it is read.
#ifndef SIM_BIG_H
#define SIM_BIG_H
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace sim {
struct BigContent {
    struct Part { int64_t at, len; std::string text; };   // text again and again
    std::vector<Part> parts;
    int64_t size = 0;
    void text(const std::string& s) { if (s.empty()) return; Part p = {size, (int64_t)s.size(), s}; parts.push_back(p); size += p.len; }
    void repeat(const std::string& s, int64_t times) { Part p = {size, (int64_t)s.size() * times, s}; if (p.len) { parts.push_back(p); size += p.len; } }
    void pad(int64_t to, char c) { if (size % to) text(std::string((size_t)(to - size % to), c)); }
    // bytes below this are not made: a client moves over them
    mutable int64_t lazyUntil = 0;
    void bulk(int64_t n, uint32_t key) {
        if (n <= 0) return;
        std::string t(n < 65521 ? (size_t)n : 65521, 0);
        for (size_t i = 0; i < t.size(); ++i) { uint64_t x = (uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull + key; t[i] = (char)(x >> 56 ^ x >> 29); }
        Part p = {size, n, t}; parts.push_back(p); size += n;
    }
    void copy(int64_t at, int64_t n, char* out) const {
        if (at + n <= lazyUntil) return;
        for (auto& p : parts) {
            if (at + n <= p.at || at >= p.at + p.len) continue;
            int64_t from = at > p.at ? at : p.at, to = at + n < p.at + p.len ? at + n : p.at + p.len, len = (int64_t)p.text.size();
            while (from < to) {
                int64_t o = (from - p.at) % len, k = len - o < to - from ? len - o : to - from;
                memcpy(out + (from - at), p.text.data() + o, (size_t)k);
                from += k;
            }
        }
    }
};
} // namespace sim
#endif
