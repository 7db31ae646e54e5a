// helpers for the demonstrations
#ifndef DEMO_H
#define DEMO_H
#include <strigi/streambase.h>
#include <strigi/stringstream.h>
#include <strigi/subinputstream.h>
#include <strigi/substreamprovider.h>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
using namespace Strigi;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
// an input that hands out its content in pieces and may fail at an offset
struct Src : InputStream {
    std::string data; int32_t chunk; int64_t failAt;
    Src(const std::string& d, int32_t c = 1 << 30, int64_t f = -1, bool sized = true) : data(d), chunk(c), failAt(f) { m_size = sized ? (int64_t)d.size() : -1; m_position = 0; m_status = Ok; }
    int32_t read(const char*& start, int32_t min, int32_t max) override {
        if (m_status == Error) return -2;
        if (m_status == Eof) return -1;
        int64_t left = (int64_t)data.size() - m_position, n = chunk;
        if (n < min) n = min;
        if (max > 0 && max >= min && n > max) n = max;
        if (n > left) n = left;
        if (failAt >= 0 && m_position + n > failAt) { m_status = Error; m_error = "simulated failure"; return -2; }
        start = data.data() + m_position;
        m_position += n;
        if (m_position == (int64_t)data.size()) { m_status = Eof; m_size = m_position; if (n == 0) return -1; }
        return (int32_t)n;
    }
    int64_t reset(int64_t p) override {
        if (m_status == Error) return -2;
        if (p > (int64_t)data.size()) p = data.size();
        m_position = p; m_status = p == (int64_t)data.size() ? Eof : Ok; return p;
    }
    int64_t skip(int64_t n) override { int64_t o = m_position; reset(o + n); return m_position - o; }
};
inline std::string noise(size_t n, uint32_t seed = 1) { std::string s; for (size_t i = 0; i < n; ++i) { seed = seed * 1664525u + 1013904223u; s += (char)(seed >> 24); } return s; }
inline std::string readAll(InputStream* s, int32_t min = 1, int32_t max = 0) {
    std::string r; const char* p; int32_t n;
    while ((n = s->read(p, min, max)) > 0) r.append(p, n);
    return r;
}
#endif
