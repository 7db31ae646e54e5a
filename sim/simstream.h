// Adversarial but contract-honouring upstream stream. Everything it may legally vary is a choice.
#ifndef SIM_SIMSTREAM_H
#define SIM_SIMSTREAM_H
#include "core.h"
#include "big.h"
#include <memory>
#include <strigi/streambase.h>
#include <cstring>
#include <cstdlib>
#include <string>

namespace sim {

struct SimConfig {
    bool eagerEof = false;      // status becomes Eof together with the last bytes
    bool knownSize = false;
    bool seekable = true;       // otherwise only the last read segment can be revisited
    bool skipMinusOne = false;  // skip at the end answers -1 instead of 0
    bool resetEofAtEnd = false; // reset(size) gives Eof at once
    uint8_t chunkStyle = 0;     // 0 everything, 1 minimum, 2 random, 3 small fixed, 4 medium fixed
    uint32_t chunkFixed = 1;
    int64_t errorAt = -1;       // reads that need bytes at or beyond this offset fail
    int64_t errorOp = -1;       // the first call that touches data after that many calls fails, wherever it is
    bool errorSkipPartial = false;
    int64_t announce = -1;      // size() announced instead of the real one (a file that changed)
    bool windowExtra = false;   // unseekable streams: skip keeps no window (true) or keeps last bytes
    static SimConfig random(bool allowUnseekable = true);
};

// what happened, readable by the oracle after the stream is gone
struct SimReport {
    bool errorFired = false;
    bool eofSeen = false;
    int64_t maxPos = 0;
    int64_t reads = 0;
    bool destroyed = false;
    int64_t lastPos = 0;
};

class SimStream : public Strigi::InputStream {
    std::string data;
    std::shared_ptr<BigContent> big;
    int64_t bigSize = 0;
    int64_t total() const { return big ? bigSize : (int64_t)data.size(); }
    SimConfig c;
    char* seg;             // current segment, an exact-size allocation
    int64_t segStart, segLen;
    SimReport* rep;
    int64_t nreads = 0, nops = 0;
    void drop() { free(seg); seg = 0; segLen = 0; }
    bool opFails() {
        if (c.errorOp < 0 || nops++ < c.errorOp) return false;
        count("fault.upstream_call_error");
        fired();
        drop();
        return true;
    }
    void fired() {
        m_status = Strigi::Error;
        m_error = "simulated I/O error";
        if (rep && !rep->errorFired) { rep->errorFired = true; count("fault.upstream_read_error"); ev("up: I/O error @%lld", (long long)m_position); }
    }
public:
    SimStream(const std::string& d, const SimConfig& cfg, SimReport* r)
        : data(d), c(cfg), seg(0), segStart(0), segLen(0), rep(r) {
        if (c.knownSize) m_size = (int64_t)data.size();
        if (c.announce >= 0) m_size = c.announce;
    }
    SimStream(std::shared_ptr<BigContent> b, int64_t cut, const SimConfig& cfg, SimReport* r)
        : big(b), bigSize(cut), c(cfg), seg(0), segStart(0), segLen(0), rep(r) {
        if (c.knownSize) m_size = bigSize;
    }
    ~SimStream() { free(seg); if (rep) { rep->destroyed = true; rep->lastPos = m_position; } }
    int32_t read(const char*& start, int32_t min, int32_t max) {
        Unarmed unarmed;
        if (rep) rep->reads++;
        if (m_status == Strigi::Error) return -2;
        if (m_status != Strigi::Eof && opFails()) return -2;
        if (min < 1) { min = 1; count("probe.min_below_1"); if (max == 0) max = 0; }
        const int64_t size = total();
        int64_t left = size - m_position;
        if (m_status == Strigi::Eof || left <= 0) {
            if (c.errorAt >= 0 && m_position >= c.errorAt && m_status != Strigi::Eof) { fired(); drop(); return -2; }
            m_status = Strigi::Eof; m_size = size;
            if (rep) rep->eofSeen = true;
            drop();
            return -1;
        }
        int64_t avail = left;
        if (c.errorAt >= 0 && m_position + avail > c.errorAt) avail = c.errorAt - m_position;
        // the minimum cannot be satisfied before the failure
        if (c.errorAt >= 0 && avail < min) { fired(); drop(); return -2; }
        int64_t lo = min < avail ? min : avail;
        int64_t hi = avail;
        if (max >= min && hi > max) hi = max;
        int64_t n;
        switch (c.chunkStyle) {
        case 0: n = hi; if (big && n > 65536) n = lo > 65536 ? lo : 65536; break;
        case 1: n = lo; break;
        case 2: n = lo + (int64_t)logsize((uint32_t)(hi - lo > (big ? 0xffff : 0x3fffffff) ? (big ? 0xffff : 0x3fffffff) : hi - lo)); break;
        default: n = (int64_t)c.chunkFixed; if (n < lo) n = lo; if (n > hi) n = hi; break;
        }
        if (!big && ++nreads > 2000) { int64_t big = lo + size / 200 + 1; if (n < big) n = big > hi ? hi : big; }
        if (n < hi) count("sched.short_upstream_chunk");
        char* fresh = (char*)malloc((size_t)n);
        if (big) big->copy(m_position, n, fresh);
        else memcpy(fresh, data.data() + m_position, (size_t)n);
        drop();
        seg = fresh; segStart = m_position; segLen = n;
        start = seg;
        m_position += n;
        if (rep && m_position > rep->maxPos) rep->maxPos = m_position;
        if (m_position == size && (c.errorAt < 0) && (c.eagerEof || n < min)) {
            m_status = Strigi::Eof; m_size = size;
            if (rep) rep->eofSeen = true;
        }
        ev("up: read(%d,%d)=%lld @%lld", min, max, (long long)n, (long long)m_position);
        return (int32_t)n;
    }
    int64_t skip(int64_t n) {
        Unarmed unarmed;
        if (m_status == Strigi::Error) return -2;
        if (n <= 0) return 0;
        if (m_status != Strigi::Eof && opFails()) return -2;
        const int64_t size = total();
        int64_t left = size - m_position;
        if (m_status == Strigi::Eof || left <= 0) {
            if (c.errorAt >= 0 && m_position >= c.errorAt && m_status != Strigi::Eof) { fired(); drop(); return -2; }
            m_status = Strigi::Eof; m_size = size; drop();
            return c.skipMinusOne ? -1 : 0;
        }
        int64_t avail = left;
        if (c.errorAt >= 0 && m_position + avail > c.errorAt) avail = c.errorAt - m_position;
        drop();
        if (c.errorAt >= 0 && avail < n) {
            m_position += avail;
            fired();
            return c.errorSkipPartial ? avail : -2;
        }
        if (n > avail) n = avail;
        m_position += n;
        if (rep && m_position > rep->maxPos) rep->maxPos = m_position;
        if (m_position == size && c.errorAt < 0 && c.eagerEof) { m_status = Strigi::Eof; m_size = size; }
        ev("up: skip=%lld @%lld", (long long)n, (long long)m_position);
        return n;
    }
    int64_t reset(int64_t pos) {
        Unarmed unarmed;
        if (m_status == Strigi::Error) return -2;
        const int64_t size = total();
        if (pos < 0) pos = 0;
        bool inSeg = seg && pos >= segStart && pos <= segStart + segLen;
        if (!inSeg && pos != m_position) {
            if (opFails()) return -2;
            if (!c.seekable) {
                count("fault.rewind_refused");
                ev("up: reset(%lld) refused @%lld", (long long)pos, (long long)m_position);
                return m_position;
            }
            drop();
            if (pos > size) pos = size;
            if (c.errorAt >= 0 && pos > c.errorAt) { fired(); return -2; }
        }
        m_position = pos;
        if (pos == size && c.errorAt < 0 && c.resetEofAtEnd) { m_status = Strigi::Eof; m_size = size; }
        else m_status = Strigi::Ok;
        ev("up: reset %lld", (long long)pos);
        return m_position;
    }
};

inline SimConfig SimConfig::random(bool allowUnseekable) {
    SimConfig c;
    c.eagerEof = flip();
    c.knownSize = flip();
    c.seekable = allowUnseekable ? !flip() : true;
    c.skipMinusOne = flip();
    c.resetEofAtEnd = flip();
    c.chunkStyle = (uint8_t)draw(5);
    if (c.chunkStyle == 3) c.chunkFixed = 1 + draw(16);
    if (c.chunkStyle == 4) c.chunkFixed = 17 + draw(5000);
    c.errorSkipPartial = flip();
    return c;
}

} // namespace sim
#endif
