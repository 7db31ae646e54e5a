// A client that drives one stream and checks every answer against the known content.
#ifndef SIM_CLIENT_H
#define SIM_CLIENT_H
#include "core.h"
#include <strigi/streambase.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

struct ClientOpts {
    uint32_t maxOps = 24;
    bool resets = true;          // arbitrary resets inside the stream
    bool beyond = false;         // resets beyond the end
    bool segChecks = true;       // rewinds into the last segment
    bool skips = true;
    bool checkErrorText = true;
    bool rewindMayFail = false;  // a rewind may hit a failing disk
    uint32_t segRate = 3;        // 1 in segRate reads is followed by rewinds into its segment
    int64_t maxSkip = 1ll << 60;
    bool bulk = false;           // ask for larger pieces after a while
    int bias = 0;                // 1: tiny reads, 2: limits focus
};

template <class T> struct Client {
    typedef std::basic_string<T> Str;
    Strigi::StreamBase<T>* s;
    const Str& truth;
    ClientOpts o;
    std::function<bool()> errorAllowed;
    std::function<bool()> mustFail;   // when it holds, a normal end is a violation
    bool failed = false, ended = false;
    int64_t pos;
    std::string what;
    // last segment
    const T* seg = 0; int64_t segPos = 0, segLen = 0;
    int64_t delivered = 0;       // furthest position verified

    Client(Strigi::StreamBase<T>* st, const Str& t, const ClientOpts& opt, std::function<bool()> ea, const std::string& name = "s")
        : s(st), truth(t), o(opt), errorAllowed(ea), pos(0), what(name) {}
    std::function<T(int64_t)> bigAt;  // content that is made when it is needed
    int64_t bigSize = -1;
    std::function<void(int64_t)> bigLazy;   // what comes before this position will not be looked at
    int64_t size() const { return bigSize >= 0 ? bigSize : (int64_t)truth.size(); }

    void gotError(const char* op) {
        if (s->status() != Strigi::Error)
            fail("error-without-status", op, "%s: %s reported a failure but the status is %d", what.c_str(), op, (int)s->status());
        if (o.checkErrorText && (!s->error() || !s->error()[0]))
            fail("error-without-message", op, "%s: %s failed at %lld but error() is empty", what.c_str(), op, (long long)pos);
        if (!errorAllowed())
            fail("unexpected-error", op, "%s: %s failed at %lld of %lld with no fault injected: %s", what.c_str(), op, (long long)pos, (long long)size(), s->error());
        failed = true; seg = 0;
        ev("%s: error at %lld", what.c_str(), (long long)pos);
        // failure is sticky
        uint32_t again = draw(3);
        for (uint32_t i = 0; i < again; ++i) {
            const T* p;
            int32_t n = lib([&]() { return s->read(p, 1, (int32_t)draw(3)); });
            if (n != -2 || s->status() != Strigi::Error)
                fail("error-not-sticky", op, "%s: after a failure read returned %d with status %d", what.c_str(), n, (int)s->status());
        }
    }
    void atEnd(const char* op) {
        if (pos != size())
            fail(errorAllowed() ? "failure-reported-as-end" : "early-end", op, "%s: %s signals the end at %lld, content has %lld", what.c_str(), op, (long long)pos, (long long)size());
        if (s->status() == Strigi::Error) return;
        if (s->status() != Strigi::Eof)
            fail("end-without-status", op, "%s: %s signalled the end but the status is %d", what.c_str(), op, (int)s->status());
        checkEof(op);
        ended = true;
    }
    void checkEof(const char* op) {
        if (s->status() != Strigi::Eof) return;
        if (mustFail && mustFail())
            fail("failure-reported-as-end", op, "%s: status is end-of-stream after %s at %lld although the input failed or is incomplete", what.c_str(), op, (long long)pos);
        if (pos != size())
            fail(errorAllowed() ? "failure-reported-as-end" : "early-end", op, "%s: status is end-of-stream after %s at %lld, content has %lld", what.c_str(), op, (long long)pos, (long long)size());
        if (s->size() != pos)
            fail("size-unknown-at-end", op, "%s: at the end (%lld) size() is %lld", what.c_str(), (long long)pos, (long long)s->size());
    }
    void checkPos(const char* op) {
        if (s->position() != pos)
            fail("wrong-position", op, "%s: after %s position() is %lld, should be %lld", what.c_str(), op, (long long)s->position(), (long long)pos);
        checkEof(op);
        if (s->status() == Strigi::Ok && s->size() != -1 && s->size() < pos)
            fail("size-below-position", op, "%s: size() %lld below position %lld", what.c_str(), (long long)s->size(), (long long)pos);
    }
    // returns bytes read, 0 at end, -2 failed
    int32_t read(int32_t min, int32_t max) {
        clientCall();
        const T* p = (const T*)8;
        int32_t n = lib([&]() { return s->read(p, min, max); });
        ev("%s: read(%d,%d)=%d st=%d", what.c_str(), min, max, n, (int)s->status());
        seg = 0;
        if (n < -1 || s->status() == Strigi::Error) {
            if (n >= 0) fail("data-with-error", "read", "%s: read(%d,%d) returned %d together with the error status", what.c_str(), min, max, n);
            // what a caller takes for the end of the data
            if (n < -2) fail("undocumented-answer", "read", "%s: read(%d,%d) returned %d", what.c_str(), min, max, n);
            if (n == -1) fail("failure-answered-as-end", "read", "%s: read(%d,%d) at %lld of %lld returned -1 together with the error status", what.c_str(), min, max, (long long)pos, (long long)size());
            gotError("read"); return -2;
        }
        if (n <= 0) { if (n == 0) fail("no-data", "read", "%s: read(%d,%d) returned 0 at %lld of %lld", what.c_str(), min, max, (long long)pos, (long long)size()); atEnd("read"); checkPos("read"); return 0; }
        if (max >= min && n > max) fail("more-than-max", "read", "%s: read(%d,%d) returned %d", what.c_str(), min, max, n);
        if (pos + n > size()) fail("beyond-end", "read", "%s: read(%d,%d) at %lld returned %d but content has %lld", what.c_str(), min, max, (long long)pos, n, (long long)size());
        verify(p, pos, n, "read");
        pos += n;
        if (n < min) {
            if (pos != size()) fail(errorAllowed() ? "failure-reported-as-end" : "less-than-min", "read", "%s: read(%d,%d) returned %d at %lld of %lld", what.c_str(), min, max, n, (long long)(pos - n), (long long)size());
            if (s->status() != Strigi::Eof) fail("end-without-status", "read", "%s: read(%d,%d)=%d reached the end, status %d", what.c_str(), min, max, n, (int)s->status());
        }
        checkPos("read");
        seg = p; segPos = pos - n; segLen = n;
        if (pos > delivered) delivered = pos;
        return n;
    }
    void verify(const T* p, int64_t at, int64_t n, const char* op) {
        if (bigAt) {
            for (int64_t i = 0; i < n; ++i)
                if (p[i] != bigAt(at + i))
                    fail("wrong-data", op, "%s: after %s item at %lld is %d, should be %d", what.c_str(), op, (long long)(at + i), (int)p[i], (int)bigAt(at + i));
            evbytes((const char*)p, (size_t)n * sizeof(T));
            return;
        }
        const T* t = truth.data() + at;
        for (int64_t i = 0; i < n; ++i)
            if (p[i] != t[i])
                fail("wrong-data", op, "%s: after %s item at %lld is %d, should be %d", what.c_str(), op, (long long)(at + i), (int)p[i], (int)t[i]);
        evbytes((const char*)p, (size_t)n * sizeof(T));
    }
    void rewindInSegment() {
        if (!seg || failed) return;
        const T* keep = seg; int64_t kp = segPos, kl = segLen;
        uint32_t times = 1 + draw(2);
        for (uint32_t i = 0; i < times; ++i) {
            int64_t q = kp + (int64_t)draw((uint32_t)(kl + 1));
            clientCall();
            int64_t r = lib([&]() { return s->reset(q); });
            ev("%s: reset-in-segment(%lld)=%lld", what.c_str(), (long long)q, (long long)r);
            count("probe.rewind_in_segment");
            if (o.rewindMayFail && errorAllowed() && s->status() == Strigi::Error) { gotError("reset"); return; }
            if (r != q) fail("rewind-refused", "reset", "%s: rewind to %lld inside the segment [%lld,%lld] just read gave %lld (%s)", what.c_str(), (long long)q, (long long)kp, (long long)(kp + kl), (long long)r, s->error());
            if (s->status() == Strigi::Error) fail("rewind-refused", "reset", "%s: rewind inside the last segment ends in error", what.c_str());
            pos = q; ended = false;
            checkPos("reset");
            verify(keep, kp, kl, "reset");
        }
        seg = keep; segPos = kp; segLen = kl;
    }
    void skip(int64_t n) {
        clientCall();
        int64_t r = lib([&]() { return s->skip(n); });
        ev("%s: skip(%lld)=%lld st=%d", what.c_str(), (long long)n, (long long)r, (int)s->status());
        seg = 0;
        if (s->status() == Strigi::Error) { gotError("skip"); return; }
        if (r < -1) fail("error-without-status", "skip", "%s: skip returned %lld, status %d", what.c_str(), (long long)r, (int)s->status());
        int64_t m = r < 0 ? 0 : r;
        if (m > n) fail("skip-too-far", "skip", "%s: skip(%lld) returned %lld", what.c_str(), (long long)n, (long long)m);
        if (pos + m > size()) fail("beyond-end", "skip", "%s: skip(%lld) at %lld returned %lld, content has %lld", what.c_str(), (long long)n, (long long)pos, (long long)m, (long long)size());
        pos += m;
        // input that ends early may be noticed by the next call only
        if (m < n && pos != size() && !(errorAllowed() && s->status() == Strigi::Ok)) fail(errorAllowed() ? "failure-reported-as-end" : "short-skip", "skip", "%s: skip(%lld) moved %lld to %lld of %lld", what.c_str(), (long long)n, (long long)m, (long long)pos, (long long)size());
        checkPos("skip");
    }
    void reset(int64_t q) {
        clientCall();
        int64_t old = pos;
        bool in = seg && q >= segPos && q <= segPos + segLen;
        int64_t r = lib([&]() { return s->reset(q); });
        ev("%s: reset(%lld)=%lld st=%d", what.c_str(), (long long)q, (long long)r, (int)s->status());
        if (s->status() == Strigi::Error || r < 0) {
            if (s->status() != Strigi::Error) fail("error-without-status", "reset", "%s: reset returned %lld, status %d", what.c_str(), (long long)r, (int)s->status());
            gotError("reset"); return;
        }
        int64_t want = q > size() ? size() : q;
        if (in && r != q) fail("rewind-refused", "reset", "%s: rewind to %lld inside the last segment gave %lld", what.c_str(), (long long)q, (long long)r);
        if (r > size()) fail("beyond-end", "reset", "%s: reset(%lld) moved to %lld, content has %lld", what.c_str(), (long long)q, (long long)r, (long long)size());
        if (r != want && r != old && !(errorAllowed() && r > old && r < want)) fail("reset-elsewhere", "reset", "%s: reset(%lld) from %lld moved to %lld", what.c_str(), (long long)q, (long long)old, (long long)r);
        if (!in) seg = 0;
        pos = r; ended = false;
        checkPos("reset");
    }
    void randomLimits(int32_t& min, int32_t& max) {
        int64_t left = size() - pos;
        uint32_t cap = (uint32_t)(left + 20);
        switch (o.bias == 1 ? 0 : draw(6)) {
        case 0: min = 1; break;
        case 1: min = 1 + (int32_t)draw(4); break;
        case 2: min = 1 + (int32_t)logsize(cap); break;
        case 3: min = (int32_t)(left > 0 ? left : 1); break;
        case 4: min = (int32_t)left + 1; break;
        default: min = 1 + (int32_t)draw(64); break;
        }
        if (min < 1) min = 1;
        switch (draw(5)) {
        case 0: max = min; break;
        case 1: max = 0; break;
        case 2: max = min - 1; break;
        case 3: max = min + (int32_t)logsize(cap); break;
        default: max = min + 1 + (int32_t)draw(8); break;
        }
    }
    // a position near one of the limits of the integer types, or anywhere
    int64_t bigPosition() {
        int64_t q;
        switch (draw(8)) {
        case 0: q = (1ll << 31) - 20 + (int64_t)draw(40); break;
        case 1: q = (1ll << 32) - 20 + (int64_t)draw(40); break;
        case 2: q = (1ll << 33) - 20 + (int64_t)draw(40); break;
        case 3: q = logsize(100000); break;
        case 4: q = pos + (int64_t)logsize(100000); break;
        case 5: q = (int64_t)(((uint64_t)draw32() << 32 | draw32()) % (uint64_t)(size() + 1)); break;
        default: q = size() - (int64_t)logsize(100000); break;
        }
        if (q > pos + o.maxSkip) q = pos + (int64_t)logsize((uint32_t)o.maxSkip);
        return q < 0 ? 0 : q > size() ? size() : q;
    }
    void bigSkip(int64_t n) {
        if (bigLazy) bigLazy((n > size() - pos ? size() : pos + n) - (8 << 20));
        skip(n);
        if (bigLazy) bigLazy(0);
    }
    void bigRun(bool finish) {
        uint32_t n = logsize(o.maxOps);
        for (uint32_t i = 0; i < n && !failed; ++i) {
            switch (draw(6)) {
            case 0: case 1: { int64_t q = bigPosition(); if (q > pos) bigSkip(q - pos); break; }
            case 2: reset(bigPosition()); break;
            case 3: if (size() - pos < o.maxSkip && chance(1, 4)) { bigSkip(size() - pos + 1 + (int64_t)draw(5)); break; }   // fall through
            default: {
                int32_t min = 1 + (int32_t)logsize(5000), max = draw(3) ? min + (int32_t)logsize(5000) : 0;
                int32_t r = read(min, max);
                if (r > 0 && chance(1, o.segRate)) rewindInSegment();
                break; }
            }
        }
        if (!finish || failed) return;
        if (size() - pos > 20000) bigSkip(size() - pos - (int64_t)logsize(10000));
        if (!failed) drain();
    }
    void step() {
        if (failed) return;
        uint32_t k = draw(10);
        if (k >= 6 && k < 8 && o.skips) {
            int64_t n;
            switch (draw(4)) {
            case 0: n = draw(3); break;
            case 1: n = logsize((uint32_t)(size() + 10)); break;
            case 2: n = size() - pos; break;
            default: n = size() - pos + 1 + draw(5); break;
            }
            skip(n < o.maxSkip ? n : o.maxSkip);
        } else if (k == 8 && o.resets) {
            int64_t q;
            switch (draw(4)) {
            case 0: q = 0; break;
            case 1: q = pos > 0 ? pos - (int64_t)draw((uint32_t)(pos > 64 ? 64 : pos) + 1) : 0; break;
            case 2: q = draw((uint32_t)size() + 1); break;
            default: q = size(); break;
            }
            if (o.beyond && chance(1, 4)) q = size() + 1 + draw(40);
            reset(q);
        } else if (k == 9 && ended) {
            read(1, 0);
        } else {
            int32_t min, max;
            randomLimits(min, max);
            int32_t n = read(min, max);
            if (n > 0 && o.segChecks && chance(1, o.segRate)) rewindInSegment();
        }
    }
    void drain() {
        uint32_t guard = 0;
        int style = (int)draw(bigAt ? 2 : 4);
        while (!failed) {
            int32_t min = 1, max = 0;
            if (style == 1) { max = 1 + (int32_t)draw(64); }
            else if (style == 2) randomLimits(min, max);
            else if (style == 3) { min = 1 + (int32_t)draw(300); max = min; }
            if (++guard > 400) { min = 1; max = 0; }
            if (style == 1 && guard > 100) max = 65536;
            if (o.bulk && !bigAt && guard > 60) { min = 1 + (int32_t)(size() / 40); max = 0; }
            int64_t before = pos;
            int32_t n = read(min, max);
            if (n <= 0) break;
            if (pos <= before) fail("no-progress", "read", "%s", what.c_str());
            if ((int64_t)guard > 400 + size()) fail("no-progress", "read", "%s: reading does not come to an end", what.c_str());
        }
        if (failed) return;
        // the end is final
        uint32_t again = 1 + draw(3);
        for (uint32_t i = 0; i < again && !failed; ++i) {
            const T* p;
            int32_t n = lib([&]() { return s->read(p, 1, (int32_t)draw(3)); });
            if (n != -1) fail("end-not-final", "read", "%s: read after the end returned %d (status %d)", what.c_str(), n, (int)s->status());
            checkPos("read-after-end");
        }
        if (s->status() != Strigi::Eof) fail("end-without-status", "drain", "%s: status %d after the end", what.c_str(), (int)s->status());
    }
    void run() {
        uint32_t n = logsize(o.maxOps);
        for (uint32_t i = 0; i < n && !failed; ++i) step();
        if (!failed) drain();
    }
};

// A client that does not know the content: it learns it and demands consistency.
struct LooseClient {
    Strigi::InputStream* s;
    std::string what;
    std::vector<int16_t> got;    // -1: passed over, not seen
    int64_t pos = 0;
    bool failed = false, ended = false;
    int64_t limit;               // stop looking after this many bytes
    std::function<bool()> errorAllowed;
    LooseClient(Strigi::InputStream* st, const std::string& n, int64_t lim = 3000000) : s(st), what(n), limit(lim) {}
    void err(const char* op) {
        if (s->status() != Strigi::Error) fail("error-without-status", op, "%s: %s reported a failure but the status is %d", what.c_str(), op, (int)s->status());
        if (errorAllowed && !errorAllowed()) fail("unexpected-error", op, "%s: %s failed at %lld: %s", what.c_str(), op, (long long)pos, s->error());
        if (!s->error()[0]) fail("error-without-message", op, "%s: %s failed at %lld but error() is empty", what.c_str(), op, (long long)pos);
        failed = true;
        ev("%s: error at %lld", what.c_str(), (long long)pos);
        if (flip()) {
            const char* p;
            int32_t n = lib([&]() { return s->read(p, 1, 0); });
            if (n != -2 || s->status() != Strigi::Error) fail("error-not-sticky", op, "%s: after a failure read returned %d with status %d", what.c_str(), n, (int)s->status());
        }
    }
    void end(const char* op) {
        if (s->status() != Strigi::Eof) fail("end-without-status", op, "%s: %s signalled the end, the status is %d", what.c_str(), op, (int)s->status());
        ended = true;
        if ((int64_t)got.size() > pos) fail("early-end", op, "%s: the end is at %lld but %zu bytes were there before", what.c_str(), (long long)pos, got.size());
    }
    void check(const char* op) {
        if (s->position() != pos) fail("wrong-position", op, "%s: after %s position() is %lld, should be %lld", what.c_str(), op, (long long)s->position(), (long long)pos);
        if (s->status() == Strigi::Eof) {
            if (s->size() != pos) fail("size-unknown-at-end", op, "%s: at the end (%lld) size() is %lld", what.c_str(), (long long)pos, (long long)s->size());
            end(op);
        }
    }
    int32_t read(int32_t min, int32_t max) {
        clientCall();
        const char* p = (const char*)8;
        int32_t n = lib([&]() { return s->read(p, min, max); });
        ev("%s: read(%d,%d)=%d st=%d", what.c_str(), min, max, n, (int)s->status());
        if (n == -1 && s->status() == Strigi::Error) fail("failure-answered-as-end", "read", "%s: read(%d,%d) returned -1 together with the error status", what.c_str(), min, max);
        if (n < -1 || s->status() == Strigi::Error) { err("read"); return -2; }
        if (n <= 0) { if (n == 0) fail("no-data", "read", "%s: read(%d,%d) returned 0", what.c_str(), min, max); end("read"); check("read"); return 0; }
        if (max >= min && n > max) fail("more-than-max", "read", "%s: read(%d,%d) returned %d", what.c_str(), min, max, n);
        for (int32_t i = 0; i < n; ++i) {
            size_t at = (size_t)(pos + i);
            if (at >= got.size()) got.resize(at + 1, -1);
            unsigned char c = (unsigned char)p[i];
            if (got[at] >= 0 && got[at] != c) fail("inconsistent-data", "read", "%s: byte at %zu was %d and is now %d", what.c_str(), at, got[at], c);
            got[at] = c;
        }
        pos += n;
        if (n < min && s->status() != Strigi::Eof) fail("end-without-status", "read", "%s: read(%d,%d)=%d, status %d", what.c_str(), min, max, n, (int)s->status());
        check("read");
        return n;
    }
    void skip(int64_t n) {
        clientCall();
        int64_t r = lib([&]() { return s->skip(n); });
        ev("%s: skip(%lld)=%lld st=%d", what.c_str(), (long long)n, (long long)r, (int)s->status());
        if (s->status() == Strigi::Error) { err("skip"); return; }
        if (r < -1) fail("error-without-status", "skip", "%s: skip returned %lld, status %d", what.c_str(), (long long)r, (int)s->status());
        if (r > n) fail("skip-too-far", "skip", "%s: skip(%lld)=%lld", what.c_str(), (long long)n, (long long)r);
        if (r > 0) pos += r;
        if ((int64_t)got.size() < pos) got.resize((size_t)pos, -1);
        check("skip");
    }
    void reset(int64_t q) {
        clientCall();
        int64_t r = lib([&]() { return s->reset(q); });
        ev("%s: reset(%lld)=%lld st=%d", what.c_str(), (long long)q, (long long)r, (int)s->status());
        if (s->status() == Strigi::Error || r < 0) { err("reset"); return; }
        if (r > (int64_t)got.size()) { if (r > q) fail("reset-elsewhere", "reset", "%s: reset(%lld)=%lld", what.c_str(), (long long)q, (long long)r); got.resize((size_t)r, -1); }
        pos = r; ended = false;
        check("reset");
    }
    void run(uint32_t maxOps) {
        uint32_t n = logsize(maxOps);
        for (uint32_t i = 0; i < n && !failed; ++i) {
            switch (draw(6)) {
            case 0: skip(draw(3) ? (int64_t)logsize(3000) : s->size() > 0 && s->size() < limit ? s->size() : 1000); break;
            case 1: reset(pos > 0 ? (int64_t)draw((uint32_t)(pos > 0x7fffffff ? 0x7fffffff : pos) + 1) : 0); break;
            default: { int32_t min = 1 + (int32_t)logsize(600); int32_t max = draw(3) == 0 ? 0 : min + (int32_t)logsize(500); read(min, max); }
            }
            if ((int64_t)got.size() > limit) return;
        }
        int style = (int)draw(3);
        while (!failed && (int64_t)got.size() <= limit) {
            int32_t min = 1, max = 0;
            if (style == 1) { min = 1 + (int32_t)draw(900); max = min; }
            if (style == 2) max = 1 + (int32_t)draw(4000);
            if (read(min, max) <= 0) break;
        }
        if (!failed && ended) {
            const char* p;
            int32_t k = lib([&]() { return s->read(p, 1, 0); });
            if (k != -1) fail("end-not-final", "read", "%s: read after the end returned %d (status %d)", what.c_str(), k, (int)s->status());
        }
    }
};

} // namespace sim
#endif
