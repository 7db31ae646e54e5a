// Random stacks of library streams over a simulated base, with known content.
#ifndef SIM_STACKS_H
#define SIM_STACKS_H
#include "core.h"
#include "simstream.h"
#include "simdisk.h"
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- content
std::string randomBytes(uint32_t len);             // len bytes, style and seed drawn
std::string randomText(uint32_t len);              // printable with newlines
uint32_t contentSize();                            // swarm-distributed size
// ---- codecs (reference encoders)
enum { FmtGzip = 0, FmtZlib = 1, FmtRaw = 2 };
std::string zcompress(const std::string& s, int fmt, int level);
std::string bzcompress(const std::string& s, int level);
std::string lzmaCompress(const std::string& s, bool knownSize);
std::string base64Encode(const std::string& s, int style);
std::string zdecompressAll(const std::string& s, int fmt, bool* ok);

enum Layer { LSub = 0, LSubOpen, LTerm, LEvent, LGzip, LZlib, LDeflate, LBz2, LLzma, LBase64, LEncode, LRoundtrip, LCustom, LTar, LAr, LCpio, LZipStore, LLayerCount };
enum Base { BSim = 0, BString, BFileBuf, BFileSkip, BFileMmap, BBaseCount };

struct BuildOpts {
    int maxDepth = 3;
    uint32_t layers = 0xffffffffu;                 // mask of Layer
    uint32_t bases = 0xffffffffu;                  // mask of Base
    bool errors = false;                           // inject an upstream error (BSim)
    bool truncate = false;                         // cut the base data
    bool corrupt = false;                          // damage the base data
    bool forceUnseekable = false;
    bool fileFaults = false;                       // short reads on files
};

struct Stack {
    std::vector<std::function<void()>> cleanup;
    std::vector<Strigi::InputStream*> levels;      // base first
    Strigi::InputStream* top = 0;
    std::string content;                           // what top must deliver
    std::string desc;
    SimReport rep;
    bool hasBase = false;                          // base is a SimStream
    bool errorInjected = false, damaged = false;
    bool buildFailed = false;
    bool passthrough = true;                       // nothing in the stack bounds the base
    bool textOnly = false;
    int64_t baseSize = 0;
    std::string openTerm;                          // terminator that never occurs, when LTerm runs to the end
    ~Stack() { destroy(); }
    static bool bottomFirst;                       // the inputs go before what reads them
    void destroy() {
        if (bottomFirst) { std::vector<std::function<void()>> c; c.swap(cleanup); for (auto& f : c) f(); }
        while (!cleanup.empty()) { cleanup.back()(); cleanup.pop_back(); }
        levels.clear(); top = 0;
    }
};
void buildStack(Stack& st, const std::string& content, const BuildOpts& o);
Strigi::InputStream* buildBase(Stack& st, const std::string& content, const BuildOpts& o);

std::string damage(const std::string& s, std::string* what);   // flip/torn/dup/swap/zero/cut
// Buffered stream written by a "third party" on the public base class
Strigi::InputStream* newCustomStream(const std::string& data);

} // namespace sim
#endif
