// Listing an archive whose members are known.
#ifndef SIM_LISTING_H
#define SIM_LISTING_H
#include "archives.h"
#include <strigi/substreamprovider.h>
#include <functional>
namespace sim {
enum Kind { KTar = 0, KZip, KCpio, KAr, KRpm, KMail, KSdf, KOle, KindCount };
extern const char* kindNames[KindCount];
Strigi::SubStreamProvider* newProvider(int kind, Strigi::InputStream* in);
std::string makeArchive(int kind, std::vector<Member>& ms, bool* unused);
struct ListOpts {
    int64_t cutAt = -1;
    int stopAfter = -1;
    std::function<bool()> inputFailed;
};
struct ListResult {
    uint32_t entries = 0;
    bool entryFailed = false, stopped = false;
    Strigi::StreamStatus status = Strigi::Ok;
};
ListResult listArchive(Strigi::SubStreamProvider* p, int kind, const std::vector<Member>& ms, const ListOpts& lo);
void checkMemberInfo(const Strigi::EntryInfo& info, const Member& m, int kind, uint32_t i);
} // namespace sim
#endif
