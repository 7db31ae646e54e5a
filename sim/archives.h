// Archive generators: the listing is known by construction.
#ifndef SIM_ARCHIVES_H
#define SIM_ARCHIVES_H
#include "core.h"
#include <string>
#include <vector>
namespace sim {

struct Member {
    std::string name;
    std::string data;
    bool dir = false;
    int64_t mtime = 0;
    bool forceBase64 = false;   // mail
    bool link = false;          // tar: a symbolic link, has no data
    // offsets in the archive, filled by the generators
    int64_t headerAt = 0, dataAt = 0, dataEnd = 0;
};
struct TarOpts { bool gnuLong = false; bool twoZeroBlocks = true; int extraBlocks = 0; bool ustar = true; bool noEnd = false; bool prefix = false; bool dotSlash = false; int numbers = 0; bool oldDirs = false; };
TarOpts drawTarOpts();
void tarHeader(std::string& out, const std::string& name, int64_t size, int64_t mtime, char type, bool ustar, uint32_t mode, const std::string& prefix = "", const std::string& target = "", int numbers = 0);
struct ArOpts { uint32_t symtab = 0; bool noSlash = false; };
ArOpts drawArOpts();
struct ZipOpts { bool deflate = false; bool descriptor = false; bool descriptorSig = true; bool extra = false; bool centralDir = true; int level = 6; bool mix = false; };

std::string makeTar(std::vector<Member>& ms, const TarOpts& o);
std::string makeAr(std::vector<Member>& ms, const ArOpts& o);
std::string makeCpio(std::vector<Member>& ms);
std::string makeZip(std::vector<Member>& ms, const ZipOpts& o);
std::string makeRpm(std::vector<Member>& ms, int comp /*0 gzip,1 bzip2,2 lzma*/);
struct MailOpts { bool lf = false; };
// mail: the members are parts of a (nested) multipart, or the single body
std::string makeMail(std::vector<Member>& ms, bool multipart);
std::string makeSdf(std::vector<Member>& ms);
std::string makeOle(std::vector<Member>& ms);
uint32_t dosTime(int y, int mo, int d, int h, int mi, int s);

} // namespace sim
#endif
