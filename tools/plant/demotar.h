#include <utime.h>
inline std::string tar(const std::string& name, const std::string& c, char type = '0') {
    std::string h(512, 0); memcpy(&h[0], name.data(), name.size());
    snprintf(&h[100], 8, "%07o", 0644); snprintf(&h[108], 8, "%07o", 0); snprintf(&h[116], 8, "%07o", 0);
    snprintf(&h[124], 12, "%011o", (int)c.size()); snprintf(&h[136], 12, "%011o", 0); h[156] = type; memcpy(&h[257], "ustar", 6);
    memset(&h[148], ' ', 8); unsigned k = 0; for (unsigned char x : h) k += x; snprintf(&h[148], 7, "%06o", k); h[154] = 0; h[155] = ' ';
    std::string b = c; b.resize((c.size() + 511) / 512 * 512);
    return h + b;
}
inline std::string tarEnd() { return std::string(1024, 0); }
inline void put(const std::string& f, const std::string& d, time_t t) {
    FILE* o = fopen(f.c_str(), "wb"); fwrite(d.data(), 1, d.size(), o); fclose(o); utimbuf u = {t, t}; utime(f.c_str(), &u);
}
template <class R> std::string list(R& r, const std::string& f) {
    std::string s; Strigi::EntryInfo e; auto l = r.dirEntries(f);
    while (l.nextEntry(e)) s += e.filename + ";";
    return s;
}
