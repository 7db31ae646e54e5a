// Archives inside archives with a model of what the archive facade must show.
#ifndef SIM_TREE_H
#define SIM_TREE_H
#include "listing.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace sim {
struct Node {
    std::string name;
    bool dir = false, file = false;
    std::string data;                // of a file
    int64_t size = 0, mtime = 0;
    bool looseAttrs = false;         // directory whose entry comes after its members
    bool implicit = false;
    std::map<std::string, std::unique_ptr<Node>> kids;
    bool archive() const { return file && dir; }
};
// an archive, possibly compressed and with archives inside; fills n
// only: the kind it has to be, or -1
void genArchive(Node& n, int depth, bool compressed, int only = -1);
Node* findNode(Node& root, const std::string& rel);
void allPaths(const Node& n, const std::string& at, std::vector<std::string>& out);
} // namespace sim
#endif
