#ifndef FAKEH5_HPP
#define FAKEH5_HPP
#include <map>
#include <string>
#include <vector>
namespace fakeh5 {
struct Attr { int type; std::vector<unsigned long long> dims; std::vector<double> data; };
struct DSet { int type; std::vector<unsigned long long> dims; std::vector<double> data; std::vector<int> writes; std::map<std::string, Attr> attrs; };
struct File { std::map<std::string, DSet> sets; int open = 0; };          // open: number of open file handles
extern std::map<std::string, File> disk;
void reset();                                                            // empty disk, no handles
std::string leaks();                                                     // files, datasets and communicators still held
}
#endif
