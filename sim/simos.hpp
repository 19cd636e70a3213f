// Simulated operating system: an in-memory disk behind the C library's file functions.
// All file functions the library (and libstdc++ on its behalf) calls are defined in this executable and
// therefore replace the C library's; while `os.active`, every path lives on the simulated disk.
#pragma once
#include "core.hpp"
#include <string>
#include <vector>

namespace sim
{
struct Inode {
    std::string data;
    int id = 0;
    struct Map { uint8_t* addr; size_t len, reserve; bool writable; };
    std::vector<Map> maps;
    bool unreadable = false, unwritable = false;   // permissions
};
using Image = std::map<std::string, std::string>;

struct SimOS {
    bool active = false;     // paths are simulated
    bool inject = false;     // faults may fire, calls are counted
    std::map<std::string, std::shared_ptr<Inode>> files;
    std::set<std::string> dirs;
    // plan
    std::vector<Fault> faults;
    unsigned short_rate = 0;  // of 1000: legal short transfer
    unsigned eintr_rate = 0;  // of 1000: legal interrupted read/write
    int64_t capacity = -1;    // bytes on disk before ENOSPC, -1 = unlimited
    Rng noise{1};
    // account
    std::string trace;        // one letter per counted call
    int64_t seq = 0;
    int64_t max_calls = 4000000;
    int64_t total_calls = 0;
    uint64_t clock_ns = 0;
    std::vector<std::pair<int64_t, Image>> images;   // crash images
    int errors_fired = 0;     // hard errors delivered so far (not legal noise)
    int last_errno = 0;
    std::string last_fault;
    bool sticky_write = false, sticky_read = false;
    bool bad_unmap = false;

    void reset(const Plan& p);         // start of a run: empty disk, plan's faults and noise
    void shutdown();
    Image image();                     // content of the disk as a crashed process would leave it
    void restore(const Image& im);
    bool exists(const std::string& path);
    std::string* content(const std::string& path);   // syncs mappings
    void put(const std::string& path, const std::string& data);
    int open_fds();
    int open_maps();
    int path_id(const std::string& p);
};
extern SimOS os;
struct Inject {                        // scope in which faults may fire
    bool save;
    Inject() : save(os.inject) { os.inject = true; }
    ~Inject() { os.inject = save; }
};
std::string norm_path(const char* p);
}
