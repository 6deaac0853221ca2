// knobs and counters of the stand-ins
#pragma once
#include <cstddef>
#include <cstdint>

namespace stubctl {

struct IndexCtl {
    std::size_t leaf_cap{4};
    uint64_t inserts{}, removes{}, splits{}, leaf_drops{}, creates{}, drops{}, iscans{};
};
extern IndexCtl index;

enum LogType : uint8_t { L_ADD = 1, L_REMOVE = 2, L_ADD_STORAGE = 3, L_REMOVE_STORAGE = 4 };

struct LogEnt {
    uint8_t type;
    uint8_t ended;     // the session it belongs to was ended (synced)
    uint8_t dead;      // discarded by a recovery
    uint8_t nblob;
    uint16_t incarnation;
    uint16_t channel;
    uint64_t epoch;    // epoch of the session
    uint64_t session;  // number of the session
    uint64_t st;
    uint32_t koff, klen, voff, vlen;
    uint64_t major, minor;
    uint64_t blob[4];
    uint64_t seq;      // simulator stamp of the add
};

// What is on the simulated disk. Lives in memory shared with the supervising process, so
// it outlives the simulated one.
struct Disk {
    static constexpr uint32_t MAX_ENT = 12000;
    static constexpr uint32_t MAX_DATA = 1U << 20;
    uint32_t n;
    uint32_t used;
    uint32_t overflow;
    uint64_t epoch_file;      // last durable epoch on disk
    uint64_t max_appeared;    // largest session epoch ever seen
    uint64_t next_session;
    uint64_t sessions_begun, sessions_ended, epoch_writes, callbacks;
    uint64_t lost_entries;    // entries a recovery discarded
    uint64_t torn_sessions;
    uint64_t boundary_major;
    LogEnt e[MAX_ENT];
    char data[MAX_DATA];
};

struct LogCtl {
    Disk* disk{nullptr};
    uint64_t seed{1};
    uint32_t slow_permille{0}; // slow log device: operations take slow_ns
    uint64_t slow_ns{0};
    uint64_t slow_count{0};
    uint16_t incarnation{0};
    // crash at the n-th passage (1-based) of a crash site, 0: never
    int crash_site{0};
    uint32_t crash_nth{0};
    uint32_t site_count[16]{};
    uint64_t informed{0}; // last epoch reported through the persistence callback
    bool up{false};       // between ready and shutdown
    bool faults{true};
};
extern LogCtl log;

enum CrashSite : int {
    CS_BEGIN = 1,     // after a log session was begun
    CS_ADD = 2,       // between entries of a session
    CS_BEFORE_SYNC = 3,
    CS_AFTER_SYNC = 4,  // session synced, epoch file not yet written
    CS_BEFORE_EPOCH = 5,
    CS_AFTER_EPOCH = 6, // epoch file written, callback not yet called
    CS_AFTER_CB = 7,
    CS_SWITCH = 8,
    CS_RECOVER = 9,     // while reading back the log
    CS_MAX = 10,
};

} // namespace stubctl
