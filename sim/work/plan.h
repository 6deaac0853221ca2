// What one simulated run does: everything is derived from (profile, seed) up front, so the
// workload is independent of the schedule and can be reduced item by item.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

#include "sim/core/sim.h"

namespace work {

enum OpKind : uint8_t {
    O_SEARCH, O_EXIST, O_INSERT, O_UPDATE, O_UPSERT, O_DELETE, O_SCAN, O_SLEEP,
    O_SEQ_UPDATE, O_SEQ_READ, O_SEQ_CREATE, O_SEQ_DELETE,
    O_ST_CREATE, O_ST_DELETE, O_ST_GET, O_ST_LIST, O_ST_SETOPT, O_ST_GETOPT,
    O_BEGIN_AGAIN, O_HIPRI, O_TXID, O_BADHANDLE, O_STATE, O_SCAN_OPEN_LEAK, O_UNKNOWN_ST, O_BADKEY, O_PAD,
    O_NKIND
};
const char* op_name(int k);

enum Mode : uint8_t { M_STX, M_LTX, M_RTX, M_DDL };
enum End : uint8_t { E_COMMIT, E_ABORT, E_LEAVE, E_COMMIT_SYNC, E_COMMIT_LEAVE };

struct Op {
    uint8_t kind{0};
    uint8_t st{0};
    uint8_t key{0};
    uint8_t key2{0};
    uint8_t lend{0}, rend{0}; // 0 exclusive, 1 inclusive, 2 infinite
    uint8_t limit{0};         // max_size of a scan (0: none)
    uint8_t stop{0};          // stop reading after this many rows (0: read all)
    bool reverse{false};
    uint8_t rmode{0};         // what to read from a scan: 0 key+value, 1 value first, 2 key only
    uint8_t nblob{0};
    uint16_t vlen{0};
    uint32_t arg{0};
    uint8_t nest{0};          // scan: this many following operations run after its first row
    bool strand{false};       // executed by a second thread of the same transaction
    bool drop{false};         // removed by minimisation
};

struct Tx {
    uint8_t mode{M_STX};
    uint8_t wp{0};            // reserved tables (bit mask)
    uint8_t ra_pos{0}, ra_neg{0};
    bool use_ra{false};
    uint8_t end{E_COMMIT};
    bool new_session{false};
    bool state_handle{false};
    uint16_t think{0};        // pause before the begin, in 1/8 epochs
    uint16_t pace{0};         // pause between operations, in 1/8 epochs
    bool drop{false};
    std::vector<Op> ops;
};

struct Client {
    std::vector<Tx> tx;
    bool monitor{false};      // polls transaction states instead of running transactions
};

enum IncEnd : uint8_t { IE_FIN_FLUSH, IE_FIN_FORCE, IE_CRASH };

struct Inc {
    std::vector<Client> cl;
    uint8_t end{IE_FIN_FLUSH};
    // crash: at an event count or at the n-th passage of a log protocol step
    uint64_t crash_event{0};
    int crash_site{0};
    uint32_t crash_nth{0};
    bool crash_late{false};   // crash after the workload and the audit
    // engine configuration of this incarnation
    bool restore_mode{false}; // RESTORE instead of CREATE_OR_RESTORE
    int restore_threads{0};
    int resolver_threads{2};
    bool iscan{false};
    uint64_t epoch_us{400};
    uint32_t slow_permille{0};
    uint64_t slow_ns{0};
    uint32_t settle_epochs{0}; // idle epochs before the final audit
    sim::Config sched;
    // environment variables (as flags)
    bool env_reduce_gc{true}, env_bypass{false}, env_bypass_root{false}, env_logbuf{false};
    bool env_rtx_mutex{false}, env_fast_shutdown{false};
    bool mid_fin{false};       // shut down while clients still have open sessions
};

struct Plan {
    std::string profile;
    uint64_t seed{0};
    int nst{1};
    int nkey{4};
    std::vector<std::string> keys; // sorted; same universe for each table
    std::size_t leaf_cap{4};
    int ddl_tables{0};
    int nseq{0};
    bool gc_rounds{false};
    int npad{0};              // records written by one O_PAD
    std::string part;         // component driven directly instead of the whole engine
    std::vector<Inc> inc;
};

Plan make_plan(const std::string& profile, uint64_t seed);
std::vector<std::string> profile_names();

// unique value written by an operation
constexpr uint32_t NOVAL = 0;
inline uint32_t value_id(int inc, int client, int tx, int op) {
    return 1U + ((static_cast<uint32_t>(inc) & 7U) << 21 | (static_cast<uint32_t>(client) & 15U) << 17 |
                 (static_cast<uint32_t>(tx) & 1023U) << 7 | (static_cast<uint32_t>(op) & 127U));
}
std::string value_string(uint32_t id, uint16_t vlen);
// 0 if the string is not a value that was ever composed
uint32_t value_parse(const std::string& s);

} // namespace work
