// History of a run, kept in memory shared with the supervising process.
#pragma once
#include <cstdint>

#include "sim/core/sim.h"
#include "sim/stub/ctl.h"

namespace work {

enum RecKind : uint8_t {
    R_BEGIN = 1, R_OP, R_ROW, R_COMMIT, R_CB, R_ABORT, R_LEAVE, R_ENTER, R_STATE, R_DUR,
    R_PHASE, R_SEQ, R_DDL, R_MEM, R_RESINFO, R_TXID, R_HIPRI,
};

enum Phase : uint8_t {
    PH_INIT_BEGIN, PH_INIT_DONE, PH_START_AUDIT_DONE, PH_WORK_DONE, PH_QUIET, PH_AUDIT_DONE,
    PH_FIN_BEGIN, PH_FIN_DONE,
};

struct Rec {
    uint8_t kind;
    uint8_t inc;
    uint8_t client;
    uint8_t st;
    uint16_t tx;
    uint8_t op;
    uint8_t opkind;
    int16_t status;
    uint8_t key;
    uint8_t aux;
    uint32_t val;
    uint64_t inv, ret;
    uint64_t x;
    uint64_t pre;                 // when the call was last refused as premature (0: never)
};

constexpr uint8_t AUDITOR = 15;
constexpr uint16_t TX_AUDIT_START = 0xfffe, TX_AUDIT_END = 0xffff; // looked at by the main thread
constexpr uint64_t NO_HANDLE = 0x7ffffff0; // handle of a table that never existed
constexpr int OWN_SEQ = 8;
constexpr uint8_t KEY_NONE = 255; // key outside the universe
constexpr uint32_t VAL_BAD = 0xffffffffU;

struct Hist {
    static constexpr uint32_t CAP = 60000;
    uint32_t n;
    uint32_t overflow;
    uint64_t announced;           // largest durability marker announced, this incarnation
    uint64_t table_handle[16];
    uint64_t pad_table;
    uint32_t pad_val[16];         // what the padding records of each client hold
    uint64_t ddl_handle[16][4];   // handles the clients hold for their own tables
    uint8_t ddl_live[16][4];
    uint64_t seq_id[32];          // sequences: shared ones, then one of each client from 8 on
    uint8_t seq_live[32];
    uint64_t seq_base[32];
    uint64_t seq_ctr;             // no version number is used twice
    uint64_t progress;            // event number of the last completed call, this incarnation
    char bad[512];                // inline oracle message
    char bad_prop[96];
    uint64_t probes[64];
    Rec r[CAP];
};

struct Shared {
    Hist h;
    stubctl::Disk disk;
    sim::TraceBuf trace;
    sim::Outcome out;
};

} // namespace work
