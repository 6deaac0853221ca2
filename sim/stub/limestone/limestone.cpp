// Log stand-in. The durability protocol follows the real library: a session belongs to the
// epoch current at its begin, becomes durable when it was synced and the epoch file names
// an epoch not smaller than it, and recovery discards everything beyond the epoch file.
#include <algorithm>
#include <cstring>
#include <map>

#include "limestone/api/datastore.h"
#include "sim/core/sim.h"
#include "sim/stub/ctl.h"

namespace stubctl {
LogCtl log;
}

namespace limestone::api {

using stubctl::Disk;
using stubctl::LogEnt;
namespace sc = stubctl;

static void site(int s) {
    ++sc::log.site_count[s];
    if (sc::log.crash_site == s && sc::log.faults && sc::log.site_count[s] == sc::log.crash_nth) {
        sim::die(sim::EXIT_CRASH, "injected crash at log site %d, passage %u", s, sc::log.crash_nth);
    }
    sim::point(4);
}
static void device() {
    if (sc::log.slow_permille && sc::log.faults) {
        std::uint64_t h = sim::mix(sc::log.seed, 9000 + sc::log.slow_count * 2 + 1 + sc::log.site_count[3] * 131);
        if (h % 1000 < sc::log.slow_permille) {
            ++sc::log.slow_count;
            sim::sleep_ns(1 + sim::mix(h, 3) % (sc::log.slow_ns + 1));
        }
    }
}

datastore::datastore() = default;
datastore::datastore(configuration const&) {}
datastore::~datastore() = default;

void datastore::ready() {
    Disk* d = sc::log.disk;
    if (!ready_ && switched_ == 0) {
        // what lies beyond the epoch file is gone for good
        for (std::uint32_t i = 0; i < d->n; ++i) {
            LogEnt& e = d->e[i];
            if (e.dead) continue;
            if (e.epoch > d->epoch_file || !e.ended) {
                if (!e.ended) ++d->torn_sessions;
                e.dead = 1;
                ++d->lost_entries;
            }
        }
        switched_ = d->max_appeared;
        informed_ = d->max_appeared;
        to_be_recorded_ = record_finished_ = d->epoch_file;
    }
    ready_ = true;
    sc::log.informed = informed_;
    sc::log.up = true;
}
void datastore::recover() { sim::point(); }

log_channel& datastore::create_channel() {
    ch_.push_back(std::make_unique<log_channel>(this, ch_.size()));
    return *ch_.back();
}
epoch_id_type datastore::last_epoch() const noexcept { return informed_; }

void datastore::add_persistent_callback(std::function<void(epoch_id_type)> cb) noexcept { cb_ = std::move(cb); }
void datastore::remove_persistent_callback() noexcept { cb_ = nullptr; }

void datastore::switch_epoch(epoch_id_type ep) {
    site(sc::CS_SWITCH);
    switched_ = ep;
    sim::point(4);
    if (ready_) update_min_epoch_id(true);
}

void datastore::update_min_epoch_id(bool from_switch) {
    Disk* d = sc::log.disk;
    std::uint64_t upper = switched_ - 1;
    std::uint64_t maxfin = 0;
    for (auto& c : ch_) {
        if (c->current_ != UINT64_MAX || c->finished_ != 0) sim::point(1);
        std::uint64_t w = c->current_;
        if (w - 1 < upper) upper = w - 1;
        std::uint64_t f = c->finished_;
        if (maxfin < f && f <= upper) maxfin = f;
    }
    std::uint64_t tb = upper;
    if (from_switch && tb > maxfin) tb = maxfin;
    if (to_be_recorded_ < tb) {
        to_be_recorded_ = tb;
        std::lock_guard<std::mutex> lk(mtx_file_);
        if (tb >= to_be_recorded_) {
            site(sc::CS_BEFORE_EPOCH);
            device();
            std::uint64_t v = to_be_recorded_;
            if (v > d->epoch_file) {
                d->epoch_file = v;
                ++d->epoch_writes;
                if (v > d->max_appeared) d->max_appeared = v;
            }
            record_finished_ = v;
            site(sc::CS_AFTER_EPOCH);
        }
    }
    if (tb > record_finished_) return;
    tb = upper;
    if (informed_ < tb) {
        informed_ = tb;
        std::lock_guard<std::mutex> lk(mtx_cb_);
        if (tb < informed_) return;
        if (cb_) {
            ++d->callbacks;
            sc::log.informed = tb;
            cb_(tb);
            site(sc::CS_AFTER_CB);
        }
    }
}

void datastore::switch_available_boundary_version(write_version_type v) {
    sim::point(4);
    sc::log.disk->boundary_major = v.major_;
}

std::future<void> datastore::shutdown() noexcept {
    sc::log.up = false;
    std::promise<void> p;
    p.set_value();
    return p.get_future();
}

std::unique_ptr<snapshot> datastore::get_snapshot() const { return std::make_unique<snapshot>(); }
std::shared_ptr<snapshot> datastore::shared_snapshot() const { return std::make_shared<snapshot>(); }

// ---- channel

static LogEnt* append(log_channel* c, stubctl::LogType t, storage_id_type st, std::string_view k, std::string_view v,
                      write_version_type wv) {
    Disk* d = sc::log.disk;
    if (d->n >= Disk::MAX_ENT || d->used + k.size() + v.size() > Disk::MAX_DATA) {
        d->overflow = 1;
        sim::die(sim::EXIT_HARNESS, "simulated log is full");
    }
    LogEnt& e = d->e[d->n++];
    std::memset(static_cast<void*>(&e), 0, sizeof(e));
    e.type = t;
    e.incarnation = sc::log.incarnation;
    e.channel = static_cast<std::uint16_t>(c->id_);
    e.epoch = c->current_;
    e.session = c->session_;
    e.st = st;
    e.koff = d->used;
    e.klen = static_cast<std::uint32_t>(k.size());
    if (!k.empty()) std::memcpy(d->data + d->used, k.data(), k.size());
    d->used += e.klen;
    e.voff = d->used;
    e.vlen = static_cast<std::uint32_t>(v.size());
    if (!v.empty()) std::memcpy(d->data + d->used, v.data(), v.size());
    d->used += e.vlen;
    e.major = wv.major_;
    e.minor = wv.minor_;
    e.seq = sim::seq();
    return &e;
}

void log_channel::begin_session() {
    Disk* d = sc::log.disk;
    do {
        current_ = ds_->switched_;
        sim::point(2);
    } while (current_ != ds_->switched_);
    session_ = ++d->next_session;
    first_ent_ = d->n;
    if (current_ > d->max_appeared) d->max_appeared = current_;
    ++d->sessions_begun;
    site(sc::CS_BEGIN);
}
void log_channel::add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv) {
    site(sc::CS_ADD);
    append(this, sc::L_ADD, st, key, val, wv);
}
void log_channel::add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv,
                            const std::vector<blob_id_type>& lobs) {
    site(sc::CS_ADD);
    LogEnt* e = append(this, sc::L_ADD, st, key, val, wv);
    for (auto b : lobs)
        if (e->nblob < 4) e->blob[e->nblob++] = b;
}
void log_channel::remove_entry(storage_id_type st, std::string_view key, write_version_type wv) {
    site(sc::CS_ADD);
    append(this, sc::L_REMOVE, st, key, "", wv);
}
void log_channel::add_storage(storage_id_type st, write_version_type wv) {
    site(sc::CS_ADD);
    append(this, sc::L_ADD_STORAGE, st, "", "", wv);
}
void log_channel::remove_storage(storage_id_type st, write_version_type wv) {
    site(sc::CS_ADD);
    append(this, sc::L_REMOVE_STORAGE, st, "", "", wv);
}
void log_channel::end_session() {
    Disk* d = sc::log.disk;
    site(sc::CS_BEFORE_SYNC);
    device();
    for (std::uint32_t i = first_ent_; i < d->n; ++i)
        if (d->e[i].session == session_) d->e[i].ended = 1;
    ++d->sessions_ended;
    site(sc::CS_AFTER_SYNC);
    finished_ = current_;
    current_ = UINT64_MAX;
    sim::point(2);
    ds_->update_min_epoch_id(false);
}

// ---- reading back

static bool older(const LogEnt& a, const LogEnt& b) {
    return a.major < b.major || (a.major == b.major && a.minor < b.minor);
}

static std::vector<std::uint32_t> winners() {
    Disk* d = sc::log.disk;
    std::map<std::uint64_t, std::uint32_t> cleared;
    for (std::uint32_t i = 0; i < d->n; ++i) {
        LogEnt& e = d->e[i];
        if (e.dead || e.type != sc::L_REMOVE_STORAGE) continue;
        auto it = cleared.find(e.st);
        if (it == cleared.end()) cleared[e.st] = i;
        else if (older(d->e[it->second], e)) it->second = i;
    }
    // ordered by the bytes of storage id and key, as the sorted snapshot is
    std::map<std::string, std::uint32_t> best;
    for (std::uint32_t i = 0; i < d->n; ++i) {
        LogEnt& e = d->e[i];
        if (e.dead || (e.type != sc::L_ADD && e.type != sc::L_REMOVE)) continue;
        auto c = cleared.find(e.st);
        if (c != cleared.end() && older(e, d->e[c->second])) continue;
        std::string k(reinterpret_cast<const char*>(&e.st), sizeof(e.st));
        k.append(d->data + e.koff, e.klen);
        auto it = best.find(k);
        if (it == best.end()) best[k] = i;
        else if (!older(e, d->e[it->second])) it->second = i;
    }
    std::vector<std::uint32_t> out;
    for (auto& b : best)
        if (d->e[b.second].type == sc::L_ADD) out.push_back(b.second);
    return out;
}

std::unique_ptr<cursor> snapshot::get_cursor() const {
    auto c = std::make_unique<cursor>();
    c->idx_ = winners();
    return c;
}
std::vector<std::unique_ptr<cursor>> snapshot::get_partitioned_cursors(std::size_t n) {
    std::vector<std::unique_ptr<cursor>> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(std::make_unique<cursor>());
    sim::Rng r(sim::mix(sc::log.seed, 4242));
    auto w = winners();
    std::size_t i = 0;
    while (i < w.size()) {
        std::size_t len = 1 + r.below(4);
        auto& c = v[r.below(n)];
        for (std::size_t k = 0; k < len && i < w.size(); ++k) c->idx_.push_back(w[i++]);
    }
    return v;
}

bool cursor::next() {
    site(sc::CS_RECOVER);
    if (pos_ >= idx_.size()) return false;
    ++pos_;
    return true;
}
storage_id_type cursor::storage() const noexcept { return sc::log.disk->e[idx_[pos_ - 1]].st; }
void cursor::key(std::string& b) const noexcept {
    LogEnt& e = sc::log.disk->e[idx_[pos_ - 1]];
    b.assign(sc::log.disk->data + e.koff, e.klen);
}
void cursor::value(std::string& b) const noexcept {
    LogEnt& e = sc::log.disk->e[idx_[pos_ - 1]];
    b.assign(sc::log.disk->data + e.voff, e.vlen);
}

} // namespace limestone::api
