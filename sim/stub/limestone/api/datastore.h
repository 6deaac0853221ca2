// Stand-in for the log datastore: same interface, state kept on a simulated disk.
#pragma once
#include <atomic>
#include <cstdint>
#include <filesystem>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>

#include <boost/filesystem/path.hpp>

#include "limestone/api/configuration.h"
#include "limestone/api/cursor.h"
#include "limestone/api/log_channel.h"
#include "limestone/api/snapshot.h"
#include "limestone/api/storage_id_type.h"
#include "limestone/api/write_version_type.h"

namespace limestone::api {

class datastore {
public:
    datastore();
    explicit datastore(configuration const& conf);
    ~datastore();
    void ready();
    void recover();
    std::unique_ptr<snapshot> get_snapshot() const;
    std::shared_ptr<snapshot> shared_snapshot() const;
    log_channel& create_channel();
    log_channel& create_channel(boost::filesystem::path const&) { return create_channel(); }
    epoch_id_type last_epoch() const noexcept;
    void switch_epoch(epoch_id_type ep);
    void add_persistent_callback(std::function<void(epoch_id_type)> cb) noexcept;
    void remove_persistent_callback() noexcept;
    void switch_available_boundary_version(write_version_type v);
    std::future<void> shutdown() noexcept;

    void update_min_epoch_id(bool from_switch);
    std::uint64_t switched_{0};

private:
    std::vector<std::unique_ptr<log_channel>> ch_;
    std::function<void(epoch_id_type)> cb_;
    std::mutex mtx_file_, mtx_cb_;
    bool ready_{false};
    std::uint64_t to_be_recorded_{0}, record_finished_{0}, informed_{0};
};

} // namespace limestone::api
