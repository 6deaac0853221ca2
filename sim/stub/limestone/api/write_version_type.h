#pragma once
#include <cstdint>
namespace limestone::api {
using epoch_t = std::int64_t;
using epoch_id_type = std::uint64_t;
class write_version_type {
public:
    write_version_type(epoch_t major, std::uint64_t minor) : major_(static_cast<std::uint64_t>(major)), minor_(minor) {}
    std::uint64_t major_;
    std::uint64_t minor_;
};
} // namespace limestone::api
