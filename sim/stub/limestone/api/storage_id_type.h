#pragma once
#include <cstdint>
namespace limestone::api {
using storage_id_type = std::uint64_t;
}
