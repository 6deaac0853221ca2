#pragma once
#include <cstdint>
namespace limestone::api {
using blob_id_type = std::uint64_t;
}
