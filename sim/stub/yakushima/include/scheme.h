// Stand-in for the index library: same interface, single-layer ordered leaves.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <ostream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

namespace yakushima {

using Token = void*;
using value_align_type = std::align_val_t;

enum class scan_endpoint : char { EXCLUSIVE, INCLUSIVE, INF };

enum class status : std::int32_t {
    ERR_BAD_USAGE,
    ERR_FATAL,
    ERR_UNKNOWN_ROOT,
    OK,
    OK_DESTROY_ALL,
    OK_RETRY_AFTER_FB,
    OK_RETRY_FROM_ROOT,
    OK_ROOT_IS_DELETED,
    OK_ROOT_IS_NULL,
    OK_SCAN_CONTINUE,
    OK_SCAN_END,
    WARN_ABORTED_BY_USER,
    WARN_CONCURRENT_OPERATIONS,
    WARN_EXIST,
    WARN_INVALID_TOKEN,
    WARN_MAX_SESSIONS,
    WARN_NOT_EXIST,
    WARN_STORAGE_NOT_EXIST,
    WARN_UNIQUE_RESTRICTION,
};

inline std::ostream& operator<<(std::ostream& o, status s) { return o << "yakushima::status:" << static_cast<int>(s); }

} // namespace yakushima
