#pragma once
#include <memory>
#include <vector>
#include "limestone/api/cursor.h"
namespace limestone::api {
class snapshot {
public:
    std::unique_ptr<cursor> get_cursor() const;
    std::vector<std::unique_ptr<cursor>> get_partitioned_cursors(std::size_t n);
};
} // namespace limestone::api
