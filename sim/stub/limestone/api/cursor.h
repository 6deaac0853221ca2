#pragma once
#include <string>
#include <vector>
#include "limestone/api/blob_id_type.h"
#include "limestone/api/storage_id_type.h"
namespace limestone::api {
class cursor {
public:
    bool next();
    storage_id_type storage() const noexcept;
    void key(std::string& buf) const noexcept;
    void value(std::string& buf) const noexcept;
    std::vector<blob_id_type>& large_objects() { return lobs_; }
    std::vector<std::uint32_t> idx_;
    std::size_t pos_{0};
    std::vector<blob_id_type> lobs_;
};
} // namespace limestone::api
