#pragma once
#include <cstddef>
#include <cstdint>
#include <ostream>

namespace yakushima {

class node_version64_body {
public:
    std::uint64_t vid{0};
    std::uint64_t vsp{0};
    bool del{false};
    [[nodiscard]] std::uint64_t get_vinsert_delete() const { return vid; }
    [[nodiscard]] std::uint64_t get_vsplit() const { return vsp; }
    [[nodiscard]] bool get_deleted() const { return del; }
    bool operator==(const node_version64_body& o) const { return vid == o.vid && vsp == o.vsp && del == o.del; }
    bool operator!=(const node_version64_body& o) const { return !(*this == o); }
};
inline std::ostream& operator<<(std::ostream& o, const node_version64_body& b) { return o << b.vid << "/" << b.vsp; }

class node_version64 {
public:
    [[nodiscard]] node_version64_body get_stable_version() const;
    [[nodiscard]] node_version64_body get_body() const { return get_stable_version(); }
    node_version64_body body_{};
};

} // namespace yakushima
