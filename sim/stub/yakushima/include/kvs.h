#pragma once
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

#include "scheme.h"
#include "version.h"

namespace yakushima {

class tree_instance {
public:
    void store_root_ptr(void* p);
    void* load_root_ptr() { return root_; }
    void* root_{nullptr};
};

class storage {
public:
    static tree_instance* get_storages();
};

struct inserted_node_info {
    node_version64* modified_nvp{nullptr};
    node_version64* created_nvp{nullptr};
};

class iscan_context;
using bnv_cb_type = std::function<bool(node_version64*, node_version64_body)>;

namespace impl {
status get(std::string_view st, std::string_view key, void*& out, std::pair<node_version64_body, node_version64*>* cv);
status put(Token tk, std::string_view st, std::string_view key, void* val, bool unique, inserted_node_info* ii);
struct scan_item {
    std::string key;
    void* val;
};
status scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re,
            std::vector<scan_item>& out, std::vector<std::pair<node_version64_body, node_version64*>>* nv,
            std::size_t max_size, bool right_to_left);
} // namespace impl

void init();
void fin();
status enter(Token& t);
status leave(Token t);
status create_storage(std::string_view name);
status delete_storage(std::string_view name);
status find_storage(std::string_view name, tree_instance** out = nullptr);
status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out);
status remove(Token tk, std::string_view st, std::string_view key);

template<class V>
status get(std::string_view st, std::string_view key, std::pair<V*, std::size_t>& out,
           std::pair<node_version64_body, node_version64*>* cv = nullptr) {
    void* v{nullptr};
    auto rc = impl::get(st, key, v, cv);
    out.first = reinterpret_cast<V*>(v);
    out.second = sizeof(void*);
    return rc;
}

template<class V>
status put(Token tk, std::string_view st, std::string_view key, V* val, std::size_t = sizeof(V), V** = nullptr,
           value_align_type = static_cast<value_align_type>(alignof(V)), bool unique = true,
           inserted_node_info* ii = nullptr) {
    return impl::put(tk, st, key, reinterpret_cast<void*>(*val), unique, ii);
}

template<class V>
status scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re,
            std::vector<std::tuple<std::string, V*, std::size_t>>& out,
            std::vector<std::pair<node_version64_body, node_version64*>>* nv = nullptr, std::size_t max_size = 0,
            bool right_to_left = false) {
    out.clear();
    if (nv) nv->clear();
    std::vector<impl::scan_item> v;
    auto rc = impl::scan(st, l, le, r, re, v, nv, max_size, right_to_left);
    for (auto&& e : v) out.emplace_back(e.key, reinterpret_cast<V*>(e.val), sizeof(void*));
    return rc;
}

status iscan_open(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re,
                  bool right_to_left, bool early_abort, iscan_context*& ctx, void*& value,
                  const bnv_cb_type& cb = nullptr);
status iscan_next(iscan_context* ctx, void*& value, const bnv_cb_type& cb = nullptr);
void iscan_close(iscan_context*& ctx);

} // namespace yakushima
