// Index stand-in: per storage an ordered chain of leaves of bounded size. Every leaf has a
// version that grows with each insert, removal and split, as the engine relies on.
// Operations are atomic; a scan visits leaf by leaf and can be interleaved between leaves.
#include <map>
#include <vector>

#include "sim/core/sim.h"
#include "sim/stub/ctl.h"
#include "yakushima/include/kvs.h"

namespace stubctl {
IndexCtl index;
}

namespace yakushima {

using stubctl::index;

node_version64_body node_version64::get_stable_version() const {
    sim::point(4);
    return body_;
}

namespace {
struct Leaf {
    node_version64 nv;
    std::string low; // smallest key routed here (first leaf: everything below)
    std::vector<std::pair<std::string, void*>> kv;
};
struct Tree {
    tree_instance ti;
    std::vector<Leaf*> leaves;
};
std::map<std::string, Tree*>* g_trees = nullptr;
tree_instance g_root;
int g_sessions = 0;

Tree* find(std::string_view st) {
    if (!g_trees) return nullptr;
    auto it = g_trees->find(std::string(st));
    return it == g_trees->end() ? nullptr : it->second;
}
std::size_t leaf_of(Tree* t, std::string_view key) {
    std::size_t i = t->leaves.size() - 1;
    while (i > 0 && key < t->leaves[i]->low) --i;
    return i;
}
bool after_left(std::string_view k, std::string_view l, scan_endpoint le) {
    if (le == scan_endpoint::INF) return true;
    if (le == scan_endpoint::INCLUSIVE) return k >= l;
    return k > l;
}
bool before_right(std::string_view k, std::string_view r, scan_endpoint re) {
    if (re == scan_endpoint::INF) return true;
    if (re == scan_endpoint::INCLUSIVE) return k <= r;
    return k < r;
}
} // namespace

void tree_instance::store_root_ptr(void* p) {
    root_ = p;
    if (this == &g_root && p == nullptr && g_trees) g_trees->clear();
}
tree_instance* storage::get_storages() { return &g_root; }

void init() {
    if (!g_trees) g_trees = new std::map<std::string, Tree*>();
    g_sessions = 0;
}
void fin() {
    if (g_trees) g_trees->clear();
}
status enter(Token& t) {
    sim::point();
    ++g_sessions;
    t = reinterpret_cast<Token>(static_cast<std::uintptr_t>(g_sessions));
    return status::OK;
}
status leave(Token) {
    sim::point();
    return status::OK;
}

status create_storage(std::string_view name) {
    sim::point(8);
    if (find(name)) return status::WARN_UNIQUE_RESTRICTION;
    auto* t = new Tree();
    t->leaves.push_back(new Leaf());
    (*g_trees)[std::string(name)] = t;
    g_root.root_ = t;
    ++index.creates;
    return status::OK;
}
status delete_storage(std::string_view name) {
    sim::point(8);
    auto* t = find(name);
    if (!t) return status::WARN_NOT_EXIST;
    for (auto* l : t->leaves) {
        l->nv.body_.del = true;
        ++l->nv.body_.vid;
    }
    g_trees->erase(std::string(name));
    ++index.drops;
    return status::OK;
}
status find_storage(std::string_view name, tree_instance** out) {
    sim::point(8);
    auto* t = find(name);
    if (!t) return status::WARN_NOT_EXIST;
    if (out) *out = &t->ti;
    return status::OK;
}
status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out) {
    sim::point(8);
    out.clear();
    if (!g_trees || g_trees->empty()) return status::WARN_NOT_EXIST;
    for (auto& e : *g_trees) out.emplace_back(e.first, &e.second->ti);
    return status::OK;
}

status remove(Token, std::string_view st, std::string_view key) {
    sim::point(8);
    auto* t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    std::size_t i = leaf_of(t, key);
    Leaf* l = t->leaves[i];
    for (auto it = l->kv.begin(); it != l->kv.end(); ++it) {
        if (it->first == key) {
            l->kv.erase(it);
            ++l->nv.body_.vid;
            ++index.removes;
            if (l->kv.empty() && t->leaves.size() > 1) {
                // the leaf goes away; its range is taken over by the neighbour on the left
                // (the leftmost leaf: by the neighbour on the right)
                l->nv.body_.del = true;
                t->leaves.erase(t->leaves.begin() + static_cast<long>(i));
                if (i == 0) t->leaves[0]->low.clear();
                ++index.leaf_drops;
            }
            return status::OK;
        }
    }
    return status::WARN_NOT_EXIST;
}

namespace impl {

status get(std::string_view st, std::string_view key, void*& out, std::pair<node_version64_body, node_version64*>* cv) {
    sim::point(8);
    auto* t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    Leaf* l = t->leaves[leaf_of(t, key)];
    if (cv) *cv = {l->nv.body_, &l->nv};
    for (auto& e : l->kv) {
        if (e.first == key) {
            out = e.second;
            return status::OK;
        }
    }
    return status::WARN_NOT_EXIST;
}

status put(Token, std::string_view st, std::string_view key, void* val, bool unique, inserted_node_info* ii) {
    sim::point(8);
    sim::Aside aside;
    auto* t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    std::size_t i = leaf_of(t, key);
    Leaf* l = t->leaves[i];
    std::size_t p = 0;
    for (; p < l->kv.size(); ++p) {
        if (l->kv[p].first == key) {
            if (unique) return status::WARN_UNIQUE_RESTRICTION;
            l->kv[p].second = val;
            return status::OK;
        }
        if (l->kv[p].first > key) break;
    }
    l->kv.insert(l->kv.begin() + static_cast<long>(p), {std::string(key), val});
    ++l->nv.body_.vid;
    ++index.inserts;
    Leaf* n = nullptr;
    if (l->kv.size() > index.leaf_cap) {
        n = new Leaf();
        std::size_t h = l->kv.size() / 2;
        n->kv.assign(l->kv.begin() + static_cast<long>(h), l->kv.end());
        l->kv.resize(h);
        n->low = n->kv.front().first;
        ++l->nv.body_.vsp;
        n->nv.body_ = l->nv.body_;
        t->leaves.insert(t->leaves.begin() + static_cast<long>(i) + 1, n);
        ++index.splits;
    }
    if (ii) {
        ii->modified_nvp = &l->nv;
        ii->created_nvp = n ? &n->nv : nullptr;
    }
    return status::OK;
}

// visit the leaves of the range one by one; position is kept as the last key passed
status scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re,
            std::vector<scan_item>& out, std::vector<std::pair<node_version64_body, node_version64*>>* nv,
            std::size_t max_size, bool right_to_left) {
    std::string cur;   // bound reached so far
    bool have = false; // cur valid
    std::string lk(l), rk(r);
    for (;;) {
        sim::point(8);
        auto* t = find(st);
        if (!t) return status::WARN_STORAGE_NOT_EXIST;
        std::size_t i = 0;
        if (!right_to_left) {
            if (have) i = leaf_of(t, cur);
            else if (le != scan_endpoint::INF) i = leaf_of(t, lk);
        } else {
            i = t->leaves.size() - 1;
            if (have) {
                i = leaf_of(t, cur);
                if (cur == t->leaves[i]->low && i > 0 ) --i; // everything >= cur is done
            } else if (re != scan_endpoint::INF) {
                i = leaf_of(t, rk);
            }
        }
        Leaf* lf = t->leaves[i];
        bool any = false;
        bool end = false;
        auto take = [&](std::pair<std::string, void*>& e) {
            out.push_back({e.first, e.second});
            if (nv) nv->emplace_back(lf->nv.body_, &lf->nv);
            any = true;
        };
        if (!right_to_left) {
            for (auto& e : lf->kv) {
                if (have && e.first < cur) continue;
                if (!after_left(e.first, lk, le)) continue;
                if (!before_right(e.first, rk, re)) {
                    end = true;
                    break;
                }
                take(e);
                if (max_size != 0 && out.size() >= max_size) return status::OK;
            }
        } else {
            for (auto it = lf->kv.rbegin(); it != lf->kv.rend(); ++it) {
                if (have && it->first >= cur) continue;
                if (!before_right(it->first, rk, re)) continue;
                if (!after_left(it->first, lk, le)) {
                    end = true;
                    break;
                }
                take(*it);
                if (max_size != 0 && out.size() >= max_size) return status::OK;
            }
        }
        if (!any && nv) nv->emplace_back(lf->nv.body_, &lf->nv);
        if (end) return status::OK;
        if (!right_to_left) {
            if (i + 1 >= t->leaves.size()) return status::OK;
            cur = t->leaves[i + 1]->low;
            if (!before_right(cur, rk, re)) return status::OK;
        } else {
            if (i == 0) return status::OK;
            cur = lf->low;
            if (!after_left(cur, lk, le) || (le != scan_endpoint::INF && cur == lk)) return status::OK;
        }
        have = true;
    }
}

} // namespace impl

class iscan_context {
public:
    std::string st, l, r;
    scan_endpoint le{}, re{};
    bool rtl{};
    bool started{};
    std::string last; // last key returned
    bool have{};
    Leaf* leaf{nullptr};
    node_version64_body seen{};
};

static status advance(iscan_context* c, void*& value, const bnv_cb_type& cb) {
    // the smallest (largest) key beyond the last one returned; reports every leaf on the way
    std::string cur;
    bool have_cur = false;
    for (;;) {
        sim::point(8);
        auto* t = find(c->st);
        if (!t) return status::WARN_STORAGE_NOT_EXIST;
        std::size_t i = 0;
        if (!c->rtl) {
            if (have_cur) i = leaf_of(t, cur);
            else if (c->have) i = leaf_of(t, c->last);
            else if (c->le != scan_endpoint::INF) i = leaf_of(t, c->l);
        } else {
            i = t->leaves.size() - 1;
            if (have_cur) {
                i = leaf_of(t, cur);
                if (cur == t->leaves[i]->low && i > 0) --i;
            } else if (c->have) {
                i = leaf_of(t, c->last);
            } else if (c->re != scan_endpoint::INF) {
                i = leaf_of(t, c->r);
            }
        }
        Leaf* lf = t->leaves[i];
        bool report = cb != nullptr && (c->leaf != lf || c->seen != lf->nv.body_);
        c->leaf = lf;
        c->seen = lf->nv.body_;
        bool end = false;
        std::pair<std::string, void*> hit;
        bool found = false;
        if (!c->rtl) {
            for (auto& e : lf->kv) {
                if (c->have && e.first <= c->last) continue;
                if (!after_left(e.first, c->l, c->le)) continue;
                if (!before_right(e.first, c->r, c->re)) {
                    end = true;
                    break;
                }
                hit = e;
                found = true;
                break;
            }
        } else {
            for (auto it = lf->kv.rbegin(); it != lf->kv.rend(); ++it) {
                if (c->have && it->first >= c->last) continue;
                if (!before_right(it->first, c->r, c->re)) continue;
                if (!after_left(it->first, c->l, c->le)) {
                    end = true;
                    break;
                }
                hit = *it;
                found = true;
                break;
            }
        }
        bool last_leaf = c->rtl ? i == 0 : i + 1 >= t->leaves.size();
        if (!last_leaf) cur = c->rtl ? lf->low : t->leaves[i + 1]->low;
        have_cur = true;
        bool past = false;
        if (!last_leaf) {
            if (!c->rtl) past = !before_right(cur, c->r, c->re);
            else past = !after_left(cur, c->l, c->le) || (c->le != scan_endpoint::INF && cur == c->l);
        }
        if (report) {
            if (cb(&lf->nv, c->seen)) return status::WARN_ABORTED_BY_USER;
        }
        if (found) {
            value = hit.second;
            c->last = hit.first;
            c->have = true;
            return status::OK;
        }
        if (end || last_leaf || past) return status::OK_SCAN_END;
    }
}

status iscan_open(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re,
                  bool right_to_left, bool, iscan_context*& ctx, void*& value, const bnv_cb_type& cb) {
    ctx = nullptr;
    if (!find(st)) return status::WARN_STORAGE_NOT_EXIST;
    ctx = new iscan_context();
    ctx->st = std::string(st);
    ctx->l = std::string(l);
    ctx->r = std::string(r);
    ctx->le = le;
    ctx->re = re;
    ctx->rtl = right_to_left;
    ++index.iscans;
    return advance(ctx, value, cb);
}
status iscan_next(iscan_context* ctx, void*& value, const bnv_cb_type& cb) { return advance(ctx, value, cb); }
void iscan_close(iscan_context*& ctx) {
    delete ctx;
    ctx = nullptr;
}

} // namespace yakushima
