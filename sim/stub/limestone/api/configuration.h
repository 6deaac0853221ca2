#pragma once
#include <filesystem>
#include <string>
#include <vector>
#include <boost/filesystem/path.hpp>
namespace limestone::api {
class configuration {
public:
    configuration() = default;
    void set_data_location(std::filesystem::path const& p) { loc_ = p.string(); }
    void set_recover_max_parallelism(int n) { par_ = n; }
    std::string loc_;
    int par_{0};
};
} // namespace limestone::api
