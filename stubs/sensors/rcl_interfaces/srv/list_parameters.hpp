#pragma once
#include <cstdint>
namespace rcl_interfaces::srv { struct ListParameters { struct Request { static constexpr std::uint64_t DEPTH_RECURSIVE = 0; }; }; }
