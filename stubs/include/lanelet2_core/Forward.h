#pragma once
#include <cstdint>
#include <vector>
namespace lanelet
{
using Id = std::int64_t;
using Ids = std::vector<Id>;
constexpr Id InvalId = 0;
}  // namespace lanelet
