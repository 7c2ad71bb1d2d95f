#pragma once
#include <lanelet2_mini.hpp>
