#pragma once
// <random> is included without library assertions: std::normal_distribution asserts sigma > 0, which the
// shipped (release) build does not.
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <vector>
#pragma push_macro("_GLIBCXX_ASSERTIONS")
#include <bits/c++config.h>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(cond) do {} while (false)
#include <random>
#pragma pop_macro("__glibcxx_assert")
#pragma pop_macro("_GLIBCXX_ASSERTIONS")
