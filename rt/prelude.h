// The headers the project precompiles into every translation unit.
#pragma once
#include <cstdint>
#include <thread>
#include <cassert>
#include <ctime>
#include <iomanip>
#include <chrono>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <list>
#include <forward_list>
#include <queue>
#include <vector>
#include <sstream>
#include <ostream>
#include <streambuf>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <iterator>
#include <future>
#include <mutex>
#include <atomic>
#include <memory>
#include <algorithm>
#include <functional>
#include <typeindex>
#include <typeinfo>
#include <any>
#include <variant>
#include <maf/logging/Logger.h>
