#include <filesystem>
#include <functional>
#include <array>
#include <any>
#include <bitset>
#include <cassert>
#include <cinttypes>
#include <cstdarg>
#include <iostream>
#include <fstream>
#include <list>
#include <mutex>
#include <vector>
#include <set>
#include <unordered_set>
#include <map>
#include <unordered_map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <shared_mutex>
#include <type_traits>
#include <variant>
#include <fmt/core.h>
#include <tbb/scalable_allocator.h>
#include <tbb/task_group.h>
#include <tbb/parallel_for.h>
#include <tbb/parallel_for_each.h>
