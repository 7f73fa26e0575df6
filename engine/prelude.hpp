// Included before every translation unit of the analysis build: standard and Eigen headers
// first, then everything in /repo's classes is made reachable for the harnesses.
#pragma once
#include <vector>
#include <array>
#include <string>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <list>
#include <queue>
#include <stack>
#include <memory>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <numeric>
#include <functional>
#include <random>
#include <chrono>
#include <thread>
#include <mutex>
#include <optional>
#include <utility>
#include <tuple>
#include <limits>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <ctime>
#include <cassert>
#include <iterator>
#include <exception>
#include <stdexcept>
#ifdef SYMI_STUBS
#define EIGEN_MATRIXBASE_PLUGIN "matrix_plugin.inc"
#endif
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#ifdef SYMI_STUBS
#include "stubs.hpp"
#endif
#define private public
#define protected public
