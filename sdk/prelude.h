// Force-included before every translation unit of the harnesses: headers kpsr-core expects to come
// in transitively (through the real SDK / spdlog).
#ifndef VERIF_PRELUDE_H
#define VERIF_PRELUDE_H
#include <sys/types.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include <klepsydra/sdk/time_utils.h>
#endif
