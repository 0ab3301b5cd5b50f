// Verification replacement of huira/util/logger.hpp, found first on the include path.
// It drops what the verified text does not need: the text of log and error messages.
// Control flow is kept: HUIRA_THROW_ERROR still throws std::runtime_error at the same point.
#pragma once
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
namespace huira {
enum class LogLevel { Debug = 0, Info = 1, Warning = 2, Error = 3 };
[[noreturn]] inline void vc_throw_error_()
{
    throw std::runtime_error("");
}
} // namespace huira
#define HUIRA_LOG_DEBUG(msg) do { } while (0)
#define HUIRA_LOG_INFO(msg) do { } while (0)
#define HUIRA_LOG_WARNING(msg) do { } while (0)
#define HUIRA_LOG_ERROR(msg) do { } while (0)
#define HUIRA_LOG(level, ...) do { } while (0)
#define HUIRA_THROW_ERROR(msg) do { ::huira::vc_throw_error_(); } while (0)
#define HUIRA_TRACE_SCOPE(name) do { } while (0)
