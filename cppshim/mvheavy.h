// Headers and templates which are precompiled for all the batches.
#pragma once
#include <date/date.h>
#include <date/tz.h>

#include <boost/filesystem/path.hpp>
#include <boost/optional.hpp>
#include <optional.hpp>
#include <iomanip>
#include <limits>
#include <optional>
#include <regex>

#include "mvdate.h"
#include "mvdriver.h"

namespace mv {

template <>
struct Dump<boost::filesystem::path> {
  static void dump(std::string& out, const boost::filesystem::path& value) {
    quote(out, value.string());
  }
};

}  // namespace mv

namespace mv {

// instantiates what all the cases need
inline bool warm(const std::string& text) {
  const std::regex first("x");
  const std::regex second(text);
  std::smatch mtch;
  std::istringstream iss(text);
  date::local_days days;
  date::local_seconds seconds;
  std::chrono::seconds of_day;
  iss >> date::parse("%Y", days);
  iss >> date::parse("%Y", seconds);
  iss >> date::parse("%Y", of_day);
  std::ostringstream oss;
  oss << date::format("%Y", days) << date::format("%Y", seconds)
      << date::format("%H", of_day);
  return std::regex_match(text, mtch, first) || std::regex_match(text, second);
}

}  // namespace mv
