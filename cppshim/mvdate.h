// Content of date.h types.
#pragma once
#include <date/date.h>
#include <date/tz.h>

#include "mvdriver.h"

namespace mv {

template <>
struct Dump<date::local_days> {
  static void dump(std::string& out, const date::local_days& value) {
    const date::year_month_day ymd(value);
    out += "{\"date\":[" + std::to_string(static_cast<int>(ymd.year())) + "," +
           std::to_string(static_cast<unsigned>(ymd.month())) + "," +
           std::to_string(static_cast<unsigned>(ymd.day())) + "]}";
  }
};

template <>
struct Dump<date::local_seconds> {
  static void dump(std::string& out, const date::local_seconds& value) {
    out += "{\"seconds\":" + std::to_string(value.time_since_epoch().count()) + "}";
  }
};

template <>
struct Dump<date::time_of_day<std::chrono::seconds>> {
  static void dump(std::string& out, const date::time_of_day<std::chrono::seconds>& value) {
    out += "{\"seconds\":" + std::to_string(value.to_duration().count()) + "}";
  }
};

template <>
struct Dump<const date::time_zone*> {
  static void dump(std::string& out, const date::time_zone* const& value) {
    if (value == nullptr) {
      out += "{\"$null\":true}";
    } else {
      quote(out, value->name());
    }
  }
};

}  // namespace mv
