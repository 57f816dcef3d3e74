// Shared parts of the generated C++ drivers.
#pragma once
#include <json/json.h>

#include <chrono>
#include <cstdint>
#include <ctime>
#include <filesystem>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include <typeinfo>
#include <vector>

namespace mv {

// --- JSON text -------------------------------------------------------------

inline void quote(std::string& out, const std::string& text) {
  out += '"';
  for (unsigned char c : text) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += static_cast<char>(c);
    } else if (c < 0x20) {
      char buf[8];
      std::snprintf(buf, sizeof buf, "\\u%04x", c);
      out += buf;
    } else {
      out += static_cast<char>(c);
    }
  }
  out += '"';
}

inline void write(std::string& out, const Json::Value& value) {
  switch (value.type()) {
    case Json::nullValue:
      out += "null";
      break;
    case Json::intValue:
      out += std::to_string(value.asInt64());
      break;
    case Json::uintValue:
      out += std::to_string(value.asUInt64());
      break;
    case Json::realValue: {
      char buf[64];
      std::snprintf(buf, sizeof buf, "%.17g", value.asDouble());
      out += buf;
      if (std::string(buf).find_first_of(".eEn") == std::string::npos) out += ".0";
      break;
    }
    case Json::stringValue:
      quote(out, value.asString());
      break;
    case Json::booleanValue:
      out += value.asBool() ? "true" : "false";
      break;
    case Json::arrayValue: {
      out += '[';
      bool first = true;
      for (const auto& item : value) {
        if (!first) out += ',';
        first = false;
        write(out, item);
      }
      out += ']';
      break;
    }
    case Json::objectValue: {
      out += '{';
      bool first = true;
      for (auto it = value.begin(); it != value.end(); ++it) {
        if (!first) out += ',';
        first = false;
        quote(out, it.name());
        out += ':';
        write(out, *it);
      }
      out += '}';
      break;
    }
  }
}

class Reader {
 public:
  explicit Reader(const std::string& text) : s_(text) {}
  Json::Value read() {
    Json::Value value = any();
    space();
    if (i_ != s_.size()) throw std::runtime_error("trailing text");
    return value;
  }

 private:
  void space() {
    while (i_ < s_.size() && (s_[i_] == ' ' || s_[i_] == '\n' || s_[i_] == '\t' || s_[i_] == '\r')) {
      ++i_;
    }
  }
  char peek() {
    space();
    if (i_ >= s_.size()) throw std::runtime_error("end of text");
    return s_[i_];
  }
  void expect(const char* word) {
    size_t n = std::strlen(word);
    if (s_.compare(i_, n, word) != 0) throw std::runtime_error("unexpected text");
    i_ += n;
  }
  Json::Value any() {
    char c = peek();
    if (c == '{') {
      Json::Value value(Json::objectValue);
      ++i_;
      if (peek() == '}') {
        ++i_;
        return value;
      }
      while (true) {
        peek();
        std::string key = string();
        if (peek() != ':') throw std::runtime_error("no colon");
        ++i_;
        value[key] = any();
        char d = peek();
        ++i_;
        if (d == '}') return value;
        if (d != ',') throw std::runtime_error("no comma");
      }
    }
    if (c == '[') {
      Json::Value value(Json::arrayValue);
      ++i_;
      if (peek() == ']') {
        ++i_;
        return value;
      }
      while (true) {
        value.append(any());
        char d = peek();
        ++i_;
        if (d == ']') return value;
        if (d != ',') throw std::runtime_error("no comma");
      }
    }
    if (c == '"') return Json::Value(string());
    if (c == 't') {
      expect("true");
      return Json::Value(true);
    }
    if (c == 'f') {
      expect("false");
      return Json::Value(false);
    }
    if (c == 'n') {
      expect("null");
      return Json::Value();
    }
    size_t start = i_;
    while (i_ < s_.size() && std::strchr("+-0123456789.eE", s_[i_]) != nullptr) ++i_;
    std::string number = s_.substr(start, i_ - start);
    if (number.find_first_of(".eE") == std::string::npos) {
      errno = 0;
      if (number[0] == '-') {
        long long got = std::strtoll(number.c_str(), nullptr, 10);
        if (errno == 0) return Json::Value(static_cast<Json::Int64>(got));
      } else {
        unsigned long long got = std::strtoull(number.c_str(), nullptr, 10);
        if (errno == 0) {
          // as jsoncpp: small numbers are signed
          if (got <= static_cast<unsigned long long>(INT64_MAX)) {
            return Json::Value(static_cast<Json::Int64>(got));
          }
          return Json::Value(static_cast<Json::UInt64>(got));
        }
      }
    }
    return Json::Value(std::strtod(number.c_str(), nullptr));
  }
  std::string string() {
    std::string out;
    if (s_[i_] != '"') throw std::runtime_error("no string");
    ++i_;
    while (s_[i_] != '"') {
      if (i_ >= s_.size()) throw std::runtime_error("open string");
      char c = s_[i_++];
      if (c != '\\') {
        out += c;
        continue;
      }
      char d = s_[i_++];
      switch (d) {
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'n': out += '\n'; break;
        case 'r': out += '\r'; break;
        case 't': out += '\t'; break;
        case 'u': {
          unsigned long cp = std::stoul(s_.substr(i_, 4), nullptr, 16);
          i_ += 4;
          if (cp >= 0xd800 && cp < 0xdc00 && s_.compare(i_, 2, "\\u") == 0) {
            unsigned long low = std::stoul(s_.substr(i_ + 2, 4), nullptr, 16);
            i_ += 6;
            cp = 0x10000 + ((cp - 0xd800) << 10) + (low - 0xdc00);
          }
          if (cp < 0x80) {
            out += static_cast<char>(cp);
          } else if (cp < 0x800) {
            out += static_cast<char>(0xc0 | (cp >> 6));
            out += static_cast<char>(0x80 | (cp & 0x3f));
          } else if (cp < 0x10000) {
            out += static_cast<char>(0xe0 | (cp >> 12));
            out += static_cast<char>(0x80 | ((cp >> 6) & 0x3f));
            out += static_cast<char>(0x80 | (cp & 0x3f));
          } else {
            out += static_cast<char>(0xf0 | (cp >> 18));
            out += static_cast<char>(0x80 | ((cp >> 12) & 0x3f));
            out += static_cast<char>(0x80 | ((cp >> 6) & 0x3f));
            out += static_cast<char>(0x80 | (cp & 0x3f));
          }
          break;
        }
        default:
          out += d;
      }
    }
    ++i_;
    return out;
  }
  const std::string& s_;
  size_t i_ = 0;
};

// --- content of the object graphs ------------------------------------------

template <class T, class Enable = void>
struct Dump;

template <class T>
void dump(std::string& out, const T& value) {
  Dump<T>::dump(out, value);
}

template <>
struct Dump<bool> {
  static void dump(std::string& out, bool value) { out += value ? "true" : "false"; }
};

template <>
struct Dump<int64_t> {
  static void dump(std::string& out, int64_t value) { out += std::to_string(value); }
};

template <>
struct Dump<double> {
  static void dump(std::string& out, double value) {
    char buf[64];
    std::snprintf(buf, sizeof buf, "\"%a\"", value);
    out += buf;
  }
};

template <>
struct Dump<std::string> {
  static void dump(std::string& out, const std::string& value) { quote(out, value); }
};

template <>
struct Dump<std::filesystem::path> {
  static void dump(std::string& out, const std::filesystem::path& value) {
    quote(out, value.string());
  }
};

template <>
struct Dump<std::chrono::nanoseconds> {
  static void dump(std::string& out, const std::chrono::nanoseconds& value) {
    out += std::to_string(value.count());
  }
};

template <>
struct Dump<std::tm> {
  static void dump(std::string& out, const std::tm& value) {
    out += "{\"tm\":[";
    const int parts[] = {value.tm_year + 1900, value.tm_mon + 1, value.tm_mday,
                         value.tm_hour,        value.tm_min,     value.tm_sec};
    for (int i = 0; i < 6; ++i) {
      if (i > 0) out += ',';
      out += std::to_string(parts[i]);
    }
    out += "]}";
  }
};

template <class T>
struct Dump<std::vector<T>> {
  static void dump(std::string& out, const std::vector<T>& value) {
    out += '[';
    for (size_t i = 0; i < value.size(); ++i) {
      if (i > 0) out += ',';
      Dump<T>::dump(out, value[i]);
    }
    out += ']';
  }
};

template <class T>
struct Dump<std::map<std::string, T>> {
  static void dump(std::string& out, const std::map<std::string, T>& value) {
    out += '{';
    bool first = true;
    for (const auto& kv : value) {
      if (!first) out += ',';
      first = false;
      quote(out, kv.first);
      out += ':';
      Dump<T>::dump(out, kv.second);
    }
    out += '}';
  }
};

template <class O>
void dump_optional(std::string& out, const O& value) {
  if (value) {
    dump(out, *value);
  } else {
    out += "null";
  }
}

inline void key(std::string& out, const char* name) {
  if (out.back() != '{') out += ',';
  out += '"';
  out += name;
  out += "\":";
}

template <class C, class R>
void dump_ref(std::string& out, const C* value, const R* registry) {
  if (value == nullptr) {
    out += "{\"$null\":true}";
    return;
  }
  out += "{\"$id\":";
  quote(out, value->id);
  auto it = registry->find(value->id);
  bool same = it != registry->end() && it->second.get() == value;
  out += same ? "}" : ",\"$foreign\":true}";
}

template <class R>
void dump_registry(std::string& out, const R& registry) {
  out += '{';
  bool first = true;
  for (const auto& kv : registry) {
    if (!first) out += ',';
    first = false;
    quote(out, kv.first);
    out += ":";
    if (!kv.second) {
      out += "null";
      continue;
    }
    out += "{\"id\":";
    quote(out, kv.second->id);
    out += ",\"props\":";
    dump(out, *kv.second);
    out += '}';
  }
  out += '}';
}

// --- protocol --------------------------------------------------------------

template <class E>
void dump_errors(std::string& out, const E& errors) {
  out += '[';
  bool first = true;
  for (const auto& err : errors.get()) {
    if (!first) out += ',';
    first = false;
    out += '[';
    quote(out, err.ref);
    out += ',';
    quote(out, err.message);
    out += ']';
  }
  out += ']';
}

using Handler = void (*)(std::string& out, const Json::Value& request);

inline std::map<int, Handler>& handlers() {
  static std::map<int, Handler> table;
  return table;
}

struct Register {
  Register(int number, Handler handler) { handlers()[number] = handler; }
};

template <class T>
struct Outcome {
  typename T::Graph graph;
  std::string errors, written, threw;
  bool parsed = false;

  void run(const Json::Value& doc, const std::string& ref, size_t cap) {
    try {
      typename T::Errors container(cap);
      T::read(doc, ref, &graph, &container);
      dump_errors(errors, container);
      parsed = container.empty();
      if (parsed) write(written, T::write(graph));
    } catch (const std::exception& err) {
      threw = err.what();
    }
  }
};

// looks for side effects of parsing and writing
template <class T>
void pure(std::string& out, const Json::Value& doc, const std::string& ref, size_t cap) {
  std::vector<std::string> problems;
  std::string before, after;
  write(before, doc);
  Outcome<T> first;
  first.run(doc, ref, cap);
  write(after, doc);
  if (after != before) problems.push_back("the document was changed by parsing");
  std::string want;
  if (first.parsed) T::content(want, first.graph);
  Outcome<T> others[4];
  std::vector<std::thread> threads;
  for (auto& other : others) {
    threads.emplace_back([&]() { other.run(doc, ref, cap); });
  }
  for (auto& thread : threads) thread.join();
  for (const auto& other : others) {
    std::string got;
    if (other.parsed) T::content(got, other.graph);
    if (other.errors != first.errors || other.written != first.written ||
        other.threw != first.threw || got != want) {
      problems.push_back("another outcome at the same time: " + other.errors + other.threw + got +
                         other.written + " in place of " + first.errors + first.threw + want +
                         first.written);
    }
  }
  if (first.parsed && first.threw.empty()) {
    std::string got;
    write(got, T::write(first.graph));
    if (got != first.written) {
      problems.push_back("another document: " + got + " in place of " + first.written);
    }
    got.clear();
    T::content(got, first.graph);
    if (got != want) {
      problems.push_back("the graph was changed by serializing it: " + got + " in place of " + want);
    }
  }
  out += '[';
  for (size_t i = 0; i < problems.size(); ++i) {
    if (i > 0) out += ',';
    quote(out, problems[i]);
  }
  out += ']';
}

template <class T>
void handle(std::string& out, const Json::Value& request) {
  using Graph = typename T::Graph;
  using Errors = typename T::Errors;
  const std::string op = request["op"].asString();
  const std::string ref = request["ref"].asString();
  const Json::Value& doc = request["doc"];
  if (op == "contract") {
    // the errors must be given and empty
    Graph graph;
    out += ",\"null\":";
    try {
      T::read(doc, ref, &graph, nullptr);
      out += "\"accepted\"";
    } catch (const std::invalid_argument&) {
      out += "\"invalid_argument\"";
    }
    Errors errors(10);
    errors.add("x", "y");
    out += ",\"filled\":";
    try {
      T::read(doc, ref, &graph, &errors);
      out += "\"accepted\"";
    } catch (const std::invalid_argument&) {
      out += "\"invalid_argument\"";
    }
    out += ",\"after\":";
    dump_errors(out, errors);
    return;
  }
  if (op == "pure") {
    out += ",\"problems\":";
    pure<T>(out, doc, ref, static_cast<size_t>(request["cap"].asInt64()));
    return;
  }
  Graph graph;
  Errors errors(static_cast<size_t>(request["cap"].asInt64()));
  const char* stage = "parse";
  try {
    T::read(doc, ref, &graph, &errors);
    out += ",\"errors\":";
    dump_errors(out, errors);
    out += ",\"empty\":";
    out += errors.empty() ? "true" : "false";
    out += ",\"full\":";
    out += errors.full() ? "true" : "false";
    if (!errors.empty()) return;
    std::string part;
    T::content(part, graph);
    out += ",\"content\":" + part;
    if (request["write"].asBool()) {
      stage = "serialize";
      const Json::Value written = T::write(graph);
      part.clear();
      write(part, written);
      out += ",\"written\":" + part;
      stage = "parse again";
      Graph again;
      Errors errors2(1000);
      T::read(written, ref, &again, &errors2);
      out += ",\"errors2\":";
      dump_errors(out, errors2);
      if (errors2.empty()) {
        part.clear();
        T::content(part, again);
        out += ",\"content2\":" + part;
      }
    }
    if (request.isMember("foreign")) {
      const Json::Value& args = request["foreign"];
      if (T::foreign(&graph, args[0].asInt64(), args[1].asInt64(), args[2].asBool(),
                     args[3].asString())) {
        stage = "serialize foreign";
        out += ",\"foreign\":";
        try {
          const Json::Value written = T::write(graph);
          part.clear();
          write(part, written);
          out += part;
        } catch (const std::invalid_argument&) {
          out += "\"invalid_argument\"";
        }
      }
    }
  } catch (const std::exception& err) {
    out = "{\"n\":0,\"threw\":";
    quote(out, typeid(err).name());
    out += ",\"stage\":";
    quote(out, stage);
    out += ",\"what\":";
    quote(out, err.what());
  }
}

inline int run() {
  std::string line;
  while (std::getline(std::cin, line)) {
    Json::Value request = Reader(line).read();
    std::string out = "{\"n\":" + std::to_string(request["n"].asInt64());
    auto it = handlers().find(static_cast<int>(request["case"].asInt64()));
    if (it == handlers().end()) {
      out += ",\"unknown\":true";
    } else {
      it->second(out, request);
    }
    out += "}";
    std::cout << out << std::endl;
  }
  return 0;
}

}  // namespace mv
