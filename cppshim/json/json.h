// Stand-in for jsoncpp, which is not installed in the sandbox.
//
// Implements the part of the documented interface of jsoncpp 1.8 which the generated code (and the
// drivers) may use, with its semantics of types and conversions.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace Json {

using Int = int;
using UInt = unsigned int;
using Int64 = int64_t;
using UInt64 = uint64_t;
using LargestInt = Int64;
using LargestUInt = UInt64;
using ArrayIndex = unsigned int;
using String = std::string;

class Exception : public std::exception {
 public:
  explicit Exception(std::string msg) : msg_(std::move(msg)) {}
  char const* what() const noexcept override { return msg_.c_str(); }

 protected:
  std::string msg_;
};
class RuntimeError : public Exception {
 public:
  using Exception::Exception;
};
class LogicError : public Exception {
 public:
  using Exception::Exception;
};

enum ValueType {
  nullValue = 0,
  intValue,
  uintValue,
  realValue,
  stringValue,
  booleanValue,
  arrayValue,
  objectValue
};

class Value;

class ValueIteratorBase {
 public:
  using Map = std::map<std::string, std::shared_ptr<Value>>;
  ValueIteratorBase() = default;
  explicit ValueIteratorBase(Map::const_iterator it) : it_(it), is_map_(true) {}
  ValueIteratorBase(const std::vector<std::shared_ptr<Value>>* items, size_t i)
      : items_(items), i_(i) {}
  bool operator==(const ValueIteratorBase& other) const {
    return is_map_ ? it_ == other.it_ : i_ == other.i_;
  }
  bool operator!=(const ValueIteratorBase& other) const { return !(*this == other); }
  std::string name() const { return is_map_ ? it_->first : std::string(); }
  inline Value key() const;
  UInt index() const { return is_map_ ? static_cast<UInt>(-1) : static_cast<UInt>(i_); }

 protected:
  Value& get() const { return is_map_ ? *it_->second : *(*items_)[i_]; }
  void increment() {
    if (is_map_) {
      ++it_;
    } else {
      ++i_;
    }
  }
  Map::const_iterator it_{};
  const std::vector<std::shared_ptr<Value>>* items_ = nullptr;
  size_t i_ = 0;
  bool is_map_ = false;
};

class ValueConstIterator : public ValueIteratorBase {
 public:
  using value_type = const Value;
  using reference = const Value&;
  using pointer = const Value*;
  using difference_type = int;
  using iterator_category = std::input_iterator_tag;
  using ValueIteratorBase::ValueIteratorBase;
  ValueConstIterator() = default;
  ValueConstIterator(const ValueIteratorBase& other) : ValueIteratorBase(other) {}
  const Value& operator*() const { return get(); }
  const Value* operator->() const { return &get(); }
  ValueConstIterator& operator++() {
    increment();
    return *this;
  }
  ValueConstIterator operator++(int) {
    ValueConstIterator old(*this);
    increment();
    return old;
  }
};

class ValueIterator : public ValueIteratorBase {
 public:
  using value_type = Value;
  using reference = Value&;
  using pointer = Value*;
  using difference_type = int;
  using iterator_category = std::input_iterator_tag;
  using ValueIteratorBase::ValueIteratorBase;
  ValueIterator() = default;
  Value& operator*() const { return get(); }
  Value* operator->() const { return &get(); }
  ValueIterator& operator++() {
    increment();
    return *this;
  }
  ValueIterator operator++(int) {
    ValueIterator old(*this);
    increment();
    return old;
  }
};

class Value {
 public:
  using Members = std::vector<std::string>;
  using iterator = ValueIterator;
  using const_iterator = ValueConstIterator;
  using Int = Json::Int;
  using UInt = Json::UInt;
  using Int64 = Json::Int64;
  using UInt64 = Json::UInt64;
  using ArrayIndex = Json::ArrayIndex;

  Value(ValueType type = nullValue) : type_(type) {}
  Value(Int value) : type_(intValue), int_(value) {}
  Value(UInt value) : type_(uintValue), uint_(value) {}
  Value(long value) : type_(intValue), int_(value) {}
  Value(unsigned long value) : type_(uintValue), uint_(value) {}
  Value(long long value) : type_(intValue), int_(value) {}
  Value(unsigned long long value) : type_(uintValue), uint_(value) {}
  Value(double value) : type_(realValue), real_(value) {}
  Value(const char* value) : type_(stringValue), string_(value) {}
  Value(const char* begin, const char* end) : type_(stringValue), string_(begin, end) {}
  Value(const std::string& value) : type_(stringValue), string_(value) {}
  Value(bool value) : type_(booleanValue), bool_(value) {}
  Value(std::nullptr_t) = delete;
  Value(const Value& other) { copy(other); }
  Value(Value&& other) noexcept { swap(other); }
  Value& operator=(const Value& other) {
    Value tmp(other);
    swap(tmp);
    return *this;
  }
  Value& operator=(Value&& other) noexcept {
    swap(other);
    return *this;
  }
  void swap(Value& other) noexcept {
    std::swap(type_, other.type_);
    std::swap(int_, other.int_);
    std::swap(uint_, other.uint_);
    std::swap(real_, other.real_);
    std::swap(bool_, other.bool_);
    string_.swap(other.string_);
    items_.swap(other.items_);
    members_.swap(other.members_);
  }

  ValueType type() const { return type_; }

  bool isNull() const { return type_ == nullValue; }
  bool isBool() const { return type_ == booleanValue; }
  bool isInt() const {
    return isInt64() && asLargest() >= INT32_MIN && asLargest() <= INT32_MAX;
  }
  bool isInt64() const {
    switch (type_) {
      case intValue:
        return true;
      case uintValue:
        return uint_ <= static_cast<uint64_t>(INT64_MAX);
      case realValue:
        return real_ >= -9223372036854775808.0 && real_ < 9223372036854775808.0 && whole();
      default:
        return false;
    }
  }
  bool isUInt() const {
    return isInt64() && asLargest() >= 0 && asLargest() <= UINT32_MAX;
  }
  bool isUInt64() const {
    switch (type_) {
      case intValue:
        return int_ >= 0;
      case uintValue:
        return true;
      case realValue:
        return real_ >= 0 && real_ < 18446744073709551616.0 && whole();
      default:
        return false;
    }
  }
  bool isIntegral() const { return isInt64() || isUInt64(); }
  bool isDouble() const {
    return type_ == intValue || type_ == uintValue || type_ == realValue;
  }
  bool isNumeric() const { return isDouble(); }
  bool isString() const { return type_ == stringValue; }
  bool isArray() const { return type_ == arrayValue; }
  bool isObject() const { return type_ == objectValue; }

  bool asBool() const {
    switch (type_) {
      case booleanValue:
        return bool_;
      case nullValue:
        return false;
      case intValue:
        return int_ != 0;
      case uintValue:
        return uint_ != 0;
      case realValue:
        return real_ != 0 && !std::isnan(real_);
      default:
        throw LogicError("Value is not convertible to bool.");
    }
  }
  Int64 asInt64() const {
    switch (type_) {
      case intValue:
        return int_;
      case uintValue:
        if (!isInt64()) throw LogicError("LargestUInt out of Int64 range");
        return static_cast<Int64>(uint_);
      case realValue:
        if (!(real_ >= -9223372036854775808.0 && real_ < 9223372036854775808.0)) {
          throw LogicError("double out of Int64 range");
        }
        return static_cast<Int64>(real_);
      case nullValue:
        return 0;
      case booleanValue:
        return bool_ ? 1 : 0;
      default:
        throw LogicError("Value is not convertible to Int64.");
    }
  }
  LargestInt asLargestInt() const { return asInt64(); }
  Int asInt() const {
    if (type_ == nullValue) return 0;
    if (type_ == booleanValue) return bool_;
    if (type_ == realValue ? !(real_ >= INT32_MIN && real_ <= INT32_MAX) : !isInt()) {
      throw LogicError("Value is not convertible to Int.");
    }
    return static_cast<Int>(asInt64());
  }
  UInt64 asUInt64() const {
    switch (type_) {
      case uintValue:
        return uint_;
      case intValue:
        if (int_ < 0) throw LogicError("LargestInt out of UInt64 range");
        return static_cast<UInt64>(int_);
      case realValue:
        if (!(real_ >= 0 && real_ < 18446744073709551616.0)) {
          throw LogicError("double out of UInt64 range");
        }
        return static_cast<UInt64>(real_);
      case nullValue:
        return 0;
      case booleanValue:
        return bool_ ? 1 : 0;
      default:
        throw LogicError("Value is not convertible to UInt64.");
    }
  }
  double asDouble() const {
    switch (type_) {
      case intValue:
        return static_cast<double>(int_);
      case uintValue:
        return static_cast<double>(uint_);
      case realValue:
        return real_;
      case nullValue:
        return 0.0;
      case booleanValue:
        return bool_ ? 1.0 : 0.0;
      default:
        throw LogicError("Value is not convertible to double.");
    }
  }
  float asFloat() const { return static_cast<float>(asDouble()); }
  std::string asString() const {
    switch (type_) {
      case nullValue:
        return "";
      case stringValue:
        return string_;
      case booleanValue:
        return bool_ ? "true" : "false";
      case intValue:
        return std::to_string(int_);
      case uintValue:
        return std::to_string(uint_);
      case realValue: {
        char buf[64];
        std::snprintf(buf, sizeof buf, "%.17g", real_);
        return buf;
      }
      default:
        throw LogicError("Type is not convertible to string");
    }
  }
  const char* asCString() const {
    if (type_ != stringValue) throw LogicError("in Json::Value::asCString(): requires stringValue");
    return string_.c_str();
  }
  bool getString(char const** begin, char const** end) const {
    if (type_ != stringValue) return false;
    *begin = string_.data();
    *end = *begin + string_.size();
    return true;
  }

  ArrayIndex size() const {
    if (type_ == arrayValue) return static_cast<ArrayIndex>(items_.size());
    if (type_ == objectValue) return static_cast<ArrayIndex>(members_.size());
    return 0;
  }
  bool empty() const {
    return (type_ == nullValue || type_ == arrayValue || type_ == objectValue) && size() == 0;
  }
  explicit operator bool() const { return !isNull(); }

  bool isMember(const std::string& key) const { return find(key) != nullptr; }
  bool isMember(const char* key) const { return find(key) != nullptr; }
  bool isMember(const char* begin, const char* end) const {
    return find(std::string(begin, end)) != nullptr;
  }

  const Value& operator[](const std::string& key) const {
    const Value* found = find(key);
    return found == nullptr ? nullSingleton() : *found;
  }
  const Value& operator[](const char* key) const { return (*this)[std::string(key)]; }
  Value& operator[](const std::string& key) {
    if (type_ == nullValue) type_ = objectValue;
    if (type_ != objectValue) {
      throw LogicError("in Json::Value::resolveReference(): requires objectValue");
    }
    auto& slot = members_[key];
    if (!slot) slot = std::make_shared<Value>();
    return *slot;
  }
  Value& operator[](const char* key) { return (*this)[std::string(key)]; }
  const Value& operator[](ArrayIndex i) const {
    if (type_ != nullValue && type_ != arrayValue) {
      throw LogicError("in Json::Value::operator[](ArrayIndex)const: requires arrayValue");
    }
    return i < items_.size() ? *items_[i] : nullSingleton();
  }
  const Value& operator[](int i) const { return (*this)[static_cast<ArrayIndex>(i)]; }
  Value& operator[](ArrayIndex i) {
    if (type_ == nullValue) type_ = arrayValue;
    if (type_ != arrayValue) {
      throw LogicError("in Json::Value::operator[](ArrayIndex): requires arrayValue");
    }
    while (items_.size() <= i) items_.push_back(std::make_shared<Value>());
    return *items_[i];
  }
  Value& operator[](int i) { return (*this)[static_cast<ArrayIndex>(i)]; }
  Value get(const std::string& key, const Value& other) const {
    const Value* found = find(key);
    return found == nullptr ? other : *found;
  }
  const Value* find(const std::string& key) const {
    if (type_ == nullValue) return nullptr;
    if (type_ != objectValue) {
      throw LogicError("in Json::Value::find(key, end, found): requires objectValue or nullValue");
    }
    auto it = members_.find(key);
    return it == members_.end() ? nullptr : it->second.get();
  }
  Value& append(const Value& value) { return (*this)[size()] = value; }
  void resize(ArrayIndex n) {
    if (type_ == nullValue) type_ = arrayValue;
    if (type_ != arrayValue) throw LogicError("in Json::Value::resize(): requires arrayValue");
    while (items_.size() < n) items_.push_back(std::make_shared<Value>());
    items_.resize(n);
  }
  Members getMemberNames() const {
    Members names;
    for (const auto& kv : members_) names.push_back(kv.first);
    return names;
  }

  const_iterator begin() const {
    if (type_ == objectValue) return const_iterator(members_.begin());
    return const_iterator(&items_, 0);
  }
  const_iterator end() const {
    if (type_ == objectValue) return const_iterator(members_.end());
    return const_iterator(&items_, items_.size());
  }
  iterator begin() {
    if (type_ == objectValue) return iterator(members_.begin());
    return iterator(&items_, 0);
  }
  iterator end() {
    if (type_ == objectValue) return iterator(members_.end());
    return iterator(&items_, items_.size());
  }

  static const Value& nullSingleton() {
    static const Value value;
    return value;
  }

 private:
  bool whole() const {
    double part;
    return std::modf(real_, &part) == 0.0;
  }
  Int64 asLargest() const { return asInt64(); }
  void copy(const Value& other) {
    type_ = other.type_;
    int_ = other.int_;
    uint_ = other.uint_;
    real_ = other.real_;
    bool_ = other.bool_;
    string_ = other.string_;
    for (const auto& item : other.items_) items_.push_back(std::make_shared<Value>(*item));
    for (const auto& kv : other.members_) members_[kv.first] = std::make_shared<Value>(*kv.second);
  }

  ValueType type_ = nullValue;
  Int64 int_ = 0;
  UInt64 uint_ = 0;
  double real_ = 0.0;
  bool bool_ = false;
  std::string string_;
  std::vector<std::shared_ptr<Value>> items_;
  std::map<std::string, std::shared_ptr<Value>> members_;
};

inline Value ValueIteratorBase::key() const {
  if (is_map_) return Value(it_->first);
  return Value(index());
}

}  // namespace Json
