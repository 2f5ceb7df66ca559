// Stand-in for jsoncpp 1.8.4 (not available offline): the part of the
// interface of Json::Value which code generated by mapry uses, with the
// semantics of jsoncpp 1.8.4.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace Json {
typedef int64_t Int64;
typedef uint64_t UInt64;
typedef int64_t LargestInt;
typedef uint64_t LargestUInt;
typedef int Int;
typedef unsigned int UInt;
typedef unsigned int ArrayIndex;
typedef std::string String;
enum ValueType {
  nullValue = 0, intValue, uintValue, realValue, stringValue, booleanValue,
  arrayValue, objectValue
};
class LogicError : public std::runtime_error {
public:
  explicit LogicError(const std::string& s) : std::runtime_error(s) {}
};
class ValueConstIterator;
class Value {
public:
  typedef ValueConstIterator const_iterator;
  typedef std::vector<std::string> Members;
  typedef Json::ArrayIndex ArrayIndex;
  Value(ValueType t = nullValue) : t_(t) {}
  Value(int v) : t_(intValue), i_(v) {}
  Value(unsigned v) : t_(uintValue), u_(v) {}
  Value(int64_t v) : t_(intValue), i_(v) {}
  Value(uint64_t v) : t_(uintValue), u_(v) {}
  Value(double v) : t_(realValue), d_(v) {}
  Value(bool v) : t_(booleanValue), b_(v) {}
  Value(const char* v) : t_(stringValue), s_(v) {}
  Value(const std::string& v) : t_(stringValue), s_(v) {}
  ValueType type() const { return t_; }
  bool isNull() const { return t_ == nullValue; }
  bool isBool() const { return t_ == booleanValue; }
  bool isString() const { return t_ == stringValue; }
  bool isArray() const { return t_ == arrayValue; }
  bool isObject() const { return t_ == objectValue; }
  bool isInt64() const {
    switch (t_) {
      case intValue: return true;
      case uintValue: return u_ <= (uint64_t)INT64_MAX;
      case realValue: {
        double ip;
        return d_ >= -9223372036854775808.0 && d_ < 9223372036854775808.0 && std::modf(d_, &ip) == 0.0;
      }
      default: return false;
    }
  }
  bool isInt() const { return isInt64() && asInt64() >= INT32_MIN && asInt64() <= INT32_MAX; }
  bool isUInt64() const {
    switch (t_) {
      case intValue: return i_ >= 0;
      case uintValue: return true;
      case realValue: {
        double ip;
        return d_ >= 0 && d_ < 18446744073709551616.0 && std::modf(d_, &ip) == 0.0;
      }
      default: return false;
    }
  }
  bool isIntegral() const { return isInt64() || isUInt64(); }
  bool isDouble() const { return t_ == intValue || t_ == uintValue || t_ == realValue; }
  bool isNumeric() const { return isDouble(); }
  int64_t asInt64() const {
    switch (t_) {
      case intValue: return i_;
      case uintValue:
        if (u_ > (uint64_t)INT64_MAX) throw LogicError("LargestUInt out of Int64 range");
        return (int64_t)u_;
      case realValue:
        if (!(d_ >= -9223372036854775808.0 && d_ < 9223372036854775808.0)) throw LogicError("double out of Int64 range");
        return (int64_t)d_;
      case nullValue: return 0;
      case booleanValue: return b_ ? 1 : 0;
      default: throw LogicError("Value is not convertible to Int64.");
    }
  }
  int asInt() const { return (int)asInt64(); }
  double asDouble() const {
    switch (t_) {
      case intValue: return (double)i_;
      case uintValue: return (double)u_;
      case realValue: return d_;
      case nullValue: return 0.0;
      case booleanValue: return b_ ? 1.0 : 0.0;
      default: throw LogicError("Value is not convertible to double.");
    }
  }
  bool asBool() const {
    switch (t_) {
      case booleanValue: return b_;
      case nullValue: return false;
      case intValue: return i_ != 0;
      case uintValue: return u_ != 0;
      case realValue: return d_ != 0.0;
      default: throw LogicError("Value is not convertible to bool.");
    }
  }
  std::string asString() const {
    switch (t_) {
      case nullValue: return "";
      case stringValue: return s_;
      case booleanValue: return b_ ? "true" : "false";
      case intValue: return std::to_string(i_);
      case uintValue: return std::to_string(u_);
      case realValue: return std::to_string(d_);
      default: throw LogicError("Type is not convertible to string");
    }
  }
  const char* asCString() const {
    if (t_ != stringValue) throw LogicError("in Json::Value::asCString(): requires stringValue");
    return s_.c_str();
  }
  ArrayIndex size() const {
    return t_ == arrayValue ? (ArrayIndex)a_.size() : t_ == objectValue ? (ArrayIndex)o_.size() : 0;
  }
  bool empty() const { return t_ == nullValue || ((t_ == arrayValue || t_ == objectValue) && size() == 0); }
  bool isMember(const std::string& k) const {
    if (t_ != nullValue && t_ != objectValue) throw LogicError("in Json::Value::find(key, end, found): requires objectValue or nullValue");
    return t_ == objectValue && o_.count(k) > 0;
  }
  bool isMember(const char* k) const { return isMember(std::string(k)); }
  const Value& operator[](const std::string& k) const {
    if (t_ != nullValue && t_ != objectValue) throw LogicError("in Json::Value::find(key, end, found): requires objectValue or nullValue");
    auto it = o_.find(k);
    return it == o_.end() ? null_() : it->second;
  }
  Value& operator[](const std::string& k) {
    if (t_ == nullValue) t_ = objectValue;
    if (t_ != objectValue) throw LogicError("in Json::Value::resolveReference(key, end): requires objectValue");
    return o_[k];
  }
  const Value& operator[](const char* k) const { return (*this)[std::string(k)]; }
  Value& operator[](const char* k) { return (*this)[std::string(k)]; }
  const Value& operator[](ArrayIndex i) const {
    if (t_ != nullValue && t_ != arrayValue) throw LogicError("in Json::Value::operator[](ArrayIndex)const: requires arrayValue");
    return i < a_.size() ? a_[i] : null_();
  }
  Value& operator[](ArrayIndex i) {
    if (t_ == nullValue) t_ = arrayValue;
    if (t_ != arrayValue) throw LogicError("in Json::Value::operator[](ArrayIndex): requires arrayValue");
    if (i >= a_.size()) a_.resize(i + 1);
    return a_[i];
  }
  const Value& operator[](int i) const { return (*this)[(ArrayIndex)i]; }
  Value& operator[](int i) { return (*this)[(ArrayIndex)i]; }
  const Value& at(const std::string& k) const { return (*this)[k]; }
  Value& append(const Value& v) {
    if (t_ == nullValue) t_ = arrayValue;
    a_.push_back(v);
    return a_.back();
  }
  void resize(ArrayIndex n) {
    if (t_ == nullValue) t_ = arrayValue;
    a_.resize(n);
  }
  Members getMemberNames() const {
    Members m;
    for (auto& p : o_) m.push_back(p.first);
    return m;
  }
  inline ValueConstIterator begin() const;
  inline ValueConstIterator end() const;

  void write(std::string& out) const {
    switch (t_) {
      case nullValue: out += "null"; return;
      case intValue: out += std::to_string(i_); return;
      case uintValue: out += std::to_string(u_); return;
      case realValue: {
        char b[64];
        snprintf(b, sizeof b, "%.17g", d_);
        if (!strpbrk(b, ".eEn")) strcat(b, ".0");
        out += b;
        return;
      }
      case booleanValue: out += b_ ? "true" : "false"; return;
      case stringValue: quote(s_, out); return;
      case arrayValue: {
        out += '[';
        bool first = true;
        for (auto& v : a_) { if (!first) out += ','; first = false; v.write(out); }
        out += ']';
        return;
      }
      case objectValue: {
        out += '{';
        bool first = true;
        for (auto& p : o_) { if (!first) out += ','; first = false; quote(p.first, out); out += ':'; p.second.write(out); }
        out += '}';
        return;
      }
    }
  }
  static void quote(const std::string& s, std::string& out) {
    out += '"';
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
      else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
      else out += (char)c;
    }
    out += '"';
  }
  static Value parse(const std::string& text) {
    const char* p = text.data();
    const char* e = p + text.size();
    Value v;
    v.parse_(p, e);
    ws(p, e);
    if (p != e) throw std::runtime_error("trailing JSON text");
    return v;
  }

private:
  friend class ValueConstIterator;
  static const Value& null_() { static const Value v; return v; }
  static void ws(const char*& p, const char* e) { while (p < e && strchr(" \t\r\n", *p)) ++p; }
  static void utf8(unsigned c, std::string& s) {
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  }
  static unsigned hex4(const char*& p, const char* e) {
    if (e - p < 4) throw std::runtime_error("bad escape");
    unsigned v = (unsigned)std::stoul(std::string(p, 4), nullptr, 16);
    p += 4;
    return v;
  }
  static std::string str(const char*& p, const char* e) {
    std::string s;
    ++p;
    while (p < e && *p != '"') {
      if (*p == '\\') {
        ++p;
        char c = *p++;
        switch (c) {
          case 'n': s += '\n'; break;
          case 't': s += '\t'; break;
          case 'r': s += '\r'; break;
          case 'b': s += '\b'; break;
          case 'f': s += '\f'; break;
          case 'u': {
            unsigned u = hex4(p, e);
            if (u >= 0xD800 && u < 0xDC00 && p + 1 < e && p[0] == '\\' && p[1] == 'u') {
              p += 2;
              u = 0x10000 + ((u - 0xD800) << 10) + (hex4(p, e) - 0xDC00);
            }
            utf8(u, s);
            break;
          }
          default: s += c;
        }
      } else s += *p++;
    }
    if (p >= e) throw std::runtime_error("unterminated JSON string");
    ++p;
    return s;
  }
  void parse_(const char*& p, const char* e) {
    ws(p, e);
    if (p >= e) throw std::runtime_error("unexpected end of JSON");
    if (*p == '{') {
      t_ = objectValue;
      ++p; ws(p, e);
      if (p < e && *p == '}') { ++p; return; }
      while (true) {
        ws(p, e);
        std::string k = str(p, e);
        ws(p, e);
        if (p >= e || *p != ':') throw std::runtime_error("bad JSON object");
        ++p;
        o_[k].parse_(p, e);
        ws(p, e);
        if (p < e && *p == ',') { ++p; continue; }
        if (p < e && *p == '}') { ++p; return; }
        throw std::runtime_error("bad JSON object");
      }
    }
    if (*p == '[') {
      t_ = arrayValue;
      ++p; ws(p, e);
      if (p < e && *p == ']') { ++p; return; }
      while (true) {
        a_.emplace_back();
        a_.back().parse_(p, e);
        ws(p, e);
        if (p < e && *p == ',') { ++p; continue; }
        if (p < e && *p == ']') { ++p; return; }
        throw std::runtime_error("bad JSON array");
      }
    }
    if (*p == '"') { t_ = stringValue; s_ = str(p, e); return; }
    if (!strncmp(p, "true", 4)) { t_ = booleanValue; b_ = true; p += 4; return; }
    if (!strncmp(p, "false", 5)) { t_ = booleanValue; b_ = false; p += 5; return; }
    if (!strncmp(p, "null", 4)) { t_ = nullValue; p += 4; return; }
    const char* q = p;
    bool real = false;
    while (q < e && strchr("+-0123456789.eE", *q)) { if (strchr(".eE", *q)) real = true; ++q; }
    if (q == p) throw std::runtime_error("bad JSON");
    std::string n(p, q);
    p = q;
    if (!real) {
      // as jsoncpp: int64, then uint64, then double
      errno = 0;
      if (n[0] == '-') {
        long long v = strtoll(n.c_str(), nullptr, 10);
        if (errno == 0) { t_ = intValue; i_ = v; return; }
      } else {
        unsigned long long v = strtoull(n.c_str(), nullptr, 10);
        if (errno == 0) {
          if (v <= (unsigned long long)INT64_MAX) { t_ = intValue; i_ = (int64_t)v; }
          else { t_ = uintValue; u_ = v; }
          return;
        }
      }
    }
    t_ = realValue;
    d_ = strtod(n.c_str(), nullptr);
  }
  ValueType t_;
  union { int64_t i_; uint64_t u_; double d_; bool b_; };
  std::string s_;
  std::vector<Value> a_;
  std::map<std::string, Value> o_;
};
class ValueConstIterator {
public:
  ValueConstIterator() : v_(nullptr), i_(0) {}
  ValueConstIterator(const Value* v, bool end) : v_(v), i_(0) {
    if (v->type() == objectValue) it_ = end ? v->o_.end() : v->o_.begin();
    else if (v->type() == arrayValue) i_ = end ? v->a_.size() : 0;
  }
  const Value& operator*() const { return v_->type() == objectValue ? it_->second : v_->a_[i_]; }
  const Value* operator->() const { return &**this; }
  ValueConstIterator& operator++() { if (v_->type() == objectValue) ++it_; else ++i_; return *this; }
  ValueConstIterator operator++(int) { auto c = *this; ++*this; return c; }
  bool operator==(const ValueConstIterator& o) const { return v_->type() == objectValue ? it_ == o.it_ : i_ == o.i_; }
  bool operator!=(const ValueConstIterator& o) const { return !(*this == o); }
  std::string name() const { return v_->type() == objectValue ? it_->first : std::string(); }
  Value key() const { return v_->type() == objectValue ? Value(it_->first) : Value((uint64_t)i_); }
  ArrayIndex index() const { return (ArrayIndex)i_; }
  const char* memberName() const { return it_->first.c_str(); }
private:
  const Value* v_;
  std::map<std::string, Value>::const_iterator it_;
  size_t i_;
};
inline ValueConstIterator Value::begin() const { return ValueConstIterator(this, false); }
inline ValueConstIterator Value::end() const { return ValueConstIterator(this, true); }
inline std::ostream& operator<<(std::ostream& o, const Value& v) { std::string s; v.write(s); return o << s; }
typedef ValueConstIterator ValueIterator_;
}  // namespace Json
