// Generic part of the C++ driver: dumping of values and running of jobs.
#pragma once
#include <json/json.h>

#include <chrono>
#include <csignal>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <unistd.h>
#include <vector>

#ifdef MAPRY_DATE
#include <date/date.h>
#include <date/tz.h>
#endif

namespace drv {
inline void quote(const std::string& s, std::string& o) { Json::Value::quote(s, o); }

struct Ctx {
  // object -> (class, key)
  std::map<const void*, std::pair<std::string, std::string>> ptrs;
};

inline void dump(const Ctx&, bool v, std::string& o) { o += v ? "true" : "false"; }
inline void dump(const Ctx&, int64_t v, std::string& o) { o += "{\"n\":\"" + std::to_string(v) + "\"}"; }
inline void dump(const Ctx&, double v, std::string& o) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  o += std::string("{\"n\":\"") + b + "\"}";
}
inline void dump(const Ctx&, const std::string& v, std::string& o) { o += "{\"s\":"; quote(v, o); o += "}"; }
inline void dump(const Ctx&, const struct tm& t, std::string& o) {
  o += "{\"tm\":[" + std::to_string(t.tm_year + 1900) + "," + std::to_string(t.tm_mon + 1) + "," +
       std::to_string(t.tm_mday) + "," + std::to_string(t.tm_hour) + "," + std::to_string(t.tm_min) +
       "," + std::to_string(t.tm_sec) + ",0," + std::to_string(t.tm_gmtoff / 60) + "]}";
}
#ifdef MAPRY_DATE
inline std::string ymd(date::local_days t) {
  date::year_month_day d{t};
  return std::to_string((int)d.year()) + "," + std::to_string((unsigned)d.month()) + "," + std::to_string((unsigned)d.day());
}
inline std::string hms(std::chrono::seconds t) {
  return std::to_string(t.count() / 3600) + "," + std::to_string(t.count() / 60 % 60) + "," + std::to_string(t.count() % 60);
}
inline void dump(const Ctx&, const date::local_days& t, std::string& o) { o += "{\"tm\":[" + ymd(t) + ",0,0,0,0,0]}"; }
inline void dump(const Ctx&, const date::local_seconds& t, std::string& o) {
  auto d = date::floor<date::days>(t);
  o += "{\"tm\":[" + ymd(d) + "," + hms(t - d) + ",0,0]}";
}
inline void dump(const Ctx&, const date::time_of_day<std::chrono::seconds>& t, std::string& o) {
  o += "{\"tm\":[1970,1,1," + hms(t.to_duration()) + ",0,0]}";
}
inline void dump(const Ctx&, const date::time_zone* const & z, std::string& o) {
  if (z == nullptr) { o += "{\"x\":\"no zone\"}"; return; }
  o += "{\"z\":"; quote(z->name(), o); o += "}";
}
#endif
inline void dump(const Ctx&, const std::chrono::nanoseconds& d, std::string& o) {
  o += "{\"u\":\"" + std::to_string(d.count()) + "\"}";
}
inline void dump_path(const std::string& v, std::string& o) { o += "{\"p\":"; quote(v, o); o += "}"; }
inline void dump_ref(const Ctx& c, const void* p, std::string& o) {
  auto it = c.ptrs.find(p);
  if (it == c.ptrs.end()) { o += "{\"r\":null}"; return; }
  o += "{\"r\":["; quote(it->second.first, o); o += ","; quote(it->second.second, o); o += "]}";
}

// Building of native values from descriptions (see lib/hist.py).
struct Heap { std::map<int, void*> obj; };
inline void build(Heap&, const Json::Value& v, bool* o) { *o = v.asBool(); }
inline void build(Heap&, const Json::Value& v, int64_t* o) { *o = std::stoll(v["n"].asString()); }
inline void build(Heap&, const Json::Value& v, double* o) { *o = std::strtod(v["n"].asString().c_str(), nullptr); }
inline void build(Heap&, const Json::Value& v, std::string* o) {
  *o = v.isMember("s") ? v["s"].asString() : v.isMember("z") ? v["z"].asString() : v["p"].asString();
}
inline void build(Heap&, const Json::Value& v, struct tm* o) {
  const Json::Value& q = v["tm"];
  *o = tm{};
  o->tm_year = q[0].asInt() - 1900; o->tm_mon = q[1].asInt() - 1; o->tm_mday = q[2].asInt();
  o->tm_hour = q[3].asInt(); o->tm_min = q[4].asInt(); o->tm_sec = q[5].asInt();
  o->tm_gmtoff = q[7].isNull() ? 0 : q[7].asInt() * 60;
  // the day of the week and of the year
  struct tm copy = *o; copy.tm_gmtoff = 0; time_t x = timegm(&copy); struct tm norm; gmtime_r(&x, &norm);
  o->tm_wday = norm.tm_wday; o->tm_yday = norm.tm_yday;
}
#ifdef MAPRY_DATE
inline date::local_days days_of(const Json::Value& q) {
  return date::local_days{date::year{q[0].asInt()} / q[1].asInt() / q[2].asInt()};
}
inline std::chrono::seconds secs_of(const Json::Value& q) {
  return std::chrono::seconds(q[3].asInt() * 3600 + q[4].asInt() * 60 + q[5].asInt());
}
inline void build(Heap&, const Json::Value& v, date::local_days* o) { *o = days_of(v["tm"]); }
inline void build(Heap&, const Json::Value& v, date::local_seconds* o) { *o = days_of(v["tm"]) + secs_of(v["tm"]); }
inline void build(Heap&, const Json::Value& v, date::time_of_day<std::chrono::seconds>* o) { *o = date::make_time(secs_of(v["tm"])); }
inline void build(Heap&, const Json::Value& v, const date::time_zone** o) { *o = date::locate_zone(v["z"].asString()); }
#endif
inline void build(Heap&, const Json::Value& v, std::chrono::nanoseconds* o) {
  *o = std::chrono::nanoseconds(std::stoll(v["u"].asString()));
}
template <class P> auto build(Heap&, const Json::Value& v, P* o) -> decltype(o->parent_path(), void()) { *o = P(v["p"].asString()); }
template <class T> void build(Heap& h, const Json::Value& v, std::vector<T>* o) {
  o->clear();
  for (unsigned i = 0; i < v.size(); ++i) { T x{}; build(h, v[i], &x); o->push_back(x); }
}
template <class T> void build(Heap& h, const Json::Value& v, std::map<std::string, T>* o) {
  o->clear();
  const Json::Value& m = v["m"];
  for (unsigned i = 0; i < m.size(); ++i) { T x{}; build(h, m[i][1], &x); (*o)[m[i][0].asString()] = x; }
}

inline void no_nulls(Json::Value& v) {
  if (v.isNull()) v = Json::Value(Json::objectValue);
  else if (v.isObject()) for (const auto& n : v.getMemberNames()) no_nulls(v[n]);
  else if (v.isArray()) for (int i = 0; i < (int)v.size(); ++i) no_nulls(v[i]);
}

struct Err { std::string ref, msg; };
struct Run {
  std::vector<Err> errs;
  std::string graph, ser;
  std::vector<std::string> notes;
};
typedef std::function<Run(const Json::Value&, const std::string&, size_t)> Fn;
inline std::map<std::string, Fn>& table() { static std::map<std::string, Fn> t; return t; }
struct Reg { Reg(const char* n, Fn f) { table()[n] = f; } };
typedef std::function<std::string(const Json::Value&, const std::string&)> HistFn;
inline std::map<std::string, HistFn>& hists() { static std::map<std::string, HistFn> t; return t; }
struct HistReg { HistReg(const char* n, HistFn f) { hists()[n] = f; } };

inline std::string run(const Json::Value& job) {
  std::string o = "{";
  try {
    if (job.isMember("H")) {
      auto ht = hists().find(job["S"].asString());
      if (ht == hists().end()) return "{\"noload\":\"not compiled\"}";
      return "{\"outs\":" + ht->second(job["H"], job["R"].asString()) + "}";
    }
    auto it = table().find(job["S"].asString());
    if (it == table().end()) return "{\"noload\":\"not compiled\"}";
    Json::Value doc = Json::Value::parse(job["D"].asString());
    Run r = it->second(doc, job["R"].asString(), (size_t)job["C"].asInt64());
    o += "\"errs\":[";
    bool first = true;
    for (auto& e : r.errs) {
      if (!first) o += ",";
      first = false;
      o += "["; quote(e.ref, o); o += ","; quote(e.msg, o); o += "]";
    }
    o += "],\"notes\":[";
    first = true;
    for (auto& n : r.notes) { if (!first) o += ","; first = false; quote(n, o); }
    o += "]";
    if (!r.graph.empty()) o += ",\"graph\":" + r.graph;
    if (!r.ser.empty()) o += ",\"ser\":" + r.ser;
    return o + "}";
  } catch (const std::exception& e) {
    std::string q = "{\"crash\":";
    quote(std::string("exception: ") + e.what(), q);
    return q + "}";
  }
}

inline int drive(int argc, char** argv) {
  // arguments: jobs file, output file (appended), first job to run
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2], std::ios::app);
  size_t skip = argc > 3 ? std::stoul(argv[3]) : 0, n = 0;
  std::string line;
  while (std::getline(in, line)) {
    if (n++ < skip) continue;
    alarm(10);
    out << run(Json::Value::parse(line)) << "\n" << std::flush;
  }
  return 0;
}
}  // namespace drv
