#include "host.h"

namespace host {
std::map<std::string, Fn>& table() {
  static std::map<std::string, Fn> t;
  return t;
}
}  // namespace host

// {"ok": result} or {"error": text}; the answer stays valid until the next call
extern "C" const char* host_call(const char* name, const char* args) {
  static std::string answer;
  host::json r;
  try {
    auto i = host::table().find(name);
    if (i == host::table().end()) throw std::out_of_range(std::string("the bindings do not expose ") + name);
    r["ok"] = i->second(host::json::parse(args));
  } catch (const std::exception& e) {
    r = {{"error", e.what()}};
  }
  answer = r.dump(-1, ' ', false, host::json::error_handler_t::replace);
  return answer.c_str();
}
