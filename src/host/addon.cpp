// The host's table as a node addon: call(name, json arguments) -> json text.
#define NAPI_VERSION 8
#include <node/node_api.h>

#include <string>

extern "C" const char* host_call(const char* name, const char* args);

static std::string text(napi_env env, napi_value v) {
  size_t n = 0;
  napi_get_value_string_utf8(env, v, nullptr, 0, &n);
  std::string s(n + 1, 0);
  napi_get_value_string_utf8(env, v, s.data(), n + 1, &n);
  s.resize(n);
  return s;
}
static napi_value call(napi_env env, napi_callback_info info) {
  size_t n = 2;
  napi_value a[2], r;
  napi_get_cb_info(env, info, &n, a, nullptr, nullptr);
  napi_create_string_utf8(env, host_call(text(env, a[0]).c_str(), text(env, a[1]).c_str()), NAPI_AUTO_LENGTH, &r);
  return r;
}
NAPI_MODULE_INIT() {
  napi_value f;
  napi_create_function(env, "call", NAPI_AUTO_LENGTH, call, nullptr, &f);
  napi_set_named_property(env, exports, "call", f);
  return exports;
}
