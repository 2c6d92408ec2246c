// Stand-in for pboettch/json-schema-validator: the part of JSON schema draft 7 that rtbot's schemas may use.
// A keyword it does not know makes set_root_schema throw, so that nothing is accepted silently.
#pragma once
#include <cmath>
#include <functional>
#include <nlohmann/json.hpp>
#include <regex>
#include <set>
#include <stdexcept>
#include <string>

namespace nlohmann {
class json_uri {
 public:
  std::string s;
  json_uri(const std::string& x = "") : s(x) {}
};

namespace json_schema {
using schema_loader = std::function<void(const json_uri&, json&)>;
using format_checker = std::function<void(const std::string&, const std::string&)>;
using content_checker = std::function<void(const std::string&, const std::string&, const json&)>;

inline void default_string_format_check(const std::string& format, const std::string& value) {
  auto two = [&](size_t i) { return (value[i] - '0') * 10 + (value[i + 1] - '0'); };
  if (format == "date") {
    static const std::regex re("[0-9]{4}-[0-9]{2}-[0-9]{2}");
    if (!std::regex_match(value, re)) throw std::invalid_argument(value + " is not a date string according to RFC 3339.");
    int y = std::stoi(value.substr(0, 4)), m = two(5), d = two(8);
    bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
    int days[] = {31, leap ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (m < 1 || m > 12 || d < 1 || d > days[m - 1]) throw std::out_of_range(value + " is not a date");
    return;
  }
  throw std::logic_error("Don't know how to validate " + format);
}

class error_handler {
 public:
  virtual ~error_handler() {}
  virtual void error(const json::json_pointer&, const json&, const std::string&) = 0;
};
class basic_error_handler : public error_handler {
  bool error_ = false;

 public:
  void error(const json::json_pointer&, const json&, const std::string&) override { error_ = true; }
  virtual void reset() { error_ = false; }
  operator bool() const { return error_; }
};

class json_validator {
  json root;
  format_checker check;

  struct Bad {
    json::json_pointer at;
    json what;
    std::string why;
  };

  static void known(const json& s) {
    if (s.is_boolean()) return;
    if (!s.is_object()) throw std::invalid_argument("invalid JSON-type for a schema, expected: boolean or object");
    static const std::set<std::string> k = {"type", "properties", "required", "items", "oneOf", "anyOf", "allOf", "enum", "const",
      "patternProperties", "additionalProperties", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minItems",
      "maxItems", "minLength", "maxLength", "minProperties", "uniqueItems", "format", "$id", "$schema", "title", "description",
      "default", "examples", "not", "pattern", "multipleOf"};
    for (auto& [key, v] : s.items()) {
      if (!k.count(key)) throw std::invalid_argument("stand-in validator: unsupported keyword " + key);
      if (key == "properties" || key == "patternProperties")
        for (auto& [name, sub] : v.items()) known(sub);
      if (key == "items") {
        if (v.is_array())
          for (auto& sub : v) known(sub);
        else
          known(v);
      }
      if (key == "oneOf" || key == "anyOf" || key == "allOf")
        for (auto& sub : v) known(sub);
      if (key == "additionalProperties" || key == "not") known(v);
    }
  }

  static bool is(const json& v, const std::string& t) {
    if (t == "integer") return v.is_number_integer() || (v.is_number_float() && std::floor(v.get<double>()) == v.get<double>());
    if (t == "number") return v.is_number();
    if (t == "string") return v.is_string();
    if (t == "boolean") return v.is_boolean();
    if (t == "array") return v.is_array();
    if (t == "object") return v.is_object();
    if (t == "null") return v.is_null();
    return false;
  }

  // what is wrong and where; only kept when somebody asks
  bool go(const json& s, const json& v, Bad* out) const {
    auto bad = [&](const std::string& why) {
      if (out) {
        out->what = v;
        out->why = why;
      }
      return false;
    };
    auto inside = [&](const json& sub, const json& x, const auto& key) {
      if (go(sub, x, out)) return true;
      if (out) out->at = (json::json_pointer() / key) / out->at;
      return false;
    };
    if (s.is_boolean()) return s.get<bool>() ? true : bad("instance invalid as per false-schema");
    auto has = [&](const char* k) {
      auto i = s.find(k);
      return i == s.end() ? nullptr : &*i;
    };
    if (auto* t = has("type")) {
      bool ok = false;
      if (t->is_array())
        for (auto& x : *t) ok = ok || is(v, x.get_ref<const std::string&>());
      else
        ok = is(v, t->get_ref<const std::string&>());
      if (!ok) return bad("unexpected instance type");
    }
    if (auto* e = has("enum")) {
      bool ok = false;
      for (auto& x : *e) ok = ok || x == v;
      if (!ok) return bad("instance not found in required enum");
    }
    if (auto* e = has("const"))
      if (*e != v) return bad("instance not const");
    if (auto* e = has("oneOf")) {
      int n = 0;
      for (auto& x : *e) n += go(x, v, nullptr);
      if (n != 1) return bad(n ? "more than one subschema has succeeded, but exactly one of them is required to validate"
                               : "no subschema has succeeded, but one of them is required to validate");
    }
    if (auto* e = has("anyOf")) {
      int n = 0;
      for (auto& x : *e) n += go(x, v, nullptr);
      if (!n) return bad("no subschema has succeeded, but one of them is required to validate");
    }
    if (auto* e = has("allOf"))
      for (auto& x : *e)
        if (!go(x, v, out)) return false;
    if (auto* e = has("not"))
      if (go(*e, v, nullptr)) return bad("the subschema has succeeded, but it is required to not validate");
    if (v.is_number()) {
      double x = v.get<double>();
      if (auto* e = has("minimum"))
        if (x < e->get<double>()) return bad("instance is below minimum of " + e->dump());
      if (auto* e = has("maximum"))
        if (x > e->get<double>()) return bad("instance exceeds maximum of " + e->dump());
      if (auto* e = has("exclusiveMinimum"))
        if (x <= e->get<double>()) return bad("instance is below or equals minimum of " + e->dump());
      if (auto* e = has("exclusiveMaximum"))
        if (x >= e->get<double>()) return bad("instance exceeds or equals maximum of " + e->dump());
      if (auto* e = has("multipleOf"))
        if (std::remainder(x, e->get<double>()) != 0) return bad("instance is not a multiple of " + e->dump());
    }
    if (v.is_string()) {
      auto& x = v.get_ref<const std::string&>();
      if (auto* e = has("minLength"))
        if (x.size() < e->get<size_t>()) return bad("instance is too short");
      if (auto* e = has("maxLength"))
        if (x.size() > e->get<size_t>()) return bad("instance is too long");
      if (auto* e = has("pattern"))
        if (!std::regex_search(x, std::regex(e->get<std::string>()))) return bad("no match for the pattern");
      if (auto* e = has("format")) {
        if (!check) return bad("a format checker was not provided but a format keyword for this string is present");
        try {
          check(e->get<std::string>(), x);
        } catch (const std::exception& err) {
          return bad(std::string("format-checking failed: ") + err.what());
        }
      }
    }
    if (v.is_array()) {
      if (auto* e = has("minItems"))
        if (v.size() < e->get<size_t>()) return bad("array has too few items");
      if (auto* e = has("maxItems"))
        if (v.size() > e->get<size_t>()) return bad("array has too many items");
      if (auto* e = has("uniqueItems"))
        if (e->get<bool>())
          for (size_t i = 0; i < v.size(); i++)
            for (size_t j = 0; j < i; j++)
              if (v[i] == v[j]) return bad("items have to be unique for this array");
      if (auto* e = has("items"))
        for (size_t i = 0; i < v.size(); i++) {
          if (e->is_array() && i >= e->size()) break;
          if (!inside(e->is_array() ? (*e)[i] : *e, v[i], i)) return false;
        }
    }
    if (v.is_object()) {
      if (auto* e = has("minProperties"))
        if (v.size() < e->get<size_t>()) return bad("too few properties");
      if (auto* e = has("required"))
        for (auto& r : *e)
          if (!v.contains(r.get_ref<const std::string&>())) return bad("required property '" + r.get<std::string>() + "' not found in object");
      auto* props = has("properties");
      auto* pats = has("patternProperties");
      auto* more = has("additionalProperties");
      for (auto& [k, x] : v.items()) {
        bool matched = false;
        if (props) {
          auto i = props->find(k);
          if (i != props->end()) {
            matched = true;
            if (!inside(*i, x, k)) return false;
          }
        }
        if (pats)
          for (auto& [re, sub] : pats->items())
            if (std::regex_search(k, std::regex(re))) {
              matched = true;
              if (!inside(sub, x, k)) return false;
            }
        if (!matched && more && !inside(*more, x, k)) return false;
      }
    }
    return true;
  }

 public:
  json_validator(schema_loader = nullptr, format_checker f = nullptr, content_checker = nullptr) : check(std::move(f)) {}
  json_validator(const json& schema, schema_loader = nullptr, format_checker f = nullptr, content_checker = nullptr)
      : check(std::move(f)) {
    set_root_schema(schema);
  }
  void set_root_schema(const json& schema) {
    known(schema);
    root = schema;
  }
  json validate(const json& v) const {
    Bad b;
    if (!go(root, v, &b)) {
      throw std::invalid_argument("At " + b.at.to_string() + " of " + b.what.dump() + " - " + b.why + "\n");
    }
    return json::array();
  }
  json validate(const json& v, error_handler& h, const json_uri& = json_uri("#")) const {
    Bad b;
    if (!go(root, v, &b)) {
      h.error(b.at, b.what, b.why);
    }
    return json::array();
  }
};
}  // namespace json_schema
}  // namespace nlohmann
