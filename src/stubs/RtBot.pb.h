// Stand-in for the generated protobuf header.
#pragma once
#include <string>
namespace rtbot { namespace api { namespace proto {
struct Input {
  std::string DebugString() const { return ""; }
};
}}}
