#pragma once
#include <memory>
#include <string>
#include <vector>
#include "yacl/link/context.h"
namespace yacl::link::test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id,
                                                 size_t world_size);
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) {
  return SetupWorld("w", n);
}
}  // namespace yacl::link::test
