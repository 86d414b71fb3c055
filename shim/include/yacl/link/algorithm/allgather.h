#pragma once
#include <memory>
#include <string_view>
#include <vector>
#include "yacl/link/context.h"
namespace yacl::link {
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx,
                              ByteContainerView input, std::string_view tag);
}
