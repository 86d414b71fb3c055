#pragma once
#include <memory>
#include <string_view>
#include "yacl/link/context.h"
namespace yacl::link {
Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView input,
                 size_t root, std::string_view tag);
}
