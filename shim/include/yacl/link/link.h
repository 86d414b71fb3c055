#pragma once
#include "yacl/link/algorithm/allgather.h"
#include "yacl/link/algorithm/barrier.h"
#include "yacl/link/algorithm/broadcast.h"
#include "yacl/link/algorithm/gather.h"
#include "yacl/link/context.h"
#include "yacl/link/trace.h"
