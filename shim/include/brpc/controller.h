#pragma once
#include "brpc/brpc_shim.h"
