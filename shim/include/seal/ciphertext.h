#pragma once
#include "seal/context.h"
