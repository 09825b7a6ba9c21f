#pragma once
#include "evmc.h"
