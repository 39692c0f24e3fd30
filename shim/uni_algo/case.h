#pragma once
#include "impl_icu.h"
