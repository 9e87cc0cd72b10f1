#pragma once
#include "vp_trilinos.hpp"
