#include "vp_trng.hpp"
