#include "vp_vtk.hpp"
