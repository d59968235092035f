#include "cameras_common.hpp"
void pinholeA() { all<PinholeProjection<NoDistortion>>("pinhole", "none"); all<PinholeProjection<RadialTangentialDistortion>>("pinhole", "radtan"); }
