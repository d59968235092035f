#include "cameras_common.hpp"
void omniA() { all<OmniProjection<NoDistortion>>("omni", "none"); all<OmniProjection<RadialTangentialDistortion>>("omni", "radtan"); }
