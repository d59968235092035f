#include "cameras_common.hpp"
void omniB() { all<OmniProjection<EquidistantDistortion>>("omni", "equi"); all<OmniProjection<FovDistortion>>("omni", "fov"); }
