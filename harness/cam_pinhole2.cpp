#include "cameras_common.hpp"
void pinholeB() { all<PinholeProjection<EquidistantDistortion>>("pinhole", "equi"); all<PinholeProjection<FovDistortion>>("pinhole", "fov"); }
