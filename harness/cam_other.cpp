#include "cameras_common.hpp"
void other() { all<ExtendedUnifiedProjection<NoDistortion>>("eucm", "none"); all<DoubleSphereProjection<NoDistortion>>("ds", "none"); }
