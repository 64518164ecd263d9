#include <spatialops/structured/FVStaggeredFieldTypes.h>
using namespace SpatialOps::structured;
double use(SVolField::const_iterator& it) { return it[1]; }
