// must compile: reducing a stencil expression (plain, sum and average stencils)
#include <spatialops/SpatialOpsConfigure.h>
#include <spatialops/Nebo.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
using namespace SpatialOps; using namespace SpatialOps::structured;
typedef Stencil2Collection<Interpolant, SVolField, SSurfXField>::StPtCollection P;
double probe(const SVolField& f, const NeboStencilBuilder<Interpolant, P, SVolField, SSurfXField>& w, const NeboSumStencilBuilder<P, SVolField, SSurfXField>& s, const NeboAverageStencilBuilder<P, SVolField, SSurfXField>& a) {
  return nebo_sum(w(f)) + nebo_max(s(f)) + nebo_norm_interior(a(f));
}
