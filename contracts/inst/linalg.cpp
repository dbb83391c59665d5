// forces the inline virtual members of these classes to be emitted (the text compiled is that of the headers in /repo)
#include "IpDenseVector.hpp"
namespace ipv_inst
{
void* densevectorspace() { return new Ipopt::DenseVectorSpace(1); }
}
#include "IpMatrix.hpp"
namespace ipv_inst
{
void amax(const Ipopt::Matrix& m, Ipopt::Vector& v) { m.ComputeRowAMax(v, false); m.ComputeColAMax(v, false); }
}
