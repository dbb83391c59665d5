// forces the inline members of these classes to be emitted (the text compiled is that of the headers in /repo)
#include "IpTransposeMatrix.hpp"
#include "IpCompoundMatrix.hpp"
#include "IpCompoundSymMatrix.hpp"
#include "IpScaledMatrix.hpp"
#include "IpSymScaledMatrix.hpp"
#include "IpDiagMatrix.hpp"
#include "IpIdentityMatrix.hpp"
#include "IpSumMatrix.hpp"
namespace ipv_inst
{
void* ts(const Ipopt::MatrixSpace* s) { return (new Ipopt::TransposeMatrixSpace(s))->MakeNew(); }
void amax(const Ipopt::Matrix& m, Ipopt::Vector& v) { m.ComputeRowAMax(v, false); m.ComputeColAMax(v, false); }
}
