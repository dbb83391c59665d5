// forces the inline members of CompoundVector and CompoundVectorSpace to be emitted (the text compiled is that of the headers in /repo)
#include "IpCompoundVector.hpp"
namespace ipv_inst
{
void* cvspace() { return new Ipopt::CompoundVectorSpace(1, 1); }
Ipopt::SmartPtr<Ipopt::Vector> gnc(Ipopt::CompoundVector& v) { return v.GetCompNonConst(0); }
bool isn(Ipopt::CompoundVector& v) { return v.IsCompNull(0) || v.IsCompConst(0); }
}
