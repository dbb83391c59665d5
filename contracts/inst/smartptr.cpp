// instantiates the templates of IpSmartPtr.hpp for an object class and a derived class (the text compiled is that of the header in /repo)
#include "IpSmartPtr.hpp"
namespace ipv_sp
{
struct Obj : public Ipopt::ReferencedObject
{
   int x;
   virtual ~Obj();
};
struct Der : public Obj
{
   int y;
   virtual ~Der();
};
Obj::~Obj() { }
Der::~Der() { }
}
template class Ipopt::SmartPtr<ipv_sp::Obj>;
template class Ipopt::SmartPtr<const ipv_sp::Obj>;
template Ipopt::SmartPtr<ipv_sp::Obj>::SmartPtr(const Ipopt::SmartPtr<ipv_sp::Der>&);
template Ipopt::SmartPtr<ipv_sp::Obj>& Ipopt::SmartPtr<ipv_sp::Obj>::operator=(const Ipopt::SmartPtr<ipv_sp::Der>&);
template ipv_sp::Obj* Ipopt::GetRawPtr(const Ipopt::SmartPtr<ipv_sp::Obj>&);
template Ipopt::SmartPtr<const ipv_sp::Obj> Ipopt::ConstPtr(const Ipopt::SmartPtr<ipv_sp::Obj>&);
template bool Ipopt::IsValid(const Ipopt::SmartPtr<ipv_sp::Obj>&);
template bool Ipopt::IsNull(const Ipopt::SmartPtr<ipv_sp::Obj>&);
template void Ipopt::swap(Ipopt::SmartPtr<ipv_sp::Obj>&, Ipopt::SmartPtr<ipv_sp::Obj>&);
template bool Ipopt::operator==(const Ipopt::SmartPtr<ipv_sp::Obj>&, const Ipopt::SmartPtr<ipv_sp::Der>&);
template bool Ipopt::operator==(const Ipopt::SmartPtr<ipv_sp::Obj>&, ipv_sp::Obj*);
template bool Ipopt::operator==(ipv_sp::Obj*, const Ipopt::SmartPtr<ipv_sp::Obj>&);
template bool Ipopt::operator!=(const Ipopt::SmartPtr<ipv_sp::Obj>&, const Ipopt::SmartPtr<ipv_sp::Obj>&);
template bool Ipopt::operator!=(const Ipopt::SmartPtr<ipv_sp::Obj>&, ipv_sp::Obj*);
template bool Ipopt::operator!=(ipv_sp::Obj*, const Ipopt::SmartPtr<ipv_sp::Obj>&);
