// a class for each interface TSymLinearSolver talks to, so that the positions of the interface methods are known (bodies are never used)
#include "IpTSymLinearSolver.hpp"
#include "IpTripletToCSRConverter.hpp"
namespace ipv_ts
{
using namespace Ipopt;
class Solver: public SparseSymLinearSolverInterface
{
public:
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus InitializeStructure(Index, Index, const Index*, const Index*) { return SYMSOLVER_SUCCESS; }
   Number* GetValuesArrayPtr() { return 0; }
   ESymSolverStatus MultiSolve(bool, const Index*, const Index*, Index, Number*, bool, Index) { return SYMSOLVER_SUCCESS; }
   Index NumberOfNegEVals() const { return 0; }
   bool IncreaseQuality() { return true; }
   bool ProvidesInertia() const { return true; }
   EMatrixFormat MatrixFormat() const { return Triplet_Format; }
};
class Scaling: public TSymScalingMethod
{
public:
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool ComputeSymTScalingFactors(Index, Index, const Index*, const Index*, const Number*, Number*) { return true; }
};
void make(void** p)
{
   p[0] = new Solver;
   p[1] = new Scaling;
}
void use(const TripletToCSRConverter* c, const SymMatrix* A, int* r)
{
   r[0] = *c->IA();
   r[1] = *c->JA();
   r[2] = A->HasChanged(A->GetTag());
}
}
