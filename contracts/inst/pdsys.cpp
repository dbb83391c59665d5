// a class for each interface the primal-dual system solvers talk to, so that the positions of the interface methods are known (bodies are never used)
#include "IpPDFullSpaceSolver.hpp"
#include "IpStdAugSystemSolver.hpp"
#include "IpOrigIpoptNLP.hpp"
namespace ipv_pd
{
using namespace Ipopt;
class Lin: public SymLinearSolver
{
public:
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus MultiSolve(const SymMatrix&, std::vector<SmartPtr<const Vector> >&, std::vector<SmartPtr<Vector> >&, bool, Index) { return SYMSOLVER_SUCCESS; }
   Index NumberOfNegEVals() const { return 0; }
   bool IncreaseQuality() { return true; }
   bool ProvidesInertia() const { return true; }
};
class Aug: public AugSystemSolver
{
public:
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus Solve(const SymMatrix*, Number, const Vector*, Number, const Vector*, Number, const Matrix*, const Vector*, Number, const Matrix*, const Vector*, Number, const Vector&, const Vector&, const Vector&, const Vector&, Vector&, Vector&, Vector&, Vector&, bool, Index) { return SYMSOLVER_SUCCESS; }
   Index NumberOfNegEVals() const { return 0; }
   bool IncreaseQuality() { return true; }
   bool ProvidesInertia() const { return true; }
};
void make(void** p)
{
   p[0] = new Lin;
   p[1] = new Aug;
}
}
