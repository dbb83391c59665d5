// irdump: dump LLVM IR of one bitcode file as JSON for the ipv deductive verifier.
// It adds nothing and drops only: metadata other than class layouts and line numbers, attributes
// other than sret/byval, and fast-math/alignment/nsw flags.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
using namespace llvm;
typedef json::Array JA;
typedef json::Object JO;
typedef json::Value JV;

static const DataLayout* DL;

static std::string ty(Type* t)
{
   std::string s;
   raw_string_ostream o(s);
   if( t->isStructTy() )
   {
      o << "{";
      StructType* st = cast<StructType>(t);
      for( unsigned i = 0; i < st->getNumElements(); i++ )
      {
         if( i ) o << ",";
         o << ty(st->getElementType(i));
      }
      o << "}";
   }
   else if( t->isArrayTy() )
      o << "[" << t->getArrayNumElements() << "x" << ty(t->getArrayElementType()) << "]";
   else
      t->print(o);
   return o.str();
}

static std::map<const Value*, int> ids;

static std::string fstr(const APFloat& f0)
{
   APFloat f(f0);
   if( f.isNaN() ) return "nan";
   if( f.isInfinity() ) return f.isNegative() ? "-inf" : "inf";
   SmallString<40> b;
   bool li;
   f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
   char buf[64];
   snprintf(buf, sizeof buf, "%a", f.convertToDouble());
   return buf;
}

static JV cst(const Constant* c);

static JV val(const Value* v)
{
   if( const Constant* c = dyn_cast<Constant>(v) )
      return cst(c);
   if( isa<MetadataAsValue>(v) || isa<InlineAsm>(v) )
      return JA{"x", "meta"};
   if( isa<BasicBlock>(v) )
      return JA{"b", ids[v]};
   return JA{"v", ids[v]};
}

static JV cst(const Constant* c)
{
   if( const ConstantInt* i = dyn_cast<ConstantInt>(c) )
   {
      SmallString<40> s;
      i->getValue().toString(s, 10, i->getBitWidth() > 1);
      return JA{"i", (int64_t) i->getBitWidth(), s.str().str()};
   }
   if( const ConstantFP* f = dyn_cast<ConstantFP>(c) )
      return JA{"f", fstr(f->getValueAPF())};
   if( isa<ConstantPointerNull>(c) )
      return JA{"n"};
   if( isa<UndefValue>(c) )
      return JA{"u", ty(c->getType())};
   if( isa<GlobalValue>(c) )
   {
      if( const GlobalAlias* a = dyn_cast<GlobalAlias>(c) )
         return cst(a->getAliasee());
      return JA{"g", c->getName().str()};
   }
   if( isa<ConstantAggregateZero>(c) )
      return JA{"z", ty(c->getType()), (int64_t) DL->getTypeAllocSize(c->getType())};
   if( const ConstantDataArray* d = dyn_cast<ConstantDataArray>(c) )
   {
      if( d->isString() )
         return JA{"s", json::fixUTF8(d->getAsString())};
      JA e;
      for( unsigned i = 0; i < d->getNumElements(); i++ )
         e.push_back(cst(d->getElementAsConstant(i)));
      return JA{"a", (int64_t) DL->getTypeAllocSize(d->getElementType()), std::move(e)};
   }
   if( const ConstantArray* d = dyn_cast<ConstantArray>(c) )
   {
      JA e;
      for( unsigned i = 0; i < d->getNumOperands(); i++ )
         e.push_back(cst(cast<Constant>(d->getOperand(i))));
      return JA{"a", (int64_t) DL->getTypeAllocSize(d->getType()->getElementType()), std::move(e)};
   }
   if( const ConstantStruct* d = dyn_cast<ConstantStruct>(c) )
   {
      JA e;
      const StructLayout* sl = DL->getStructLayout(d->getType());
      for( unsigned i = 0; i < d->getNumOperands(); i++ )
         e.push_back(JA{(int64_t) sl->getElementOffset(i), cst(d->getOperand(i))});
      return JA{"st", std::move(e)};
   }
   if( const GEPOperator* g = dyn_cast<GEPOperator>(c) )
   {
      APInt off(64, 0);
      if( g->accumulateConstantOffset(*DL, off) )
         return JA{"gep", cst(cast<Constant>(g->getPointerOperand())), (int64_t) off.getSExtValue()};
   }
   if( const ConstantExpr* e = dyn_cast<ConstantExpr>(c) )
   {
      if( e->isCast() )
         return JA{"cast", e->getOpcodeName(), cst(e->getOperand(0)), ty(e->getType())};
   }
   std::string s;
   raw_string_ostream o(s);
   c->print(o);
   return JA{"x", json::fixUTF8(o.str())};
}

static std::string dname(const DIScope* s)
{
   if( !s ) return "";
   std::string p;
   if( const DIScope* q = s->getScope() )
      if( !isa<DIFile>(q) && !isa<DICompileUnit>(q) )
         p = dname(q);
   std::string n = s->getName().str();
   return p.empty() ? n : p + "::" + n;
}

static std::string tname(const DIType* t)
{
   if( !t ) return "void";
   if( const DIDerivedType* d = dyn_cast<DIDerivedType>(t) )
   {
      switch( d->getTag() )
      {
         case dwarf::DW_TAG_pointer_type: return tname(d->getBaseType()) + "*";
         case dwarf::DW_TAG_reference_type: return tname(d->getBaseType()) + "&";
         case dwarf::DW_TAG_const_type: return "const " + tname(d->getBaseType());
         case dwarf::DW_TAG_typedef: return dname(d);
         default: break;
      }
   }
   if( const DICompositeType* c = dyn_cast<DICompositeType>(t) )
      if( c->getTag() == dwarf::DW_TAG_array_type )
         return tname(c->getBaseType()) + "[]";
   return dname(t);
}

int main(int argc, char** argv)
{
   LLVMContext ctx;
   SMDiagnostic err;
   std::unique_ptr<Module> M = parseIRFile(argv[1], err, ctx);
   if( !M )
   {
      err.print("irdump", errs());
      return 2;
   }
   DL = &M->getDataLayout();
   JO out;
   JO globals;
   for( GlobalVariable& g : M->globals() )
   {
      JO o;
      o["c"] = g.isConstant();
      o["sz"] = (int64_t) DL->getTypeAllocSize(g.getValueType());
      o["t"] = ty(g.getValueType());
      if( g.hasInitializer() )
         o["i"] = cst(g.getInitializer());
      globals[g.getName()] = std::move(o);
   }
   out["globals"] = std::move(globals);
   JO aliases;
   for( GlobalAlias& a : M->aliases() )
      if( const GlobalValue* t = dyn_cast<GlobalValue>(a.getAliasee()) )
         aliases[a.getName()] = t->getName().str();
   out["aliases"] = std::move(aliases);

   JO funcs;
   JO decls;
   for( Function& F : *M )
   {
      std::string dem = demangle(F.getName().str());
      if( F.isDeclaration() )
      {
         decls[F.getName()] = dem;
         continue;
      }
      ids.clear();
      int n = 0;
      JO fo;
      fo["d"] = dem;
      fo["ret"] = ty(F.getReturnType());
      fo["internal"] = F.hasInternalLinkage();
      if( DISubprogram* sp = F.getSubprogram() )
      {
         fo["line"] = (int64_t) sp->getLine();
         fo["file"] = sp->getFilename().str();
      }
      JA args;
      for( Argument& a : F.args() )
      {
         ids[&a] = n++;
         JO ao;
         ao["id"] = ids[&a];
         ao["n"] = a.getName().str();
         ao["t"] = ty(a.getType());
         if( a.hasStructRetAttr() ) ao["sret"] = true;
         if( a.hasByValAttr() ) ao["byval"] = true;
         args.push_back(std::move(ao));
      }
      fo["args"] = std::move(args);
      int bn = 0;
      for( BasicBlock& B : F )
      {
         ids[&B] = bn++;
         for( Instruction& I : B )
            if( !I.getType()->isVoidTy() )
               ids[&I] = n++;
      }
      JA blocks;
      for( BasicBlock& B : F )
      {
         JA ins;
         for( Instruction& I : B )
         {
            JO o;
            if( DbgVariableIntrinsic* d = dyn_cast<DbgVariableIntrinsic>(&I) )
            {
               Value* v = d->getNumVariableLocationOps() == 1 ? d->getVariableLocationOp(0) : nullptr;
               if( v && !isa<Constant>(v) && d->getVariable() && ids.count(v) )
               {
                  o["o"] = "dbg";
                  o["n"] = d->getVariable()->getName().str();
                  o["a"] = JA{val(v)};
                  ins.push_back(std::move(o));
               }
               continue;
            }
            if( isa<DbgInfoIntrinsic>(&I) )
               continue;
            o["o"] = I.getOpcodeName();
            if( !I.getType()->isVoidTy() )
               o["r"] = ids[&I];
            o["t"] = ty(I.getType());
            if( I.getDebugLoc() )
               o["l"] = (int64_t) I.getDebugLoc().getLine();
            if( GetElementPtrInst* g = dyn_cast<GetElementPtrInst>(&I) )
            {
               MapVector<Value*, APInt> vo;
               APInt co(64, 0);
               o["a"] = JA{val(g->getPointerOperand())};
               if( cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co) )
               {
                  o["c"] = (int64_t) co.getSExtValue();
                  JA vs;
                  for( auto& p : vo )
                     vs.push_back(JA{val(p.first), (int64_t) p.second.getSExtValue()});
                  o["v"] = std::move(vs);
               }
               else
                  o["bad"] = true;
            }
            else if( PHINode* p = dyn_cast<PHINode>(&I) )
            {
               JA in;
               for( unsigned i = 0; i < p->getNumIncomingValues(); i++ )
                  in.push_back(JA{ids[p->getIncomingBlock(i)], val(p->getIncomingValue(i))});
               o["in"] = std::move(in);
            }
            else if( BranchInst* b = dyn_cast<BranchInst>(&I) )
            {
               JA s;
               for( unsigned i = 0; i < b->getNumSuccessors(); i++ )
                  s.push_back(ids[b->getSuccessor(i)]);
               o["s"] = std::move(s);
               if( b->isConditional() )
                  o["a"] = JA{val(b->getCondition())};
            }
            else if( SwitchInst* s = dyn_cast<SwitchInst>(&I) )
            {
               o["a"] = JA{val(s->getCondition())};
               o["def"] = ids[s->getDefaultDest()];
               JA cs;
               for( auto& c : s->cases() )
                  cs.push_back(JA{val(c.getCaseValue()), ids[c.getCaseSuccessor()]});
               o["cases"] = std::move(cs);
            }
            else if( CallBase* c = dyn_cast<CallBase>(&I) )
            {
               Value* cv = c->getCalledOperand()->stripPointerCasts();
               if( GlobalAlias* al = dyn_cast<GlobalAlias>(cv) )
                  cv = al->getAliasee()->stripPointerCasts();
               if( Function* f = dyn_cast<Function>(cv) )
               {
                  if( f->getName().starts_with("llvm.lifetime") || f->getName().starts_with("llvm.experimental.noalias") )
                     continue;
                  o["f"] = f->getName().str();
               }
               else
                  o["fp"] = val(cv);
               JA as;
               for( Value* a : c->args() )
                  as.push_back(val(a));
               o["a"] = std::move(as);
               if( InvokeInst* iv = dyn_cast<InvokeInst>(c) )
               {
                  o["nd"] = ids[iv->getNormalDest()];
                  o["ud"] = ids[iv->getUnwindDest()];
               }
            }
            else if( LandingPadInst* lp = dyn_cast<LandingPadInst>(&I) )
            {
               JA cl;
               for( unsigned i = 0; i < lp->getNumClauses(); i++ )
                  cl.push_back(JA{lp->isCatch(i), cst(lp->getClause(i))});
               o["cl"] = std::move(cl);
               o["cleanup"] = lp->isCleanup();
            }
            else
            {
               JA as;
               for( Value* a : I.operands() )
                  as.push_back(val(a));
               o["a"] = std::move(as);
               if( CmpInst* c = dyn_cast<CmpInst>(&I) )
                  o["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
               if( AllocaInst* al = dyn_cast<AllocaInst>(&I) )
               {
                  o["at"] = ty(al->getAllocatedType());
                  o["sz"] = (int64_t) DL->getTypeAllocSize(al->getAllocatedType());
               }
               if( ExtractValueInst* e = dyn_cast<ExtractValueInst>(&I) )
               {
                  JA ix;
                  for( unsigned i : e->indices() ) ix.push_back((int64_t) i);
                  o["ix"] = std::move(ix);
               }
               if( InsertValueInst* e = dyn_cast<InsertValueInst>(&I) )
               {
                  JA ix;
                  for( unsigned i : e->indices() ) ix.push_back((int64_t) i);
                  o["ix"] = std::move(ix);
               }
               if( CastInst* ci = dyn_cast<CastInst>(&I) )
                  o["st"] = ty(ci->getSrcTy());
               if( ICmpInst* ci = dyn_cast<ICmpInst>(&I) )
                  o["st"] = ty(ci->getOperand(0)->getType());
               if( StoreInst* si = dyn_cast<StoreInst>(&I) )
                  o["st"] = ty(si->getValueOperand()->getType());
            }
            ins.push_back(std::move(o));
         }
         blocks.push_back(std::move(ins));
      }
      fo["b"] = std::move(blocks);
      DominatorTree dt(F);
      LoopInfo li(dt);
      JA loops;
      SmallVector<Loop*, 8> ls = li.getLoopsInPreorder();
      for( Loop* L : ls )
      {
         JO lo;
         lo["h"] = ids[L->getHeader()];
         JA bs;
         for( BasicBlock* b : L->blocks() ) bs.push_back(ids[b]);
         lo["bs"] = std::move(bs);
         lo["d"] = (int64_t) L->getLoopDepth();
         loops.push_back(std::move(lo));
      }
      fo["loops"] = std::move(loops);
      funcs[F.getName()] = std::move(fo);
   }
   out["funcs"] = std::move(funcs);
   out["decls"] = std::move(decls);

   // class layouts from debug info
   JO classes;
   DebugInfoFinder fnd;
   fnd.processModule(*M);
   for( DIType* t : fnd.types() )
   {
      DICompositeType* c = dyn_cast<DICompositeType>(t);
      if( !c || c->isForwardDecl() ) continue;
      if( c->getTag() == dwarf::DW_TAG_enumeration_type )
      {
         JO e;
         for( DINode* d : c->getElements() )
            if( DIEnumerator* en = dyn_cast<DIEnumerator>(d) )
               e[json::fixUTF8(en->getName())] = (int64_t) en->getValue().getSExtValue();
         JO co;
         co["enum"] = std::move(e);
         classes[json::fixUTF8(dname(c))] = std::move(co);
         continue;
      }
      if( c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type ) continue;
      JA bases, members, virt;
      for( DINode* d : c->getElements() )
      {
         if( DISubprogram* sp = dyn_cast<DISubprogram>(d) )
         {
            if( sp->getVirtuality() && !sp->getLinkageName().empty() )
               virt.push_back(JA{(int64_t) sp->getVirtualIndex(), json::fixUTF8(sp->getLinkageName()), json::fixUTF8(demangle(sp->getLinkageName().str()))});
            continue;
         }
         DIDerivedType* m = dyn_cast<DIDerivedType>(d);
         if( !m ) continue;
         if( m->getTag() == dwarf::DW_TAG_inheritance )
            bases.push_back(JA{tname(m->getBaseType()), (int64_t) m->getOffsetInBits() / 8, m->isVirtual()});
         else if( m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember() )
            members.push_back(JA{json::fixUTF8(m->getName()), (int64_t) m->getOffsetInBits() / 8, (int64_t) m->getSizeInBits() / 8, json::fixUTF8(tname(m->getBaseType()))});
      }
      JO co;
      co["sz"] = (int64_t) c->getSizeInBits() / 8;
      co["b"] = std::move(bases);
      co["m"] = std::move(members);
      if( !virt.empty() ) co["v"] = std::move(virt);
      classes[json::fixUTF8(dname(c))] = std::move(co);
   }
   out["classes"] = std::move(classes);
   outs() << JV(std::move(out)) << "\n";
   return 0;
}
