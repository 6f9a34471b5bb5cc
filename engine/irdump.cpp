// Dumps LLVM bitcode modules as JSON for the static analyses in /verif/engine.
// usage: irdump OUT.json IN1.bc IN2.bc ...
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array;
using json::Object;

static std::string tyStr(Type* T) {
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return os.str();
}

struct Dumper {
  Module& M;
  const DataLayout& DL;
  std::map<const Value*, int> ids;
  std::map<const BasicBlock*, int> bids;
  Dumper(Module& m) : M(m), DL(m.getDataLayout()) {}

  json::Value constant(const Constant* C) {
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
      if (ci->getBitWidth() <= 64)
        return Array{"c", ci->getSExtValue(), (int64_t)ci->getBitWidth()};
      return Array{"?", "bigint"};
    }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
      SmallString<40> s;
      if (cf->getType()->isDoubleTy() || cf->getType()->isFloatTy()) {
        double d = cf->getType()->isDoubleTy() ? cf->getValueAPF().convertToDouble()
                                               : cf->getValueAPF().convertToFloat();
        char buf[64];
        snprintf(buf, sizeof buf, "%a", d);
        return Array{"f", std::string(buf)};
      }
      return Array{"?", "fp"};
    }
    if (isa<ConstantPointerNull>(C)) return Array{"n"};
    if (isa<UndefValue>(C)) return Array{"u"};
    if (isa<ConstantAggregateZero>(C)) return Array{"z"};
    if (C->getType()->isPointerTy()) {
      APInt off(DL.getIndexTypeSizeInBits(C->getType()), 0);
      const Value* b = C->stripAndAccumulateConstantOffsets(DL, off, true);
      if (auto* gv = dyn_cast<GlobalValue>(b))
        return Array{"g", gv->getName().str(), off.getSExtValue()};
    }
    if (auto* cv = dyn_cast<ConstantVector>(C)) {
      Array a{"vec"};
      for (unsigned i = 0; i < cv->getNumOperands(); i++)
        a.push_back(constant(cv->getOperand(i)));
      return a;
    }
    if (auto* cd = dyn_cast<ConstantDataVector>(C)) {
      Array a{"vec"};
      for (unsigned i = 0; i < cd->getNumElements(); i++)
        a.push_back(constant(cd->getElementAsConstant(i)));
      return a;
    }
    std::string s;
    raw_string_ostream os(s);
    C->print(os);
    return Array{"?", os.str()};
  }
  json::Value operand(const Value* V) {
    if (auto* bb = dyn_cast<BasicBlock>(V)) return Array{"b", bids[bb]};
    if (auto* a = dyn_cast<Argument>(V)) return Array{"a", (int)a->getArgNo()};
    if (auto* c = dyn_cast<Constant>(V)) return constant(c);
    auto it = ids.find(V);
    if (it != ids.end()) return Array{"v", it->second};
    return Array{"?", "md"};
  }
  void flatten(const Constant* C, uint64_t off, Array& out) {
    Type* T = C->getType();
    if (isa<ConstantAggregateZero>(C)) {
      out.push_back(Array{(int64_t)off, (int64_t)DL.getTypeAllocSize(T), Array{"z"}});
      return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(C)) {
      auto* SL = DL.getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); i++)
        flatten(cs->getOperand(i), off + SL->getElementOffset(i), out);
      return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(C)) {
      uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++)
        flatten(ca->getOperand(i), off + i * es, out);
      return;
    }
    if (auto* cd = dyn_cast<ConstantDataArray>(C)) {
      uint64_t es = DL.getTypeAllocSize(cd->getElementType());
      if (cd->getNumElements() > 4096) return;
      for (unsigned i = 0; i < cd->getNumElements(); i++)
        flatten(cd->getElementAsConstant(i), off + i * es, out);
      return;
    }
    out.push_back(Array{(int64_t)off, (int64_t)DL.getTypeAllocSize(T), constant(C)});
  }
  Object instr(const Instruction& I) {
    Object o;
    o["id"] = ids[&I];
    o["op"] = I.getOpcodeName();
    o["ty"] = tyStr(I.getType());
    if (const DebugLoc& dl = I.getDebugLoc()) {
      auto* sc = cast<DIScope>(dl.getScope());
      o["loc"] = Array{sc->getFilename().str(), (int64_t)dl.getLine()};
    }
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
      MapVector<Value*, APInt> vo;
      APInt co(DL.getIndexTypeSizeInBits(g->getType()), 0);
      o["op"] = "gep";
      if (!g->getType()->isVectorTy() &&
          cast<GEPOperator>(g)->collectOffset(DL, co.getBitWidth(), vo, co)) {
        o["base"] = operand(g->getPointerOperand());
        o["off"] = co.getSExtValue();
        Array idx;
        for (auto& p : vo)
          idx.push_back(Array{operand(p.first), p.second.getSExtValue(),
                              (int64_t)p.first->getType()->getIntegerBitWidth()});
        o["idx"] = std::move(idx);
      }
      o["inb"] = g->isInBounds();
      return o;
    }
    if (auto* a = dyn_cast<AllocaInst>(&I)) {
      auto sz = a->getAllocationSize(DL);
      o["size"] = sz ? (int64_t)sz->getFixedValue() : (int64_t)-1;
      o["aty"] = tyStr(a->getAllocatedType());
      o["align"] = (int64_t)a->getAlign().value();
      return o;
    }
    if (auto* p = dyn_cast<PHINode>(&I)) {
      Array inc;
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
        inc.push_back(Array{bids[p->getIncomingBlock(i)], operand(p->getIncomingValue(i))});
      o["inc"] = std::move(inc);
      return o;
    }
    if (auto* c = dyn_cast<CallBase>(&I)) {
      o["op"] = "call";
      const Value* cal = c->getCalledOperand()->stripPointerCasts();
      if (isa<InlineAsm>(cal)) o["callee"] = Array{"?", "asm"};
      else o["callee"] = operand(cal);
      Array args;
      Array bv;
      for (unsigned i = 0; i < c->arg_size(); i++) {
        args.push_back(operand(c->getArgOperand(i)));
        if (c->isByValArgument(i))
          bv.push_back(Array{(int)i, (int64_t)DL.getTypeAllocSize(c->getParamByValType(i))});
      }
      o["ops"] = std::move(args);
      if (!bv.empty()) o["byval"] = std::move(bv);
      if (c->doesNotReturn()) o["noreturn"] = true;
      Array at;
      for (unsigned i = 0; i < c->arg_size(); i++)
        at.push_back(tyStr(c->getArgOperand(i)->getType()));
      o["aty"] = std::move(at);
      if (c->hasOperandBundles()) {
        Array ob;
        for (unsigned i = 0; i < c->getNumOperandBundles(); i++) {
          auto b = c->getOperandBundleAt(i);
          Array x{b.getTagName().str()};
          for (auto& u : b.Inputs) x.push_back(operand(u.get()));
          ob.push_back(std::move(x));
        }
        o["bundles"] = std::move(ob);
      }
      return o;
    }
    Array ops;
    for (const Use& u : I.operands()) ops.push_back(operand(u.get()));
    o["ops"] = std::move(ops);
    if (auto* c = dyn_cast<CmpInst>(&I)) {
      o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
      o["oty"] = tyStr(c->getOperand(0)->getType());
    }
    if (auto* l = dyn_cast<LoadInst>(&I)) o["size"] = (int64_t)DL.getTypeStoreSize(l->getType());
    if (auto* s = dyn_cast<StoreInst>(&I)) {
      o["size"] = (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType());
      o["vty"] = tyStr(s->getValueOperand()->getType());
    }
    if (auto* r = dyn_cast<AtomicRMWInst>(&I)) {
      o["size"] = (int64_t)DL.getTypeStoreSize(r->getValOperand()->getType());
      o["vty"] = tyStr(r->getValOperand()->getType());
      o["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str();
    }
    if (auto* c = dyn_cast<CastInst>(&I)) o["sty"] = tyStr(c->getSrcTy());
    if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
      Array x;
      for (unsigned i : e->indices()) x.push_back((int64_t)i);
      o["index"] = std::move(x);
    }
    if (auto* e = dyn_cast<InsertValueInst>(&I)) {
      Array x;
      for (unsigned i : e->indices()) x.push_back((int64_t)i);
      o["index"] = std::move(x);
    }
    if (auto* b = dyn_cast<OverflowingBinaryOperator>(&I)) {
      if (b->hasNoSignedWrap()) o["nsw"] = true;
    }
    if (auto* s = dyn_cast<SwitchInst>(&I)) {
      Array cs;
      for (auto& c : s->cases())
        cs.push_back(Array{c.getCaseValue()->getSExtValue(), bids[c.getCaseSuccessor()]});
      o["cases"] = std::move(cs);
      o["default"] = bids[s->getDefaultDest()];
    }
    return o;
  }
  Object function(const Function& F) {
    Object o;
    ids.clear();
    bids.clear();
    o["internal"] = F.hasLocalLinkage();
    o["decl"] = F.isDeclaration();
    o["ret"] = tyStr(F.getReturnType());
    o["vararg"] = F.isVarArg();
    o["noreturn"] = F.doesNotReturn();
    if (auto* sp = F.getSubprogram()) {
      o["file"] = sp->getFilename().str();
      o["dir"] = sp->getDirectory().str();
      o["line"] = (int64_t)sp->getLine();
      o["dbg"] = sp->getName().str();
    }
    Array args;
    for (auto& a : F.args()) {
      Object x;
      x["name"] = a.getName().str();
      x["ty"] = tyStr(a.getType());
      if (a.hasByValAttr()) x["byval"] = (int64_t)DL.getTypeAllocSize(a.getParamByValType());
      if (a.hasStructRetAttr()) x["sret"] = (int64_t)DL.getTypeAllocSize(a.getParamStructRetType());
      if (a.hasNoAliasAttr()) x["noalias"] = true;
      args.push_back(std::move(x));
    }
    o["args"] = std::move(args);
    int n = 0, b = 0;
    for (auto& BB : F) {
      bids[&BB] = b++;
      for (auto& I : BB) ids[&I] = n++;
    }
    Array blocks;
    for (auto& BB : F) {
      Array insts;
      for (auto& I : BB) {
        if (isa<DbgInfoIntrinsic>(&I)) {
          // keep variable names: value -> source variable
          if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
            if (dv->getNumVariableLocationOps() == 1 && dv->getVariableLocationOp(0)) {
              Object x;
              x["op"] = isa<DbgDeclareInst>(&I) ? "dbgdeclare" : "dbgvalue";
              x["id"] = ids[&I];
              x["val"] = operand(dv->getVariableLocationOp(0));
              x["var"] = dv->getVariable()->getName().str();
              insts.push_back(std::move(x));
            }
          }
          continue;
        }
        insts.push_back(instr(I));
      }
      blocks.push_back(std::move(insts));
    }
    o["blocks"] = std::move(blocks);
    return o;
  }
  Object types() {
    Object o;
    DebugInfoFinder f;
    f.processModule(M);
    auto add = [&](const std::string& nm, const DICompositeType* ct) {
      Array mem;
      for (auto* e : ct->getElements())
        if (auto* d = dyn_cast_or_null<DIDerivedType>(e))
          if (d->getTag() == dwarf::DW_TAG_member) {
            std::string bt;
            DIType* t = d->getBaseType();
            int depth = 0;
            while (t && depth++ < 8) {
              if (auto* dt = dyn_cast<DIDerivedType>(t)) {
                if (dt->getTag() == dwarf::DW_TAG_pointer_type) {
                  bt += "*";
                  t = dt->getBaseType();
                  continue;
                }
                if (!dt->getName().empty()) {
                  bt += dt->getName().str();
                  break;
                }
                t = dt->getBaseType();
                continue;
              }
              bt += t->getName().str();
              if (isa<DISubroutineType>(t)) bt += "fn";
              break;
            }
            mem.push_back(Array{(int64_t)(d->getOffsetInBits() / 8),
                                (int64_t)(d->getSizeInBits() / 8), d->getName().str(), bt});
          }
      Object x;
      x["size"] = (int64_t)(ct->getSizeInBits() / 8);
      x["members"] = std::move(mem);
      o[std::string(nm)] = std::move(x);
    };
    for (auto* t : f.types()) {
      if (auto* ct = dyn_cast<DICompositeType>(t)) {
        if (ct->getTag() == dwarf::DW_TAG_structure_type && !ct->getName().empty())
          add(ct->getName().str(), ct);
      } else if (auto* dt = dyn_cast<DIDerivedType>(t)) {
        if (dt->getTag() == dwarf::DW_TAG_typedef)
          if (auto* ct = dyn_cast_or_null<DICompositeType>(dt->getBaseType()))
            if (ct->getTag() == dwarf::DW_TAG_structure_type) add(dt->getName().str(), ct);
      }
    }
    return o;
  }
  Object module() {
    Object o;
    o["source"] = M.getSourceFileName();
    Object fs, gs;
    for (auto& F : M) {
      if (F.getName().starts_with("llvm.dbg")) continue;
      fs[F.getName().str()] = function(F);
    }
    for (auto& G : M.globals()) {
      Object g;
      g["internal"] = G.hasLocalLinkage();
      g["const"] = G.isConstant();
      g["decl"] = G.isDeclaration();
      g["ty"] = tyStr(G.getValueType());
      g["size"] = G.getValueType()->isSized() ? (int64_t)DL.getTypeAllocSize(G.getValueType()) : -1;
      g["align"] = G.getAlign() ? (int64_t)G.getAlign()->value() : (int64_t)1;
      if (G.hasInitializer()) {
        if (auto* cd = dyn_cast<ConstantDataArray>(G.getInitializer()); cd && cd->isString())
          g["str"] = json::fixUTF8(cd->isCString() ? cd->getAsCString() : cd->getAsString());
        else {
          Array a;
          flatten(G.getInitializer(), 0, a);
          g["init"] = std::move(a);
        }
      }
      SmallVector<DIGlobalVariableExpression*, 2> gves;
      G.getDebugInfo(gves);
      if (!gves.empty()) {
        g["dbg"] = gves[0]->getVariable()->getName().str();
        g["file"] = gves[0]->getVariable()->getFilename().str();
        g["line"] = (int64_t)gves[0]->getVariable()->getLine();
      }
      gs[G.getName().str()] = std::move(g);
    }
    o["functions"] = std::move(fs);
    o["globals"] = std::move(gs);
    o["types"] = types();
    return o;
  }
};

int main(int argc, char** argv) {
  std::error_code ec;
  raw_fd_ostream os(argv[1], ec);
  if (ec) return 2;
  os << "[";
  for (int i = 2; i < argc; i++) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[i], err, ctx);
    if (!M) {
      err.print(argv[0], errs());
      return 2;
    }
    Dumper d(*M);
    if (i > 2) os << ",";
    os << json::Value(d.module());
  }
  os << "]";
  return 0;
}
