// irdump: reads one LLVM bitcode module, writes the resolved program as JSON
// lines for the Python analyses: one line per struct layout, global, function.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object; typedef json::Value JV;

static const DataLayout* DL;
static std::map<const llvm::Value*, int> ids;

static std::string tyStr(Type* t) {
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isPointerTy()) return "ptr";
  if (t->isFloatTy()) return "float";
  if (t->isDoubleTy()) return "double";
  if (t->isX86_FP80Ty()) return "x86_fp80";
  if (t->isVoidTy()) return "void";
  if (t->isSized()) return "agg" + std::to_string((uint64_t) DL->getTypeAllocSize(t));
  return "other";
}

static JV opv(const llvm::Value* v);

static JV gepParts(const GEPOperator* g) {
  Object o;
  APInt off(DL->getIndexTypeSizeInBits(g->getType()), 0);
  MapVector<llvm::Value*, APInt> vars;
  o["op"] = "gep";
  o["base"] = opv(g->getPointerOperand());
  if (g->collectOffset(*DL, off.getBitWidth(), vars, off)) {
    o["off"] = off.getSExtValue();
    Array idx;
    for (auto& p : vars) idx.push_back(Array{opv(p.first), p.second.getSExtValue(), (int64_t) p.first->getType()->getIntegerBitWidth()});
    o["idx"] = std::move(idx);
  } else { o["off"] = 0; o["bad"] = true; o["idx"] = Array{}; }
  o["ib"] = g->isInBounds();
  return std::move(o);
}

static JV opv(const llvm::Value* v) {
  if (auto* ci = dyn_cast<ConstantInt>(v)) {
    SmallString<40> s; ci->getValue().toString(s, 10, false);
    return Array{"c", (int64_t) ci->getBitWidth(), std::string(s.str())};
  }
  if (isa<ConstantPointerNull>(v)) return Array{"null"};
  if (isa<UndefValue>(v)) return Array{"undef", tyStr(v->getType())};
  if (isa<ConstantAggregateZero>(v)) return Array{"zero", tyStr(v->getType())};
  if (auto* cf = dyn_cast<ConstantFP>(v)) {
    double d;
    APFloat f = cf->getValueAPF(); bool li;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    d = f.convertToDouble();
    SmallString<40> s; cf->getValueAPF().bitcastToAPInt().toString(s, 16, false);
    if (d != d || d - d != 0) return Array{"f", tyStr(v->getType()), nullptr, std::string(s.str())};
    return Array{"f", tyStr(v->getType()), d, std::string(s.str())};
  }
  if (auto* g = dyn_cast<GlobalValue>(v)) return Array{"g", g->getName().str()};
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) return Array{"ce", gepParts(g)};
    Object o; o["op"] = ce->getOpcodeName(); o["ty"] = tyStr(ce->getType());
    Array a; for (auto& u : ce->operands()) a.push_back(opv(u.get()));
    o["args"] = std::move(a);
    return Array{"ce", std::move(o)};
  }
  if (isa<MetadataAsValue>(v)) return Array{"md"};
  if (isa<InlineAsm>(v)) return Array{"asm"};
  if (isa<Constant>(v) && (v->getType()->isAggregateType())) return Array{"zero", tyStr(v->getType())};
  auto it = ids.find(v);
  if (it != ids.end()) return Array{"v", it->second};
  return Array{"unk"};
}

static void flatten(const Constant* c, uint64_t off, std::string& bytes, Array& rel) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned n = (ci->getBitWidth() + 7) / 8;
    for (unsigned i = 0; i < n; i++) bytes[off + i] = (char) ci->getValue().extractBitsAsZExtValue(std::min(8u, ci->getBitWidth() - 8 * i), 8 * i);
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    for (unsigned i = 0; i < b.getBitWidth() / 8; i++) bytes[off + i] = (char) b.extractBitsAsZExtValue(8, 8 * i);
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) flatten(cs->getOperand(i), off + (uint64_t) sl->getElementOffset(i), bytes, rel);
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) flatten(ca->getOperand(i), off + es * i, bytes, rel);
    return;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) flatten(cd->getElementAsConstant(i), off + es * i, bytes, rel);
    return;
  }
  if (t->isPointerTy()) { rel.push_back(Array{(int64_t) off, opv(c)}); return; }
  rel.push_back(Array{(int64_t) off, Array{"unk"}});
}

static std::string hexs(const std::string& b) {
  static const char* H = "0123456789abcdef"; std::string r;
  for (unsigned char ch : b) { r += H[ch >> 4]; r += H[ch & 15]; }
  return r;
}

static std::string scopeName(const DIScope* s) {
  std::string r;
  while (s && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) {
    if (!s->getName().empty()) r = r.empty() ? s->getName().str() : s->getName().str() + "::" + r;
    if (auto* t = dyn_cast<DIType>(s)) s = t->getScope();
    else if (auto* n = dyn_cast<DINamespace>(s)) s = n->getScope();
    else if (auto* sp = dyn_cast<DISubprogram>(s)) s = sp->getScope();
    else break;
  }
  return r;
}
static std::string ditype(const DIType* t) {
  if (!t) return "void";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return ditype(d->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: return ditype(d->getBaseType()) + "&";
      case dwarf::DW_TAG_const_type: return "const " + ditype(d->getBaseType());
      case dwarf::DW_TAG_volatile_type: return "volatile " + ditype(d->getBaseType());
      case dwarf::DW_TAG_typedef: return d->getName().str();
      default: return d->getName().str();
    }
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string r = ditype(c->getBaseType());
      for (auto* e : c->getElements()) if (auto* sr = dyn_cast<DISubrange>(e)) {
        auto cnt = sr->getCount();
        if (auto* ci = dyn_cast_if_present<ConstantInt*>(cnt)) r += "[" + std::to_string(ci->getSExtValue()) + "]"; else r += "[]";
      }
      return r;
    }
    return scopeName(c);
  }
  if (auto* st = dyn_cast<DISubroutineType>(t)) { (void) st; return "fn"; }
  return t->getName().str();
}

// a file-local variable that nothing but loads ever touches keeps its initial value
static bool onlyRead(const GlobalVariable& g) {
  if (!g.hasLocalLinkage() || !g.hasInitializer()) {  return false;  }
  for (const User* u : g.users()) {
    const LoadInst* l = dyn_cast<LoadInst>(u);
    if ((nullptr == l) || l->isVolatile()) {  return false;  }
  }
  return true;
}

int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  DL = &M->getDataLayout();

  DebugInfoFinder dif; dif.processModule(*M);
  std::set<std::string> seen;
  for (auto* t : dif.types()) {
    if (auto* c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
        std::string nm = scopeName(c);
        if (nm.empty() || seen.count("e:" + nm)) continue;
        seen.insert("e:" + nm);
        Array en;
        for (auto* e : c->getElements()) if (auto* en1 = dyn_cast<DIEnumerator>(e)) en.push_back(Array{en1->getName().str(), en1->getValue().getSExtValue()});
        os << JV(Object{{"k", "enum"}, {"name", nm}, {"size", (int64_t) c->getSizeInBits()}, {"vals", std::move(en)}}) << "\n";
        continue;
      }
      if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
      if (c->isForwardDecl()) continue;
      std::string nm = scopeName(c);
      if (nm.empty() || seen.count(nm)) continue;
      seen.insert(nm);
      Array mem, bases, meths;
      for (auto* e : c->getElements()) {
        if (auto* d = dyn_cast<DIDerivedType>(e)) {
          if (d->getTag() == dwarf::DW_TAG_inheritance) bases.push_back(Array{ditype(d->getBaseType()), (int64_t) (d->getOffsetInBits() / 8)});
          else if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) mem.push_back(Array{d->getName().str(), (int64_t) d->getOffsetInBits(), (int64_t) d->getSizeInBits(), ditype(d->getBaseType()), d->isBitField()});
        } else if (auto* sp = dyn_cast<DISubprogram>(e)) {
          meths.push_back(Array{sp->getName().str(), sp->getLinkageName().str()});
        }
      }
      os << JV(Object{{"k", "struct"}, {"name", nm}, {"size", (int64_t) (c->getSizeInBits() / 8)}, {"file", c->getFilename().str()}, {"line", (int64_t) c->getLine()},
        {"members", std::move(mem)}, {"bases", std::move(bases)}, {"methods", std::move(meths)}}) << "\n";
    }
  }

  for (auto& a : M->aliases()) {
    Object o; o["k"] = "alias"; o["name"] = a.getName().str();
    if (auto* f = dyn_cast<GlobalObject>(a.getAliaseeObject())) { o["to"] = f->getName().str(); os << JV(std::move(o)) << "\n"; }
  }
  for (auto& g : M->globals()) {
    Object o{{"k", "global"}, {"name", g.getName().str()}, {"dem", demangle(g.getName().str())}, {"const", g.isConstant() || onlyRead(g)}};
    o["size"] = (int64_t) (g.getValueType()->isSized() ? (uint64_t) DL->getTypeAllocSize(g.getValueType()) : 0);
    if (g.hasInitializer()) {
      uint64_t sz = DL->getTypeAllocSize(g.getValueType());
      std::string b(sz, '\0'); Array rel;
      flatten(g.getInitializer(), 0, b, rel);
      o["init"] = hexs(b); o["rel"] = std::move(rel);
    }
    os << JV(std::move(o)) << "\n";
  }

  for (auto& F : *M) {
    Object fo{{"k", "func"}, {"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"ret", tyStr(F.getReturnType())}, {"vararg", F.isVarArg()},
      {"decl", F.isDeclaration()}, {"linkage", (int64_t) F.getLinkage()}, {"noret", F.doesNotReturn()}};
    ids.clear(); int n = 0;
    Array args;
    for (auto& a : F.args()) {
      ids[&a] = n++;
      Object ao{{"ty", tyStr(a.getType())}, {"name", a.getName().str()}};
      if (a.hasByValAttr()) ao["byval"] = (int64_t) (uint64_t) DL->getTypeAllocSize(a.getParamByValType());
      if (a.hasStructRetAttr()) ao["sret"] = (int64_t) (uint64_t) DL->getTypeAllocSize(a.getParamStructRetType());
      if (a.hasAttribute(Attribute::SExt)) ao["ext"] = "s";
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    if (auto* sp = F.getSubprogram()) {
      fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t) sp->getLine();
      fo["virt"] = (sp->getVirtuality() != 0);
      if (auto* st = sp->getType()) { Array ta; for (auto* t : st->getTypeArray()) ta.push_back(ditype(t)); fo["dtypes"] = std::move(ta); }
    }
    if (!F.isDeclaration()) {
      std::map<const BasicBlock*, int> bbid; int bn = 0;
      for (auto& B : F) { bbid[&B] = bn++; for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
      std::map<const BasicBlock*, int>& bm = bbid;
      Array blocks;
      for (auto& B : F) {
        Array ins;
        for (auto& I : B) {
          if (isa<DbgInfoIntrinsic>(I)) {
            if (auto* dd = dyn_cast<DbgVariableIntrinsic>(&I)) {
              if (dd->getVariable() && dd->getNumVariableLocationOps() == 1 && dd->getVariableLocationOp(0)) {
                auto it = ids.find(dd->getVariableLocationOp(0));
                if (it != ids.end()) ins.push_back(Object{{"op", "dbg"}, {"v", it->second}, {"var", dd->getVariable()->getName().str()}, {"vty", ditype(dd->getVariable()->getType())}});
              }
            }
            continue;
          }
          Object o;
          if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { JV gv = gepParts(cast<GEPOperator>(g)); o = std::move(*gv.getAsObject()); }
          else o["op"] = I.getOpcodeName();
          if (!I.getType()->isVoidTy()) { o["id"] = ids[&I]; o["ty"] = tyStr(I.getType()); }
          if (auto dl = I.getDebugLoc()) { o["ln"] = (int64_t) dl.getLine(); auto* sc = cast<DIScope>(dl.getScope()); if (F.getSubprogram() && sc->getFilename() != F.getSubprogram()->getFilename()) o["fl"] = sc->getFilename().str(); }
          if (isa<GetElementPtrInst>(I)) {}
          else if (auto* p = dyn_cast<PHINode>(&I)) {
            Array a; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) a.push_back(Array{opv(p->getIncomingValue(i)), bm[p->getIncomingBlock(i)]});
            o["in"] = std::move(a);
          } else if (auto* b = dyn_cast<BranchInst>(&I)) {
            Array s; for (unsigned i = 0; i < b->getNumSuccessors(); i++) s.push_back(bm[b->getSuccessor(i)]);
            o["succ"] = std::move(s);
            if (b->isConditional()) o["cond"] = opv(b->getCondition());
          } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            o["cond"] = opv(sw->getCondition()); o["def"] = bm[sw->getDefaultDest()];
            Array cs; for (auto& c : sw->cases()) { SmallString<40> s; c.getCaseValue()->getValue().toString(s, 10, false); cs.push_back(Array{std::string(s.str()), bm[c.getCaseSuccessor()]}); }
            o["cases"] = std::move(cs);
          } else if (auto* c = dyn_cast<CallBase>(&I)) {
            o["op"] = "call";
            o["callee"] = opv(c->getCalledOperand());
            Array a; Array bv;
            for (unsigned i = 0; i < c->arg_size(); i++) { a.push_back(opv(c->getArgOperand(i))); bv.push_back(c->isByValArgument(i) ? JV((int64_t) (uint64_t) DL->getTypeAllocSize(c->getParamByValType(i))) : JV(0)); }
            Array at; for (unsigned i = 0; i < c->arg_size(); i++) at.push_back(tyStr(c->getArgOperand(i)->getType()));
            o["args"] = std::move(a); o["byval"] = std::move(bv); o["aty"] = std::move(at);
          } else {
            Array a; for (auto& u : I.operands()) if (!isa<BasicBlock>(u.get())) a.push_back(opv(u.get()));
            o["args"] = std::move(a);
            if (auto* ic = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str(); o["aty"] = tyStr(ic->getOperand(0)->getType()); }
            if (auto* al = dyn_cast<AllocaInst>(&I)) { o["esz"] = (int64_t) (uint64_t) DL->getTypeAllocSize(al->getAllocatedType()); o["var"] = al->getName().str(); }
            if (auto* st = dyn_cast<StoreInst>(&I)) { o["sty"] = tyStr(st->getValueOperand()->getType()); o["vol"] = st->isVolatile(); }
            if (auto* ca = dyn_cast<CastInst>(&I)) { o["sty"] = tyStr(ca->getSrcTy()); }
            if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { Array ix; for (auto x : ev->indices()) ix.push_back((int64_t) x); o["ix"] = std::move(ix); o["agg"] = tyStr(ev->getAggregateOperand()->getType()); auto* aty = ev->getAggregateOperand()->getType(); if (auto* st = dyn_cast<StructType>(aty)) o["off"] = (int64_t) (uint64_t) DL->getStructLayout(st)->getElementOffset(ev->getIndices()[0]); else if (auto* at = dyn_cast<ArrayType>(aty)) o["off"] = (int64_t) ((uint64_t) DL->getTypeAllocSize(at->getElementType()) * ev->getIndices()[0]); }
            if (auto* iv = dyn_cast<InsertValueInst>(&I)) { Array ix; for (auto x : iv->indices()) ix.push_back((int64_t) x); o["ix"] = std::move(ix); auto* aty = iv->getType(); if (auto* st = dyn_cast<StructType>(aty)) o["off"] = (int64_t) (uint64_t) DL->getStructLayout(st)->getElementOffset(iv->getIndices()[0]); else if (auto* at = dyn_cast<ArrayType>(aty)) o["off"] = (int64_t) ((uint64_t) DL->getTypeAllocSize(at->getElementType()) * iv->getIndices()[0]); o["sty"] = tyStr(iv->getInsertedValueOperand()->getType()); }
          }
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["blocks"] = std::move(blocks);
    }
    os << JV(std::move(fo)) << "\n";
  }
  return 0;
}
