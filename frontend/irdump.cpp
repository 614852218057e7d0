// irdump: prints one linked LLVM module as JSON for the static analysis engine.
// It resolves everything which needs the data layout (field offsets, sizes of
// accesses, constant expressions) and the debug information describing the
// C++ types so that the engine never has to look at the IR's own type names.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <cxxabi.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/MapVector.h>
#include <map>
#include <set>

using namespace llvm;

static const DataLayout* DL;
static json::OStream* J;
static std::map<const DIType*, int> TypeIds;
static std::vector<const DIType*> TypeList;
static std::map<std::string, int> FileIds;
static std::vector<std::string> FileList;

static int fileId(const std::string& f)
{
    auto it = FileIds.find(f);
    if (it != FileIds.end())
        return it->second;
    int id = FileList.size();
    FileIds[f] = id;
    FileList.push_back(f);
    return id;
}

static int typeId(const DIType* t)
{
    if (!t)
        return -1;
    auto it = TypeIds.find(t);
    if (it != TypeIds.end())
        return it->second;
    int id = TypeList.size();
    TypeIds[t] = id;
    TypeList.push_back(t);
    return id;
}

static std::string scopeName(const DIScope* s)
{
    if (!s)
        return "";
    if (isa<DIFile>(s) || isa<DICompileUnit>(s))
        return "";
    std::string p;
    if (auto* sp = dyn_cast<DISubprogram>(s)) {
        if (!sp->getLinkageName().empty())
            return demangle(sp->getLinkageName().str());
        p = scopeName(sp->getScope());
        return p.empty() ? sp->getName().str() : p + "::" + sp->getName().str();
    }
    if (isa<DILexicalBlockBase>(s))
        return scopeName(s->getScope());
    p = scopeName(s->getScope());
    auto n = s->getName().str();
    if (n.empty())
        n = isa<DINamespace>(s) ? "(anonymous namespace)" : "(anonymous)";
    return p.empty() ? n : p + "::" + n;
}

static std::string typeName(const DIType* t)
{
    if (auto* c = dyn_cast<DICompositeType>(t)) {
        // unique also for closures which do not carry a name
        std::string base = scopeName(c->getScope());
        std::string n = c->getName().str();
        if (n.empty()) {
            n = "(anon@" +
                (c->getFile() ? c->getFile()->getFilename().str() : "") + ":" +
                std::to_string(c->getLine()) + ")";
        }
        return base.empty() ? n : base + "::" + n;
    }
    std::string base = scopeName(t->getScope());
    return base.empty() ? t->getName().str() : base + "::" + t->getName().str();
}

// the function's name split into the enclosing scope and the plain name
static void names(StringRef mangled)
{
    ItaniumPartialDemangler d;
    std::string m = mangled.str();
    {
        int status = -1;
        char* full = abi::__cxa_demangle(m.c_str(), nullptr, nullptr, &status);
        const std::string dem = demangle(m);
        J->attribute("dem", dem == m && full && status == 0 ? full : dem);
        std::free(full);
    }
    if (d.partialDemangle(m.c_str()) || !d.isFunction()) {
        // generic closures inside of destructors are not understood
        int status = -1;
        char* full = abi::__cxa_demangle(m.c_str(), nullptr, nullptr, &status);
        const std::string f = full && status == 0 ? full : "";
        std::free(full);
        const size_t at = f.find("::operator()");
        if (at != std::string::npos) {
            size_t from = 0;
            for (const char* r : { "auto ", "void ", "bool " }) {
                if (f.compare(0, std::strlen(r), r) == 0) {
                    from = std::strlen(r);
                }
            }
            J->attribute("base", "operator()");
            J->attribute("ctx", f.substr(from, at - from));
            return;
        }
        J->attribute("base", m);
        J->attribute("ctx", "");
        return;
    }
    size_t n = 0;
    char* b = d.getFunctionBaseName(nullptr, &n);
    J->attribute("base", b ? b : m);
    std::free(b);
    n = 0;
    char* c = d.getFunctionDeclContextName(nullptr, &n);
    J->attribute("ctx", c ? c : "");
    std::free(c);
    J->attribute("ctor", d.isCtorOrDtor());
    n = 0;
    char* pa = d.getFunctionParameters(nullptr, &n);
    J->attribute("params", pa ? pa : "");
    std::free(pa);
}

struct FnCtx
{
    DenseMap<const Value*, int> ids;
    DenseMap<const BasicBlock*, int> blocks;
};

static void constant(const Constant* c);

static void value(FnCtx& F, const Value* v)
{
    auto it = F.ids.find(v);
    if (it != F.ids.end()) {
        J->value(it->second);
        return;
    }
    if (auto* c = dyn_cast<Constant>(v)) {
        constant(c);
        return;
    }
    J->array([&] { J->value("u"); });
}

static void constant(const Constant* c)
{
    J->array([&] {
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            J->value("i");
            if (ci->getBitWidth() == 1)
                J->value(int64_t(ci->getZExtValue()));
            else if (ci->getBitWidth() <= 64)
                J->value(ci->getSExtValue());
            else
                J->value(0);
            J->value(int64_t(ci->getBitWidth()));
            return;
        }
        if (isa<ConstantPointerNull>(c)) {
            J->value("i");
            J->value(0);
            J->value(64);
            return;
        }
        if (isa<UndefValue>(c)) {
            J->value("u");
            return;
        }
        if (auto* f = dyn_cast<Function>(c)) {
            J->value("f");
            J->value(f->getName());
            return;
        }
        if (auto* g = dyn_cast<GlobalAlias>(c)) {
            auto* o = g->getAliaseeObject();
            J->value(isa<Function>(o) ? "f" : "g");
            J->value(o->getName());
            if (!isa<Function>(o))
                J->value(0);
            return;
        }
        if (auto* g = dyn_cast<GlobalVariable>(c)) {
            J->value("g");
            J->value(g->getName());
            J->value(0);
            return;
        }
        if (isa<ConstantAggregateZero>(c)) {
            J->value("z");
            return;
        }
        if (isa<ConstantFP>(c)) {
            J->value("fp");
            return;
        }
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
            J->value("agg");
            for (auto& op : ca->operands())
                constant(cast<Constant>(op));
            return;
        }
        if (auto* e = dyn_cast<ConstantExpr>(c)) {
            if (auto* gep = dyn_cast<GEPOperator>(e)) {
                APInt off(DL->getIndexTypeSizeInBits(gep->getType()), 0);
                if (gep->accumulateConstantOffset(*DL, off)) {
                    J->value("off");
                    constant(cast<Constant>(gep->getPointerOperand()));
                    J->value(off.getSExtValue());
                    return;
                }
            }
            if (e->isCast()) {
                J->value("cast");
                constant(e->getOperand(0));
                return;
            }
        }
        J->value("u");
    });
}

static void initLeaves(const Constant* c, uint64_t off)
{
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c)) {
        J->array([&] {
            J->value(int64_t(off));
            J->value("zero");
            J->value(int64_t(DL->getTypeAllocSize(t)));
        });
        return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i)
            initLeaves(cs->getOperand(i), off + sl->getElementOffset(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        auto sz = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            initLeaves(ca->getOperand(i), off + i * sz);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        if (cd->isString() || cd->isCString()) {
            J->array([&] {
                J->value(int64_t(off));
                J->value("str");
                std::string s = cd->getAsString().str();
                for (auto& ch : s)
                    if ((unsigned char)ch > 126)
                        ch = '?';
                while (!s.empty() && s.back() == 0)
                    s.pop_back();
                J->value(s);
            });
            return;
        }
        auto sz = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            initLeaves(cd->getElementAsConstant(i), off + i * sz);
        return;
    }
    J->array([&] {
        J->value(int64_t(off));
        J->value("v");
        constant(c);
    });
}

static const char* orderName(AtomicOrdering o)
{
    return toIRString(o);
}

static void typeKind(Type* t)
{
    if (t->isIntegerTy())
        J->value("i" + std::to_string(t->getIntegerBitWidth()));
    else if (t->isPointerTy())
        J->value("p");
    else if (t->isVoidTy())
        J->value("v");
    else if (t->isFloatingPointTy())
        J->value("fp");
    else
        J->value("agg");
}

// leaf fields of an aggregate, used to load and store first class aggregates
static void leaves(Type* t, uint64_t off)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        J->array([&] {
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                leaves(st->getElementType(i), off + sl->getElementOffset(i));
        });
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        auto sz = DL->getTypeAllocSize(at->getElementType());
        J->array([&] {
            for (unsigned i = 0; i < at->getNumElements() && i < 64; ++i)
                leaves(at->getElementType(), off + i * sz);
        });
        return;
    }
    J->value(int64_t(off));
}

static void instr(FnCtx& F, const Instruction& I)
{
    auto dst = [&] {
        auto it = F.ids.find(&I);
        J->value(it == F.ids.end() ? -1 : it->second);
    };
    auto block = [&](const BasicBlock* b) { J->value(F.blocks[b]); };
    auto loc = [&] {
        const DILocation* d = I.getDebugLoc().get();
        if (d) {
            J->value(fileId(d->getFilename().str().empty()
                              ? ""
                              : (d->getFilename().str()[0] == '/'
                                   ? d->getFilename().str()
                                   : d->getDirectory().str() + "/" +
                                       d->getFilename().str())));
            J->value(int64_t(d->getLine()));
        } else {
            J->value(-1);
            J->value(0);
        }
    };
    if (auto* a = dyn_cast<AllocaInst>(&I)) {
        J->array([&] {
            J->value("alloca");
            dst();
            loc();
            auto sz = a->getAllocationSize(*DL);
            J->value(sz ? int64_t(sz->getFixedValue()) : int64_t(-1));
            // constant local variables
            bool constant = false;
            for (auto* d : findDbgDeclares(const_cast<AllocaInst*>(a))) {
                auto* t = d->getVariable()->getType();
                while (auto* q = dyn_cast_or_null<DIDerivedType>(t)) {
                    if (q->getTag() == dwarf::DW_TAG_const_type) {
                        constant = true;
                        break;
                    }
                    if (q->getTag() != dwarf::DW_TAG_typedef)
                        break;
                    t = q->getBaseType();
                }
            }
            J->value(int64_t(constant));
        });
    } else if (auto* l = dyn_cast<LoadInst>(&I)) {
        J->array([&] {
            J->value(l->isAtomic() ? "aload" : "load");
            dst();
            loc();
            value(F, l->getPointerOperand());
            J->value(int64_t(DL->getTypeStoreSize(l->getType())));
            typeKind(l->getType());
            if (l->isAtomic())
                J->value(orderName(l->getOrdering()));
            else if (l->getType()->isAggregateType())
                leaves(l->getType(), 0);
        });
    } else if (auto* s = dyn_cast<StoreInst>(&I)) {
        J->array([&] {
            J->value(s->isAtomic() ? "astore" : "store");
            J->value(-1);
            loc();
            value(F, s->getPointerOperand());
            value(F, s->getValueOperand());
            J->value(int64_t(DL->getTypeStoreSize(s->getValueOperand()->getType())));
            if (s->isAtomic())
                J->value(orderName(s->getOrdering()));
            else if (s->getValueOperand()->getType()->isAggregateType())
                leaves(s->getValueOperand()->getType(), 0);
        });
    } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        J->array([&] {
            J->value("gep");
            dst();
            loc();
            value(F, g->getPointerOperand());
            MapVector<Value*, APInt> var;
            unsigned bw = DL->getIndexTypeSizeInBits(g->getType());
            APInt off(bw, 0);
            if (!cast<GEPOperator>(g)->collectOffset(*DL, bw, var, off)) {
                J->value(0);
                J->array([&] { J->array([&] {}); });
            } else {
                J->value(off.getSExtValue());
                J->array([&] {
                    for (auto& v : var) {
                        J->array([&] {
                            value(F, v.first);
                            J->value(v.second.getSExtValue());
                        });
                    }
                });
            }
        });
    } else if (auto* p = dyn_cast<PHINode>(&I)) {
        J->array([&] {
            J->value("phi");
            dst();
            loc();
            for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
                J->array([&] {
                    block(p->getIncomingBlock(i));
                    value(F, p->getIncomingValue(i));
                });
            }
        });
    } else if (auto* b = dyn_cast<BranchInst>(&I)) {
        J->array([&] {
            J->value(b->isConditional() ? "cbr" : "br");
            J->value(-1);
            loc();
            if (b->isConditional()) {
                value(F, b->getCondition());
                block(b->getSuccessor(0));
                block(b->getSuccessor(1));
            } else {
                block(b->getSuccessor(0));
            }
        });
    } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        J->array([&] {
            J->value("switch");
            J->value(-1);
            loc();
            value(F, sw->getCondition());
            block(sw->getDefaultDest());
            for (auto& c : sw->cases()) {
                J->array([&] {
                    J->value(c.getCaseValue()->getSExtValue());
                    block(c.getCaseSuccessor());
                });
            }
        });
    } else if (auto* r = dyn_cast<ReturnInst>(&I)) {
        J->array([&] {
            J->value("ret");
            J->value(-1);
            loc();
            if (r->getReturnValue())
                value(F, r->getReturnValue());
        });
    } else if (isa<UnreachableInst>(&I)) {
        J->array([&] {
            J->value("unreachable");
            J->value(-1);
            loc();
        });
    } else if (auto* re = dyn_cast<ResumeInst>(&I)) {
        J->array([&] {
            J->value("resume");
            J->value(-1);
            loc();
            value(F, re->getValue());
        });
    } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
        J->array([&] {
            J->value("lpad");
            dst();
            loc();
            J->value(lp->isCleanup());
            for (unsigned i = 0; i < lp->getNumClauses(); ++i)
                constant(lp->getClause(i));
        });
    } else if (auto* c = dyn_cast<CallBase>(&I)) {
        if (auto* ii = dyn_cast<IntrinsicInst>(c)) {
            if (isa<DbgInfoIntrinsic>(ii))
                return;
        }
        J->array([&] {
            auto* inv = dyn_cast<InvokeInst>(c);
            J->value(inv ? "invoke" : "call");
            dst();
            loc();
            if (c->isInlineAsm())
                J->array([&] { J->value("asm"); });
            else
                value(F, c->getCalledOperand());
            J->array([&] {
                for (auto& a : c->args()) {
                    if (auto* mv = dyn_cast<MetadataAsValue>(a.get())) {
                        std::string s;
                        if (auto* ms = dyn_cast<MDString>(mv->getMetadata()))
                            s = ms->getString().str();
                        J->array([&] {
                            J->value("md");
                            J->value(s);
                        });
                    } else {
                        value(F, a.get());
                    }
                }
            });
            typeKind(c->getType());
            J->value(c->doesNotThrow());
            J->value(c->hasStructRetAttr());
            if (inv) {
                block(inv->getNormalDest());
                block(inv->getUnwindDest());
            }
        });
    } else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) {
        J->array([&] {
            J->value("cmpxchg");
            dst();
            loc();
            value(F, x->getPointerOperand());
            value(F, x->getCompareOperand());
            value(F, x->getNewValOperand());
            J->value(x->isWeak());
            J->value(orderName(x->getSuccessOrdering()));
            J->value(orderName(x->getFailureOrdering()));
        });
    } else if (auto* x = dyn_cast<AtomicRMWInst>(&I)) {
        J->array([&] {
            J->value("rmw");
            dst();
            loc();
            value(F, x->getPointerOperand());
            J->value(AtomicRMWInst::getOperationName(x->getOperation()));
            value(F, x->getValOperand());
            J->value(orderName(x->getOrdering()));
        });
    } else if (auto* f = dyn_cast<FenceInst>(&I)) {
        J->array([&] {
            J->value("fence");
            J->value(-1);
            loc();
            J->value(orderName(f->getOrdering()));
        });
    } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
        J->array([&] {
            J->value("icmp");
            dst();
            loc();
            J->value(ICmpInst::getPredicateName(ic->getPredicate()));
            value(F, ic->getOperand(0));
            value(F, ic->getOperand(1));
        });
    } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
        J->array([&] {
            J->value("extract");
            dst();
            loc();
            value(F, ev->getAggregateOperand());
            for (auto i : ev->indices())
                J->value(int64_t(i));
        });
    } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
        J->array([&] {
            J->value("insert");
            dst();
            loc();
            value(F, iv->getAggregateOperand());
            value(F, iv->getInsertedValueOperand());
            for (auto i : iv->indices())
                J->value(int64_t(i));
        });
    } else if (auto* se = dyn_cast<SelectInst>(&I)) {
        J->array([&] {
            J->value("select");
            dst();
            loc();
            value(F, se->getCondition());
            value(F, se->getTrueValue());
            value(F, se->getFalseValue());
        });
    } else {
        J->array([&] {
            J->value("op");
            dst();
            loc();
            J->value(I.getOpcodeName());
            J->array([&] {
                for (auto& o : I.operands())
                    value(F, o.get());
            });
            typeKind(I.getType());
            if (I.getNumOperands())
                typeKind(I.getOperand(0)->getType());
        });
    }
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) {
        err.print(argv[0], errs());
        return 2;
    }
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec)
        return 2;
    DL = &M->getDataLayout();
    json::OStream j(os);
    J = &j;
    // make every class known to the debug information available
    {
        DebugInfoFinder finder;
        finder.processModule(*M);
        for (auto* t : finder.types())
            if (isa<DICompositeType>(t))
                typeId(t);
    }
    j.object([&] {
        j.attributeBegin("funcs");
        j.object([&] {
            for (auto& f : *M) {
                if (f.isDeclaration())
                    continue;
                j.attributeBegin(f.getName());
                j.object([&] {
                    FnCtx F;
                    int n = 0;
                    names(f.getName());
                    j.attributeBegin("args");
                    j.array([&] {
                        for (auto& a : f.args()) {
                            F.ids[&a] = n;
                            j.value(n++);
                        }
                    });
                    j.attributeEnd();
                    j.attributeBegin("argattrs");
                    j.array([&] {
                        for (auto& a : f.args()) {
                            j.value(a.hasStructRetAttr() ? "sret"
                                    : a.hasByValAttr()   ? "byval"
                                                         : "");
                        }
                    });
                    j.attributeEnd();
                    if (auto* sp = f.getSubprogram()) {
                        j.attribute("file", sp->getFilename().startswith("/")
                                              ? sp->getFilename()
                                              : StringRef(sp->getDirectory().str() + "/" + sp->getFilename().str()));
                        j.attribute("line", int64_t(sp->getLine()));
                        const DISubprogram* d =
                          sp->getDeclaration() ? sp->getDeclaration() : sp;
                        if (auto* ct = dyn_cast_or_null<DICompositeType>(d->getScope()))
                            j.attribute("cls", typeId(ct));
                        j.attribute("sname", sp->getName());
                        // 1 private, 2 protected, 3 public, 0 default of the class
                        j.attribute("acc", int64_t(d->getFlags() & DINode::FlagAccessibility));
                        j.attribute("artificial", bool(d->getFlags() & DINode::FlagArtificial));
                        if (auto* st = sp->getType()) {
                            j.attributeBegin("di");
                            j.array([&] {
                                for (auto* t : st->getTypeArray())
                                    j.value(typeId(t));
                            });
                            j.attributeEnd();
                        }
                    }
                    j.attribute("internal", f.hasInternalLinkage());
                    int bn = 0;
                    for (auto& b : f) {
                        F.blocks[&b] = bn++;
                        for (auto& i : b)
                            if (!i.getType()->isVoidTy())
                                F.ids[&i] = n++;
                    }
                    j.attributeBegin("blocks");
                    j.array([&] {
                        for (auto& b : f)
                            j.array([&] {
                                for (auto& i : b)
                                    instr(F, i);
                            });
                    });
                    j.attributeEnd();
                });
                j.attributeEnd();
            }
        });
        j.attributeEnd();
        j.attributeBegin("decls");
        j.object([&] {
            for (auto& f : *M)
                if (f.isDeclaration() && !f.isIntrinsic()) {
                    j.attributeBegin(f.getName());
                    j.object([&] { names(f.getName()); });
                    j.attributeEnd();
                }
        });
        j.attributeEnd();
        j.attributeBegin("globals");
        j.object([&] {
            for (auto& g : M->globals()) {
                j.attributeBegin(g.getName());
                j.object([&] {
                    j.attribute("dem", demangle(g.getName().str()));
                    j.attribute("const", g.isConstant());
                    j.attribute("tls", g.isThreadLocal());
                    j.attribute("size", int64_t(DL->getTypeAllocSize(g.getValueType())));
                    SmallVector<DIGlobalVariableExpression*, 1> gv;
                    g.getDebugInfo(gv);
                    if (!gv.empty()) {
                        j.attribute("di", typeId(gv[0]->getVariable()->getType()));
                        j.attribute("line", int64_t(gv[0]->getVariable()->getLine()));
                        j.attribute("file", gv[0]->getVariable()->getFilename());
                    }
                    if (g.hasInitializer()) {
                        j.attributeBegin("init");
                        j.array([&] { initLeaves(g.getInitializer(), 0); });
                        j.attributeEnd();
                    }
                });
                j.attributeEnd();
            }
        });
        j.attributeEnd();
        j.attributeBegin("types");
        j.array([&] {
            for (size_t i = 0; i < TypeList.size(); ++i) {
                const DIType* t = TypeList[i];
                j.object([&] {
                    j.attribute("name", typeName(t));
                    j.attribute("tag", int64_t(t->getTag()));
                    j.attribute("size", int64_t(t->getSizeInBits() / 8));
                    if (auto* dt = dyn_cast<DIDerivedType>(t)) {
                        j.attribute("base", typeId(dt->getBaseType()));
                        return;
                    }
                    auto* c = dyn_cast<DICompositeType>(t);
                    if (!c)
                        return;
                    j.attribute("id", c->getIdentifier());
                    j.attribute("line", int64_t(c->getLine()));
                    if (c->getFile())
                        j.attribute("file", c->getFilename());
                    j.attribute("fwd", c->isForwardDecl());
                    if (c->getBaseType())
                        j.attribute("base", typeId(c->getBaseType()));
                    j.attributeBegin("members");
                    j.array([&] {
                        for (auto* e : c->getElements()) {
                            auto* m = dyn_cast_or_null<DIDerivedType>(e);
                            if (!m || m->isStaticMember())
                                continue;
                            if (m->getTag() == dwarf::DW_TAG_member)
                                j.array([&] {
                                    j.value(m->getName());
                                    j.value(int64_t(m->getOffsetInBits() / 8));
                                    j.value(typeId(m->getBaseType()));
                                });
                        }
                    });
                    j.attributeEnd();
                    j.attributeBegin("bases");
                    j.array([&] {
                        for (auto* e : c->getElements()) {
                            auto* m = dyn_cast_or_null<DIDerivedType>(e);
                            if (m && m->getTag() == dwarf::DW_TAG_inheritance)
                                j.array([&] {
                                    j.value(int64_t(m->getOffsetInBits() / 8));
                                    j.value(typeId(m->getBaseType()));
                                });
                        }
                    });
                    j.attributeEnd();
                    j.attributeBegin("virtuals");
                    j.array([&] {
                        for (auto* e : c->getElements()) {
                            auto* m = dyn_cast_or_null<DISubprogram>(e);
                            if (m && m->getVirtuality())
                                j.array([&] {
                                    j.value(int64_t(m->getVirtualIndex()));
                                    j.value(m->getName());
                                    j.value(m->getLinkageName());
                                    j.array([&] {
                                        if (auto* st = m->getType())
                                            for (auto* e : st->getTypeArray())
                                                j.value(typeId(e));
                                    });
                                });
                        }
                    });
                    j.attributeEnd();
                    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
                        j.attributeBegin("enumerators");
                        j.array([&] {
                            for (auto* e : c->getElements())
                                if (auto* en = dyn_cast_or_null<DIEnumerator>(e))
                                    j.array([&] {
                                        j.value(en->getName());
                                        j.value(en->getValue().getSExtValue());
                                    });
                        });
                        j.attributeEnd();
                    }
                });
            }
        });
        j.attributeEnd();
        j.attributeBegin("files");
        j.array([&] {
            for (auto& f : FileList)
                j.value(f);
        });
        j.attributeEnd();
    });
    os << "\n";
    return 0;
}
