// irdump: normalises LLVM bitcode of /repo translation units and emits it as JSON for the
// Python analyses.  It decides nothing itself: it inlines, optionally specialises selected
// functions on constant arguments (clone + sparse conditional constant propagation), runs a
// standard simplification pipeline and prints the resulting program.
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/ValueMapper.h"
#include <map>
#include <set>

using namespace llvm;

static std::string dem(StringRef n)
{
	return llvm::demangle(n.str());
}

[[noreturn]] static void die(const Twine& m)
{
	errs() << "irdump: " << m << "\n";
	exit(3);
}

static bool anyMatch(std::vector<Regex>& rs, StringRef s)
{
	for (auto& r : rs)
		if (r.match(s))
			return true;
	return false;
}

struct Emitter
{
	json::OStream& J;
	Module& M;
	const DataLayout& DL;
	DenseMap<const Value*, unsigned> ids;
	std::set<const GlobalVariable*> globals;
	std::vector<const GlobalVariable*> gq;

	Emitter(json::OStream& j, Module& m) : J(j), M(m), DL(m.getDataLayout()) {}

	void ty(Type* t)
	{
		std::string s;
		raw_string_ostream os(s);
		t->print(os, false, true);
		J.value(os.str());
	}

	void useGlobal(const GlobalVariable* g)
	{
		if (globals.insert(g).second)
			gq.push_back(g);
	}

	void constant(const Constant* c)
	{
		if (auto* ci = dyn_cast<ConstantInt>(c))
		{
			J.arrayBegin();
			J.value("i");
			J.value(ci->getBitWidth());
			J.value(toString(ci->getValue(), 10, false));
			J.arrayEnd();
		}
		else if (auto* cf = dyn_cast<ConstantFP>(c))
		{
			J.arrayBegin();
			J.value("f");
			std::string tn;
			raw_string_ostream os(tn);
			cf->getType()->print(os);
			J.value(os.str());
			APInt b = cf->getValueAPF().bitcastToAPInt();
			J.value(toString(b, 10, false));
			J.arrayEnd();
		}
		else if (isa<ConstantPointerNull>(c))
		{
			J.arrayBegin();
			J.value("n");
			J.arrayEnd();
		}
		else if (isa<UndefValue>(c))
		{
			J.arrayBegin();
			J.value("u");
			J.arrayEnd();
		}
		else if (auto* f = dyn_cast<Function>(c))
		{
			J.arrayBegin();
			J.value("fn");
			J.value(f->getName());
			J.value(dem(f->getName()));
			J.arrayEnd();
		}
		else if (auto* g = dyn_cast<GlobalVariable>(c))
		{
			useGlobal(g);
			J.arrayBegin();
			J.value("g");
			J.value(g->getName());
			J.value(0);
			J.arrayEnd();
		}
		else if (auto* ga = dyn_cast<GlobalAlias>(c))
			constant(ga->getAliasee());
		else if (auto* ce = dyn_cast<ConstantExpr>(c))
		{
			if (ce->getType()->isPointerTy())
			{
				APInt off(DL.getIndexTypeSizeInBits(ce->getType()), 0);
				const Value* base = ce->stripAndAccumulateConstantOffsets(DL, off, true);
				if (auto* g = dyn_cast<GlobalVariable>(base))
				{
					useGlobal(g);
					J.arrayBegin();
					J.value("g");
					J.value(g->getName());
					J.value(off.getSExtValue());
					J.arrayEnd();
					return;
				}
				if (auto* f = dyn_cast<Function>(base))
				{
					constant(f);
					return;
				}
			}
			J.arrayBegin();
			J.value("ce");
			J.value(ce->getOpcodeName());
			for (auto& op : ce->operands())
				constant(cast<Constant>(op));
			J.arrayEnd();
		}
		else if (isa<ConstantAggregateZero>(c))
		{
			J.arrayBegin();
			J.value("z");
			J.value(DL.getTypeAllocSize(c->getType()).getFixedValue());
			J.arrayEnd();
		}
		else if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c))
		{
			J.arrayBegin();
			J.value("agg");
			unsigned n = 0;
			if (auto* st = dyn_cast<StructType>(c->getType()))
				n = st->getNumElements();
			else if (auto* at = dyn_cast<ArrayType>(c->getType()))
				n = at->getNumElements();
			else
				n = cast<FixedVectorType>(c->getType())->getNumElements();
			J.arrayBegin();
			for (unsigned i = 0; i < n; ++i)
				constant(c->getAggregateElement(i));
			J.arrayEnd();
			J.arrayEnd();
		}
		else
		{
			J.arrayBegin();
			J.value("?");
			J.arrayEnd();
		}
	}

	void operand(const Value* v)
	{
		if (auto* c = dyn_cast<Constant>(v))
			constant(c);
		else if (isa<BasicBlock>(v))
		{
			J.arrayBegin();
			J.value("bb");
			J.value(ids.lookup(v));
			J.arrayEnd();
		}
		else if (isa<InlineAsm>(v))
		{
			J.arrayBegin();
			J.value("asm");
			J.arrayEnd();
		}
		else if (isa<MetadataAsValue>(v))
		{
			J.arrayBegin();
			J.value("md");
			J.arrayEnd();
		}
		else
		{
			J.arrayBegin();
			J.value("v");
			J.value(ids.lookup(v));
			J.arrayEnd();
		}
	}

	void loc(const DILocation* l)
	{
		J.attributeArray("loc", [&] {
			for (; l; l = l->getInlinedAt())
			{
				J.arrayBegin();
				J.value(l->getFilename());
				J.value(l->getLine());
				std::string fn;
				if (auto* sp = l->getScope()->getSubprogram())
					fn = sp->getLinkageName().empty() ? sp->getName().str() : dem(sp->getLinkageName());
				J.value(fn);
				J.value(l->getDirectory());
				J.arrayEnd();
			}
		});
	}

	// Flatten a constant initialiser into byte-offset leaves.
	void leaves(const Constant* c, uint64_t off, std::vector<std::pair<uint64_t, const Constant*>>& out)
	{
		if (auto* st = dyn_cast<StructType>(c->getType()))
		{
			auto* sl = DL.getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i)
				if (auto* e = c->getAggregateElement(i))
					leaves(e, off + sl->getElementOffset(i), out);
		}
		else if (auto* at = dyn_cast<ArrayType>(c->getType()))
		{
			if (at->getNumElements() > 100000)
				return;
			uint64_t es = DL.getTypeAllocSize(at->getElementType());
			for (unsigned i = 0; i < at->getNumElements(); ++i)
				if (auto* e = c->getAggregateElement(i))
					leaves(e, off + i*es, out);
		}
		else
			out.push_back({off, c});
	}

	void global(const GlobalVariable* g)
	{
		J.object([&] {
			J.attribute("name", g->getName());
			J.attribute("dem", dem(g->getName()));
			J.attribute("const", g->isConstant());
			J.attribute("tls", g->isThreadLocal());
			J.attribute("internal", g->hasLocalLinkage());
			J.attribute("decl", g->isDeclaration());
			J.attribute("size", (int64_t)DL.getTypeAllocSize(g->getValueType()).getFixedValue());
			SmallVector<DIGlobalVariableExpression*, 2> gve;
			g->getDebugInfo(gve);
			for (auto* e : gve)
			{
				J.attribute("file", e->getVariable()->getFilename());
				J.attribute("line", e->getVariable()->getLine());
				J.attribute("vname", e->getVariable()->getName());
				break;
			}
			if (g->hasInitializer())
			{
				std::vector<std::pair<uint64_t, const Constant*>> ls;
				leaves(g->getInitializer(), 0, ls);
				bool str = false;
				if (auto* cds = dyn_cast<ConstantDataSequential>(g->getInitializer()))
					if (cds->isString(8))
					{
						str = true;
						J.attribute("str", json::fixUTF8(cds->getAsString()));
						J.attribute("hex", toHex(cds->getAsString()));
					}
				if (auto* z = dyn_cast<ConstantAggregateZero>(g->getInitializer()))
					if (auto* at = dyn_cast<ArrayType>(z->getType()))
						if (g->isConstant() && at->getElementType()->isIntegerTy(8) && at->getNumElements() <= 4096)
						{
							std::string zeros(at->getNumElements(), '\0');
							J.attribute("hex", toHex(zeros));
						}
				if (!str)
					J.attributeArray("init", [&] {
						for (auto& l : ls)
						{
							J.arrayBegin();
							J.value((int64_t)l.first);
							J.value((int64_t)DL.getTypeStoreSize(l.second->getType()).getFixedValue());
							constant(l.second);
							J.arrayEnd();
						}
					});
			}
		});
	}

	void inst(const Instruction& I)
	{
		J.object([&] {
			J.attribute("id", ids.lookup(&I));
			J.attribute("op", I.getOpcodeName());
			J.attributeBegin("ty");
			ty(I.getType());
			J.attributeEnd();
			if (I.getType()->isSized() && !I.getType()->isVoidTy())
				J.attribute("sz", (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue());
			if (auto* gep = dyn_cast<GetElementPtrInst>(&I))
			{
				J.attributeBegin("base");
				operand(gep->getPointerOperand());
				J.attributeEnd();
				unsigned bw = DL.getIndexTypeSizeInBits(gep->getType());
				MapVector<Value*, APInt> var;
				APInt off(bw, 0);
				if (!gep->collectOffset(DL, bw, var, off))
					J.attribute("bad", true);
				J.attribute("off", off.getSExtValue());
				J.attributeArray("idx", [&] {
					for (auto& p : var)
					{
						J.arrayBegin();
						operand(p.first);
						J.value(p.second.getSExtValue());
						J.arrayEnd();
					}
				});
			}
			else if (auto* phi = dyn_cast<PHINode>(&I))
			{
				J.attributeArray("in", [&] {
					for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
					{
						J.arrayBegin();
						operand(phi->getIncomingValue(i));
						J.value(ids.lookup(phi->getIncomingBlock(i)));
						J.arrayEnd();
					}
				});
			}
			else if (auto* cb = dyn_cast<CallBase>(&I))
			{
				const Value* cv = cb->getCalledOperand()->stripPointerCasts();
				if (auto* f = dyn_cast<Function>(cv))
				{
					J.attribute("callee", f->getName());
					J.attribute("dem", dem(f->getName()));
					if (f->isIntrinsic())
						J.attribute("intr", Intrinsic::getBaseName(f->getIntrinsicID()));
					if (f->doesNotReturn() || cb->doesNotReturn())
						J.attribute("noreturn", true);
				}
				else
				{
					J.attributeBegin("target");
					operand(cv);
					J.attributeEnd();
				}
				J.attributeArray("args", [&] {
					for (auto& a : cb->args())
						operand(a.get());
				});
				J.attributeArray("byval", [&] {
					for (unsigned i = 0; i < cb->arg_size(); ++i)
						if (cb->paramHasAttr(i, Attribute::StructRet))
						{
							J.arrayBegin();
							J.value("sret");
							J.value(i);
							J.arrayEnd();
						}
						else if (cb->isByValArgument(i))
						{
							J.arrayBegin();
							J.value("byval");
							J.value(i);
							J.arrayEnd();
						}
				});
			}
			else
			{
				J.attributeArray("ops", [&] {
					for (auto& o : I.operands())
						operand(o.get());
				});
				if (auto* a = dyn_cast<AllocaInst>(&I))
				{
					J.attribute("asz", (int64_t)DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue());
					J.attributeBegin("aty");
					ty(a->getAllocatedType());
					J.attributeEnd();
					for (auto* d : findDbgDeclares(const_cast<AllocaInst*>(a)))
						if (auto* lv = d->getVariable())
						{
							J.attribute("var", lv->getName());
							break;
						}
				}
				if (auto* c = dyn_cast<CmpInst>(&I))
				{
					J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
					J.attributeBegin("oty");
					ty(c->getOperand(0)->getType());
					J.attributeEnd();
				}
				if (auto* c = dyn_cast<CastInst>(&I))
				{
					J.attributeBegin("oty");
					ty(c->getOperand(0)->getType());
					J.attributeEnd();
				}
				if (auto* s = dyn_cast<StoreInst>(&I))
				{
					J.attributeBegin("sty");
					ty(s->getValueOperand()->getType());
					J.attributeEnd();
					J.attribute("ssz", (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue());
				}
				if (auto* e = dyn_cast<ExtractValueInst>(&I))
				{
					J.attributeArray("path", [&] { for (unsigned i : e->indices()) J.value(i); });
					Type* t = e->getAggregateOperand()->getType();
					uint64_t off = 0;
					for (unsigned i : e->indices())
					{
						if (auto* st = dyn_cast<StructType>(t))
						{
							off += DL.getStructLayout(st)->getElementOffset(i);
							t = st->getElementType(i);
						}
						else
						{
							t = cast<ArrayType>(t)->getElementType();
							off += i*DL.getTypeAllocSize(t);
						}
					}
					J.attribute("boff", (int64_t)off);
				}
				if (auto* e = dyn_cast<InsertValueInst>(&I))
				{
					J.attributeArray("path", [&] { for (unsigned i : e->indices()) J.value(i); });
					Type* t = e->getAggregateOperand()->getType();
					uint64_t off = 0;
					for (unsigned i : e->indices())
					{
						if (auto* st = dyn_cast<StructType>(t))
						{
							off += DL.getStructLayout(st)->getElementOffset(i);
							t = st->getElementType(i);
						}
						else
						{
							t = cast<ArrayType>(t)->getElementType();
							off += i*DL.getTypeAllocSize(t);
						}
					}
					J.attribute("boff", (int64_t)off);
					J.attribute("vsz", (int64_t)DL.getTypeStoreSize(e->getInsertedValueOperand()->getType()).getFixedValue());
				}
				if (auto* sv = dyn_cast<ShuffleVectorInst>(&I))
					J.attributeArray("mask", [&] { for (int i : sv->getShuffleMask()) J.value(i); });
			}
			if (I.isVolatile() || I.isAtomic())
				J.attribute("volatile", true);
			if (DILocation* l = I.getDebugLoc())
				loc(l);
		});
	}

	void function(Function& F)
	{
		unsigned n = 1;
		for (auto& a : F.args())
			ids[&a] = n++;
		for (auto& b : F)
		{
			ids[&b] = n++;
			for (auto& i : b)
				ids[&i] = n++;
		}
		J.object([&] {
			J.attribute("name", F.getName());
			J.attribute("dem", dem(F.getName()));
			J.attribute("features", F.getFnAttribute("target-features").getValueAsString());
			J.attributeBegin("ret");
			ty(F.getReturnType());
			J.attributeEnd();
			J.attribute("internal", F.hasLocalLinkage());
			if (auto* sp = F.getSubprogram())
			{
				J.attribute("file", sp->getFilename());
				J.attribute("line", sp->getLine());
				J.attribute("sname", sp->getName());
			}
			J.attributeArray("args", [&] {
				for (auto& a : F.args())
				{
					J.object([&] {
						J.attribute("id", ids[&a]);
						J.attribute("name", a.getName());
						J.attributeBegin("ty");
						ty(a.getType());
						J.attributeEnd();
						if (a.hasStructRetAttr())
							J.attribute("sret", true);
						if (a.hasByValAttr())
							J.attribute("byval", true);
					});
				}
			});
			J.attributeArray("blocks", [&] {
				for (auto& b : F)
					J.object([&] {
						J.attribute("id", ids[&b]);
						J.attributeArray("insts", [&] {
							for (auto& i : b)
								if (!isa<DbgInfoIntrinsic>(i))
									inst(i);
						});
					});
			});
		});
	}

	static std::string qual(const DIScope* s)
	{
		std::string r;
		while (s)
		{
			if (isa<DIFile>(s) || isa<DICompileUnit>(s))
				break;
			std::string n = s->getName().str();
			if (isa<DINamespace>(s) && n.empty())
				n = "(anonymous namespace)";
			if (!n.empty())
				r = r.empty() ? n : n + "::" + r;
			s = s->getScope();
		}
		return r;
	}

	void structs(DebugInfoFinder& F)
	{
		std::set<std::string> seen;
		for (auto* t : F.types())
		{
			auto* ct = dyn_cast<DICompositeType>(t);
			if (!ct || ct->isForwardDecl() || ct->getName().empty())
				continue;
			std::string q = qual(ct);
			if (q.compare(0, 5, "std::") == 0 || q.compare(0, 5, "glm::") == 0 ||
				q.compare(0, 9, "__gnu_cxx") == 0)
				continue;
			if (!seen.insert(q).second)
				continue;
			J.attributeBegin(q);
			J.object([&] {
				J.attribute("size", (int64_t)ct->getSizeInBits()/8);
				J.attribute("tag", dwarf::TagString(ct->getTag()));
				J.attribute("file", ct->getFilename());
				J.attributeArray("members", [&] {
					for (auto* e : ct->getElements())
					{
						if (auto* m = dyn_cast<DIDerivedType>(e))
						{
							if (m->getTag() != dwarf::DW_TAG_member || m->isStaticMember())
								continue;
							J.object([&] {
								J.attribute("name", m->getName());
								J.attribute("off", (int64_t)m->getOffsetInBits()/8);
								J.attribute("size", (int64_t)m->getSizeInBits()/8);
								std::string tn;
								const DIType* bt = m->getBaseType();
								while (bt)
								{
									if (auto* d = dyn_cast<DIDerivedType>(bt))
									{
										if (d->getTag() == dwarf::DW_TAG_pointer_type)
											tn += "*";
										else if (d->getTag() == dwarf::DW_TAG_const_type)
											tn += "c";
										else if (d->getTag() == dwarf::DW_TAG_typedef)
										{
											tn += qual(d);
											break;
										}
										bt = d->getBaseType();
									}
									else
									{
										tn += qual(bt);
										break;
									}
								}
								J.attribute("type", tn);
							});
						}
						else if (auto* en = dyn_cast<DIEnumerator>(e))
							J.object([&] {
								J.attribute("name", en->getName());
								J.attribute("value", (int64_t)en->getValue().getSExtValue());
							});
					}
				});
			});
			J.attributeEnd();
		}
	}
};

int main(int argc, char** argv)
{
	if (argc != 3)
		die("usage: irdump CONFIG.json OUT.json");
	const char* opts[] = {"irdump", "-unroll-threshold=200000", "-unroll-max-percent-threshold-boost=100",
		"-unroll-max-iteration-count-to-analyze=128"};
	cl::ParseCommandLineOptions(4, opts);
	auto buf = MemoryBuffer::getFile(argv[1]);
	if (!buf)
		die("cannot read config");
	auto cfgE = json::parse((*buf)->getBuffer());
	if (!cfgE)
		die("bad config json");
	json::Object& cfg = *cfgE->getAsObject();

	LLVMContext ctx;
	SMDiagnostic err;
	std::unique_ptr<Module> M;
	for (auto& b : *cfg.getArray("bc"))
	{
		auto m = parseIRFile(*b.getAsString(), err, ctx);
		if (!m)
			die("cannot load " + *b.getAsString());
		if (!M)
			M = std::move(m);
		else if (Linker::linkModules(*M, std::move(m)))
			die("link failed");
	}

	auto regs = [&](const char* k) {
		std::vector<Regex> r;
		if (auto* a = cfg.getArray(k))
			for (auto& v : *a)
				r.emplace_back(*v.getAsString());
		return r;
	};
	auto keep = regs("keep");       // opaque: never inlined
	auto force = regs("inline");    // inlined even though "keep" matches
	auto roots = regs("roots");     // emitted
	auto emitAlso = regs("emit");

	PassBuilder PB;
	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM);
	PB.registerCGSCCAnalyses(CGAM);
	PB.registerFunctionAnalyses(FAM);
	PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	auto run = [&](StringRef pipe) {
		ModulePassManager MPM;
		if (auto e = PB.parsePassPipeline(MPM, pipe))
			die("bad pipeline " + pipe + ": " + toString(std::move(e)));
		MPM.run(*M, MAM);
		MAM.clear();
		CGAM.clear();
		FAM.clear();
		LAM.clear();
	};

	for (auto& F : *M)
	{
		F.removeFnAttr(Attribute::OptimizeNone);
		F.removeFnAttr(Attribute::NoInline);
		F.removeFnAttr(Attribute::AlwaysInline);
		if (F.isDeclaration())
			continue;
		if (F.hasAvailableExternallyLinkage())
			F.setLinkage(GlobalValue::LinkOnceODRLinkage);
	}

	std::string pre = cfg.getString("pre").value_or("function(lower-expect,sroa)").str();
	std::string post = cfg.getString("post").value_or("function(sroa,instcombine<no-verify-fixpoint>,simplifycfg)").str();

	run("function(lowerinvoke,simplifycfg,sroa)");

	const DataLayout& DL0 = M->getDataLayout();
	// Specialisation on constant arguments.
	std::set<std::string> specNames;
	if (auto* specs = cfg.getArray("spec"))
	{
		for (auto& s : *specs)
		{
			auto* o = s.getAsObject();
			std::string fn = o->getString("fn")->str();
			std::string name = o->getString("name")->str();
			Function* F = nullptr;
			for (auto& f : *M)
				if (!f.isDeclaration() && (fn[0] == '~' ? Regex(fn.substr(1)).match(dem(f.getName())) :
					dem(f.getName()) == fn))
					F = &f;
			if (!F)
				continue;	// reported by whoever needs it
			ValueToValueMapTy vm;
			Function* C = CloneFunction(F, vm);
			C->setName(name);
			C->setLinkage(GlobalValue::ExternalLinkage);
			C->setComdat(nullptr);
			for (auto& kv : *o->getObject("args"))
			{
				unsigned idx = std::stoi(kv.first.str());
				Argument* a = C->getArg(idx);
				int64_t val = *kv.second.getAsInteger();
				Constant* c = a->getType()->isPointerTy() ?
					(Constant*)ConstantPointerNull::get(cast<PointerType>(a->getType())) :
					(Constant*)ConstantInt::get(a->getType(), val, true);
				a->replaceAllUsesWith(c);
			}
			specNames.insert(C->getName().str());
		}
		run("function(sccp,simplifycfg,instsimplify,simplifycfg)");
	}

	std::set<std::string> rootNames;
	for (auto& F : *M)
	{
		if (F.isDeclaration())
			continue;
		std::string d = dem(F.getName());
		bool isSpec = specNames.count(F.getName().str());
		bool isRoot = isSpec || anyMatch(roots, d) || anyMatch(roots, F.getName());
		if (isRoot)
			rootNames.insert(F.getName().str());
		bool k = anyMatch(keep, d) && !anyMatch(force, d);
		if (k)
			F.addFnAttr(Attribute::NoInline);
		else if (!isSpec)
			F.addFnAttr(Attribute::AlwaysInline);
		if (!isRoot && !k && !F.hasLocalLinkage() && F.getName() != "main" &&
			!anyMatch(emitAlso, d))
		{
			// keep symbol alive until inlined
		}
	}

	for (int round = 0; round < 2; ++round)
	{
		run("always-inline");
		run(post);
		// Specialise loads of constant globals and of never-stored fields of arguments.
		if (auto* specs = cfg.getArray("spec"))
			for (auto& s : *specs)
			{
				auto* o = s.getAsObject();
				Function* F = M->getFunction(o->getString("name")->str());
				if (!F)
					continue;
				std::vector<std::pair<LoadInst*, Constant*>> repl;
				auto fieldKey = [&](const Value* p, unsigned& arg, int64_t& off) {
					APInt a(DL0.getIndexTypeSizeInBits(p->getType()), 0);
					const Value* base = p->stripAndAccumulateConstantOffsets(DL0, a, true);
					off = a.getSExtValue();
					if (auto* ar = dyn_cast<Argument>(base))
					{
						arg = ar->getArgNo();
						return true;
					}
					return false;
				};
				std::set<std::pair<unsigned, int64_t>> stored;
				for (auto& I : instructions(*F))
					if (auto* st = dyn_cast<StoreInst>(&I))
					{
						unsigned a;
						int64_t off;
						if (fieldKey(st->getPointerOperand(), a, off))
							stored.insert({a, off});
					}
				for (auto& I : instructions(*F))
				{
					auto* ld = dyn_cast<LoadInst>(&I);
					if (!ld || !ld->getType()->isIntegerTy())
						continue;
					if (auto* gl = o->getObject("globals"))
						if (auto* g = dyn_cast<GlobalVariable>(ld->getPointerOperand()->stripPointerCasts()))
							for (auto& kv : *gl)
								if (dem(g->getName()) == kv.first.str())
									repl.push_back({ld, ConstantInt::get(ld->getType(), *kv.second.getAsInteger(), true)});
					if (auto* fl = o->getObject("fields"))
					{
						unsigned a;
						int64_t off;
						if (fieldKey(ld->getPointerOperand(), a, off) && !stored.count({a, off}))
							if (auto* fa = fl->getObject(std::to_string(a)))
								if (auto c = fa->getInteger(std::to_string(off)))
									repl.push_back({ld, ConstantInt::get(ld->getType(), *c, true)});
					}
				}
				for (auto& r : repl)
				{
					r.first->replaceAllUsesWith(r.second);
					r.first->eraseFromParent();
				}
			}
		run("function(sccp,simplifycfg,instsimplify,simplifycfg)");
	}

	{
		std::set<const Function*> isRoot;
		for (auto& F : *M)
			if (!F.isDeclaration() && !rootNames.count(F.getName().str()) && !anyMatch(emitAlso, dem(F.getName())))
			{
				if (F.hasLinkOnceLinkage() || F.hasLocalLinkage())
					continue;
				F.setComdat(nullptr);
				F.setLinkage(GlobalValue::InternalLinkage);
			}
		run("globaldce");
	}
	// Unroll small component loops and loops that run once.
	if (int maxTrip = cfg.getInteger("unroll").value_or(0))
	{
		for (int round = 0; round < 2; ++round)
		{
			run("function(loop-simplify,lcssa)");
			for (auto& F : *M)
			{
				if (F.isDeclaration())
					continue;
				DominatorTree DT(F);
				LoopInfo LI(DT);
				AssumptionCache AC(F);
				TargetLibraryInfoImpl TLII;
				TargetLibraryInfo TLI(TLII);
				ScalarEvolution SE(F, TLI, AC, DT, LI);
				for (Loop* L : LI.getLoopsInPreorder())
				{
					unsigned tc = 0;
					for (BasicBlock* e : {L->getHeader(), L->getLoopLatch()})
						if (!tc && e && L->isLoopExiting(e))
							tc = SE.getSmallConstantTripCount(L, e);
					// One trip: the body runs once, the header of a loop that exits there twice.
					bool ok = tc == 1 || (tc == 2 && L->getHeader() != L->getLoopLatch() &&
						L->isLoopExiting(L->getHeader()) &&
						SE.getSmallConstantTripCount(L, L->getHeader()) == 2);
					if (!ok && tc && tc <= (unsigned)maxTrip && L->isInnermost())
					{
						ok = true;
						unsigned n = 0;
						for (BasicBlock* b : L->blocks())
							for (Instruction& i : *b)
							{
								++n;
								if (isa<CallBase>(i) && !isa<IntrinsicInst>(i) &&
									!cfg.getBoolean("unrollcalls").value_or(false))
								{
									ok = false;
								}
							}
						if (n > (unsigned)cfg.getInteger("unrollsize").value_or(80))
							ok = false;
					}
					MDNode* d = MDNode::getDistinct(ctx, {nullptr, MDNode::get(ctx, MDString::get(ctx,
						ok ? "llvm.loop.unroll.full" : "llvm.loop.unroll.disable"))});
					d->replaceOperandWith(0, d);
					L->setLoopID(d);
				}
			}
			run("function(loop-unroll<no-partial;no-peeling;no-runtime;no-upperbound>,sroa,early-cse,simplifycfg,instsimplify)");
		}
	}
	if (auto e = cfg.getString("final"))
		run(*e);
	if (verifyModule(*M, &errs()))
		die("module broken");
	if (auto ll = cfg.getString("ll"))
	{
		std::error_code ec;
		raw_fd_ostream o(*ll, ec);
		M->print(o, nullptr);
	}

	std::error_code ec;
	raw_fd_ostream out(argv[2], ec);
	if (ec)
		die("cannot write output");
	json::OStream J(out);
	Emitter E(J, *M);
	J.object([&] {
		J.attributeArray("functions", [&] {
			for (auto& F : *M)
				if (!F.isDeclaration() &&
					(rootNames.count(F.getName().str()) || anyMatch(emitAlso, dem(F.getName()))))
					E.function(F);
		});
		if (cfg.getBoolean("allglobals").value_or(false))
			for (auto& g : M->globals())
				E.useGlobal(&g);
		J.attributeArray("globals", [&] {
			for (size_t i = 0; i < E.gq.size(); ++i)
				E.global(E.gq[i]);
		});
		J.attributeArray("defs", [&] {
			for (auto& F : *M)
				if (!F.isDeclaration())
					J.value(dem(F.getName()));
		});
		DebugInfoFinder finder;
		finder.processModule(*M);
		J.attributeObject("structs", [&] { E.structs(finder); });
	});
	out << "\n";
	return 0;
}
