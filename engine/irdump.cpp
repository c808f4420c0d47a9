#include "llvm/Support/CommandLine.h"
// irdump: mechanical extraction of the functions under contract from the LLVM bitcode of /repo's sources.
// usage: irdump in.bc roots.txt stdinline.txt out.json
//   roots.txt: mangled names of functions that carry a contract (one per line, optional leading '!' = dump body)
//   Functions of the repository without a contract are inlined into their callers; functions with a contract
//   stay calls. std:: functions whose demangled name starts with a line of stdinline.txt are inlined as well.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/TypeMetadataUtils.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Analysis/ValueTracking.h"
#include <fstream>
#include <map>
#include <set>
#include <vector>
#include <functional>
using namespace llvm;
using std::string; using std::map; using std::set; using std::vector;

static const DataLayout * DL;
static map<const Value*, int> ids;
static set<const GlobalVariable*> usedGlobals;
static int nextId;
static set<string> constGlobals;

static int idOf(const Value * v) {
	auto it = ids.find(v);
	if (it != ids.end()) return it->second;
	return ids[v] = nextId++;
}

static json::Value tyOf(Type * t) {
	if (t->isIntegerTy()) return json::Array{"i", (int64_t)t->getIntegerBitWidth()};
	if (t->isPointerTy()) return json::Array{"p"};
	if (t->isVoidTy()) return json::Array{"void"};
	if (t->isFloatingPointTy()) return json::Array{"fp"};
	if (t->isStructTy()) {
		json::Array a{"s"};
		for (unsigned i = 0; i < t->getStructNumElements(); i++) a.push_back(tyOf(t->getStructElementType(i)));
		return a;
	}
	string s; raw_string_ostream os(s); t->print(os);
	return json::Array{"?", s};
}

// a module-internal variable that is only ever loaded from keeps its initial value
static bool readOnly(const Value * v, int depth = 0) {
	if (depth > 6) return false;
	for (auto * u : v->users()) {
		if (isa<LoadInst>(u)) continue;
		if (isa<GEPOperator>(u) || isa<ConstantExpr>(u)) { if (readOnly(u, depth + 1)) continue; }
		return false;
	}
	return true;
}

static json::Value constInt(const APInt & v) {
	SmallString<40> s; v.toStringSigned(s);
	return json::Array{"i", (int64_t)v.getBitWidth(), string(s.str())};
}

static json::Value val(const Value * v) {
	if (auto * c = dyn_cast<ConstantInt>(v)) return constInt(c->getValue());
	if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
	if (isa<UndefValue>(v)) return json::Array{"undef", tyOf(v->getType())};
	if (auto * f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
	if (auto * g = dyn_cast<GlobalVariable>(v)) { usedGlobals.insert(g); return json::Array{"g", g->getName().str(), 0}; }
	if (auto * ga = dyn_cast<GlobalAlias>(v)) return json::Array{"f", ga->getAliasee()->getName().str()};
	if (auto * ce = dyn_cast<ConstantExpr>(v)) {
		if (ce->getType()->isPointerTy()) {
			APInt off(64, 0);
			const Value * b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto * g = dyn_cast<GlobalVariable>(b)) { usedGlobals.insert(g); return json::Array{"g", g->getName().str(), (int64_t)off.getSExtValue()}; }
		}
		string s; raw_string_ostream os(s); v->print(os);
		return json::Array{"unknownconst", s, tyOf(v->getType())};
	}
	if (isa<Constant>(v)) {
		if (v->getType()->isFloatingPointTy()) { string s; raw_string_ostream os(s); v->print(os); return json::Array{"fpc", s}; }
		if (isa<ConstantAggregateZero>(v) && v->getType()->isStructTy()) return json::Array{"zeroagg", tyOf(v->getType())};
		if (auto * cs = dyn_cast<ConstantStruct>(v)) {
			json::Array a{"agg"};
			for (unsigned i = 0; i < cs->getNumOperands(); i++) a.push_back(val(cs->getOperand(i)));
			return a;
		}
		string s; raw_string_ostream os(s); v->print(os);
		return json::Array{"unknownconst", s, tyOf(v->getType())};
	}
	if (isa<MetadataAsValue>(v)) return json::Array{"md"};
	return json::Array{"v", idOf(v)};
}

static string fileOf(const DebugLoc & dl) {
	if (!dl) return "";
	return cast<DIScope>(dl.getScope())->getFilename().str();
}

static json::Value locOf(const Instruction & I) {
	DebugLoc dl = I.getDebugLoc();
	if (!dl) return nullptr;
	string f = fileOf(dl);
	auto p = f.rfind("/src/");
	if (p != string::npos) f = f.substr(p + 5);
	return json::Array{f, (int64_t)dl.getLine()};
}

// class id of a virtual call, through the llvm.type.test assume on the vtable pointer
static map<const Value*, string> vtableClass;

static json::Value dumpInst(const Instruction & I, map<const BasicBlock*, int> & bbid, set<const AllocaInst*> & escAllocas) {
	json::Object o;
	o["op"] = I.getOpcodeName();
	if (!I.getType()->isVoidTy()) { o["id"] = idOf(&I); o["ty"] = tyOf(I.getType()); }
	o["loc"] = locOf(I);
	if (auto * bo = dyn_cast<BinaryOperator>(&I)) {
		o["k"] = "bin"; o["a"] = val(bo->getOperand(0)); o["b"] = val(bo->getOperand(1));
		if (auto * ob = dyn_cast<OverflowingBinaryOperator>(bo)) { o["nsw"] = ob->hasNoSignedWrap(); o["nuw"] = ob->hasNoUnsignedWrap(); }
		return o;
	}
	if (auto * c = dyn_cast<ICmpInst>(&I)) {
		o["k"] = "icmp"; o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
		o["a"] = val(c->getOperand(0)); o["b"] = val(c->getOperand(1)); o["oty"] = tyOf(c->getOperand(0)->getType());
		return o;
	}
	if (isa<FCmpInst>(&I) || isa<UnaryOperator>(&I)) { o["k"] = "havoc"; return o; }
	if (auto * c = dyn_cast<CastInst>(&I)) {
		o["k"] = "cast"; o["a"] = val(c->getOperand(0)); o["from"] = tyOf(c->getSrcTy()); return o;
	}
	if (auto * l = dyn_cast<LoadInst>(&I)) {
		o["k"] = "load"; o["ptr"] = val(l->getPointerOperand());
		if (auto * md = l->getMetadata(LLVMContext::MD_tbaa)) {
			if (md->getNumOperands() >= 2) if (auto * t = dyn_cast<MDNode>(md->getOperand(1))) if (t->getNumOperands() && isa<MDString>(t->getOperand(0))) o["tbaa"] = cast<MDString>(t->getOperand(0))->getString().str();
		}
		return o;
	}
	if (auto * s = dyn_cast<StoreInst>(&I)) {
		o["k"] = "store"; o["ptr"] = val(s->getPointerOperand()); o["val"] = val(s->getValueOperand());
		o["vty"] = tyOf(s->getValueOperand()->getType()); return o;
	}
	if (auto * g = dyn_cast<GetElementPtrInst>(&I)) {
		o["k"] = "gep"; o["base"] = val(g->getPointerOperand());
		MapVector<Value*, APInt> vo; APInt co(64, 0);
		if (!g->collectOffset(*DL, 64, vo, co)) { o["k"] = "unsupported"; return o; }
		o["off"] = (int64_t)co.getSExtValue();
		json::Array a;
		for (auto & p : vo) a.push_back(json::Array{val(p.first), (int64_t)p.second.getSExtValue(), tyOf(p.first->getType())});
		o["idx"] = std::move(a); o["inbounds"] = g->isInBounds();
		return o;
	}
	if (auto * s = dyn_cast<SelectInst>(&I)) {
		o["k"] = "select"; o["c"] = val(s->getCondition()); o["a"] = val(s->getTrueValue()); o["b"] = val(s->getFalseValue()); return o;
	}
	if (auto * p = dyn_cast<PHINode>(&I)) {
		o["k"] = "phi"; json::Array a;
		for (unsigned i = 0; i < p->getNumIncomingValues(); i++) a.push_back(json::Array{val(p->getIncomingValue(i)), bbid[p->getIncomingBlock(i)]});
		o["in"] = std::move(a); return o;
	}
	if (auto * al = dyn_cast<AllocaInst>(&I)) {
		o["k"] = "alloca"; o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
		o["n"] = val(al->getArraySize()); 
		string s; raw_string_ostream os(s); al->getAllocatedType()->print(os); o["aty"] = s;
		return o;
	}
	if (auto * cb = dyn_cast<CallBase>(&I)) {
		o["k"] = isa<InvokeInst>(&I) ? "invoke" : "call";
		const Value * callee = cb->getCalledOperand()->stripPointerCasts();
		if (auto * f = dyn_cast<Function>(callee)) {
			o["callee"] = f->getName().str();
			o["nounwind"] = cb->doesNotThrow();
		} else if (isa<InlineAsm>(callee)) { o["asm"] = true; }
		else {
			o["fptr"] = val(callee);
			if (auto * ld = dyn_cast<LoadInst>(callee)) {
				APInt off(64, 0);
				const Value * vt = ld->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL, off, true);
				auto it = vtableClass.find(vt);
				if (it != vtableClass.end()) { o["vclass"] = it->second; o["vslot"] = (int64_t)(off.getSExtValue() / 8); }
			}
		}
		json::Array a, at;
		for (auto & u : cb->args()) { a.push_back(val(u.get())); at.push_back(tyOf(u.get()->getType())); }
		o["args"] = std::move(a); o["atys"] = std::move(at);
		if (cb->hasStructRetAttr() || (cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet))) o["sret"] = true;
		if (auto * ii = dyn_cast<InvokeInst>(&I)) { o["normal"] = bbid[ii->getNormalDest()]; o["unwind"] = bbid[ii->getUnwindDest()]; }
		return o;
	}
	if (auto * b = dyn_cast<BranchInst>(&I)) {
		if (b->isConditional()) { o["k"] = "condbr"; o["c"] = val(b->getCondition()); o["t"] = bbid[b->getSuccessor(0)]; o["f"] = bbid[b->getSuccessor(1)]; }
		else { o["k"] = "br"; o["t"] = bbid[b->getSuccessor(0)]; }
		return o;
	}
	if (auto * s = dyn_cast<SwitchInst>(&I)) {
		o["k"] = "switch"; o["c"] = val(s->getCondition()); o["default"] = bbid[s->getDefaultDest()];
		json::Array a;
		for (auto & c : s->cases()) a.push_back(json::Array{val(c.getCaseValue()), bbid[c.getCaseSuccessor()]});
		o["cases"] = std::move(a); return o;
	}
	if (auto * r = dyn_cast<ReturnInst>(&I)) { o["k"] = "ret"; if (r->getReturnValue()) o["v"] = val(r->getReturnValue()); return o; }
	if (isa<UnreachableInst>(&I)) { o["k"] = "unreachable"; return o; }
	if (isa<ResumeInst>(&I)) { o["k"] = "resume"; return o; }
	if (isa<LandingPadInst>(&I)) { o["k"] = "landingpad"; return o; }
	if (auto * e = dyn_cast<ExtractValueInst>(&I)) {
		o["k"] = "extractvalue"; o["a"] = val(e->getAggregateOperand());
		json::Array a; for (unsigned i : e->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); return o;
	}
	if (auto * e = dyn_cast<InsertValueInst>(&I)) {
		o["k"] = "insertvalue"; o["a"] = val(e->getAggregateOperand()); o["b"] = val(e->getInsertedValueOperand());
		json::Array a; for (unsigned i : e->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); return o;
	}
	if (auto * f = dyn_cast<FreezeInst>(&I)) { o["k"] = "freeze"; o["a"] = val(f->getOperand(0)); return o; }
	o["k"] = "unsupported"; return o;
}

static void dumpLoop(const Loop * L, map<const BasicBlock*, int> & bbid, json::Array & out, int parent) {
	json::Object o;
	o["header"] = bbid[L->getHeader()];
	json::Array b; for (auto * bb : L->blocks()) b.push_back(bbid[bb]);
	o["blocks"] = std::move(b); o["parent"] = parent;
	if (L->getStartLoc()) o["line"] = (int64_t)L->getStartLoc().getLine();
	int me = out.size();
	out.push_back(std::move(o));
	for (auto * s : L->getSubLoops()) dumpLoop(s, bbid, out, me);
}

static bool flatten(const Constant * c, uint64_t off, json::Array & out, size_t & budget) {
	if (budget == 0) return false;
	Type * t = c->getType();
	if (isa<UndefValue>(c)) return true;
	if (t->isIntegerTy()) {
		budget--;
		const APInt * v = nullptr; APInt z(t->getIntegerBitWidth(), 0);
		if (auto * ci = dyn_cast<ConstantInt>(c)) v = &ci->getValue(); else if (c->isNullValue()) v = &z; else return false;
		SmallString<40> s; v->toStringSigned(s);
		out.push_back(json::Array{(int64_t)off, "i", (int64_t)t->getIntegerBitWidth(), string(s.str())});
		return true;
	}
	if (t->isPointerTy()) { budget--; out.push_back(json::Array{(int64_t)off, "p", val(c)}); return true; }
	if (t->isFloatingPointTy()) return true;
	if (auto * at = dyn_cast<ArrayType>(t)) {
		uint64_t es = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
		for (uint64_t i = 0; i < at->getNumElements(); i++) {
			Constant * e = c->getAggregateElement(i);
			if (!e || !flatten(e, off + i * es, out, budget)) return false;
		}
		return true;
	}
	if (auto * st = dyn_cast<StructType>(t)) {
		const StructLayout * sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) {
			Constant * e = c->getAggregateElement(i);
			if (!e || !flatten(e, off + sl->getElementOffset(i).getFixedValue(), out, budget)) return false;
		}
		return true;
	}
	return false;
}

int main(int argc, char ** argv) {
	LLVMContext ctx; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print("irdump", errs()); return 2; }
	DL = &M->getDataLayout();
	set<string> roots, bodies; vector<string> stdinl;
	{ std::ifstream f(argv[2]); string s; while (getline(f, s)) { if (s.empty()) continue; if (s[0] == '!') { s = s.substr(1); bodies.insert(s); } roots.insert(s); } }
	{ std::ifstream f(argv[3]); string s; while (getline(f, s)) if (!s.empty() && s[0] != '#') stdinl.push_back(s); }
	// vtables: class -> list of function names, before anything is internalised
	json::Object vtables; map<string, vector<string>> derived;
	for (auto & g : M->globals()) {
		if (!g.getName().starts_with("_ZTV") || !g.hasInitializer()) continue;
		json::Array a;
		if (auto * cs = dyn_cast<ConstantStruct>(g.getInitializer())) {
			if (auto * ca = dyn_cast<ConstantArray>(cs->getOperand(0))) {
				for (unsigned i = 2; i < ca->getNumOperands(); i++) {
					auto * op = ca->getOperand(i)->stripPointerCasts();
					a.push_back(op->hasName() ? op->getName().str() : string(""));
				}
			}
		}
		vtables[g.getName().str()] = std::move(a);
		SmallVector<MDNode*, 4> tys; g.getMetadata(LLVMContext::MD_type, tys);
		for (auto * md : tys) if (auto * ms = dyn_cast<MDString>(md->getOperand(1).get())) derived[ms->getString().str()].push_back(g.getName().str());
	}
	// complete-object constructors and destructors are aliases of the base-object ones: call the function itself
	for (auto & al : M->aliases()) if (auto * af = dyn_cast<Function>(al.getAliasee()->stripPointerCasts())) al.replaceAllUsesWith(af);
	for (auto & g : M->globals()) if (!g.isDeclaration() && readOnly(&g)) { constGlobals.insert(g.getName().str()); g.setConstant(true); }
	for (auto & f : *M) {
		if (f.isDeclaration()) continue;
		f.removeFnAttr(Attribute::OptimizeNone); f.removeFnAttr(Attribute::NoInline); f.removeFnAttr(Attribute::AlwaysInline);
		f.removeFnAttr(Attribute::StackProtectStrong); f.removeFnAttr(Attribute::StackProtect);
		for (auto & bb : f) if (auto * t = bb.getTerminator()) t->setMetadata(LLVMContext::MD_loop, nullptr);
		string n = f.getName().str();
		if (roots.count(n)) { f.addFnAttr(Attribute::NoInline); continue; }
		f.setComdat(nullptr);
		string d = demangle(n);
		bool inrepo = false;
		if (auto * sp = f.getSubprogram()) inrepo = sp->getFilename().contains("/libvoikko/src/") || sp->getFilename().contains("libvoikko/src");
		bool sinl = false;
		for (auto & s : stdinl) if (StringRef(d).starts_with(s)) sinl = true;
		if (inrepo || sinl) f.addFnAttr(Attribute::AlwaysInline);
		else f.addFnAttr(Attribute::NoInline);
	}
	// keep only roots with bodies requested
	for (auto & f : *M) {
		if (f.isDeclaration()) continue;
		string n = f.getName().str();
		if (bodies.count(n)) { f.setLinkage(GlobalValue::ExternalLinkage); f.setComdat(nullptr); }
		else if (roots.count(n)) { f.deleteBody(); f.setComdat(nullptr);}
		else f.setLinkage(GlobalValue::InternalLinkage);
	}
	for (auto & g : M->globals()) if (!g.isDeclaration() && !g.getName().starts_with("llvm.")) { g.setComdat(nullptr); g.setLinkage(GlobalValue::InternalLinkage); }
	if (auto * g = M->getNamedGlobal("llvm.global_ctors")) g->eraseFromParent();
	if (auto * g = M->getNamedGlobal("llvm.used")) g->eraseFromParent();
	if (auto * g = M->getNamedGlobal("llvm.compiler.used")) g->eraseFromParent();
	PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	const char * pipe = "globaldce,always-inline,globaldce,function(sroa<preserve-cfg>,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts;no-speculate-blocks;bonus-inst-threshold=0>,instsimplify,adce,loop-simplify,lcssa,loop(loop-unroll-full),sroa<preserve-cfg>,early-cse<memssa>,instsimplify,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts;no-speculate-blocks;bonus-inst-threshold=0>,instsimplify,adce,loop-simplify)";
	// loops with a small constant trip count (table scans) are unrolled completely; nothing else is unrolled
	const char * ua[] = {"irdump", "-unroll-threshold=200000", "-unroll-full-max-count=80", "-unroll-max-iteration-count-to-analyze=0", "-unroll-max-upperbound=0", "-unroll-allow-peeling=0"};
	cl::ParseCommandLineOptions(6, ua);
	if (argc > 5) pipe = argv[5];
	if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
	MPM.run(*M, MAM);

	json::Array funcs;
	for (auto & f : *M) {
		if (f.isDeclaration() || !bodies.count(f.getName().str())) continue;
		ids.clear(); nextId = 0; vtableClass.clear();
		json::Object fo; fo["name"] = f.getName().str(); fo["demangled"] = demangle(f.getName().str());
		fo["ret"] = tyOf(f.getReturnType());
		json::Array args;
		for (auto & a : f.args()) args.push_back(json::Array{idOf(&a), tyOf(a.getType()), a.getName().str(), a.hasStructRetAttr()});
		fo["args"] = std::move(args);
		if (auto * sp = f.getSubprogram()) { string fn = sp->getFilename().str(); auto p = fn.rfind("/src/"); fo["file"] = p == string::npos ? fn : fn.substr(p + 5); fo["line"] = (int64_t)sp->getLine(); }
		for (auto & bb : f) for (auto & I : bb) if (auto * ci = dyn_cast<CallInst>(&I)) if (auto * cf = ci->getCalledFunction()) if (cf->getIntrinsicID() == Intrinsic::type_test || cf->getIntrinsicID() == Intrinsic::public_type_test) {
			if (auto * mv = dyn_cast<MetadataAsValue>(ci->getArgOperand(1))) if (auto * ms = dyn_cast<MDString>(mv->getMetadata())) vtableClass[ci->getArgOperand(0)] = ms->getString().str();
		}
		map<const BasicBlock*, int> bbid; int k = 0;
		for (auto & bb : f) bbid[&bb] = k++;
		set<const AllocaInst*> esc;
		json::Array blocks; json::Object names;
		for (auto & bb : f) {
			json::Array ins;
			for (auto & I : bb) {
				if (auto * dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
					if (auto * v = dv->getVariableLocationOp(0)) if ((isa<Instruction>(v) || isa<Argument>(v)) && dv->getExpression()->getNumElements() == 0)
						names[std::to_string(idOf(v))] = dv->getVariable()->getName().str();
					continue;
				}
				if (auto * ii = dyn_cast<IntrinsicInst>(&I)) {
					auto id = ii->getIntrinsicID();
					if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::dbg_label || id == Intrinsic::experimental_noalias_scope_decl) continue;
					if (id == Intrinsic::type_test || id == Intrinsic::public_type_test) continue;
				}
				ins.push_back(dumpInst(I, bbid, esc));
			}
			blocks.push_back(std::move(ins));
		}
		fo["blocks"] = std::move(blocks); fo["names"] = std::move(names);
		DominatorTree DT(f); LoopInfo LI(DT); json::Array loops;
		for (auto * L : LI) dumpLoop(L, bbid, loops, -1);
		fo["loops"] = std::move(loops);
		funcs.push_back(std::move(fo));
	}
	// globals (closure over pointer initialisers)
	json::Object globs; set<const GlobalVariable*> done;
	while (true) {
		const GlobalVariable * g = nullptr;
		for (auto * x : usedGlobals) if (!done.count(x)) { g = x; break; }
		if (!g) break;
		done.insert(g);
		json::Object o; o["size"] = (int64_t)DL->getTypeAllocSize(g->getValueType()).getFixedValue(); bool cst = g->isConstant() || constGlobals.count(g->getName().str()); o["const"] = cst;
		if (g->hasInitializer() && cst) {
			json::Array a; size_t budget = 6000;
			bool zero = g->getInitializer()->isNullValue();
			if (zero && (int64_t)DL->getTypeAllocSize(g->getValueType()).getFixedValue() > 4096) { o["zero"] = true; }
			else if (flatten(g->getInitializer(), 0, a, budget)) o["init"] = std::move(a);
		}
		globs[g->getName().str()] = std::move(o);
	}
	// struct layouts from debug info
	json::Object structs;
	DebugInfoFinder DF; DF.processModule(*M);
	auto qual = [](const DIType * t) { string n = t->getName().str(); const DIScope * s = t->getScope(); while (s) { if (isa<DINamespace>(s) || isa<DICompositeType>(s)) { if (!s->getName().empty()) n = s->getName().str() + "::" + n; } s = s->getScope(); } return n; };
	std::function<uint64_t(const DIType*)> sizeOf = [&](const DIType * t) -> uint64_t { return t ? t->getSizeInBits() / 8 : 0; };
	for (auto * t : DF.types()) {
		auto * ct = dyn_cast<DICompositeType>(t);
		if (!ct || ct->isForwardDecl() || ct->getName().empty()) continue;
		if (ct->getTag() == dwarf::DW_TAG_enumeration_type) continue;
		string q = qual(ct);
		if (StringRef(q).starts_with("std::") || StringRef(q).starts_with("__")) continue;
		json::Object fields;
		for (auto * e : ct->getElements()) {
			auto * d = dyn_cast_or_null<DIDerivedType>(e);
			if (!d || (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) || d->isStaticMember()) continue;
			string nm = d->getTag() == dwarf::DW_TAG_inheritance ? string("<base>") + (d->getBaseType() ? d->getBaseType()->getName().str() : "") : d->getName().str();
			fields[nm] = json::Array{(int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getSizeInBits() / 8)};
			std::function<void(const DIType *, const string &, int64_t, int)> nest = [&](const DIType * t, const string & pre, int64_t off, int depth) {
				while (auto * dt = dyn_cast_or_null<DIDerivedType>(t)) { if (dt->getTag() != dwarf::DW_TAG_typedef && dt->getTag() != dwarf::DW_TAG_const_type) return; t = dt->getBaseType(); }
				auto * c2 = dyn_cast_or_null<DICompositeType>(t);
				if (!c2 || depth > 3 || c2->isForwardDecl() || StringRef(qual(c2)).starts_with("std::") || (c2->getTag() != dwarf::DW_TAG_structure_type && c2->getTag() != dwarf::DW_TAG_class_type)) return;
				for (auto * e2 : c2->getElements()) {
					auto * d2 = dyn_cast_or_null<DIDerivedType>(e2);
					if (!d2 || d2->getTag() != dwarf::DW_TAG_member || d2->isStaticMember()) continue;
					string n2 = pre + "." + d2->getName().str();
					int64_t o2 = off + (int64_t)(d2->getOffsetInBits() / 8);
					fields[n2] = json::Array{o2, (int64_t)(d2->getSizeInBits() / 8)};
					nest(d2->getBaseType(), n2, o2, depth + 1);
				}
			};
			if (d->getTag() == dwarf::DW_TAG_member) nest(d->getBaseType(), nm, (int64_t)(d->getOffsetInBits() / 8), 0);
		}
		json::Object so; so["size"] = (int64_t)(ct->getSizeInBits() / 8); so["fields"] = std::move(fields);
		structs[q] = std::move(so);
	}
	json::Object out; out["functions"] = std::move(funcs); out["globals"] = std::move(globs); out["structs"] = std::move(structs); out["vtables"] = std::move(vtables);
	json::Object dj; for (auto & p : derived) { json::Array a; for (auto & x : p.second) a.push_back(x); dj[p.first] = std::move(a); } out["derived"] = std::move(dj);
	std::error_code ec; raw_fd_ostream os(argv[4], ec); os << json::Value(std::move(out)); os.close();
	return 0;
}
