// irdump: reads an LLVM module (bitcode) and prints it as JSON for the
// Python analysis engine.  One compact array/object per construct; types are
// reduced to bit widths (pointers: 64, "p" flag), GEPs are decomposed into
// base + constant + sum(scale*index).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, int> ids;

static json::Value tyj(Type *t) {
	if (t->isVoidTy()) return 0;
	if (t->isPointerTy()) return "p";
	if (t->isIntegerTy()) return (int64_t)t->getIntegerBitWidth();
	if (t->isDoubleTy() || t->isFloatTy()) return "d";
	return json::Value("agg" + std::to_string(t->isSized() ? (uint64_t)DL->getTypeStoreSize(t) : 0));
}

static std::string apstr(const APInt &v) {
	SmallString<32> s;
	v.toStringUnsigned(s);
	return s.str().str();
}

static json::Value opj(const Value *v) {
	if (auto *c = dyn_cast<ConstantInt>(v))
		return json::Array{"i", (int64_t)c->getBitWidth(), apstr(c->getValue())};
	if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
	if (isa<UndefValue>(v)) return json::Array{"u", tyj(v->getType())};
	if (auto *c = dyn_cast<ConstantFP>(v)) {
		APFloat f = c->getValueAPF(); bool li;
		f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
		return json::Array{"f", f.convertToDouble()};
	}
	if (auto *g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str(), 0};
	if (auto *ce = dyn_cast<ConstantExpr>(v)) {
		if (v->getType()->isPointerTy()) {
			APInt off(64, 0);
			const Value *b = v->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto *g = dyn_cast<GlobalValue>(b))
				return json::Array{"g", g->getName().str(), off.getSExtValue()};
		}
		(void)ce;
		return json::Array{"x"};
	}
	auto it = ids.find(v);
	if (it != ids.end())
		return json::Array{isa<Argument>(v) ? "a" : "v", it->second};
	if (isa<BasicBlock>(v)) return json::Array{"x"};
	if (isa<MetadataAsValue>(v)) return json::Array{"x"};
	if (isa<InlineAsm>(v)) return json::Array{"asm"};
	return json::Array{"x"};
}

static void initj(const Constant *c, uint64_t off, std::string &bytes, json::Array &relocs) {
	uint64_t sz = DL->getTypeStoreSize(c->getType());
	if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return;
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		APInt v = ci->getValue().zextOrTrunc(sz * 8);
		for (uint64_t i = 0; i < sz; i++) bytes[off + i] = (char)v.extractBitsAsZExtValue(8, i * 8);
		return;
	}
	if (auto *cf = dyn_cast<ConstantFP>(c)) {
		APInt v = cf->getValueAPF().bitcastToAPInt();
		for (uint64_t i = 0; i < sz; i++) bytes[off + i] = (char)v.extractBitsAsZExtValue(8, i * 8);
		return;
	}
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		StringRef raw = cd->getRawDataValues();
		for (uint64_t i = 0; i < raw.size(); i++) bytes[off + i] = raw[i];
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		const StructLayout *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++)
			initj(cs->getOperand(i), off + sl->getElementOffset(i), bytes, relocs);
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++)
			initj(ca->getOperand(i), off + i * es, bytes, relocs);
		return;
	}
	if (c->getType()->isPointerTy()) relocs.push_back(json::Array{(int64_t)off, opj(c)});
}

static std::string hexs(const std::string &s) {
	static const char d[] = "0123456789abcdef";
	std::string r;
	for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
	return r;
}

static std::string ditype(const DIType *t) {
	std::string s;
	while (t) {
		if (auto *d = dyn_cast<DIDerivedType>(t)) {
			if (d->getTag() == dwarf::DW_TAG_pointer_type) s = "*" + s;
			else if (d->getTag() == dwarf::DW_TAG_typedef) { return d->getName().str() + s; }
			t = d->getBaseType();
			if (!t) return "void" + s;
			continue;
		}
		if (auto *c = dyn_cast<DICompositeType>(t)) return c->getName().str() + s;
		if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str() + s;
		if (isa<DISubroutineType>(t)) return "fn" + s;
		break;
	}
	return "void" + s;
}

int main(int argc, char **argv) {
	LLVMContext ctx;
	SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, ctx);
	if (!m) { err.print("irdump", errs()); return 1; }
	DL = &m->getDataLayout();
	json::Object root;
	json::Array globs, funs;
	for (auto &g : m->globals()) {
		json::Object o;
		o["name"] = g.getName().str();
		uint64_t sz = DL->getTypeAllocSize(g.getValueType());
		o["size"] = (int64_t)sz;
		o["const"] = g.isConstant();
		o["decl"] = g.isDeclaration();
		if (g.hasInitializer()) {
			std::string b(sz, 0);
			json::Array rel;
			initj(g.getInitializer(), 0, b, rel);
			bool nz = false;
			for (char c : b) if (c) nz = true;
			if (nz) o["bytes"] = hexs(b);
			o["relocs"] = std::move(rel);
		}
		SmallVector<DIGlobalVariableExpression*, 2> gv;
		g.getDebugInfo(gv);
		if (!gv.empty()) { o["dname"] = gv[0]->getVariable()->getName().str(); o["line"] = (int64_t)gv[0]->getVariable()->getLine(); o["file"] = gv[0]->getVariable()->getFilename().str(); }
		globs.push_back(std::move(o));
	}
	for (auto &f : *m) {
		json::Object o;
		o["name"] = f.getName().str();
		o["decl"] = f.isDeclaration();
		o["vararg"] = f.isVarArg();
		o["ret"] = tyj(f.getReturnType());
		o["noreturn"] = f.doesNotReturn();
		json::Array ps;
		for (auto &a : f.args()) ps.push_back(tyj(a.getType()));
		o["params"] = std::move(ps);
		if (auto *sp = f.getSubprogram()) {
			o["file"] = sp->getFilename().str();
			o["line"] = (int64_t)sp->getLine();
			json::Array ts;
			if (sp->getType()) for (auto *t : sp->getType()->getTypeArray()) ts.push_back(ditype(t));
			o["dtypes"] = std::move(ts);
		}
		if (f.isDeclaration()) { funs.push_back(std::move(o)); continue; }
		ids.clear();
		int n = 0;
		for (auto &a : f.args()) ids[&a] = n++;
		n = 0;
		std::map<const BasicBlock*, int> bid;
		int bn = 0;
		for (auto &b : f) { bid[&b] = bn++; for (auto &i : b) ids[&i] = n++; }
		std::map<const Value*, std::string> vname;
		for (auto &b : f) for (auto &i : b) if (auto *dd = dyn_cast<DbgDeclareInst>(&i)) if (dd->getAddress()) vname[dd->getAddress()] = dd->getVariable()->getName().str();
		json::Array argn;
		for (auto *dv : f.getSubprogram() ? f.getSubprogram()->getRetainedNodes() : DINodeArray()) (void)dv;
		json::Array blocks;
		for (auto &b : f) {
			json::Array insts;
			for (auto &i : b) {
				if (isa<DbgInfoIntrinsic>(i)) continue;
				json::Object io;
				io["id"] = ids[&i];
				io["op"] = i.getOpcodeName();
				io["t"] = tyj(i.getType());
				if (auto &dl = i.getDebugLoc()) { io["l"] = (int64_t)dl.getLine(); io["c"] = (int64_t)dl.getCol(); 
					io["f"] = cast<DIScope>(dl.getScope())->getFilename().str(); }
				if (auto *gi = dyn_cast<GetElementPtrInst>(&i)) {
					io["b"] = opj(gi->getPointerOperand());
					int64_t c = 0; json::Array var;
					json::Array path;
					for (auto ti = gep_type_begin(gi), te = gep_type_end(gi); ti != te; ++ti) {
						Value *idx = ti.getOperand();
						if (StructType *st = ti.getStructTypeOrNull()) {
							unsigned fi = cast<ConstantInt>(idx)->getZExtValue();
							c += DL->getStructLayout(st)->getElementOffset(fi);
							path.push_back((st->hasName() ? st->getName().str() : std::string("anon")) + ":" + std::to_string(fi));
						} else {
							int64_t es = DL->getTypeAllocSize(ti.getIndexedType());
							if (auto *ci = dyn_cast<ConstantInt>(idx)) c += ci->getSExtValue() * es;
							else var.push_back(json::Array{es, opj(idx), (int64_t)idx->getType()->getIntegerBitWidth()});
						}
					}
					// element of an array: the bytes of that array
					if (auto *at = dyn_cast<ArrayType>(gi->getSourceElementType()))
						if (gi->getNumIndices() == 2 && at->getNumElements())
							if (auto *z = dyn_cast<ConstantInt>(gi->getOperand(1)))
								if (z->isZero()) io["arr"] = (int64_t)DL->getTypeAllocSize(at);
					io["off"] = c; io["var"] = std::move(var); io["path"] = std::move(path);
					insts.push_back(std::move(io));
					continue;
				}
				if (auto *ai = dyn_cast<AllocaInst>(&i)) {
					uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType());
					if (auto *ci = dyn_cast<ConstantInt>(ai->getArraySize())) sz *= ci->getZExtValue(); else io["vla"] = opj(ai->getArraySize());
					io["size"] = (int64_t)sz;
					auto it = vname.find(&i);
					if (it != vname.end()) io["name"] = it->second;
					insts.push_back(std::move(io));
					continue;
				}
				if (auto *ph = dyn_cast<PHINode>(&i)) {
					json::Array inc;
					for (unsigned k = 0; k < ph->getNumIncomingValues(); k++)
						inc.push_back(json::Array{bid[ph->getIncomingBlock(k)], opj(ph->getIncomingValue(k))});
					io["inc"] = std::move(inc);
					insts.push_back(std::move(io));
					continue;
				}
				if (auto *cb = dyn_cast<CallBase>(&i)) {
					io["callee"] = opj(cb->getCalledOperand()->stripPointerCasts());
					json::Array as;
					for (auto &a : cb->args()) as.push_back(opj(a.get()));
					io["ops"] = std::move(as);
					json::Array ats;
					for (auto &a : cb->args()) ats.push_back(tyj(a->getType()));
					io["ats"] = std::move(ats);
					insts.push_back(std::move(io));
					continue;
				}
				if (auto *br = dyn_cast<BranchInst>(&i)) {
					json::Array s;
					for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back(bid[br->getSuccessor(k)]);
					io["s"] = std::move(s);
					if (br->isConditional()) io["cond"] = opj(br->getCondition());
					insts.push_back(std::move(io));
					continue;
				}
				if (auto *sw = dyn_cast<SwitchInst>(&i)) {
					io["cond"] = opj(sw->getCondition());
					io["def"] = bid[sw->getDefaultDest()];
					json::Array cs;
					for (auto &c : sw->cases()) cs.push_back(json::Array{apstr(c.getCaseValue()->getValue()), bid[c.getCaseSuccessor()]});
					io["cases"] = std::move(cs);
					insts.push_back(std::move(io));
					continue;
				}
				if (auto *li = dyn_cast<LoadInst>(&i)) { io["size"] = (int64_t)DL->getTypeStoreSize(li->getType()); if (li->isVolatile()) io["vol"] = true; }
				if (auto *si = dyn_cast<StoreInst>(&i)) { io["size"] = (int64_t)DL->getTypeStoreSize(si->getValueOperand()->getType()); io["vt"] = tyj(si->getValueOperand()->getType()); if (si->isVolatile()) io["vol"] = true; }
				if (auto *ic = dyn_cast<CmpInst>(&i)) io["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str();
				if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { json::Array ix; for (unsigned k : ev->getIndices()) ix.push_back((int64_t)k); io["idx"] = std::move(ix); }
				json::Array ops;
				for (auto &u : i.operands()) ops.push_back(opj(u.get()));
				io["ops"] = std::move(ops);
				json::Array ots;
				for (auto &u : i.operands()) ots.push_back(tyj(u->getType()));
				io["ots"] = std::move(ots);
				insts.push_back(std::move(io));
			}
			blocks.push_back(std::move(insts));
		}
		o["blocks"] = std::move(blocks);
		funs.push_back(std::move(o));
	}
	root["globals"] = std::move(globs);
	root["functions"] = std::move(funs);
	outs() << json::Value(std::move(root)) << "\n";
	return 0;
}
