// symx: symbolic execution of LLVM bitcode.  Memory is byte-precise with concrete addresses; data is concrete or an SMT
// bit-vector term.  Every branch, address or assertion that depends on symbolic data is put to Z3 under the path's
// condition; all feasible sides are explored.  Inputs are the vp_*() calls of the harness.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <z3++.h>
#include <chrono>
#include <cstdio>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <dirent.h>
#include <atomic>
using namespace llvm;
typedef std::shared_ptr<z3::expr> Sym;
static z3::context *Z;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val {
    uint64_t c = 0;
    Sym s;
    std::shared_ptr<std::vector<Val>> a;
    Val() {}
    Val(uint64_t v) : c(v) {}
    Val(const z3::expr &e) : s(std::make_shared<z3::expr>(e)) {}
};
static uint64_t mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t) v : (int64_t) (v << (64 - w)) >> (64 - w); }
static z3::expr bv(const Val &v, unsigned w) { return v.s ? *v.s : Z->bv_val((uint64_t) v.c, w); }
static z3::expr bl(const Val &v) { return v.s ? *v.s : Z->bool_val((bool) (v.c & 1)); }
static Val simp(const z3::expr &e0, unsigned w)
{
    z3::expr e = e0.simplify();
    if (w == 1) {
        if (e.is_true()) return Val(1);
        if (e.is_false()) return Val((uint64_t) 0);
        return Val(e);
    }
    uint64_t v;
    if (e.is_numeral_u64(v)) return Val(v);
    return Val(e);
}

struct Obj {
    uint64_t base, size;
    bool ro = false;
    std::vector<uint8_t> c;
    std::vector<uint8_t> k;          // 0 known, 1 symbolic, 2 never written
    std::map<uint32_t, Sym> s;
};
typedef std::shared_ptr<Obj> ObjP;

struct Ref { int slot = -1; Val v; };
struct Inst {
    Instruction *I;
    unsigned op;
    int dst = -1;
    unsigned w = 0, w2 = 0;          // width of result / first operand
    std::vector<Ref> o;
    std::vector<std::pair<int, uint64_t>> gep;   // operand index, scale
    std::vector<unsigned> gepw;
    uint64_t gepc = 0;
    Function *callee = nullptr;
    struct Fn *fn = nullptr;
    int ext = -1;
    int bb[2] = { -1, -1 };
    std::vector<std::pair<uint64_t, int>> cases;
    std::vector<unsigned> ow;
    unsigned pred = 0;
};
struct Block { std::vector<Inst> in; std::vector<std::vector<std::pair<int, Ref>>> phi; std::map<int, int> pred; };
struct Fn { Function *F; int nslots = 0; std::vector<Block> b; bool ready = false; };
struct Frame { Fn *fn; int bb, ip, dst; unsigned dw; std::vector<Val> r; std::vector<uint64_t> allocas; std::vector<Val> va; std::vector<unsigned> vaw; };
struct State {
    std::vector<Frame> st;
    std::map<uint64_t, ObjP> mem;
    uint64_t next = 0x100000;
    std::vector<z3::expr> pc;
    std::map<unsigned, Sym> known;        // facts that hold on this path, by identity of the term
    std::vector<std::pair<Val, unsigned>> log;
    std::shared_ptr<z3::model> m;
    uint64_t steps = 0;
    unsigned depth = 0;
};
typedef std::unique_ptr<State> StateP;

struct Stop { std::string why; };        // the unit is undecided
struct Kill { };                         // this path ends
struct Bad { std::string what; };        // violation on this path
static Module *M;
static const DataLayout *DL;
static std::map<Function *, std::unique_ptr<Fn>> fns;
static std::map<const Value *, uint64_t> gaddr;
static std::map<uint64_t, Function *> faddr;
static std::deque<StateP> work;
static z3::solver *S;
static std::vector<z3::expr> asserted;
static uint64_t nq, npaths, nsteps, nforks, nkilled, nfresh, nassert;
static double tsolve, deadline;
static uint64_t maxsteps = 20000000;
static std::set<std::string> covers, called, missing;
struct Viol { std::string what, loc; std::vector<uint64_t> vals; };
static std::vector<Viol> viols;
static unsigned maxviol = 3;
static std::string undecided;

enum { X_U8, X_U16, X_U32, X_U64, X_RANGE, X_BOOL, X_ALLOC, X_ZALLOC, X_ASSUME, X_ASSERT, X_COVER, X_MEMCPY, X_MEMSET, X_FREE, X_ABORT, X_VASTART, X_VAEND, X_VACOPY, X_NOP, X_MINMAX, X_OVF, X_CONC, X_EXPECT, X_BSWAP, X_ABS, X_OBJSIZE, X_TRACE, X_MEMCMP };
static std::map<std::string, int> extnames = {
    { "vp_u8", X_U8 }, { "vp_u16", X_U16 }, { "vp_u32", X_U32 }, { "vp_int", X_U32 }, { "vp_u64", X_U64 }, { "vp_i64", X_U64 }, { "vp_range", X_RANGE }, { "vp_bool", X_BOOL },
    { "vp_alloc", X_ALLOC }, { "vp_zalloc", X_ZALLOC }, { "malloc", X_ALLOC }, { "calloc", X_ZALLOC }, { "free", X_FREE }, { "vp_native_assume", X_ASSUME }, { "vp_native_assert", X_ASSERT },
    { "vp_cover", X_COVER }, { "abort", X_ABORT }, { "memcpy", X_MEMCPY }, { "memmove", X_MEMCPY }, { "memset", X_MEMSET }, { "memcmp", X_MEMCMP }, { "vp_concrete", X_CONC }, { "vp_trace", X_TRACE },
};

static void sync(const std::vector<z3::expr> &pc)
{
    size_t n = 0;
    while (n < asserted.size() && n < pc.size() && z3::eq(asserted[n], pc[n])) n++;
    if (asserted.size() > n) { S->pop(asserted.size() - n); asserted.resize(n, z3::expr(*Z)); }
    for (; n < pc.size(); n++) { S->push(); S->add(pc[n]); asserted.push_back(pc[n]); }
}
static bool sat(State &st, const z3::expr &e, std::shared_ptr<z3::model> &m)
{
    double t = now();
    if (t > deadline) throw Stop{ "time limit" };
    nq++;
    sync(st.pc);
    S->push();
    S->add(e);
    z3::check_result r = S->check();
    if (r == z3::sat) m = std::make_shared<z3::model>(S->get_model());
    S->pop();
    tsolve += now() - t;
    if (r == z3::unknown) throw Stop{ "solver answered unknown" };
    return r == z3::sat;
}
static bool is_known(State &st, const z3::expr &e) { auto it = st.known.find(Z3_get_ast_id(*Z, e)); return it != st.known.end(); }
static void learn(State &st, const z3::expr &e)
{
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_AND) { for (unsigned i = 0; i < e.num_args(); i++) learn(st, e.arg(i)); return; }
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_NOT && e.arg(0).is_app() && e.arg(0).decl().decl_kind() == Z3_OP_OR) { for (unsigned i = 0; i < e.arg(0).num_args(); i++) learn(st, (!e.arg(0).arg(i)).simplify()); return; }
    st.known[Z3_get_ast_id(*Z, e)] = std::make_shared<z3::expr>(e);
}
static bool model_says(State &st, const z3::expr &e)
{
    if (!st.m) return false;
    return st.m->eval(e, true).is_true();
}
static bool feasible(State &st, const z3::expr &e, std::shared_ptr<z3::model> &m)
{
    if (e.is_true()) { m = st.m; return true; }
    if (e.is_false()) return false;
    if (st.m && is_known(st, e)) { m = st.m; return true; }
    z3::expr ne = (!e).simplify();
    if (is_known(st, ne)) return false;
    if (model_says(st, e)) { m = st.m; return true; }
    if (sat(st, e, m)) return true;
    learn(st, ne);
    return false;
}
static void add(State &st, const z3::expr &e, std::shared_ptr<z3::model> m) { if (!e.is_true() && !is_known(st, e)) { st.pc.push_back(e); learn(st, e); } st.m = m; }

static ObjP *find(State &st, uint64_t a)
{
    auto it = st.mem.upper_bound(a);
    if (it == st.mem.begin()) return nullptr;
    --it;
    if (a > it->second->base + it->second->size) return nullptr;
    return &it->second;
}
static ObjP &access(State &st, uint64_t a, uint64_t n, bool wr)
{
    if (a < 4096) throw Bad{ "null pointer dereference" };
    ObjP *o = find(st, a);
    char b[160];
    if (!o || a + n > (*o)->base + (*o)->size) {
        if (o) snprintf(b, sizeof b, "%s of %llu bytes at offset %llu of an object of %llu bytes", wr ? "write" : "read", (unsigned long long) n, (unsigned long long) (a - (*o)->base), (unsigned long long) (*o)->size);
        else snprintf(b, sizeof b, "%s of %llu bytes outside every live object", wr ? "write" : "read", (unsigned long long) n);
        throw Bad{ b };
    }
    if (wr && (*o)->ro) throw Bad{ "write to constant data" };
    if (wr && o->use_count() > 1) *o = std::make_shared<Obj>(**o);
    return *o;
}
static ObjP newobj(State &st, uint64_t size, int kind)
{
    ObjP o = std::make_shared<Obj>();
    o->base = st.next;
    o->size = size;
    o->c.assign(size, 0);
    o->k.assign(size, kind);
    st.next += ((size + 15) & ~15ULL) + 64;
    st.mem[o->base] = o;
    return o;
}
static z3::expr byte_of(State &st, ObjP &p, uint64_t off)
{
    if (p->k[off] == 2) {
        if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
        p->s[off] = std::make_shared<z3::expr>(Z->bv_const(("un" + std::to_string(nfresh++)).c_str(), 8));
        p->k[off] = 1;
    }
    if (p->k[off] == 1) return *p->s[off];
    return Z->bv_val((unsigned) p->c[off], 8);
}
static Val load(State &st, uint64_t a, unsigned w)
{
    uint64_t n = (w + 7) / 8;
    ObjP &p = access(st, a, n, false);
    uint64_t off = a - p->base, v = 0;
    bool conc = true;
    for (uint64_t i = 0; i < n; i++) { if (p->k[off + i]) { conc = false; break; } v |= (uint64_t) p->c[off + i] << (8 * i); }
    if (conc) return Val(v & mask(w));
    z3::expr e = byte_of(st, p, off + n - 1);
    for (uint64_t i = n - 1; i-- > 0;) e = z3::concat(e, byte_of(st, p, off + i));
    if (w == 1) return simp(e.extract(0, 0) == Z->bv_val(1, 1), 1);
    if (w < n * 8) e = e.extract(w - 1, 0);
    return simp(e, w);
}
static void store(State &st, uint64_t a, unsigned w, const Val &v)
{
    uint64_t n = (w + 7) / 8;
    ObjP &p = access(st, a, n, true);
    uint64_t off = a - p->base;
    if (!v.s) { for (uint64_t i = 0; i < n; i++) { if (p->k[off + i] == 1) p->s.erase(off + i); p->c[off + i] = (uint8_t) (v.c >> (8 * i)); p->k[off + i] = 0; } return; }
    z3::expr e = *v.s;
    if (w == 1) e = z3::ite(e, Z->bv_val(1, 8), Z->bv_val(0, 8));
    else if (w < n * 8) e = z3::zext(e, n * 8 - w);
    for (uint64_t i = 0; i < n; i++) {
        Val b = simp(e.extract(8 * i + 7, 8 * i), 8);
        if (b.s) { p->k[off + i] = 1; p->s[off + i] = b.s; }
        else { if (p->k[off + i] == 1) p->s.erase(off + i); p->k[off + i] = 0; p->c[off + i] = (uint8_t) b.c; }
    }
}
static void copybytes(State &st, uint64_t d, uint64_t s, uint64_t n)
{
    if (n == 0) return;
    ObjP src = access(st, s, n, false);
    uint64_t so = s - src->base;
    // never-written bytes stay so; two reads of one must agree, hence name them first
    for (uint64_t i = 0; i < n; i++) if (src->k[so + i] == 2) { ObjP &p = access(st, s, n, false); byte_of(st, p, so + i); }
    src = access(st, s, n, false);
    ObjP &dst = access(st, d, n, true);
    uint64_t dof = d - dst->base;
    std::vector<uint8_t> c(src->c.begin() + so, src->c.begin() + so + n), k(src->k.begin() + so, src->k.begin() + so + n);
    std::vector<std::pair<uint32_t, Sym>> sy;
    for (auto it = src->s.lower_bound(so); it != src->s.end() && it->first < so + n; ++it) sy.push_back({ it->first - so, it->second });
    dst->s.erase(dst->s.lower_bound(dof), dst->s.lower_bound(dof + n));
    std::copy(c.begin(), c.end(), dst->c.begin() + dof);
    std::copy(k.begin(), k.end(), dst->k.begin() + dof);
    for (auto &x : sy) dst->s[x.first + dof] = x.second;
}
static uint64_t concretize(State &st, const Val &v, unsigned w)
{
    if (!v.s) return v.c;
    if (!st.m) { std::shared_ptr<z3::model> m; if (!sat(st, Z->bool_val(true), m)) throw Kill(); st.m = m; }
    z3::expr e = w == 1 ? z3::ite(*v.s, Z->bv_val(1, 1), Z->bv_val(0, 1)) : *v.s;
    uint64_t x = 0;
    if (!st.m->eval(e, true).is_numeral_u64(x)) throw Stop{ "no value for an address" };
    z3::expr is = (e == Z->bv_val(x, w)).simplify();
    std::shared_ptr<z3::model> m;
    if (is_known(st, is)) return x;
    if (!sat(st, !is, m)) learn(st, is);
    else {
        if (++st.depth > 4096) throw Stop{ "too many values for an address" };
        StateP o = std::make_unique<State>(st);
        add(*o, !is, m);
        nforks++;
        work.push_back(std::move(o));      // the same instruction again, with another value
        add(st, is, st.m);
    }
    return x;
}

static unsigned width(Type *t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isVoidTy()) return 0;
    return 0;
}
static Val constant(const Constant *c);
static void flatten(const Constant *c, std::vector<uint8_t> &out, uint64_t off)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(d->getElementType());
        for (unsigned i = 0; i < d->getNumElements(); i++) flatten(d->getElementAsConstant(i), out, off + i * es);
        return;
    }
    if (auto *a = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); i++) flatten(a->getOperand(i), out, off + i * es);
        return;
    }
    if (auto *s = dyn_cast<ConstantStruct>(c)) {
        const StructLayout *sl = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); i++) flatten(s->getOperand(i), out, off + sl->getElementOffset(i));
        return;
    }
    uint64_t v;
    if (auto *f = dyn_cast<ConstantFP>(c)) v = f->getValueAPF().bitcastToAPInt().getZExtValue();
    else v = constant(c).c;
    uint64_t n = DL->getTypeStoreSize(t);
    for (uint64_t i = 0; i < n && i < 8; i++) out[off + i] = (uint8_t) (v >> (8 * i));
}
static Val constant(const Constant *c)
{
    if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) throw Stop{ "integers of more than 64 bits" }; return Val(i->getZExtValue()); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) {
        if (c->getType()->isStructTy()) { Val v; v.a = std::make_shared<std::vector<Val>>(c->getType()->getStructNumElements()); return v; }
        return Val((uint64_t) 0);
    }
    if (isa<ConstantAggregateZero>(c)) { Val v; v.a = std::make_shared<std::vector<Val>>(c->getType()->isStructTy() ? c->getType()->getStructNumElements() : 0); return v; }
    if (isa<GlobalValue>(c)) { auto it = gaddr.find(c); if (it == gaddr.end()) throw Stop{ ("no address for " + c->getName()).str() }; return Val(it->second); }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        if (e->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) throw Stop{ "constant address" };
            return Val(constant(e->getOperand(0)).c + (uint64_t) off.getSExtValue());
        }
        if (e->isCast()) return Val(constant(e->getOperand(0)).c & mask(width(e->getType())));
        uint64_t a = constant(e->getOperand(0)).c, b = constant(e->getOperand(1)).c;
        unsigned w = width(e->getType());
        if (e->getOpcode() == Instruction::Sub) return Val((a - b) & mask(w));
        if (e->getOpcode() == Instruction::Add) return Val((a + b) & mask(w));
    }
    throw Stop{ "constant of an unknown kind" };
}

static void prepare(Fn &f)
{
    if (f.ready) return;
    f.ready = true;
    std::map<const Value *, int> slot;
    std::map<const BasicBlock *, int> bbn;
    for (auto &a : f.F->args()) slot[&a] = f.nslots++;
    for (auto &b : *f.F) { bbn[&b] = (int) bbn.size(); for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = f.nslots++; }
    auto ref = [&](Value *v) { Ref r; auto it = slot.find(v); if (it != slot.end()) { r.slot = it->second; return r; }
        if (auto *c = dyn_cast<Constant>(v)) { if (!v->getType()->isFloatingPointTy()) r.v = constant(c); } return r; };
    f.b.resize(bbn.size());
    for (auto &b : *f.F) {
        Block &B = f.b[bbn[&b]];
        int np = 0;
        for (auto &i : b) {
            if (auto *ph = dyn_cast<PHINode>(&i)) {
                for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) {
                    int pb = bbn[ph->getIncomingBlock(k)];
                    if (!B.pred.count(pb)) { B.pred[pb] = np++; B.phi.resize(np); }
                    auto &v = B.phi[B.pred[pb]];
                    bool dup = false;
                    for (auto &x : v) if (x.first == slot[ph]) dup = true;
                    if (!dup) v.push_back({ slot[ph], ref(ph->getIncomingValue(k)) });
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(i)) continue;
            Inst n;
            n.I = &i;
            n.op = i.getOpcode();
            n.w = width(i.getType());
            if (!i.getType()->isVoidTy()) n.dst = slot[&i];
            if (auto *c = dyn_cast<CallBase>(&i)) {
                if (c->isInlineAsm()) { n.ext = X_NOP; }
                for (auto &a : c->args()) { n.o.push_back(isa<MetadataAsValue>(a) ? Ref() : ref(a)); n.ow.push_back(width(a->getType())); }
                Function *cf = c->getCalledFunction();
                if (!cf) if (auto *v = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) cf = v;
                n.callee = cf;
                if (!cf) n.o.push_back(ref(c->getCalledOperand()));
                else if (cf->isIntrinsic()) {
                    switch (cf->getIntrinsicID()) {
                    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: n.ext = X_MEMCPY; break;
                    case Intrinsic::memset: n.ext = X_MEMSET; break;
                    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: n.ext = X_NOP; break;
                    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: n.ext = X_MINMAX; n.pred = cf->getIntrinsicID(); break;
                    case Intrinsic::vastart: n.ext = X_VASTART; break;
                    case Intrinsic::vaend: n.ext = X_VAEND; break;
                    case Intrinsic::vacopy: n.ext = X_VACOPY; break;
                    case Intrinsic::expect: n.ext = X_EXPECT; break;
                    case Intrinsic::bswap: n.ext = X_BSWAP; break;
                    case Intrinsic::abs: n.ext = X_ABS; break;
                    case Intrinsic::objectsize: n.ext = X_OBJSIZE; break;
                    case Intrinsic::trap: n.ext = X_ABORT; break;
                    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: n.ext = X_OVF; n.pred = cf->getIntrinsicID(); break;
                    default: n.ext = -2;
                    }
                }
                else if (cf->isDeclaration()) { auto it = extnames.find(cf->getName().str()); n.ext = it == extnames.end() ? -2 : it->second; }
                else { auto &p = fns[cf]; if (!p) { p = std::make_unique<Fn>(); p->F = cf; } n.fn = p.get(); }
            }
            else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                n.o.push_back(ref(g->getPointerOperand()));
                n.ow.push_back(64);
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (StructType *stt = gi.getStructTypeOrNull()) { n.gepc += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) { n.gepc += (uint64_t) ci->getSExtValue() * sc; continue; }
                    n.gep.push_back({ (int) n.o.size(), sc });
                    n.gepw.push_back(width(ix->getType()));
                    n.o.push_back(ref(ix));
                    n.ow.push_back(width(ix->getType()));
                }
            }
            else if (auto *br = dyn_cast<BranchInst>(&i)) {
                if (br->isConditional()) { n.o.push_back(ref(br->getCondition())); n.bb[0] = bbn[br->getSuccessor(0)]; n.bb[1] = bbn[br->getSuccessor(1)]; }
                else n.bb[0] = bbn[br->getSuccessor(0)];
            }
            else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                n.o.push_back(ref(sw->getCondition()));
                n.w2 = width(sw->getCondition()->getType());
                n.bb[0] = bbn[sw->getDefaultDest()];
                for (auto &cs : sw->cases()) n.cases.push_back({ cs.getCaseValue()->getZExtValue(), bbn[cs.getCaseSuccessor()] });
            }
            else {
                for (auto &u : i.operands()) { n.o.push_back(isa<BasicBlock>(u) ? Ref() : ref(u)); n.ow.push_back(width(u->getType())); }
                if (i.getNumOperands()) n.w2 = width(i.getOperand(0)->getType());
                if (auto *ic = dyn_cast<ICmpInst>(&i)) n.pred = ic->getPredicate();
                if (auto *al = dyn_cast<AllocaInst>(&i)) n.gepc = DL->getTypeAllocSize(al->getAllocatedType());
            }
            B.in.push_back(n);
        }
    }
}

static Val loadT(State &st, uint64_t a, Type *t)
{
    if (auto *s = dyn_cast<StructType>(t)) {
        Val v;
        v.a = std::make_shared<std::vector<Val>>();
        const StructLayout *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) v.a->push_back(loadT(st, a + sl->getElementOffset(i), s->getElementType(i)));
        return v;
    }
    if (auto *r = dyn_cast<ArrayType>(t)) {
        Val v;
        v.a = std::make_shared<std::vector<Val>>();
        uint64_t es = DL->getTypeAllocSize(r->getElementType());
        for (unsigned i = 0; i < r->getNumElements(); i++) v.a->push_back(loadT(st, a + i * es, r->getElementType()));
        return v;
    }
    unsigned w = width(t);
    if (!w || w > 64) throw Stop{ "load of an unsupported type" };
    return load(st, a, w);
}
static void storeT(State &st, uint64_t a, Type *t, const Val &v)
{
    if (auto *s = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) storeT(st, a + sl->getElementOffset(i), s->getElementType(i), v.a ? (*v.a)[i] : Val());
        return;
    }
    if (auto *r = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(r->getElementType());
        for (unsigned i = 0; i < r->getNumElements(); i++) storeT(st, a + i * es, r->getElementType(), v.a ? (*v.a)[i] : Val());
        return;
    }
    unsigned w = width(t);
    if (!w || w > 64) throw Stop{ "store of an unsupported type" };
    store(st, a, w, v);
}
static Val binop(unsigned op, const Val &a, const Val &b, unsigned w, State &st)
{
    if (!a.s && !b.s) {
        uint64_t x = a.c, y = b.c;
        switch (op) {
        case Instruction::Add: return Val((x + y) & mask(w));
        case Instruction::Sub: return Val((x - y) & mask(w));
        case Instruction::Mul: return Val((x * y) & mask(w));
        case Instruction::And: return Val(x & y);
        case Instruction::Or: return Val(x | y);
        case Instruction::Xor: return Val(x ^ y);
        case Instruction::Shl: if (y >= w) throw Bad{ "shift by too much" }; return Val((x << y) & mask(w));
        case Instruction::LShr: if (y >= w) throw Bad{ "shift by too much" }; return Val(x >> y);
        case Instruction::AShr: if (y >= w) throw Bad{ "shift by too much" }; return Val((uint64_t) (sx(x, w) >> y) & mask(w));
        case Instruction::UDiv: if (!y) throw Bad{ "division by zero" }; return Val(x / y);
        case Instruction::URem: if (!y) throw Bad{ "division by zero" }; return Val(x % y);
        case Instruction::SDiv: if (!y) throw Bad{ "division by zero" }; if (sx(y, w) == -1) return Val((0 - x) & mask(w)); return Val((uint64_t) (sx(x, w) / sx(y, w)) & mask(w));
        case Instruction::SRem: if (!y) throw Bad{ "division by zero" }; if (sx(y, w) == -1) return Val((uint64_t) 0); return Val((uint64_t) (sx(x, w) % sx(y, w)) & mask(w));
        }
        throw Stop{ "unsupported arithmetic" };
    }
    if (w == 1) {
        z3::expr p = bl(a), q = bl(b);
        switch (op) {
        case Instruction::And: return simp(p && q, 1);
        case Instruction::Or: return simp(p || q, 1);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return simp(p != q, 1);
        }
        throw Stop{ "unsupported arithmetic" };
    }
    if (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem) {
        std::shared_ptr<z3::model> m;
        z3::expr zz = (bv(b, w) == Z->bv_val(0, w)).simplify();
        if (feasible(st, zz, m)) { add(st, zz, m); throw Bad{ "division by zero" }; }
    }
    z3::expr p = bv(a, w), q = bv(b, w);
    switch (op) {
    case Instruction::Add: return simp(p + q, w);
    case Instruction::Sub: return simp(p - q, w);
    case Instruction::Mul: return simp(p * q, w);
    case Instruction::And: return simp(p & q, w);
    case Instruction::Or: return simp(p | q, w);
    case Instruction::Xor: return simp(p ^ q, w);
    case Instruction::Shl: return simp(z3::shl(p, q), w);
    case Instruction::LShr: return simp(z3::lshr(p, q), w);
    case Instruction::AShr: return simp(z3::ashr(p, q), w);
    case Instruction::UDiv: return simp(z3::udiv(p, q), w);
    case Instruction::URem: return simp(z3::urem(p, q), w);
    case Instruction::SDiv: return simp(p / q, w);
    case Instruction::SRem: return simp(z3::srem(p, q), w);
    }
    throw Stop{ "unsupported arithmetic" };
}
static Val icmp(unsigned pr, const Val &a, const Val &b, unsigned w)
{
    if (!a.s && !b.s) {
        uint64_t x = a.c, y = b.c;
        int64_t p = sx(x, w), q = sx(y, w);
        switch (pr) {
        case CmpInst::ICMP_EQ: return Val(x == y);
        case CmpInst::ICMP_NE: return Val(x != y);
        case CmpInst::ICMP_UGT: return Val(x > y);
        case CmpInst::ICMP_UGE: return Val(x >= y);
        case CmpInst::ICMP_ULT: return Val(x < y);
        case CmpInst::ICMP_ULE: return Val(x <= y);
        case CmpInst::ICMP_SGT: return Val(p > q);
        case CmpInst::ICMP_SGE: return Val(p >= q);
        case CmpInst::ICMP_SLT: return Val(p < q);
        case CmpInst::ICMP_SLE: return Val(p <= q);
        }
    }
    if (w == 1) {
        z3::expr p = bl(a), q = bl(b);
        if (pr == CmpInst::ICMP_EQ) return simp(p == q, 1);
        if (pr == CmpInst::ICMP_NE) return simp(p != q, 1);
        throw Stop{ "comparison of truth values" };
    }
    z3::expr p = bv(a, w), q = bv(b, w);
    switch (pr) {
    case CmpInst::ICMP_EQ: return simp(p == q, 1);
    case CmpInst::ICMP_NE: return simp(p != q, 1);
    case CmpInst::ICMP_UGT: return simp(z3::ugt(p, q), 1);
    case CmpInst::ICMP_UGE: return simp(z3::uge(p, q), 1);
    case CmpInst::ICMP_ULT: return simp(z3::ult(p, q), 1);
    case CmpInst::ICMP_ULE: return simp(z3::ule(p, q), 1);
    case CmpInst::ICMP_SGT: return simp(p > q, 1);
    case CmpInst::ICMP_SGE: return simp(p >= q, 1);
    case CmpInst::ICMP_SLT: return simp(p < q, 1);
    case CmpInst::ICMP_SLE: return simp(p <= q, 1);
    }
    throw Stop{ "comparison" };
}
static Val castop(unsigned op, const Val &v, unsigned from, unsigned to)
{
    if (!v.s) {
        if (op == Instruction::SExt) return Val((uint64_t) sx(v.c, from) & mask(to));
        return Val(v.c & mask(to));
    }
    z3::expr e = *v.s;
    if (from == 1) {
        uint64_t one = op == Instruction::SExt ? mask(to) : 1;
        if (to == 1) return v;
        return simp(z3::ite(e, Z->bv_val(one, to), Z->bv_val(0, to)), to);
    }
    if (to == 1) return simp(e.extract(0, 0) == Z->bv_val(1, 1), 1);
    if (to < from) return simp(e.extract(to - 1, 0), to);
    if (to == from) return v;
    return simp(op == Instruction::SExt ? z3::sext(e, to - from) : z3::zext(e, to - from), to);
}

static std::string where(Instruction *I, State &st)
{
    // the innermost frame that lies in a source of the repository
    auto fmt = [](const DILocation *d, StringRef fn) { std::string f = d->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); return f + ":" + std::to_string(d->getLine()) + " " + fn.str(); };
    std::string r;
    for (size_t i = st.st.size(); i-- > 0;) {
        Frame &f = st.st[i];
        Instruction *J = i + 1 == st.st.size() ? I : f.fn->b[f.bb].in[f.ip > 0 ? f.ip - 1 : 0].I;
        if (!J) continue;
        const DILocation *d = J->getDebugLoc();
        if (!d) continue;
        if (!r.empty()) r += " < ";
        r += fmt(d, f.fn->F->getName());
        if (r.size() > 600) break;
    }
    return r;
}
static void report(State &st, const std::string &what, Instruction *I)
{
    Viol v;
    v.what = what;
    v.loc = where(I, st);
    if (!st.m) { std::shared_ptr<z3::model> m; if (!sat(st, Z->bool_val(true), m)) return; st.m = m; }
    for (auto &l : st.log) {
        uint64_t x = 0;
        if (!l.first.s) x = l.first.c;
        else if (l.second == 1) x = st.m->eval(*l.first.s, true).is_true();
        else (void) st.m->eval(*l.first.s, true).is_numeral_u64(x);
        v.vals.push_back(x);
    }
    for (auto &o : viols) if (o.what == v.what && o.loc == v.loc) return;
    viols.push_back(v);
}
static std::string cstr(State &st, uint64_t a)
{
    std::string r;
    for (int i = 0; i < 300; i++) { Val v = load(st, a + i, 8); if (v.s || !v.c) break; r += (char) v.c; }
    return r;
}
static Val fresh(State &st, unsigned w)
{
    Val v(Z->bv_const(("in" + std::to_string(st.log.size())).c_str(), w));
    st.log.push_back({ v, w });
    return v;
}

static void enter(State &st, Fn *fn, std::vector<Val> args, int dst, unsigned dw, std::vector<Val> va, std::vector<unsigned> vaw)
{
    prepare(*fn);
    if (st.st.size() > 400) throw Bad{ "recursion deeper than 400 calls" };
    Frame f;
    f.fn = fn; f.bb = 0; f.ip = 0; f.dst = dst; f.dw = dw;
    f.r.resize(fn->nslots);
    for (size_t i = 0; i < args.size() && i < fn->F->arg_size(); i++) f.r[i] = args[i];
    f.va = va; f.vaw = vaw;
    called.insert(fn->F->getName().str());
    st.st.push_back(std::move(f));
}
static void jump(State &st, int to)
{
    Frame &f = st.st.back();
    Block &b = f.fn->b[to];
    if (!b.phi.empty()) {
        auto it = b.pred.find(f.bb);
        if (it != b.pred.end()) {
            auto &v = b.phi[it->second];
            std::vector<Val> nv;
            nv.reserve(v.size());
            for (auto &x : v) nv.push_back(x.second.slot >= 0 ? f.r[x.second.slot] : x.second.v);
            for (size_t i = 0; i < v.size(); i++) f.r[v[i].first] = std::move(nv[i]);
        }
    }
    f.bb = to;
    f.ip = 0;
}
#define OP(k) (n.o[k].slot >= 0 ? st.st.back().r[n.o[k].slot] : n.o[k].v)
static void external(State &st, Inst &n)
{
    Frame &f = st.st.back();
    Val r;
    switch (n.ext) {
    case X_U8: r = fresh(st, 8); break;
    case X_U16: r = fresh(st, 16); break;
    case X_U32: r = fresh(st, 32); break;
    case X_U64: r = fresh(st, 64); break;
    case X_BOOL: {
        Val v = fresh(st, 32);
        std::shared_ptr<z3::model> m;
        z3::expr e = z3::ule(*v.s, Z->bv_val(1, 32));
        if (!feasible(st, e, m)) throw Kill();
        add(st, e, m);
        r = v;
        break;
    }
    case X_RANGE: {
        uint64_t lo = concretize(st, OP(0), 32), hi = concretize(st, OP(1), 32);
        if (lo > hi) throw Kill();
        Val v = fresh(st, 32);
        if (lo == hi) { z3::expr e = *v.s == Z->bv_val(lo, 32); std::shared_ptr<z3::model> m; if (!feasible(st, e, m)) throw Kill(); add(st, e, m); r = Val(lo); break; }
        z3::expr e = z3::uge(*v.s, Z->bv_val(lo, 32)) && z3::ule(*v.s, Z->bv_val(hi, 32));
        std::shared_ptr<z3::model> m;
        if (!feasible(st, e, m)) throw Kill();
        add(st, e, m);
        r = v;
        break;
    }
    case X_CONC: r = Val(concretize(st, OP(0), n.w)); break;
    case X_ALLOC: case X_ZALLOC: {
        uint64_t sz = concretize(st, OP(0), 64);
        if (n.callee->getName() == "calloc") sz *= concretize(st, OP(1), 64);
        if (sz > (64u << 20)) throw Stop{ "allocation of more than 64 MB" };
        r = Val(newobj(st, sz, n.ext == X_ALLOC ? 2 : 0)->base);
        break;
    }
    case X_FREE: {
        uint64_t a = concretize(st, OP(0), 64);
        if (!a) break;
        auto it = st.mem.find(a);
        if (it == st.mem.end()) throw Bad{ "release of something that is not allocated" };
        st.mem.erase(it);
        break;
    }
    case X_ABORT: throw Bad{ "abort" };
    case X_ASSUME: {
        Val v = OP(0);
        if (!v.s && !v.c) { npaths++; throw Kill(); }      // the harness ends the path
        z3::expr e = v.s ? (n.ow[0] == 1 ? *v.s : (*v.s != Z->bv_val(0, n.ow[0])).simplify()) : Z->bool_val(v.c != 0);
        std::shared_ptr<z3::model> m;
        if (!feasible(st, e, m)) throw Kill();
        add(st, e, m);
        break;
    }
    case X_ASSERT: {
        Val v = OP(0);
        nassert++;
        z3::expr e = v.s ? (n.ow[0] == 1 ? *v.s : (*v.s != Z->bv_val(0, n.ow[0])).simplify()) : Z->bool_val(v.c != 0);
        std::shared_ptr<z3::model> m;
        z3::expr ne = (!e).simplify();
        if (feasible(st, ne, m)) {
            State bad = st;
            add(bad, ne, m);
            report(bad, "VP " + cstr(st, concretize(st, OP(1), 64)), n.I);
            if (!feasible(st, e, m)) throw Kill();
            add(st, e, m);
        }
        break;
    }
    case X_COVER: covers.insert(cstr(st, concretize(st, OP(0), 64))); break;
    case X_TRACE: fprintf(stderr, "trace %s %s\n", cstr(st, concretize(st, OP(0), 64)).c_str(), OP(1).s ? OP(1).s->to_string().c_str() : std::to_string((long long) OP(1).c).c_str()); break;
    case X_MEMCPY: {
        uint64_t d = concretize(st, OP(0), 64), s = concretize(st, OP(1), 64), k = concretize(st, OP(2), n.ow[2]);
        copybytes(st, d, s, k);
        r = Val(d);
        break;
    }
    case X_MEMCMP: {
        uint64_t a = concretize(st, OP(0), 64), b = concretize(st, OP(1), 64), k = concretize(st, OP(2), n.ow[2]);
        if (k) { access(st, a, k, false); access(st, b, k, false); }
        std::vector<std::pair<Val, Val>> d;      // differing positions, in order
        bool end = false;
        for (uint64_t i = 0; i < k && !end; i++) {
            Val x = load(st, a + i, 8), y = load(st, b + i, 8);
            if (!x.s && !y.s) { if (x.c == y.c) continue; end = true; }
            else if (x.s && y.s && z3::eq(*x.s, *y.s)) continue;
            d.push_back({ x, y });
        }
        if (d.empty()) r = Val((uint64_t) 0);
        else {
            z3::expr e = Z->bv_val(0, 32);
            for (size_t i = d.size(); i-- > 0;) {
                z3::expr x = bv(d[i].first, 8), y = bv(d[i].second, 8);
                e = z3::ite(x == y, e, z3::ite(z3::ult(x, y), Z->bv_val(-1, 32), Z->bv_val(1, 32)));
            }
            r = simp(e, 32);
        }
        break;
    }
    case X_MEMSET: {
        uint64_t d = concretize(st, OP(0), 64), k = concretize(st, OP(2), n.ow[2]);
        Val v = castop(Instruction::Trunc, OP(1), n.ow[1], 8);
        if (k) access(st, d, k, true);
        for (uint64_t i = 0; i < k; i++) store(st, d + i, 8, v);
        r = Val(d);
        break;
    }
    case X_NOP: break;
    case X_EXPECT: r = OP(0); break;
    case X_OBJSIZE: r = Val(mask(n.w)); break;
    case X_MINMAX: {
        unsigned p = n.pred == Intrinsic::umax ? CmpInst::ICMP_UGT : n.pred == Intrinsic::umin ? CmpInst::ICMP_ULT : n.pred == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
        Val c = icmp(p, OP(0), OP(1), n.w);
        if (!c.s) r = c.c ? OP(0) : OP(1);
        else r = simp(z3::ite(*c.s, bv(OP(0), n.w), bv(OP(1), n.w)), n.w);
        break;
    }
    case X_BSWAP: {
        Val v = OP(0);
        if (!v.s) { uint64_t x = 0; for (unsigned i = 0; i < n.w / 8; i++) x |= ((v.c >> (8 * i)) & 255) << (n.w - 8 - 8 * i); r = Val(x); }
        else { z3::expr e = v.s->extract(7, 0); for (unsigned i = 1; i < n.w / 8; i++) e = z3::concat(e, v.s->extract(8 * i + 7, 8 * i)); r = simp(e, n.w); }
        break;
    }
    case X_ABS: {
        Val c = icmp(CmpInst::ICMP_SLT, OP(0), Val((uint64_t) 0), n.w), neg = binop(Instruction::Sub, Val((uint64_t) 0), OP(0), n.w, st);
        if (!c.s) r = c.c ? neg : OP(0);
        else r = simp(z3::ite(*c.s, bv(neg, n.w), bv(OP(0), n.w)), n.w);
        break;
    }
    case X_OVF: {
        unsigned w = n.ow[0];
        Val v, o;
        v.a = std::make_shared<std::vector<Val>>();
        z3::expr p = bv(OP(0), w), q = bv(OP(1), w), t(*Z), u(*Z);
        bool sg = n.pred == Intrinsic::sadd_with_overflow || n.pred == Intrinsic::ssub_with_overflow;
        z3::expr pp = sg ? z3::sext(p, w) : z3::zext(p, w), qq = sg ? z3::sext(q, w) : z3::zext(q, w);
        if (n.pred == Intrinsic::uadd_with_overflow || n.pred == Intrinsic::sadd_with_overflow) t = pp + qq;
        else if (n.pred == Intrinsic::umul_with_overflow) t = pp * qq;
        else t = pp - qq;
        u = t.extract(w - 1, 0);
        v.a->push_back(simp(u, w));
        v.a->push_back(simp(t != (sg ? z3::sext(u, w) : z3::zext(u, w)), 1));
        r = v;
        break;
    }
    case X_VASTART: {
        uint64_t a = concretize(st, OP(0), 64);
        ObjP area = newobj(st, 8 * f.va.size() + 8, 0);
        f.allocas.push_back(area->base);
        uint64_t ab = area->base;
        for (size_t i = 0; i < f.va.size(); i++) store(st, ab + 8 * i, 64, castop(Instruction::ZExt, f.va[i], f.vaw[i] ? f.vaw[i] : 64, 64));
        store(st, a, 32, Val(48));
        store(st, a + 4, 32, Val(304));
        store(st, a + 8, 64, Val(ab));
        store(st, a + 16, 64, Val((uint64_t) 0));
        break;
    }
    case X_VAEND: break;
    case X_VACOPY: copybytes(st, concretize(st, OP(0), 64), concretize(st, OP(1), 64), 24); break;
    default:
        missing.insert(n.callee ? n.callee->getName().str() : "?");
        throw Stop{ "no model of the called function " + (n.callee ? n.callee->getName().str() : std::string("?")) };
    }
    Frame &g = st.st.back();
    if (n.dst >= 0) g.r[n.dst] = r;
    g.ip++;
}

// runs one path to its end; other feasible sides go to the work list
static void runpath(State &st)
{
    Instruction *cur = nullptr;
    try {
        for (;;) {
            Frame &f = st.st.back();
            Inst &n = f.fn->b[f.bb].in[f.ip];
            cur = n.I;
            nsteps++;
            if (++st.steps > maxsteps) throw Bad{ "does not end within the step bound" };
            if ((nsteps & 0xffff) == 0 && now() > deadline) throw Stop{ "time limit" };
            switch (n.op) {
            case Instruction::Alloca: {
                uint64_t cnt = concretize(st, OP(0), n.ow[0]);
                ObjP o = newobj(st, n.gepc * cnt, 2);
                Frame &g = st.st.back();
                g.allocas.push_back(o->base);
                g.r[n.dst] = Val(o->base);
                g.ip++;
                break;
            }
            case Instruction::Load: {
                uint64_t a = concretize(st, OP(0), 64);
                Val v = loadT(st, a, cur->getType());
                Frame &g = st.st.back();
                g.r[n.dst] = v;
                g.ip++;
                break;
            }
            case Instruction::Store: {
                uint64_t a = concretize(st, OP(1), 64);
                storeT(st, a, cur->getOperand(0)->getType(), OP(0));
                st.st.back().ip++;
                break;
            }
            case Instruction::GetElementPtr: {
                Val v = OP(0);
                if (n.gepc) v = binop(Instruction::Add, v, Val(n.gepc), 64, st);
                for (size_t i = 0; i < n.gep.size(); i++) {
                    Val x = castop(Instruction::SExt, OP(n.gep[i].first), n.gepw[i], 64);
                    v = binop(Instruction::Add, v, binop(Instruction::Mul, x, Val(n.gep[i].second), 64, st), 64, st);
                }
                f.r[n.dst] = v;
                f.ip++;
                break;
            }
            case Instruction::ICmp: f.r[n.dst] = icmp(n.pred, OP(0), OP(1), n.w2); f.ip++; break;
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
                f.r[n.dst] = castop(n.op, OP(0), n.w2, n.w); f.ip++; break;
            case Instruction::Freeze: f.r[n.dst] = OP(0); f.ip++; break;
            case Instruction::Select: {
                Val c = OP(0);
                if (!c.s) f.r[n.dst] = c.c ? OP(1) : OP(2);
                else if (OP(1).a) throw Stop{ "choice between aggregates" };
                else if (n.w == 1) f.r[n.dst] = simp(z3::ite(*c.s, bl(OP(1)), bl(OP(2))), 1);
                else if (cur->getType()->isPointerTy()) { uint64_t x = concretize(st, c, 1); Frame &g = st.st.back(); g.r[n.dst] = x ? OP(1) : OP(2); g.ip++; break; }
                else f.r[n.dst] = simp(z3::ite(*c.s, bv(OP(1), n.w), bv(OP(2), n.w)), n.w);
                f.ip++;
                break;
            }
            case Instruction::ExtractValue: {
                Val v = OP(0);
                for (unsigned i : cast<ExtractValueInst>(cur)->getIndices()) { if (!v.a) throw Stop{ "part of an aggregate" }; v = Val((*v.a)[i]); }
                f.r[n.dst] = v;
                f.ip++;
                break;
            }
            case Instruction::InsertValue: {
                auto ix = cast<InsertValueInst>(cur)->getIndices();
                if (ix.size() != 1) throw Stop{ "nested aggregates" };
                Val v;
                Val base = OP(0);
                v.a = std::make_shared<std::vector<Val>>(base.a ? *base.a : std::vector<Val>(cur->getType()->getStructNumElements()));
                (*v.a)[ix[0]] = OP(1);
                f.r[n.dst] = v;
                f.ip++;
                break;
            }
            case Instruction::Br: {
                if (n.o.empty()) { jump(st, n.bb[0]); break; }
                Val c = OP(0);
                if (!c.s) { jump(st, c.c ? n.bb[0] : n.bb[1]); break; }
                z3::expr e = *c.s, ne = (!e).simplify();
                std::shared_ptr<z3::model> m1, m0;
                bool t = feasible(st, e, m1), e0 = feasible(st, ne, m0);
                if (t && e0) {
                    StateP o = std::make_unique<State>(st);
                    add(*o, ne, m0);
                    jump(*o, n.bb[1]);
                    nforks++;
                    work.push_back(std::move(o));
                }
                if (t) { if (e0) add(st, e, m1); jump(st, n.bb[0]); }
                else if (e0) jump(st, n.bb[1]);
                else throw Kill();
                break;
            }
            case Instruction::Switch: {
                Val c = OP(0);
                uint64_t x;
                if (c.s) {
                    // one side per case; the rest together
                    z3::expr e = bv(c, n.w2), rest = Z->bool_val(true);
                    std::map<int, std::vector<uint64_t>> by;
                    for (auto &k : n.cases) { by[k.second].push_back(k.first); rest = rest && e != Z->bv_val(k.first, n.w2); }
                    std::vector<std::pair<z3::expr, int>> sides;
                    for (auto &k : by) { z3::expr o = Z->bool_val(false); for (uint64_t v : k.second) o = o || e == Z->bv_val(v, n.w2); sides.push_back({ o.simplify(), k.first }); }
                    sides.push_back({ rest.simplify(), n.bb[0] });
                    std::vector<std::pair<std::shared_ptr<z3::model>, size_t>> ok;
                    for (size_t i = 0; i < sides.size(); i++) { std::shared_ptr<z3::model> m; if (feasible(st, sides[i].first, m)) ok.push_back({ m, i }); }
                    if (ok.empty()) throw Kill();
                    for (size_t i = 1; i < ok.size(); i++) {
                        StateP o = std::make_unique<State>(st);
                        add(*o, sides[ok[i].second].first, ok[i].first);
                        jump(*o, sides[ok[i].second].second);
                        nforks++;
                        work.push_back(std::move(o));
                    }
                    add(st, sides[ok[0].second].first, ok[0].first);
                    jump(st, sides[ok[0].second].second);
                    break;
                }
                x = c.c;
                int to = n.bb[0];
                for (auto &k : n.cases) if (k.first == x) { to = k.second; break; }
                jump(st, to);
                break;
            }
            case Instruction::Ret: {
                Val v;
                if (!n.o.empty()) v = OP(0);
                Frame done = std::move(st.st.back());
                st.st.pop_back();
                for (uint64_t a : done.allocas) st.mem.erase(a);
                if (st.st.empty()) { npaths++; return; }
                if (done.dst >= 0) st.st.back().r[done.dst] = v;
                break;
            }
            case Instruction::Call: {
                Fn *fn = n.fn;
                if (!fn && n.ext == -1) {
                    uint64_t a = concretize(st, OP(n.o.size() - 1), 64);
                    auto it = faddr.find(a);
                    if (it == faddr.end()) throw Bad{ "call through a pointer that is no function" };
                    if (it->second->isDeclaration()) { missing.insert(it->second->getName().str()); throw Stop{ "no model of the called function " + it->second->getName().str() }; }
                    auto &p = fns[it->second];
                    if (!p) { p = std::make_unique<Fn>(); p->F = it->second; }
                    fn = p.get();
                }
                if (!fn) { external(st, n); break; }
                std::vector<Val> args, va;
                std::vector<unsigned> vaw;
                size_t na = cast<CallBase>(cur)->arg_size();
                for (size_t i = 0; i < na; i++) {
                    Val v = OP(i);
                    if (cast<CallBase>(cur)->isByValArgument(i)) {
                        uint64_t sz = DL->getTypeAllocSize(cast<CallBase>(cur)->getParamByValType(i)), src = concretize(st, v, 64);
                        ObjP o = newobj(st, sz, 0);
                        copybytes(st, o->base, src, sz);
                        v = Val(o->base);
                    }
                    if (i < fn->F->arg_size()) args.push_back(v); else { va.push_back(v); vaw.push_back(n.ow[i]); }
                }
                st.st.back().ip++;
                enter(st, fn, args, n.dst, n.w, va, vaw);
                break;
            }
            case Instruction::Unreachable: throw Bad{ "unreachable code is reached" };
            default:
                if (n.I->isBinaryOp() && n.w) { f.r[n.dst] = binop(n.op, OP(0), OP(1), n.w, st); f.ip++; break; }
                throw Stop{ std::string("unsupported instruction ") + n.I->getOpcodeName() };
            }
        }
    }
    catch (Kill &) { nkilled++; }
    catch (Bad &b) { report(st, b.what, cur); npaths++; }
    catch (Stop &s) { s.why += " [" + (cur ? where(cur, st) : std::string()) + "]"; throw; }
}

static std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c < 32) r += ' '; else r += (char) c; } return r; }
// explorers share out their work lists: one that has spare states forks while fewer than 'jobs' processes run
struct Shared { std::atomic<int> running, viols; };
static Shared *shared;
static int jobs = 1;
static std::string outdir;
static bool child = false;
static void share()
{
    while (work.size() >= 2) {
        int r = shared->running.load();
        if (r >= jobs) return;
        if (!shared->running.compare_exchange_strong(r, r + 1)) continue;
        pid_t pid = fork();
        if (pid < 0) { shared->running--; return; }
        std::deque<StateP> a, b;
        for (size_t i = 0; i < work.size(); i++) (i % 2 ? a : b).push_back(std::move(work[i]));
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGTERM);
            child = true;
            work.swap(a);
            nq = npaths = nsteps = nforks = nkilled = nassert = 0;
            tsolve = 0;
            viols.clear();
            return;
        }
        work.swap(b);
    }
}
static void explore()
{
    try {
        while (!work.empty() && viols.size() < maxviol && shared->viols < (int) maxviol) {
            if (jobs > 1) share();
            StateP s = std::move(work.back());
            work.pop_back();
            size_t v = viols.size();
            runpath(*s);
            shared->viols += (int) (viols.size() - v);
        }
    }
    catch (Stop &s) { undecided = s.why; }
    catch (z3::exception &e) { undecided = std::string("z3: ") + e.msg(); }
}
static std::string result()
{
    std::string r = "{\"paths\":" + std::to_string(npaths) + ",\"infeasible\":" + std::to_string(nkilled) + ",\"forks\":" + std::to_string(nforks) + ",\"queries\":" + std::to_string(nq) + ",\"assertions\":" + std::to_string(nassert) + ",\"instructions\":" + std::to_string(nsteps) + ",\"solver_s\":" + std::to_string(tsolve);
    auto set = [&](const char *k, const std::set<std::string> &v) { r += std::string(",\"") + k + "\":["; bool f = true; for (auto &x : v) { r += (f ? "\"" : ",\"") + esc(x) + "\""; f = false; } r += "]"; };
    set("covers", covers);
    set("functions", called);
    set("missing", missing);
    r += ",\"undecided\":\"" + esc(undecided) + "\",\"violations\":[";
    for (size_t i = 0; i < viols.size(); i++) {
        r += std::string(i ? "," : "") + "{\"what\":\"" + esc(viols[i].what) + "\",\"loc\":\"" + esc(viols[i].loc) + "\",\"values\":[";
        for (size_t k = 0; k < viols[i].vals.size(); k++) r += (k ? "," : "") + std::to_string(viols[i].vals[k]);
        r += "]}";
    }
    return r + "]}";
}

int main(int argc, char **argv)
{
    std::string entry = "vp_harness";
    double limit = 600;
    const char *file = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--time") limit = atof(argv[++i]);
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--steps") maxsteps = strtoull(argv[++i], nullptr, 10);
        else if (a == "--max-violations") maxviol = atoi(argv[++i]);
        else if (a == "--entry") entry = argv[++i];
        else file = argv[i];
    }
    deadline = now() + limit;
    LLVMContext C;
    SMDiagnostic err;
    std::unique_ptr<Module> mod = parseIRFile(file, err, C);
    if (!mod) { printf("{\"undecided\":\"cannot read %s\",\"violations\":[]}\n", file); return 3; }
    M = mod.get();
    DL = &M->getDataLayout();
    z3::context ctx;
    Z = &ctx;
    z3::solver sol(ctx, "QF_BV");
    S = &sol;
    StateP s0 = std::make_unique<State>();
    try {
        uint64_t fa = 0x8000;
        for (auto &f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
        std::vector<std::pair<GlobalVariable *, ObjP>> gs;
        s0->next = std::max<uint64_t>(s0->next, fa + 4096);
        for (auto &g : M->globals()) {
            if (!g.getValueType()->isSized()) continue;
            ObjP o = newobj(*s0, DL->getTypeAllocSize(g.getValueType()), g.hasInitializer() ? 0 : 2);
            gaddr[&g] = o->base;
            gs.push_back({ &g, o });
        }
        for (auto &a : M->aliases()) { APInt off(64, 0); const Value *b = a.getAliasee()->stripAndAccumulateConstantOffsets(*DL, off, true); gaddr[&a] = gaddr[b] + off.getZExtValue(); }
        for (auto &p : gs) if (p.first->hasInitializer()) { flatten(p.first->getInitializer(), p.second->c, 0); p.second->ro = p.first->isConstant(); }
        Function *f = M->getFunction(entry);
        if (!f) throw Stop{ "no entry point" };
        auto &p = fns[f];
        p = std::make_unique<Fn>();
        p->F = f;
        enter(*s0, p.get(), {}, -1, 0, {}, {});
        work.push_back(std::move(s0));
    }
    catch (Stop &s) { undecided = s.why; }
    catch (z3::exception &e) { undecided = std::string("z3: ") + e.msg(); }
    shared = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shared == MAP_FAILED) return 3;
    shared->running = 1;
    shared->viols = 0;
    char dir[] = "/tmp/symx-out-XXXXXX";
    if (!mkdtemp(dir)) return 3;
    outdir = dir;
    if (undecided.empty()) explore();
    shared->running--;
    bool was_child = child;
    {
        std::string f = outdir + "/" + std::to_string(getpid());
        FILE *o = fopen(f.c_str(), "w");
        if (!o) _exit(3);
        std::string r = result();
        fwrite(r.data(), 1, r.size(), o);
        fclose(o);
    }
    bool bad = false;
    int ws;
    pid_t k;
    while ((k = waitpid(-1, &ws, 0)) > 0) if (!WIFEXITED(ws) || WEXITSTATUS(ws)) bad = true;
    if (was_child) _exit(bad ? 1 : 0);
    printf("[");
    bool first = true;
    DIR *dd = opendir(dir);
    while (struct dirent *de = readdir(dd)) {
        if (de->d_name[0] == '.') continue;
        std::string f = outdir + "/" + de->d_name;
        FILE *in = fopen(f.c_str(), "r");
        char b[65536];
        size_t n;
        if (!first) printf(",\n");
        first = false;
        while ((n = fread(b, 1, sizeof b, in)) > 0) fwrite(b, 1, n, stdout);
        fclose(in);
        unlink(f.c_str());
    }
    closedir(dd);
    rmdir(dir);
    if (bad) printf(",{\"undecided\":\"an explorer ended early\",\"violations\":[]}");
    printf("]\n");
    fflush(stdout);
    _exit(0);
}
