// Symbolic execution of LLVM IR with Z3. One path at a time, memory laid out concretely, contents symbolic;
// every branch, assertion and symbolic address is decided by the solver over all inputs the path allows.
//   symex MODULE.bc OUTDIR SECONDS [SHARED-TOKENS-FILE]
#include "expr.h"
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/Target.h>
#include <map>
#include <memory>
#include <set>
#include <atomic>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <signal.h>
#include <sys/time.h>
using std::vector; using std::string; using std::shared_ptr;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string OUT;
static double T0, TEND;

// ---- shared between the worker processes of one run ----
enum { MAXSITE = 4096, MAXFN = 4096 };
struct Shared {
    std::atomic<uint64_t> paths, complete, killed, instr, queries, cacheHits, forks, maxDepth, solverUs, asserts, workers, errors, violations;
    std::atomic<uint8_t> stop;
    std::atomic<uint8_t> reached[MAXSITE], violated[MAXSITE];
    std::atomic<uint64_t> hits[MAXSITE];
    std::atomic<uint8_t> fn[MAXFN];
};
static Shared* G;
struct Tokens { std::atomic<int> n, stop; };   // stop: the caller has its answer
static Tokens* TK;
static bool takeToken() { int v = TK->n.load(); while (v > 0) if (TK->n.compare_exchange_weak(v, v - 1)) return true; return false; }
static void giveToken() { TK->n.fetch_add(1); }

[[noreturn]] static void finish(int rc);
static void note(const char* file, const string& s)
{
    int fd = open((OUT + "/" + file).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    flock(fd, LOCK_EX);
    if (write(fd, s.data(), s.size()) < 0) {}
    close(fd);
}
[[noreturn]] static void fatal(const string& s)
{
    G->errors++;
    G->stop = 1;
    note("errors", s + "\n");
    finish(3);
}

// ---- program ----
struct Opd { uint8_t kind; uint32_t slot; uint64_t c; }; // 0 constant, 1 register, 2 undefined
enum K : uint8_t { I_BIN, I_CMP, I_CAST, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_BR, I_JMP, I_SWITCH, I_RET, I_CALL, I_PHI, I_SELECT,
                   I_UNREACHABLE, I_COPY };
struct Leaf { uint32_t off; uint8_t w; };
struct Fn;
enum B : uint8_t { B_NONE, B_SYM, B_ASSUME, B_ASSERT, B_REACH, B_STOP, B_MALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN,
                   B_STRCPY, B_BSWAP, B_ERRNO, B_ASSERTFAIL, B_ABORT, B_NOP, B_CALLOC, B_STACKSAVE, B_EXPECT, B_REALLOC, B_TRAP,
                   B_STRCMP, B_MINMAX, B_VASTART, B_VACOPY };
struct Ins {
    K k; uint8_t sub; uint16_t w, w2;    // sub: operation; w: width of result / operand; w2: source width
    uint8_t neg, swap;
    uint32_t dst;                        // first result register
    vector<Opd> o;
    vector<uint32_t> t;                  // successor blocks, incoming blocks, scales
    vector<uint64_t> cs;                 // switch cases, GEP scales
    vector<Leaf> lv;                     // scalars of the loaded, stored, returned or called type
    uint64_t size = 0;                   // alloca element size, GEP constant offset
    Fn* callee = nullptr; B bi = B_NONE; int site = -1;
    vector<uint32_t> byval; vector<uint8_t> argn; vector<uint16_t> argw; vector<vector<Leaf>> argl;
    LLVMValueRef src; bool fptr = false;
};
struct Block { vector<Ins> in; uint32_t nphi = 0; };
struct Fn { string name; vector<Block> b; uint32_t nreg = 0; vector<uint32_t> argSlot; vector<uint32_t> argN; uint64_t addr = 0; int id; LLVMValueRef v; bool body = false;
            bool done = false, va = false; string file; };
struct Site { string kind, text, loc, fn; };

static LLVMModuleRef M;
static LLVMTargetDataRef TD;
static std::map<LLVMValueRef, Fn*> FN;
static std::map<uint64_t, Fn*> FNAT;
static vector<Fn*> FNS;
static std::map<LLVMValueRef, uint64_t> GADDR;
static vector<Site> SITES;

struct Page { uint8_t st[64]; uint8_t c[64]; ER e[64]; }; // st: 0 concrete, 1 symbolic, 2 never written
struct Obj { uint64_t base, size; uint8_t kind; bool ro, zero; vector<shared_ptr<Page>> p; };
typedef shared_ptr<Obj> OP;
static vector<OP> GOBJ;
static uint64_t NEXTADDR = 0x10000000;

static string locOf(LLVMValueRef v)
{
    unsigned n = 0;
    const char* f = LLVMGetDebugLocFilename(v, &n);
    string s = f ? string(f, n) : "?";
    unsigned dn = 0;
    const char* d = LLVMGetDebugLocDirectory(v, &dn);
    if (f && n && f[0] != '/' && d) s = string(d, dn) + "/" + s;
    return s + ":" + std::to_string(LLVMGetDebugLocLine(v));
}
static unsigned width(LLVMTypeRef t)
{
    switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: { unsigned w = LLVMGetIntTypeWidth(t); if (w > 64) fatal("integer wider than 64 bits"); return w; }
    case LLVMPointerTypeKind: return 64;
    default: fatal("unsupported scalar type");
    }
}
static void leaves(LLVMTypeRef t, uint32_t off, vector<Leaf>& r)
{
    switch (LLVMGetTypeKind(t)) {
    case LLVMVoidTypeKind: return;
    case LLVMStructTypeKind:
        for (unsigned i = 0; i < LLVMCountStructElementTypes(t); ++i)
            leaves(LLVMStructGetTypeAtIndex(t, i), off + (uint32_t) LLVMOffsetOfElement(TD, t, i), r);
        return;
    case LLVMArrayTypeKind: {
        LLVMTypeRef e = LLVMGetElementType(t);
        for (unsigned i = 0; i < LLVMGetArrayLength(t); ++i) leaves(e, off + i * (uint32_t) LLVMABISizeOfType(TD, e), r);
        return;
    }
    default: r.push_back(Leaf{off, (uint8_t) width(t)});
    }
}
static uint64_t constVal(LLVMValueRef v);
static uint64_t gepConst(LLVMValueRef v)
{
    uint64_t a = constVal(LLVMGetOperand(v, 0));
    LLVMTypeRef t = LLVMGetGEPSourceElementType(v);
    for (int i = 1; i < LLVMGetNumOperands(v); ++i) {
        int64_t x = sx(constVal(LLVMGetOperand(v, i)), width(LLVMTypeOf(LLVMGetOperand(v, i))));
        if (i == 1) { a += (uint64_t) x * LLVMABISizeOfType(TD, t); continue; }
        if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { a += LLVMOffsetOfElement(TD, t, (unsigned) x); t = LLVMStructGetTypeAtIndex(t, (unsigned) x); }
        else { t = LLVMGetElementType(t); a += (uint64_t) x * LLVMABISizeOfType(TD, t); }
    }
    return a;
}
static uint64_t constVal(LLVMValueRef v)
{
    if (LLVMIsAConstantInt(v)) return LLVMConstIntGetZExtValue(v);
    if (LLVMIsAConstantPointerNull(v)) return 0;
    if (LLVMIsAFunction(v)) return FN[v]->addr;
    if (LLVMIsAGlobalVariable(v)) return GADDR[v];
    if (LLVMIsAConstantExpr(v)) switch (LLVMGetConstOpcode(v)) {
        case LLVMGetElementPtr: return gepConst(v);
        case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMTrunc: case LLVMZExt:
            return constVal(LLVMGetOperand(v, 0)) & mask(width(LLVMTypeOf(v)));
        case LLVMAdd: return constVal(LLVMGetOperand(v, 0)) + constVal(LLVMGetOperand(v, 1));
        case LLVMSub: return constVal(LLVMGetOperand(v, 0)) - constVal(LLVMGetOperand(v, 1));
        default: break;
        }
    char* s = LLVMPrintValueToString(v);
    fatal(string("unsupported constant ") + s);
}
static bool isConst(LLVMValueRef v) { return LLVMIsAConstant(v); }

// writes an initialiser
static Page* pageW(Obj* o, uint64_t i)
{
    auto& p = o->p[i];
    if (!p) { p = std::make_shared<Page>(); memset(p->st, o->zero ? 0 : 2, 64); memset(p->c, 0, 64); memset(p->e, 0, sizeof p->e); }
    else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    return p.get();
}
static inline void putByte(Obj* o, uint64_t off, V v)
{
    Page* p = pageW(o, off >> 6);
    unsigned i = off & 63;
    if (v.e) { p->st[i] = 1; p->e[i] = v.e; } else { p->st[i] = 0; p->c[i] = (uint8_t) v.c; }
}
static void initConst(Obj* o, uint64_t off, LLVMValueRef v)
{
    LLVMTypeRef t = LLVMTypeOf(v);
    if (LLVMIsAConstantAggregateZero(v) || LLVMIsUndef(v)) return;
    switch (LLVMGetTypeKind(t)) {
    case LLVMStructTypeKind:
        for (unsigned i = 0; i < LLVMCountStructElementTypes(t); ++i)
            initConst(o, off + LLVMOffsetOfElement(TD, t, i), LLVMGetAggregateElement(v, i));
        return;
    case LLVMArrayTypeKind: {
        LLVMTypeRef e = LLVMGetElementType(t);
        uint64_t sz = LLVMABISizeOfType(TD, e);
        for (unsigned i = 0; i < LLVMGetArrayLength(t); ++i) initConst(o, off + i * sz, LLVMGetAggregateElement(v, i));
        return;
    }
    default: {
        unsigned w = width(t);
        uint64_t c = constVal(v);
        for (unsigned i = 0; i < (w + 7) / 8; ++i) putByte(o, off + i, C((c >> (8 * i)) & 255));
    }
    }
}
static OP newObj(uint64_t& next, uint64_t size, uint8_t kind, bool zero)
{
    auto o = std::make_shared<Obj>();
    o->base = next; o->size = size; o->kind = kind; o->ro = false; o->zero = zero;
    o->p.resize((size + 63) / 64);
    next += (size + 64 + 127) & ~63ull;
    return o;
}

// ---- translation ----
static std::map<string, B> BI = {
    {"vp_sym", B_SYM}, {"vp_assume_", B_ASSUME}, {"vp_assert_", B_ASSERT}, {"vp_reach_", B_REACH}, {"vp_stop_", B_STOP},
    {"malloc", B_MALLOC}, {"free", B_FREE}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
    {"memcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"strcpy", B_STRCPY}, {"strcmp", B_STRCMP}, {"htonl", B_BSWAP}, {"htons", B_BSWAP}, {"ntohl", B_BSWAP},
    {"ntohs", B_BSWAP}, {"__errno_location", B_ERRNO}, {"__assert_fail", B_ASSERTFAIL}, {"abort", B_ABORT}};
static B builtin(const string& n)
{
    auto it = BI.find(n);
    if (it != BI.end()) return it->second;
    auto st = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
    if (st("llvm.memcpy") || st("llvm.memmove")) return B_MEMCPY;
    if (st("llvm.memset")) return B_MEMSET;
    if (st("llvm.bswap")) return B_BSWAP;
    if (st("llvm.va_start")) return B_VASTART;
    if (st("llvm.va_copy")) return B_VACOPY;
    if (st("llvm.dbg") || st("llvm.lifetime") || st("llvm.assume") || st("llvm.stackrestore") || st("llvm.va_")) return B_NOP;
    if (st("llvm.stacksave")) return B_STACKSAVE;
    if (st("llvm.expect")) return B_EXPECT;
    if (st("llvm.trap")) return B_TRAP;
    if (st("llvm.umin") || st("llvm.umax") || st("llvm.smin") || st("llvm.smax")) return B_MINMAX;
    return B_NONE;
}
static void translate(Fn* f)
{
    if (f->done) return;
    f->done = true;
    std::map<LLVMValueRef, uint32_t> slot;
    std::map<LLVMBasicBlockRef, uint32_t> bn;
    uint32_t nr = 0;
    auto alloc = [&](LLVMValueRef v) {
        vector<Leaf> l;
        leaves(LLVMTypeOf(v), 0, l);
        slot[v] = nr;
        nr += l.size();
        return (uint32_t) l.size();
    };
    for (unsigned i = 0; i < LLVMCountParams(f->v); ++i) {
        f->argSlot.push_back(nr);
        f->argN.push_back(alloc(LLVMGetParam(f->v, i)));
    }
    uint32_t k = 0;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) bn[b] = k++;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b))
        for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) alloc(i);
    auto pushOpd = [&](vector<Opd>& o, LLVMValueRef v) {
        if (LLVMIsUndef(v) || LLVMIsPoison(v)) {
            vector<Leaf> l; leaves(LLVMTypeOf(v), 0, l);
            for (size_t i = 0; i < l.size(); ++i) o.push_back(Opd{2, 0, 0});
        } else if (isConst(v)) {
            LLVMTypeKind tk = LLVMGetTypeKind(LLVMTypeOf(v));
            if (tk == LLVMStructTypeKind || tk == LLVMArrayTypeKind) {
                vector<Leaf> l; leaves(LLVMTypeOf(v), 0, l);
                if (LLVMIsAConstantAggregateZero(v)) { for (size_t i = 0; i < l.size(); ++i) o.push_back(Opd{0, 0, 0}); return; }
                fatal("aggregate constant operand in " + f->name);
            }
            if (tk == LLVMDoubleTypeKind || tk == LLVMFloatTypeKind) fatal("floating point in " + f->name);
            o.push_back(Opd{0, 0, constVal(v)});
        } else {
            vector<Leaf> l; leaves(LLVMTypeOf(v), 0, l);
            if (!slot.count(v)) {
                if (LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMMetadataTypeKind) return;
                fatal("operand without a slot in " + f->name);
            }
            for (size_t i = 0; i < l.size(); ++i) o.push_back(Opd{1, slot[v] + (uint32_t) i, 0});
        }
    };
    unsigned byvalKind = LLVMGetEnumAttributeKindForName("byval", 5);
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) {
        f->b.emplace_back();
        Block& B_ = f->b.back();
        for (LLVMValueRef v = LLVMGetFirstInstruction(b); v; v = LLVMGetNextInstruction(v)) {
            Ins n;
            n.src = v; n.dst = slot[v]; n.w = n.w2 = 0; n.neg = n.swap = 0; n.sub = 0;
            LLVMOpcode op = LLVMGetInstructionOpcode(v);
            switch (op) {
            case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl:
            case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: {
                n.k = I_BIN;
                static std::map<int, Op> m = {{LLVMAdd, ADD}, {LLVMSub, SUB}, {LLVMMul, MUL}, {LLVMUDiv, UDIV}, {LLVMSDiv, SDIV}, {LLVMURem, UREM}, {LLVMSRem, SREM},
                    {LLVMShl, SHL}, {LLVMLShr, LSHR}, {LLVMAShr, ASHR}, {LLVMAnd, AND}, {LLVMOr, OR}, {LLVMXor, XOR}};
                n.sub = m[op]; n.w = width(LLVMTypeOf(v));
                pushOpd(n.o, LLVMGetOperand(v, 0)); pushOpd(n.o, LLVMGetOperand(v, 1));
                break;
            }
            case LLVMICmp: {
                n.k = I_CMP; n.w = width(LLVMTypeOf(LLVMGetOperand(v, 0)));
                switch (LLVMGetICmpPredicate(v)) {
                case LLVMIntEQ: n.sub = EQ; break;
                case LLVMIntNE: n.sub = EQ; n.neg = 1; break;
                case LLVMIntUGT: n.sub = ULT; n.swap = 1; break;
                case LLVMIntUGE: n.sub = ULE; n.swap = 1; break;
                case LLVMIntULT: n.sub = ULT; break;
                case LLVMIntULE: n.sub = ULE; break;
                case LLVMIntSGT: n.sub = SLT; n.swap = 1; break;
                case LLVMIntSGE: n.sub = SLE; n.swap = 1; break;
                case LLVMIntSLT: n.sub = SLT; break;
                case LLVMIntSLE: n.sub = SLE; break;
                }
                pushOpd(n.o, LLVMGetOperand(v, 0)); pushOpd(n.o, LLVMGetOperand(v, 1));
                break;
            }
            case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMFreeze: {
                n.k = I_CAST; n.w = width(LLVMTypeOf(v)); n.w2 = width(LLVMTypeOf(LLVMGetOperand(v, 0)));
                n.sub = op == LLVMSExt ? 1 : 0;
                pushOpd(n.o, LLVMGetOperand(v, 0));
                break;
            }
            case LLVMLoad: n.k = I_LOAD; leaves(LLVMTypeOf(v), 0, n.lv); pushOpd(n.o, LLVMGetOperand(v, 0)); break;
            case LLVMStore: n.k = I_STORE; leaves(LLVMTypeOf(LLVMGetOperand(v, 0)), 0, n.lv); pushOpd(n.o, LLVMGetOperand(v, 1)); pushOpd(n.o, LLVMGetOperand(v, 0)); break;
            case LLVMAlloca: n.k = I_ALLOCA; n.size = LLVMABISizeOfType(TD, LLVMGetAllocatedType(v)); n.w2 = width(LLVMTypeOf(LLVMGetOperand(v, 0))); pushOpd(n.o, LLVMGetOperand(v, 0)); break;
            case LLVMGetElementPtr: {
                n.k = I_GEP;
                pushOpd(n.o, LLVMGetOperand(v, 0));
                LLVMTypeRef t = LLVMGetGEPSourceElementType(v);
                for (int i = 1; i < LLVMGetNumOperands(v); ++i) {
                    LLVMValueRef ix = LLVMGetOperand(v, i);
                    uint64_t scale;
                    if (i == 1) scale = LLVMABISizeOfType(TD, t);
                    else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) {
                        unsigned x = (unsigned) LLVMConstIntGetZExtValue(ix);
                        n.size += LLVMOffsetOfElement(TD, t, x); t = LLVMStructGetTypeAtIndex(t, x);
                        continue;
                    } else { t = LLVMGetElementType(t); scale = LLVMABISizeOfType(TD, t); }
                    if (LLVMIsAConstantInt(ix)) n.size += (uint64_t) LLVMConstIntGetSExtValue(ix) * scale;
                    else { pushOpd(n.o, ix); n.cs.push_back(scale); n.t.push_back(width(LLVMTypeOf(ix))); }
                }
                break;
            }
            case LLVMBr:
                if (LLVMIsConditional(v)) {
                    n.k = I_BR; pushOpd(n.o, LLVMGetCondition(v));
                    n.t = {bn[LLVMGetSuccessor(v, 0)], bn[LLVMGetSuccessor(v, 1)]};
                } else { n.k = I_JMP; n.t = {bn[LLVMGetSuccessor(v, 0)]}; }
                break;
            case LLVMSwitch: {
                n.k = I_SWITCH; n.w = width(LLVMTypeOf(LLVMGetOperand(v, 0)));
                pushOpd(n.o, LLVMGetOperand(v, 0));
                n.t.push_back(bn[LLVMGetSwitchDefaultDest(v)]);
                for (int i = 2; i + 1 < LLVMGetNumOperands(v); i += 2) {
                    n.cs.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(v, i)));
                    n.t.push_back(bn[LLVMValueAsBasicBlock(LLVMGetOperand(v, i + 1))]);
                }
                break;
            }
            case LLVMRet: n.k = I_RET; if (LLVMGetNumOperands(v)) pushOpd(n.o, LLVMGetOperand(v, 0)); break;
            case LLVMUnreachable: n.k = I_UNREACHABLE; break;
            case LLVMPHI: {
                n.k = I_PHI; leaves(LLVMTypeOf(v), 0, n.lv);
                for (unsigned i = 0; i < LLVMCountIncoming(v); ++i) {
                    n.t.push_back(bn[LLVMGetIncomingBlock(v, i)]);
                    pushOpd(n.o, LLVMGetIncomingValue(v, i));
                }
                B_.nphi++;
                break;
            }
            case LLVMSelect: n.k = I_SELECT; n.w = width(LLVMTypeOf(v)); for (int i = 0; i < 3; ++i) pushOpd(n.o, LLVMGetOperand(v, i)); break;
            case LLVMExtractValue: case LLVMInsertValue: {
                n.k = I_COPY;
                LLVMTypeRef t = LLVMTypeOf(LLVMGetOperand(v, 0));
                const unsigned* ix = LLVMGetIndices(v);
                vector<Leaf> l;
                uint32_t first = 0;
                for (unsigned d = 0; d < LLVMGetNumIndices(v); ++d) {
                    for (unsigned j = 0; j < ix[d]; ++j) {
                        l.clear();
                        leaves(LLVMGetTypeKind(t) == LLVMStructTypeKind ? LLVMStructGetTypeAtIndex(t, j) : LLVMGetElementType(t), 0, l);
                        first += l.size();
                    }
                    t = LLVMGetTypeKind(t) == LLVMStructTypeKind ? LLVMStructGetTypeAtIndex(t, ix[d]) : LLVMGetElementType(t);
                }
                l.clear(); leaves(t, 0, l);
                vector<Opd> all, in;
                pushOpd(all, LLVMGetOperand(v, 0));
                if (op == LLVMExtractValue) n.o.assign(all.begin() + first, all.begin() + first + l.size());
                else { pushOpd(in, LLVMGetOperand(v, 1)); for (size_t i = 0; i < in.size(); ++i) all[first + i] = in[i]; n.o = all; }
                break;
            }
            case LLVMCall: {
                n.k = I_CALL;
                LLVMValueRef cv = LLVMGetCalledValue(v);
                leaves(LLVMTypeOf(v), 0, n.lv);
                string nm;
                if (LLVMIsAInlineAsm(cv)) fatal("inline assembly in " + f->name);
                if (LLVMIsAFunction(cv)) {
                    n.callee = FN[cv];
                    nm = n.callee->name;
                    if (n.callee->body) {
                        vector<Leaf> rl;
                        leaves(LLVMGetReturnType(LLVMGlobalGetValueType(cv)), 0, rl);
                        if (rl.size() != n.lv.size() || (rl.size() && rl[0].w != n.lv[0].w)) fatal(f->name + " takes the result of " + nm + " for another type");
                    }
                    if (!n.callee->body) {
                        n.bi = builtin(nm);
                    }
                } else { n.fptr = true; pushOpd(n.o, cv); }
                if (n.bi == B_NOP) { n.w = 0; B_.in.push_back(n); B_.in.back().lv.clear(); break; }
                if (n.bi == B_MINMAX) n.sub = nm[5] == 'u' ? (nm[7] == 'i' ? 0 : 1) : (nm[7] == 'i' ? 2 : 3);
                for (unsigned i = 0; i < LLVMGetNumArgOperands(v); ++i) {
                    LLVMValueRef a = LLVMGetOperand(v, i);
                    size_t before = n.o.size();
                    LLVMTypeKind tk = LLVMGetTypeKind(LLVMTypeOf(a));
                    if (tk == LLVMDoubleTypeKind || tk == LLVMFloatTypeKind) { n.o.push_back(Opd{0, 0, 0}); }
                    else pushOpd(n.o, a);
                    n.argn.push_back((uint8_t) (n.o.size() - before));
                    n.argw.push_back(n.argn.back() == 1 && tk != LLVMDoubleTypeKind && tk != LLVMFloatTypeKind && tk != LLVMMetadataTypeKind ? (uint16_t) width(LLVMTypeOf(a)) : 64);
                    LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(v, i + 1, byvalKind);
                    n.byval.push_back(at ? (uint32_t) LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at)) : 0);
                }
                if (!n.lv.empty()) n.w = n.lv[0].w;
                if (n.bi == B_VASTART) f->va = true;
                if (n.bi == B_BSWAP) n.w2 = n.w;
                if (n.bi == B_ASSERT || n.bi == B_REACH || n.bi == B_ASSERTFAIL) {
                    Site s;
                    s.kind = n.bi == B_REACH ? "reach" : "assert"; s.loc = locOf(v); s.fn = f->name;
                    unsigned ti = n.bi == B_ASSERTFAIL ? 0 : 1;
                    LLVMValueRef g = LLVMGetOperand(v, ti);
                    if (LLVMIsAGlobalVariable(g)) {
                        LLVMValueRef in = LLVMGetInitializer(g);
                        size_t len = 0;
                        if (LLVMIsConstantString(in)) { const char* p = LLVMGetAsString(in, &len); s.text = string(p, len ? len - 1 : 0); }
                    }
                    n.site = (int) SITES.size();
                    SITES.push_back(s);
                    if (SITES.size() >= MAXSITE) fatal("too many assertion sites");
                }
                break;
            }
            default: {
                char* s = LLVMPrintValueToString(v);
                fatal("unsupported instruction in " + f->name + ": " + s);
            }
            }
            if (!(op == LLVMCall && n.bi == B_NOP)) B_.in.push_back(std::move(n));
        }
    }
    f->nreg = nr;
}

// ---- state ----
struct Frame { Fn* f; uint32_t b, i, prev; vector<V> r; vector<uint64_t> al; uint32_t dst; uint64_t va = 0; };
struct Sym { uint32_t var; uint8_t w; bool input; };
struct State {
    vector<Frame> st;
    vector<OP> mem;         // sorted by base
    uint64_t next;
    vector<ER> pc; std::set<ER> pcs;
    Model m;
    vector<Sym> syms;
    uint64_t instr = 0;
    uint32_t depth = 0;
};
static vector<std::unique_ptr<State>> work;
static uint64_t ERRNO_ADDR;
static uint64_t MAXI = 60000000;

static Obj* find(State& s, uint64_t a)
{
    size_t lo = 0, hi = s.mem.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (s.mem[m]->base <= a) lo = m + 1; else hi = m; }
    if (!lo) return nullptr;
    Obj* o = s.mem[lo - 1].get();
    return a - o->base < o->size || (a == o->base) ? o : nullptr;
}
static OP* findW(State& s, uint64_t a)
{
    size_t lo = 0, hi = s.mem.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (s.mem[m]->base <= a) lo = m + 1; else hi = m; }
    return lo ? &s.mem[lo - 1] : nullptr;
}
static void drop(State& s, uint64_t base)
{
    auto it = std::lower_bound(s.mem.begin(), s.mem.end(), base, [](const OP& o, uint64_t b) { return o->base < b; });
    if (it != s.mem.end() && (*it)->base == base) s.mem.erase(it);
}
static string where(State& s)
{
    string r;
    for (size_t i = s.st.size(); i-- > 0;) {
        Frame& f = s.st[i];
        uint32_t ix = f.i;
        if (i + 1 < s.st.size() && ix) ix--;
        auto& b = f.f->b[f.b];
        if (ix >= b.in.size()) ix = b.in.size() - 1;
        r += (r.empty() ? "" : " < ") + f.f->name + " " + locOf(b.in[ix].src);
    }
    return r;
}
static string inputsOf(State& s, const Model& m)
{
    string r;
    for (auto& x : s.syms) if (x.input) r += std::to_string(x.var < m.size() ? m[x.var] & mask(x.w) : 0) + "\n";
    return r;
}
static ER newVar(State& s, unsigned w, bool input)
{
    uint32_t k = (uint32_t) s.syms.size();
    s.syms.push_back(Sym{k, (uint8_t) w, input});
    if (s.m.size() <= k) s.m.resize(k + 1, 0);
    s.m[k] = 0;
    return mk(VAR, w, 0, 0, 0, k);
}

// ---- solver ----
struct QRes { bool sat; vector<std::pair<uint32_t, uint64_t>> m; };
static std::map<vector<ER>, QRes> QC;
struct PathEnd { bool complete = false; };
static pid_t rootPid;
static bool holdsToken = false;
// Z3_interrupt takes locks that the interrupted code may hold, so it is only used where nothing else will do.
static void tick(int)
{
    if (TK->stop) _exit(0);   // nobody waits for the result
    bool late = now() > TEND;
    if (!G->stop && !late) return;
    if (getpid() == rootPid) { Z3_interrupt(Z); return; }
    if (holdsToken) giveToken();
    if (late && !G->stop.exchange(1)) G->errors++;
    _exit(late ? 3 : 0);
}
static void startTicks()   // a query that goes on past the end is interrupted; timers do not survive fork()
{
    signal(SIGALRM, tick);
    itimerval t = {{1, 0}, {1, 0}};
    setitimer(ITIMER_REAL, &t, nullptr);
}
static void checkTime()
{
    if (G->stop) finish(0);
    if (TK->stop) { G->stop = 1; finish(0); }
    if (now() > TEND) { G->errors++; if (!G->stop.exchange(1)) note("errors", "time limit reached\n"); finish(3); }
}
// Is pc && e satisfiable? On success m2 is a full model.
static bool solve(State& s, ER e, Model* m2)
{
    vector<ER> cs = {e};
    vector<uint8_t> in(s.pc.size(), 0);
    std::set<uint32_t> vs(vars(e).begin(), vars(e).end());
    for (bool more = true; more;) {
        more = false;
        for (size_t i = 0; i < s.pc.size(); ++i) {
            if (in[i]) continue;
            const auto& pv = vars(s.pc[i]);
            bool hit = false;
            for (uint32_t v : pv) if (vs.count(v)) { hit = true; break; }
            if (hit) { in[i] = 1; more = true; cs.push_back(s.pc[i]); vs.insert(pv.begin(), pv.end()); }
        }
    }
    std::sort(cs.begin(), cs.end());
    auto it = QC.find(cs);
    if (it == QC.end()) {
        checkTime();
        double t = now();
        Z3_solver z = Z3_mk_simple_solver(Z);
        Z3_solver_inc_ref(Z, z);
        for (ER c : cs) Z3_solver_assert(Z, z, zx(c));
        Z3_lbool r = Z3_solver_check(Z, z);
        QRes q;
        if (r == Z3_L_UNDEF) checkTime();
        if (r == Z3_L_UNDEF) fatal(string("solver: unknown: ") + Z3_solver_get_reason_unknown(Z, z));
        q.sat = r == Z3_L_TRUE;
        if (q.sat) {
            Z3_model zm = Z3_solver_get_model(Z, z);
            Z3_model_inc_ref(Z, zm);
            for (uint32_t v : vs) {
                Z3_ast r2;
                uint64_t u = 0;
                if (Z3_model_eval(Z, zm, zvar(v, s.syms[v].w), 1, &r2)) Z3_get_numeral_uint64(Z, r2, &u);
                q.m.push_back({v, u});
            }
            Z3_model_dec_ref(Z, zm);
        }
        Z3_solver_dec_ref(Z, z);
        G->queries++;
        G->solverUs += (uint64_t) ((now() - t) * 1e6);
        it = QC.emplace(cs, q).first;
    } else G->cacheHits++;
    if (it->second.sat && m2) {
        *m2 = s.m;
        if (m2->size() < s.syms.size()) m2->resize(s.syms.size(), 0);
        for (auto& p : it->second.m) (*m2)[p.first] = p.second;
    }
    return it->second.sat;
}
static void addPc(State& s, V c)
{
    if (!c.e) return;
    const Expr x = X[c.e];
    if (x.op == AND) { addPc(s, fromE(x.a)); addPc(s, fromE(x.b)); return; }
    if (s.pcs.insert(c.e).second) s.pc.push_back(c.e);
}
static void report(State& s, const string& what, const Model& m, int site)
{
    if (site >= 0 && G->violated[site].exchange(1)) return;
    uint64_t n = G->violations++;
    string t = what + "\n" + where(s) + "\n" + inputsOf(s, m) + "#\n";
    string fn = "violation-" + std::to_string(n);
    note(fn.c_str(), t);
    if (n >= 3) { G->stop = 1; finish(0); }
}
static std::set<string> seenErr;
// Something the program must never do on this path.
[[noreturn]] static void bad(State& s, const string& what)
{
    string loc = where(s);
    size_t p = loc.find(" < ");
    if (seenErr.insert(what + loc.substr(0, p)).second) report(s, what, s.m, -1);
    throw PathEnd();
}

static void runOne(State* s);
static void drain();
static vector<pid_t> kids;
// Hands a state to another process when one may be started.
static bool handOff(std::unique_ptr<State>& s)
{
    if (!takeToken()) return false;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { giveToken(); return false; }
    if (p > 0) { kids.push_back(p); s.reset(); return true; }
    kids.clear();
    startTicks();
    auto mine = std::move(s);
    work.clear();
    work.push_back(std::move(mine));
    holdsToken = true;
    drain();
    finish(0);
}
static void waitKids()
{
    for (pid_t p : kids) {
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st)) { G->errors++; note("errors", "a worker process ended with status " + std::to_string(WEXITSTATUS(st)) + "\n"); }
        if (!WIFEXITED(st)) { G->errors++; note("errors", "a worker process ended by signal " + std::to_string(WTERMSIG(st)) + "\n"); }
    }
    kids.clear();
}
static void summary();
[[noreturn]] static void finish(int rc)
{
    if (holdsToken) giveToken();
    holdsToken = false;
    if (getpid() != rootPid) {
        waitKids();
        _exit(rc);
    }
    waitKids();
    summary();
    exit(rc);
}
static void forkState(State& s, V cond, const Model& m2)
{
    // s continues with its own choice; the copy takes cond and re-executes the current instruction
    auto n = std::make_unique<State>(s);
    addPc(*n, cond);
    n->m = m2;
    n->depth++;
    s.depth++;
    G->forks++;
    if (s.depth > G->maxDepth) G->maxDepth = s.depth;
    if (!handOff(n)) {
        work.push_back(std::move(n));
        if (work.size() > 1 && TK->n.load() > 0) { // the oldest is likely the largest
            std::unique_ptr<State> old = std::move(work.front());
            work.erase(work.begin());
            if (!handOff(old)) work.insert(work.begin(), std::move(old));
        }
    }
}
static int known(State& s, V c)
{
    if (!c.e) return (int) c.c;
    if (s.pcs.count(c.e)) return 1;
    V n = notb(c);
    if (n.e && s.pcs.count(n.e)) return 0;
    return -1;
}
// Decides a condition; forks when both ways are possible.
static bool branch(State& s, V c)
{
    int k = known(s, c);
    if (k >= 0) return k;
    bool v = eval(c.e, s.m);
    V other = v ? notb(c) : c;
    Model m2;
    if (solve(s, toE(other, 1), &m2)) {
        // the copy re-executes this instruction with the other outcome on its path condition
        forkState(s, other, m2);
        addPc(s, v ? c : notb(c));
    }
    return v;
}
// A concrete value for v on this path; other values are taken up by copies that re-execute the instruction.
static uint64_t conc(State& s, V v, unsigned w)
{
    if (!v.e) return v.c;
    uint64_t a = eval(v.e, s.m);
    V eq = bin(EQ, w, v, C(a));
    int k = known(s, eq);
    if (k == 1) return a;
    V ne = notb(eq);
    Model m2;
    if (solve(s, toE(ne, 1), &m2)) forkState(s, ne, m2);
    addPc(s, eq);
    return a;
}

// ---- memory ----
static V loadByte(State& s, Obj*& o, OP* op, uint64_t off)
{
    auto& p = o->p[off >> 6];
    unsigned i = off & 63;
    if (p) {
        if (p->st[i] == 0) return C(p->c[i]);
        if (p->st[i] == 1) return V{0, p->e[i]};
    } else if (o->zero) return C(0);
    // never written: any value, the same on every read
    if (op->use_count() > 1) { *op = std::make_shared<Obj>(*o); o = op->get(); }
    V v = V{0, newVar(s, 8, false)};
    putByte(o, off, v);
    return v;
}
static OP* access(State& s, uint64_t a, uint64_t n, bool wr)
{
    OP* op = findW(s, a);
    if (!op || a - (*op)->base > (*op)->size || n > (*op)->size - (a - (*op)->base)) {
        char t[160];
        if (a < 4096) snprintf(t, sizeof t, "%s through a null pointer", wr ? "write" : "read");
        else if (op && a - (*op)->base < (*op)->size + 64)
            snprintf(t, sizeof t, "%s of %lu bytes at offset %lu of an object of %lu bytes", wr ? "write" : "read", (unsigned long) n, (unsigned long) (a - (*op)->base), (unsigned long) (*op)->size);
        else snprintf(t, sizeof t, "%s through an invalid or dangling pointer", wr ? "write" : "read");
        bad(s, t);
    }
    if (wr) {
        if ((*op)->ro) bad(s, "write to constant memory");
        if (op->use_count() > 1) *op = std::make_shared<Obj>(**op);
    }
    return op;
}
static V load(State& s, uint64_t a, unsigned w)
{
    unsigned n = (w + 7) / 8;
    OP* op = access(s, a, n, false);
    Obj* o = op->get();
    uint64_t off = a - o->base;
    V r = loadByte(s, o, op, off);
    for (unsigned i = 1; i < n; ++i) r = concat(loadByte(s, o, op, off + i), 8, r, 8 * i);
    return n * 8 == w ? r : extract(r, n * 8, 0, w);
}
static void store(State& s, uint64_t a, V v, unsigned w)
{
    unsigned n = (w + 7) / 8;
    OP* op = access(s, a, n, true);
    Obj* o = op->get();
    uint64_t off = a - o->base;
    if (n * 8 != w) v = zext(v, w, n * 8);
    for (unsigned i = 0; i < n; ++i) putByte(o, off + i, v.e ? extract(v, n * 8, 8 * i, 8) : C((v.c >> (8 * i)) & 255));
}
static void copyMem(State& s, uint64_t d, uint64_t a, uint64_t n)
{
    if (!n) return;
    OP* sp = access(s, a, n, false);
    OP* dp = access(s, d, n, true);
    sp = access(s, a, n, false);
    vector<std::pair<uint8_t, V>> t(n);
    Obj* so = sp->get();
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t off = a - so->base + i;
        auto& p = so->p[off >> 6];
        unsigned j = off & 63;
        t[i] = !p ? std::make_pair((uint8_t) (so->zero ? 0 : 2), C(0)) : std::make_pair(p->st[j], p->st[j] == 1 ? V{0, p->e[j]} : C(p->c[j]));
    }
    Obj* o = dp->get();
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t off = d - o->base + i;
        if (t[i].first == 2) { Page* p = pageW(o, off >> 6); p->st[off & 63] = 2; } // copying it is no use of it
        else putByte(o, off, t[i].second);
    }
}
static uint64_t newMem(State& s, uint64_t size, uint8_t kind)
{
    OP o = newObj(s.next, size, kind, false);
    s.mem.push_back(o);
    return o->base;
}

// ---- execution ----
static inline V val(State& s, Frame& f, const Opd& o, unsigned w)
{
    if (o.kind == 0) return C(o.c & mask(w));
    if (o.kind == 1) return f.r[o.slot];
    return V{0, newVar(s, w, false)};
}
static void enter(State& s, Frame& f, uint32_t b)
{
    uint32_t from = f.b;
    Block& nb = f.f->b[b];
    if (nb.nphi) {
        vector<V> t;
        for (uint32_t i = 0; i < nb.nphi; ++i) {
            Ins& n = nb.in[i];
            size_t k = n.lv.size();
            for (size_t j = 0; j < n.t.size(); ++j)
                if (n.t[j] == from) { for (size_t q = 0; q < k; ++q) t.push_back(val(s, f, n.o[j * k + q], n.lv[q].w)); break; }
        }
        size_t x = 0;
        for (uint32_t i = 0; i < nb.nphi; ++i) for (size_t q = 0; q < nb.in[i].lv.size(); ++q) f.r[nb.in[i].dst + q] = t[x++];
    }
    f.b = b;
    f.i = nb.nphi;
}
static void pushFrame(State& s, Fn* f, const vector<V>& args, const Ins* call)
{
    translate(f);
    if (s.st.size() > 200) bad(s, "recursion deeper than 200 calls");
    if (f->id < MAXFN) G->fn[f->id] = 1;
    Frame n;
    n.f = f; n.b = n.i = n.prev = 0; n.dst = call ? call->dst : 0;
    n.r.resize(f->nreg, C(0));
    size_t a = 0, o = 0;
    for (size_t p = 0; p < f->argSlot.size(); ++p) {
        for (uint32_t k = 0; k < f->argN[p]; ++k) n.r[f->argSlot[p] + k] = o < args.size() ? args[o++] : C(0);
        if (call && a < call->byval.size() && call->byval[a]) {
            uint64_t d = newMem(s, call->byval[a], 2);
            copyMem(s, d, n.r[f->argSlot[p]].c, call->byval[a]);
            n.al.push_back(d);
            n.r[f->argSlot[p]] = C(d);
        }
        ++a;
    }
    if (f->va && call) {    // the variable arguments: 8 bytes each
        n.va = newMem(s, 8 * (call->argn.size() - a), 2);
        n.al.push_back(n.va);
        for (size_t p = a; p < call->argn.size(); ++p)
            for (uint32_t k = 0; k < call->argn[p]; ++k) store(s, n.va + 8 * (p - a), args[o++], call->argw[p]);
    }
    s.st.push_back(std::move(n));
}
static void doReach(State& s, V c, int site)
{
    if (G->reached[site]) return;
    Model m = s.m;
    if (c.e) { if (!eval(c.e, s.m) && !solve(s, c.e, &m)) return; }
    else if (!c.c) return;
    if (G->reached[site].exchange(1)) return;
    note(("reach-" + std::to_string(site)).c_str(), inputsOf(s, m));
}
static void doAssert(State& s, V c, int site)
{
    G->asserts++;
    G->hits[site]++;
    if (!c.e) {
        if (c.c) return;
        report(s, SITES[site].text, s.m, site);
        throw PathEnd();
    }
    if (known(s, c) == 1) return;
    if (!eval(c.e, s.m)) {
        report(s, SITES[site].text, s.m, site);
        Model m2;
        if (!solve(s, c.e, &m2)) throw PathEnd();
        s.m = m2;
        addPc(s, c);
        return;
    }
    Model m2;
    V n = notb(c);
    if (solve(s, toE(n, 1), &m2)) { report(s, SITES[site].text, m2, site); addPc(s, c); }
}
static uint64_t allocSize(State& s, V v)
{
    uint64_t n = conc(s, v, 64);
    if (n > (64u << 20)) bad(s, "allocation of more than 64 MB");
    return n;
}
static void call(State& s, Frame& f, Ins& n)
{
    size_t base = n.fptr ? 1 : 0;
    auto A = [&](size_t i) { return val(s, f, n.o[base + i], 64); };
    auto A32 = [&](size_t i) { return val(s, f, n.o[base + i], 32); };
    Fn* cal = n.callee;
    if (n.fptr) {
        uint64_t a = conc(s, val(s, f, n.o[0], 64), 64);
        auto it = FNAT.find(a);
        if (it == FNAT.end()) bad(s, a ? "call through an invalid function pointer" : "call through a null function pointer");
        cal = it->second;
    }
    if (cal->body) {
        vector<V> args;
        size_t q = base;
        for (size_t i = 0; i < n.argn.size(); ++i)
            for (unsigned k = 0; k < n.argn[i]; ++k) args.push_back(val(s, f, n.o[q++], 64));
        f.i++;
        pushFrame(s, cal, args, &n);
        return;
    }
    switch (n.bi) {
    case B_NOP: break;
    case B_SYM: { // vp_sym(width)
        unsigned w = (unsigned) A32(0).c;
        V v = V{0, newVar(s, w, true)};
        f.r[n.dst] = zext(v, w, 64);
        break;
    }
    case B_ASSUME: {
        V c = notb(bin(EQ, 32, A32(0), C(0)));
        int k = known(s, c);
        if (k == 1) break;
        if (k == 0) throw PathEnd();
        if (!eval(c.e, s.m)) {
            Model m2;
            if (!solve(s, c.e, &m2)) { G->killed++; throw PathEnd(); }
            s.m = m2;
        }
        addPc(s, c);
        break;
    }
    case B_ASSERT: doAssert(s, notb(bin(EQ, 32, A32(0), C(0))), n.site); break;
    case B_REACH: G->hits[n.site]++; doReach(s, notb(bin(EQ, 32, A32(0), C(0))), n.site); break;
    case B_STOP: throw PathEnd{true};
    case B_MALLOC: { uint64_t z = allocSize(s, A(0)); f.r[n.dst] = C(newMem(s, z, 1)); break; }
    case B_CALLOC: {
        uint64_t z = allocSize(s, A(0)), y = allocSize(s, A(1));
        uint64_t a = newMem(s, z * y, 1);
        s.mem.back()->zero = true;
        f.r[n.dst] = C(a);
        break;
    }
    case B_REALLOC: {
        uint64_t a = conc(s, A(0), 64), z = allocSize(s, A(1));
        OP* o = a ? findW(s, a) : nullptr;
        if (a && (!o || (*o)->base != a || (*o)->kind != 1)) bad(s, "realloc of memory that is not allocated");
        uint64_t old = a ? (*o)->size : 0, d = newMem(s, z, 1);
        if (a) { copyMem(s, d, a, std::min(old, z)); drop(s, a); }
        f.r[n.dst] = C(d);
        break;
    }
    case B_FREE: {
        uint64_t a = conc(s, A(0), 64);
        if (!a) break;
        OP* o = findW(s, a);
        if (!o || (*o)->base != a || (*o)->kind != 1) bad(s, "free of memory that is not allocated");
        drop(s, a);
        break;
    }
    case B_MEMCPY: {
        uint64_t d = conc(s, A(0), 64), a = conc(s, A(1), 64), z = conc(s, A(2), 64);
        copyMem(s, d, a, z);
        if (!n.lv.empty()) f.r[n.dst] = C(d);
        break;
    }
    case B_MEMSET: {
        uint64_t d = conc(s, A(0), 64), z = conc(s, A(2), 64);
        V b = extract(val(s, f, n.o[base + 1], 32), 32, 0, 8);
        if (!b.e) b.c &= 255;
        if (z) {
            OP* op = access(s, d, z, true);
            for (uint64_t i = 0; i < z; ++i) putByte(op->get(), d - (*op)->base + i, b);
        }
        if (!n.lv.empty()) f.r[n.dst] = C(d);
        break;
    }
    case B_MEMCMP: {
        uint64_t x = conc(s, A(0), 64), y = conc(s, A(1), 64), z = conc(s, A(2), 64);
        V r = C(0);
        for (uint64_t i = z; i-- > 0;) {
            V p = load(s, x + i, 8), q = load(s, y + i, 8);
            r = ite(bin(EQ, 8, p, q), r, ite(bin(ULT, 8, p, q), C(0xffffffff), C(1), 32), 32);
        }
        f.r[n.dst] = r;
        break;
    }
    case B_STRLEN: {
        uint64_t a = conc(s, A(0), 64), k = 0;
        while (conc(s, load(s, a + k, 8), 8)) ++k;
        f.r[n.dst] = C(k);
        break;
    }
    case B_STRCPY: {
        uint64_t d = conc(s, A(0), 64), a = conc(s, A(1), 64), k = 0;
        for (;; ++k) { uint64_t b = conc(s, load(s, a + k, 8), 8); store(s, d + k, C(b), 8); if (!b) break; }
        f.r[n.dst] = C(d);
        break;
    }
    case B_STRCMP: {
        uint64_t d = conc(s, A(0), 64), a = conc(s, A(1), 64), k = 0;
        for (;; ++k) {
            uint64_t p = conc(s, load(s, a + k, 8), 8), q = conc(s, load(s, d + k, 8), 8);
            if (p != q || !p) { f.r[n.dst] = C((q - p) & mask(32)); break; }
        }
        break;
    }
    case B_BSWAP: {
        unsigned w = n.w;
        V v = val(s, f, n.o[base], w), r = C(0);
        for (unsigned i = 0; i < w / 8; ++i) { V b = extract(v, w, 8 * i, 8); r = i ? concat(r, 8 * i, b, 8) : b; }
        f.r[n.dst] = r;
        break;
    }
    case B_EXPECT: f.r[n.dst] = val(s, f, n.o[base], n.w); break;
    case B_VASTART: {       // as on x86-64, with all arguments in memory
        uint64_t d = conc(s, A(0), 64);
        store(s, d, C(48), 32); store(s, d + 4, C(176), 32); store(s, d + 8, C(f.va), 64); store(s, d + 16, C(0), 64);
        break;
    }
    case B_VACOPY: { uint64_t d = conc(s, A(0), 64), a = conc(s, A(1), 64); copyMem(s, d, a, 24); break; }
    case B_MINMAX: {
        V a = val(s, f, n.o[base], n.w), b = val(s, f, n.o[base + 1], n.w);
        V lt = bin(n.sub < 2 ? ULT : SLT, n.w, a, b);
        f.r[n.dst] = (n.sub & 1) ? ite(lt, b, a, n.w) : ite(lt, a, b, n.w);
        break;
    }
    case B_ERRNO: f.r[n.dst] = C(ERRNO_ADDR); break;
    case B_STACKSAVE: f.r[n.dst] = C(0); break;
    case B_ASSERTFAIL: G->hits[n.site]++; report(s, "assertion in the library: " + SITES[n.site].text, s.m, n.site); throw PathEnd();
    case B_ABORT: case B_TRAP: bad(s, "the program aborts");
    default: fatal("call of " + cal->name + " which has no body, at " + where(s));
    }
    s.st.back().i++;
}
static void step(State& s)
{
    Frame& f = s.st.back();
    Ins& n = f.f->b[f.b].in[f.i];
    switch (n.k) {
    case I_BIN: {
        V a = val(s, f, n.o[0], n.w), b = val(s, f, n.o[1], n.w);
        if (n.sub >= UDIV && n.sub <= SREM) {
            V z = bin(EQ, n.w, b, C(0));
            if (branch(s, z)) bad(s, "division by zero");
        }
        f.r[n.dst] = bin((Op) n.sub, n.w, a, b);
        break;
    }
    case I_CMP: {
        V a = val(s, f, n.o[0], n.w), b = val(s, f, n.o[1], n.w);
        V r = n.swap ? bin((Op) n.sub, n.w, b, a) : bin((Op) n.sub, n.w, a, b);
        f.r[n.dst] = n.neg ? notb(r) : r;
        break;
    }
    case I_CAST: {
        V a = val(s, f, n.o[0], n.w2);
        f.r[n.dst] = n.w < n.w2 ? extract(a, n.w2, 0, n.w) : n.sub ? sext(a, n.w2, n.w) : zext(a, n.w2, n.w);
        break;
    }
    case I_LOAD: {
        uint64_t a = conc(s, val(s, f, n.o[0], 64), 64);
        for (size_t i = 0; i < n.lv.size(); ++i) f.r[n.dst + i] = load(s, a + n.lv[i].off, n.lv[i].w);
        break;
    }
    case I_STORE: {
        uint64_t a = conc(s, val(s, f, n.o[0], 64), 64);
        for (size_t i = 0; i < n.lv.size(); ++i) {
            if (n.o[1 + i].kind == 2) continue;
            store(s, a + n.lv[i].off, val(s, f, n.o[1 + i], n.lv[i].w), n.lv[i].w);
        }
        break;
    }
    case I_ALLOCA: {
        uint64_t z = conc(s, val(s, f, n.o[0], n.w2), n.w2) * n.size;
        if (z > (8u << 20)) bad(s, "stack array of more than 8 MB");
        uint64_t a = newMem(s, z, 2);
        f.al.push_back(a);
        f.r[n.dst] = C(a);
        break;
    }
    case I_GEP: {
        V a = val(s, f, n.o[0], 64);
        uint64_t off = n.size;
        for (size_t i = 0; i < n.cs.size(); ++i) {
            V x = sext(val(s, f, n.o[1 + i], n.t[i]), n.t[i], 64);
            if (!x.e) off += x.c * n.cs[i];
            else a = bin(ADD, 64, a, bin(MUL, 64, x, C(n.cs[i])));
        }
        f.r[n.dst] = bin(ADD, 64, a, C(off));
        break;
    }
    case I_JMP: enter(s, f, n.t[0]); return;
    case I_BR: {
        bool v = branch(s, val(s, f, n.o[0], 1));
        enter(s, f, n.t[v ? 0 : 1]);
        return;
    }
    case I_SWITCH: {
        V v = val(s, f, n.o[0], n.w);
        uint32_t t = n.t[0];
        for (size_t i = 0; i < n.cs.size(); ++i)
            if (branch(s, bin(EQ, n.w, v, C(n.cs[i] & mask(n.w))))) { t = n.t[i + 1]; break; }
        enter(s, f, t);
        return;
    }
    case I_RET: {
        vector<V> r;
        for (auto& o : n.o) r.push_back(val(s, f, o, 64));
        uint32_t d = f.dst;
        for (uint64_t a : f.al) drop(s, a);
        s.st.pop_back();
        if (s.st.empty()) throw PathEnd{true};
        for (size_t i = 0; i < r.size(); ++i) s.st.back().r[d + i] = r[i];
        return;
    }
    case I_CALL: call(s, f, n); return;
    case I_SELECT: {
        V c = val(s, f, n.o[0], 1);
        V a = val(s, f, n.o[1], n.w), b = val(s, f, n.o[2], n.w);
        f.r[n.dst] = ite(c, a, b, n.w);
        break;
    }
    case I_COPY:
        for (size_t i = 0; i < n.o.size(); ++i) f.r[n.dst + i] = n.o[i].kind == 2 ? C(0) : val(s, f, n.o[i], 64);
        break;
    case I_UNREACHABLE: bad(s, "unreachable code is reached");
    case I_PHI: break;
    }
    f.i++;
}
static void runOne(State* s)
{
    uint64_t c = 0;
    try {
        for (;;) {
            step(*s);
            if ((++c & 0xfff) == 0) {
                checkTime();
                if (TK->n.load() > 0 && !work.empty()) {
                    std::unique_ptr<State> old = std::move(work.front());
                    work.erase(work.begin());
                    if (!handOff(old)) work.insert(work.begin(), std::move(old));
                }
            }
            if (++s->instr > MAXI) bad(*s, "no end after " + std::to_string(MAXI) + " instructions");
        }
    } catch (PathEnd& e) {
        if (e.complete) { // a sample of complete paths is replayed natively
            uint64_t k = G->complete++;
            if ((k & (k + 1)) == 0) note(("path-" + std::to_string(k)).c_str(), inputsOf(*s, s->m));
        }
    }
    G->instr += c;
    G->paths++;
}
static void drain()
{
    while (!work.empty()) {
        checkTime();
        auto s = std::move(work.back());
        work.pop_back();
        runOne(s.get());
    }
}
static string esc(const string& s)
{
    string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char) c < 32) r += ' '; else r += c; }
    return r + "\"";
}
static void summary()
{
    string j = "{";
    auto num = [&](const char* k, uint64_t v) { j += string("\"") + k + "\": " + std::to_string(v) + ", "; };
    num("paths", G->paths); num("complete", G->complete); num("killed", G->killed); num("instructions", G->instr); num("queries", G->queries); num("cache_hits", G->cacheHits); num("forks", G->forks);
    num("depth", G->maxDepth); num("solver_us", G->solverUs); num("asserts", G->asserts); num("errors", G->errors); num("violations", G->violations);
    j += "\"sites\": [";
    for (size_t i = 0; i < SITES.size(); ++i)
        j += (i ? ",\n" : "\n") + string("{\"kind\": ") + esc(SITES[i].kind) + ", \"text\": " + esc(SITES[i].text) + ", \"loc\": " + esc(SITES[i].loc) + ", \"fn\": " + esc(SITES[i].fn)
            + ", \"hits\": " + std::to_string(G->hits[i]) + ", \"reached\": " + (G->reached[i] ? "true" : "false") + ", \"violated\": " + (G->violated[i] ? "true" : "false") + "}";
    j += "], \"functions\": [";
    bool first = true;
    for (Fn* f : FNS)
        if (f->id < MAXFN && G->fn[f->id]) { j += (first ? "" : ", ") + esc(f->file + ":" + f->name); first = false; }
    char t[64];
    snprintf(t, sizeof t, "], \"wall_s\": %.2f}\n", now() - T0);
    j += t;
    int fd = open((OUT + "/summary.json").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (write(fd, j.data(), j.size()) < 0) {}
    close(fd);
}
int main(int argc, char** argv)
{
    if (argc < 4) { fprintf(stderr, "usage: symex module.bc outdir seconds [tokens]\n"); return 2; }
    OUT = argv[2];
    T0 = now();
    TEND = T0 + atof(argv[3]);
    rootPid = getpid();
    rlimit rl = {512u << 20, 512u << 20};
    setrlimit(RLIMIT_STACK, &rl);
    G = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (argc > 4) {
        int fd = open(argv[4], O_RDWR);
        TK = (Tokens*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    } else {
        TK = (Tokens*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        TK->n = 8;
    }
    while (!takeToken()) usleep(20000);
    holdsToken = true;
    LLVMMemoryBufferRef buf;
    char* err = nullptr;
    if (LLVMCreateMemoryBufferWithContentsOfFile(argv[1], &buf, &err)) { fprintf(stderr, "%s\n", err); return 2; }
    if (LLVMParseIRInContext(LLVMGetGlobalContext(), buf, &M, &err)) { fprintf(stderr, "%s\n", err); return 2; }
    TD = LLVMGetModuleDataLayout(M);
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fatal(string("solver: ") + Z3_get_error_msg(c, e)); });
    startTicks();
    for (LLVMValueRef v = LLVMGetFirstFunction(M); v; v = LLVMGetNextFunction(v)) {
        Fn* f = new Fn;
        size_t n;
        f->v = v; f->name = LLVMGetValueName2(v, &n); f->body = LLVMCountBasicBlocks(v) > 0;
        f->addr = NEXTADDR; NEXTADDR += 64;
        f->id = (int) FNS.size();
        LLVMMetadataRef sp = LLVMGetSubprogram(v);
        if (sp) {
            LLVMMetadataRef fi = LLVMDIScopeGetFile(sp);
            unsigned ln = 0;
            if (fi) { const char* p = LLVMDIFileGetFilename(fi, &ln); f->file = string(p, ln); }
        }
        FN[v] = f; FNAT[f->addr] = f; FNS.push_back(f);
    }
    NEXTADDR += 4096;
    vector<LLVMValueRef> gs;
    for (LLVMValueRef v = LLVMGetFirstGlobal(M); v; v = LLVMGetNextGlobal(v)) {
        LLVMTypeRef t = LLVMGlobalGetValueType(v);
        OP o = newObj(NEXTADDR, LLVMABISizeOfType(TD, t), 0, true);
        o->ro = LLVMIsGlobalConstant(v);
        GADDR[v] = o->base;
        GOBJ.push_back(o);
        gs.push_back(v);
    }
    for (size_t i = 0; i < gs.size(); ++i) {
        LLVMValueRef in = LLVMGetInitializer(gs[i]);
        if (in) initConst(GOBJ[i].get(), 0, in);
    }
    OP eo = newObj(NEXTADDR, 4, 0, true);
    ERRNO_ADDR = eo->base;
    GOBJ.push_back(eo);
    for (Fn* f : FNS) if (f->body) translate(f);
    Fn* h = nullptr;
    for (Fn* f : FNS) if (f->name == "harness") h = f;
    if (!h) { fprintf(stderr, "no harness\n"); return 2; }
    auto s = std::make_unique<State>();
    s->mem = GOBJ;
    s->next = NEXTADDR;
    pushFrame(*s, h, {}, nullptr);
    work.push_back(std::move(s));
    drain();
    finish(0);
}
