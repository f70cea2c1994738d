#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

struct Val
{
    E                                       e = nullptr;
    std::shared_ptr<const std::vector<Val>> agg;
    Val() {}
    Val(E x) : e(x) {}
    explicit Val(std::vector<Val>&& v) : agg(std::make_shared<const std::vector<Val>>(std::move(v))) {}
};

enum class ObjKind : uint8_t
{
    Global,
    Stack,
    Heap,
    Func
};

struct Obj
{
    uint64_t             base = 0, size = 0;
    ObjKind              kind = ObjKind::Global;
    bool                 alive = true, readonly = false;
    std::string          name;
    const llvm::Function* fn = nullptr;
    std::vector<uint8_t> bytes;
    std::vector<E>       sym;  // empty or one per byte (nullptr = concrete)
    std::vector<uint8_t> init; // empty = all initialised
};
using ObjP = std::shared_ptr<Obj>;

struct Inst
{
    const llvm::Instruction* I;
    unsigned                 opc;
    int                      dst = -1;
    unsigned                 width = 0; // scalar result width
    llvm::SmallVector<int, 4> ops;
    uint64_t                 gepConst = 0;
    llvm::SmallVector<std::pair<int, uint64_t>, 2> gepVar;
    int                      succ[2] = { -1, -1 };
    bool                     scalar = true;
};
struct Block
{
    std::vector<Inst> insts;
    unsigned          firstNonPhi = 0;
    const llvm::BasicBlock* bb;
};
struct FnInfo
{
    const llvm::Function* F;
    std::vector<Block>    blocks;
    std::unordered_map<const llvm::BasicBlock*, int> bbIdx;
    std::unordered_map<const llvm::Value*, int>      regIdx;
    std::vector<const llvm::Constant*>               consts;
    std::vector<Val>                                 constVals;
    std::vector<bool>                                constDone;
    unsigned                                         nregs = 0;
    uint64_t                                         executed = 0;
    int                                              handler = -2; // -2 unknown, -1 none
};

struct Frame
{
    FnInfo*               fn = nullptr;
    int                   bb = 0;
    unsigned              ip = 0;
    std::vector<Val>      regs;
    std::vector<uint32_t> allocas;
    const Inst*           call = nullptr; // call instruction in the caller
    std::vector<std::pair<llvm::Type*, Val>> varargs;
    bool                  isTry = false; // called through sym_try
    uint32_t              demoted = 0;   // object holding a result the callee returns through memory
};

struct InputRec
{
    std::string    name;
    std::vector<E> bytes;
};

struct State
{
    std::vector<Frame>    stack;
    std::vector<ObjP>     objs;
    std::vector<E>        pc;
    Model                 model;
    bool                  modelOk = true;
    uint64_t              steps = 0;
    unsigned              forks = 0;
    uint64_t              nextAddr = 0;
    std::vector<InputRec> inputs;
    unsigned              undefCount = 0;
    std::map<std::string, unsigned> nameCount;
    std::vector<const llvm::Function*> pending;
    std::vector<std::pair<std::string, E>> notes;
    bool                  ended = false;
};

struct Violation
{
    std::string kind, msg, where;
    std::string cexFile;
    std::vector<std::pair<std::string, std::string>> inputs; // name, hex
    std::vector<std::pair<std::string, std::string>> notes;
    unsigned count = 1;
};
