#pragma once
#include <unordered_map>
#include <array>
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct V {
  uint64_t c = 0;
  Expr* e = nullptr;   // non-null: symbolic (or wider than 64 bit)
};
static inline V cv(uint64_t c) { V v; v.c = c; return v; }

struct KBlock;
struct KFunction;
struct KEdge {
  KBlock* to = nullptr;
  std::vector<std::pair<int, int>> moves;   // dst slot, operand code
  std::vector<unsigned> mw;                 // width of each move; 0 for pointers and aggregates
};
struct LeafT { unsigned bits; uint64_t off; bool fp; };

struct KI {
  unsigned op = 0;
  unsigned sub = 0;
  unsigned w = 0, w2 = 0;
  int dst = -1;
  unsigned nslots = 0;
  std::vector<int> o;
  llvm::Instruction* I = nullptr;
  int64_t off = 0;
  std::vector<int64_t> scale;
  std::vector<unsigned> ow;
  std::vector<LeafT> leafs;
  std::vector<KEdge> edges;
  std::vector<uint64_t> cases;
  llvm::Function* callee = nullptr;
  KFunction* kcallee = nullptr;
  int builtin = -1;
};
struct KBlock { int simple = -1; std::vector<KI> insts; llvm::BasicBlock* bb = nullptr; };
struct KFunction {
  llvm::Function* F = nullptr;
  unsigned nslots = 0;
  std::vector<std::unique_ptr<KBlock>> blocks;
  std::vector<V> consts;
  std::vector<std::pair<int, unsigned>> args;   // slot, nslots
  bool executed = false;
  uint64_t calls = 0;
};

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OHeap, OStack, OGlobal, OFunc, OFreed };
struct Chunk {
  int ref;
  uint32_t cap;
  Expr** s;
  uint8_t b[];
};
struct Obj {
  int ref = 1;
  uint32_t size = 0;
  ObjKind kind = OHeap;
  bool ro = false;
  uint8_t fill = 0;
  std::vector<Chunk*> ch;
};
constexpr uint32_t CH = 512;
constexpr uint32_t PG = 128;
struct Page { int ref = 1; Obj* o[PG]; };

struct Memory {
  std::vector<Page*> pages;
  uint32_t next = 1;
  Memory() = default;
  Memory(const Memory& m);
  Memory& operator=(const Memory&) = delete;
  ~Memory();
  uint32_t alloc(uint64_t size, ObjKind k, uint8_t fill);
  Obj* get(uint32_t id) const {
    uint32_t p = id / PG;
    if (p >= pages.size()) return nullptr;
    return pages[p]->o[id % PG];
  }
  Obj* getW(uint32_t id);
  void release(uint32_t id);
};

struct Frame {
  KFunction* kf = nullptr;
  KBlock* bb = nullptr;
  int pc = 0;
  std::vector<V> regs;
  std::vector<uint32_t> allocas;
  KI* call = nullptr;       // call site in the caller
  uint64_t vararg = 0;
};

struct Exc { uint64_t ptr = 0, ti = 0; int handlers = 0; };

enum TStat : uint8_t { TReady, TMutex, TCond, TTimed, TJoin, TDone };
struct Thread {
  std::vector<Frame> st;
  std::vector<uint64_t> caught;     // exception pointers
  uint64_t curExc = 0;
  int uncaught = 0;
  TStat stat = TReady;
  uint64_t waitAddr = 0;            // mutex / cond / tid
  uint64_t reMutex = 0;             // mutex to re-acquire after a cond wait
  int pendingRet = 0;               // value for the blocked call
  int timeouts = 0;
};

// happens-before bookkeeping for the race check: last write and last reads of each byte of an 8 byte granule
struct RaceRec { uint32_t w[8], r[3][8]; };
typedef std::array<uint32_t, 4> VClock;
struct Races {
  bool on = false;
  VClock vc[4];
  std::map<uint64_t, VClock> sync;          // mutexes and atomics
  std::unordered_map<uint64_t, RaceRec> rec;
  Races() { for (int i = 0; i < 4; i++) { vc[i].fill(0); vc[i][i] = 1; } }
};

struct SymBuf { std::string name; uint32_t size; };

struct State {
  Memory mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<Expr*> pc;
  Model model;
  std::vector<SymBuf> bufs;
  std::map<std::string, int> bufCount;
  std::map<uint64_t, Exc> excs;
  std::map<uint64_t, int> mutex;    // address -> owner tid (+1)
  std::vector<int> sched;           // schedule decisions
  int preempts = 0;
  uint64_t skew = 0;
  Races race;
  uint64_t instrs = 0;
  int enumCount = 0;
  int depth = 0;
  std::vector<std::pair<std::string, std::string>> notes;
  std::vector<std::pair<std::string, V>> trace;   // covers and traced values, in order
  State() = default;
  State(const State&) = default;
};
