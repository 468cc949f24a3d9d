// Compact executable form of LLVM IR.
#pragma once
#include "dom.h"
#include <string>
#include <vector>
#include <map>

enum Op : uint8_t { O_BIN, O_FBIN, O_FNEG, O_ICMP, O_FCMP, O_ZEXT, O_SEXT, O_ITRUNC, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPTRUNC, O_FPEXT, O_MOV, O_BITCAST,
  O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_SELECT, O_BR, O_CBR, O_SWITCH, O_RET, O_UNREACH, O_CALL, O_ICALL, O_EXTRACT, O_INSERT, O_UNSUP };

struct Ins {
  uint8_t op = 0, sub = 0;      // sub: binary opcode / predicate
  uint8_t w = 0, w2 = 0;        // widths (source, destination); for loads/stores: value width in bits
  bool fp = false, nsw = false, inb = false;
  int32_t dst = -1, a = 0, b = 0, c = 0;  // operands: >=0 register, <0 constant ~idx
  int64_t imm = 0;              // size / offset / callee index / switch default
  int32_t line = 0;
  std::vector<std::pair<int32_t, int64_t>> ext;  // GEP (reg,scale) / switch (case,blk) / call args (opnd, bits)
  std::vector<std::pair<uint32_t, uint32_t>> agg; // aggregate load/store fields (offset,width|fp<<16)
  std::string name;             // unsupported description
  // branch statistics
  int mergeFail = 0, mergeOk = 0; bool noMerge = false;
};
struct Phi { int dst; std::vector<std::pair<int, int32_t>> in; };
struct Block { std::vector<Phi> phis; std::vector<Ins> ins; int ipdom = -1; /* -1: exit */ std::string name; std::vector<int> liveIn; /* registers used here or later and defined before */ };
struct Fn { std::string name, file; bool ext = true; int nargs = 0, nregs = 0; std::vector<Block> blocks; int id = 0; int extId = -1; bool fromRepo = false; int line = 0; bool retInt = false; };
struct GlobalInit { std::string name; uint64_t size; bool isConst; std::vector<std::pair<uint64_t, Val>> cells; /* offset, value (width in val.w) */ bool zero = false; bool undefd = false; bool fromRepo = true; };
struct Module_ {
  std::vector<Fn> fns;
  std::map<std::string, int> fnByName;
  std::vector<Val> consts;
  std::vector<GlobalInit> globals;         // object id = global index + 1
  std::map<std::string, int> globByName;
};
extern Module_ M;
// address space layout: pointer = (object id << 32) + OFFBASE + offset ; functions live at object id 0x40000000+fn
static const uint64_t OFFBASE = 0;
static const uint32_t FNOBJ = 0x40000000u;
bool loadModule(const char *path, std::string &err);
