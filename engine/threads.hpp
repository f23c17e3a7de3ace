#pragma once
#include "engine.hpp"
namespace sx {
bool tcCopy(Engine &E, State &s, CInst &ci, V dst, V src, u64 n);
bool tcSet(Engine &E, State &s, CInst &ci, V dst, V val, u64 n);
void tcTouch(Engine &E, State &s, u64 addr, u64 n); // a library routine reads these bytes
int  instrumentModule(llvm::Module &M, const std::string &out);
std::unordered_map<const llvm::Instruction *, int> &instNumbers(llvm::Module &M);
} // namespace sx
