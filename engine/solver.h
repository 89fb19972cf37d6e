#pragma once
#include "expr.h"
#include <memory>
#include <chrono>
#include <map>
struct Model { u64 id; std::vector<u128> v; u128 get(u32 i)const{ return i<v.size()?v[i]:0; } };
typedef std::shared_ptr<const Model> MRef;
struct Stats { u64 queries=0, sat=0, unsat=0, unknown=0, cached=0, lia=0, liabad=0; double time=0, maxq=0; };
struct IT { Z3_ast t; __int128 lo,hi; }; // integer term congruent to a bit-vector one
struct Solver {
  Z3_context ctx; Z3_solver bv, gen; Z3_sort bs; Stats st; unsigned timeout_ms=60000; u64 modelCtr=1;
  std::unordered_map<u64,std::vector<std::pair<std::vector<u32>,std::pair<int,std::vector<std::pair<u32,u128>>>>>> cache;
  std::vector<Z3_ast> symAst; std::vector<int> fpc; // fpc: expr id -> contains fp
  Solver();
  bool hasFP(E e);
  Z3_ast lowB(E e); Z3_ast lowV(E e); Z3_ast lowF(E e);
  Z3_sort fsort(u32 w){ return w==32?Z3_mk_fpa_sort_32(ctx): w==64?Z3_mk_fpa_sort_64(ctx): Z3_mk_fpa_sort(ctx,15,64); }
  // cs: constraints (conjunction). returns 1 sat, 0 unsat, -1 unknown; fills assignment
  int check(const std::vector<E>& cs, std::vector<std::pair<u32,u128>>* out);
  int raw(const std::vector<E>& cs, const std::vector<u32>& vars, std::vector<std::pair<u32,u128>>* out, bool plain=false);
  std::unordered_map<u32,Z3_ast> zf, zib; std::unordered_map<u32,IT> zi; std::vector<int> dvc; bool intFail=false;
  bool hasDiv(E e); IT keep(Z3_ast t,__int128 lo,__int128 hi); IT canU(const IT&x,u32 w); IT canS(const IT&x,u32 w); IT lowI(E e); Z3_ast lowIB(E e); int rawInt(const std::vector<E>& cs,const std::vector<u32>& vars,std::vector<std::pair<u32,u128>>* out);
};
extern Solver* SOL;
u128 evalE(E e,const Model&m);
