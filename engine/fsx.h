#pragma once
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <set>
#include <map>
#include <string>
#include <vector>

struct Val { u64 c=0; u64 p=0; bool conc()const{return p==0;} bool agg()const{return p&1;} bool undef()const{return p==2;} E e()const{return (E)p;} };
static inline Val VC(u64 c){ Val v; v.c=c; return v; }
static inline Val VE(E e){ Val v; if(isc(e)&&e->w<=64) v.c=(u64)e->val; else v.p=(u64)e; return v; }
typedef std::vector<Val> AggV;
static inline Val VA(const AggV&a){ Val v; v.p=(u64)(new AggV(a))|1; return v; }
static inline const AggV& aggOf(const Val&v){ return *(const AggV*)(v.p&~1ull); }
static inline E toE(const Val&v,u32 w){ return v.p? v.e(): kc(v.c,w); }

template<class T> struct Ref { T*p=0; Ref(){} Ref(T*x):p(x){ if(p)p->rc++; } Ref(const Ref&o):p(o.p){ if(p)p->rc++; } Ref(Ref&&o):p(o.p){o.p=0;} ~Ref(){ drop(); } void drop(){ if(p&&--p->rc==0) delete p; p=0; }
  Ref&operator=(const Ref&o){ if(o.p)o.p->rc++; drop(); p=o.p; return *this; } Ref&operator=(Ref&&o){ if(this!=&o){drop(); p=o.p; o.p=0;} return *this; } T*operator->()const{return p;} T&operator*()const{return *p;} explicit operator bool()const{return p;} };

// ---- memory ----
enum ObjKind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_FUNC, K_TLS };
struct SymB { E e; u32 i; };
struct Rec { u8 tid, kind, mask; u32 clk; };            // kind: 0 plain read 1 plain write 2 atomic read 3 atomic write
typedef std::map<u32,std::vector<Rec>> Shadow;
struct Obj { int rc=0; u32 size=0; ObjKind kind=K_HEAP; bool alive=true, ro=false, norace=false, quiet=false; u8 akind=0; u8*c=0; u8*m=0; SymB*s=0; Shadow*sh=0; const llvm::Value*site=0;
  Obj(){} Obj(const Obj&o):size(o.size),kind(o.kind),alive(o.alive),ro(o.ro),norace(o.norace),quiet(o.quiet),akind(o.akind),site(o.site){ c=new u8[size+1]; memcpy(c,o.c,size); if(o.m){m=new u8[size]; memcpy(m,o.m,size);} if(o.s){ s=new SymB[size]; memcpy(s,o.s,size*sizeof(SymB)); } if(o.sh) sh=new Shadow(*o.sh); }
  ~Obj(){ delete[] c; delete[] m; delete[] s; delete sh; } 
  void needM(){ if(!m){ m=new u8[size]; memset(m,0,size); } } void needS(){ needM(); if(!s) s=new SymB[size]; } };
typedef Ref<Obj> ObjR;
struct Chunk { int rc=0; ObjR o[64]; };
struct ObjTab { std::vector<Ref<Chunk>> ch; 
  Obj* get(u32 id)const{ u32 k=id>>6; return k<ch.size()&&ch[k]? ch[k]->o[id&63].p : 0; }
  void set(u32 id,Obj*x){ u32 k=id>>6; if(k>=ch.size()) ch.resize(k+1); if(!ch[k]) ch[k]=Ref<Chunk>(new Chunk); else if(ch[k]->rc>1){ Chunk*n=new Chunk; for(int i=0;i<64;i++) n->o[i]=ch[k]->o[i]; ch[k]=Ref<Chunk>(n);} ch[k]->o[id&63]=ObjR(x); }
  Obj* getW(u32 id){ Obj*o=get(id); if(!o) return 0; u32 k=id>>6; if(ch[k]->rc>1||o->rc>1){ set(id, o->rc>1||ch[k]->rc>1? new Obj(*o):o); o=get(id);} return o; } };
static const u64 OBASE=0x1000;
static inline u64 addrOf(u32 id){ return ((u64)id<<24)|OBASE; }

// ---- code ----
struct DFunc; struct State; struct DInst;
enum RC { R_NEXT, R_JUMP, R_PARK, R_END };
typedef RC (*Handler)(State&S,DInst&I,std::vector<Val>&a,Val&ret);
struct DInst { u32 op=0, sub=0, w=0, w2=0; int dst=-1; std::vector<int> o; const llvm::Instruction*I=0; i64 imm=0; DFunc*callee=0; Handler h=0; std::vector<std::pair<int,i64>> gep; u32 b0=0,b1=0; bool noSched=false; llvm::Type*ty=0; };
struct DBlock { u32 start; std::vector<u32> phis; std::map<u32,int> predIdx; const llvm::BasicBlock*bb; };
struct DFunc { const llvm::Function*F; std::string name; bool decoded=false; std::vector<DInst> code; std::vector<DBlock> blocks; std::vector<Val> consts; u32 nregs=0; std::vector<u32> argW; bool seen=false; u32 id=0; Handler h=0; bool repo=false; bool entered=false; bool lens=false; };
struct Frame { int rc=0; DFunc*f; u32 ip=0; u32 bb=0; std::vector<Val> r; std::vector<u32> allocas; u64 va=0; DInst*call=0; };
typedef Ref<Frame> FrameR;
typedef std::vector<u32> VClk;
static inline void vjoin(VClk&a,const VClk&b){ if(a.size()<b.size()) a.resize(b.size()); for(size_t i=0;i<b.size();i++) if(b[i]>a[i]) a[i]=b[i]; }
enum PK : u8 { P_NONE, P_START, P_LOCK, P_TRYLOCK, P_UNLOCK, P_WAIT, P_NOTIFY, P_JOIN, P_ATOM, P_GUARD, P_SPIN, P_RELOCK, P_CREATE, P_YIELD };
struct POp { PK k=P_NONE; u64 a=0,b=0; bool w=false; };
struct Spin { u64 a; u64 val; u32 ver; u32 n; };
struct Thread { std::vector<FrameR> st; bool done=false, granted=false; POp op; int cvstate=0; /*0 none 1 waiting 2 notified*/ u64 cv=0,mtx=0; VClk vc, relf, acqf; u64 exc=0; int sel=0; std::map<u32,u32> tls; std::map<std::pair<void*,u32>,Spin> spin; bool timed=false; std::vector<std::pair<u64,u64>> atexit; bool detached=false; int inGuard=0; };
struct Mtx { int owner=-1; int cnt=0; VClk vc, rvc; std::vector<int> rd; };
struct Input { std::string name; u32 w; E e; };
struct PCNode { int rc=0; E c; Ref<PCNode> prev; u32 n; PCNode(E c,const Ref<PCNode>&p):c(c),prev(p),n(p?p->n+1:1){} };
struct Obs { std::string tag; Val v; u32 w; };
struct SleepE { int tid; POp op; };
struct State { u64 id=0; std::vector<Thread> th; int cur=0; ObjTab mem; u32 nextId=1; Ref<PCNode> pc; MRef model; u32 nundef=0, nundef0=0; std::vector<Input> in; std::vector<Obs> obs; std::set<std::string> reach; u64 insts=0; i64 live=0; i64 liveInt=0;
  std::map<u64,Mtx> mtx; std::map<u64,VClk> avc; std::map<u64,u32> aver; std::vector<SleepE> sleep; std::vector<u8> sched; std::vector<POp> touched; u32 forks=0; u32 spurious=0, spurCas=0; i64 failIn=-1; bool failed=false; u32 schedPts=0, spinRounds=0; int preempts=0; bool inSched=false; std::map<u64,int> guards; bool raceOn=false; std::vector<std::pair<E,u64>> eqs;
  Frame& top(){ auto&f=th[cur].st.back(); return *f; }
  Frame& topW(){ auto&f=th[cur].st.back(); if(f->rc>1){ Frame*n=new Frame(*f); n->rc=0; f=FrameR(n);} return *f; }
  Thread& T(){ return th[cur]; }
  int alive()const{ int n=0; for(auto&t:th) if(!t.done) n++; return n; } };
