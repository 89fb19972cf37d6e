#include "fsx.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdarg>
#include <csignal>
#include <chrono>
using namespace llvm;
static Module* M; static const DataLayout* DL;
static std::map<const Function*,DFunc*> funcs; static std::vector<DFunc*> funcById; 
static std::map<const GlobalValue*,u32> gid; static std::map<u32,DFunc*> funcObj; static std::map<u32,const GlobalVariable*> tlsTempl; static std::map<const GlobalVariable*,u32> tlsId;
static std::map<std::string,Handler> handlers;
static std::vector<State*> work; static FILE* OUT=stdout; static State* CURS; static u64 stateCtr=0;
static std::map<std::string,std::string> params; static std::string repoPrefix="/repo/";
static u64 maxInsts=30000000; static double maxTime=600; static int jobs=8, maxViol=4, maxWit=6; static double tStart; static std::map<std::string,int> violSeen; static int nviol=0,nwit=0; static bool randWit=false;
static u64 nPaths=0,nForks=0,nInsts=0,nChecks=0,nPruned=0,nTrans=0,nSleepBlocked=0,nAssumeFalse=0,nSchedPts=0; static std::set<std::string> repoFns, reachAll, unmodelled; static std::set<std::string> incomplete; static std::set<std::string> rtSyms; static std::map<std::string,u64> opQueries;
static int optSpurious=0, optSpurCas=0, optPreempt=-1; static bool optSymFloat=false, optRace=true, optUndefViol=false; static u32 optSpinK=4, optSpinCap=24;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string esc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; } return r; }
static std::string dem(const std::string&s){ return llvm::demangle(s); }
static std::string locOf(const Instruction*I){ if(!I) return "?"; if(auto&dl=I->getDebugLoc()){ auto*l=dl.get(); return (l->getFilename()+":"+Twine(l->getLine())).str(); } return "?"; }
static std::string u128s(u128 v){ if(!v) return "0"; std::string s; while(v){ s.insert(s.begin(),'0'+(int)(v%10)); v/=10;} return s; }
static std::string stackOf(State&S){ std::string r; auto&st=S.T().st; int n=0; for(int i=(int)st.size()-1;i>=0&&n<14;i--,n++){ auto&f=*st[i]; const Instruction*I= f.ip<f.f->code.size()? f.f->code[f.ip].I:0; std::string nm=dem(f.f->name); if(nm.size()>110) nm=nm.substr(0,110)+"..."; r+= nm+" @"+locOf(I)+" | "; } return r; }
static std::string inputsJson(State&S,const Model&m){ std::string r="["; bool first=true; for(auto&i:S.in){ if(!first) r+=","; first=false; r+="[\""+esc(i.name)+"\","+std::to_string(i.w)+",\""+u128s(evalE(i.e,m)&maskw(i.w))+"\"]"; } return r+"]"; }
static bool optUnlockVisible=false; // unlocks are scheduling points (-1 in a schedule tells the replay)
static std::string schedJson(State&S){ std::string r=optUnlockVisible&&!S.sched.empty()?"[-1,":"["; for(size_t i=0;i<S.sched.size();i++) r+=(i?",":"")+std::to_string(S.sched[i]); return r+"]"; }
static std::string obsJson(State&S,const Model&m){ std::string r="["; bool first=true; for(auto&o:S.obs){ if(!first) r+=","; first=false; r+="\""+esc(o.tag)+"="+u128s(o.v.conc()?o.v.c: evalE(o.v.e(),m))+"\""; } return r+"]"; }
static MRef mergeModel(const MRef&base,const std::vector<std::pair<u32,u128>>&a){ auto*m=new Model(*base); m->id=++SOL->modelCtr; if(m->v.size()<P.syms.size()) m->v.resize(P.syms.size()); for(auto&p:a) m->v[p.first]=p.second; return MRef(m); }
static std::vector<E> sliceFor(State&S,E c){ std::set<u32> vs; if(c->vars) vs.insert(c->vars->begin(),c->vars->end()); std::vector<E> all; for(PCNode*n=S.pc.p;n;n=n->prev.p) all.push_back(n->c); std::vector<char> in(all.size(),0); bool ch=true; std::vector<E> out; while(ch){ ch=false; for(size_t i=0;i<all.size();i++) if(!in[i]&&all[i]->vars){ bool hit=false; for(u32 v:*all[i]->vars) if(vs.count(v)){hit=true;break;} if(hit){ in[i]=1; ch=true; out.push_back(all[i]); vs.insert(all[i]->vars->begin(),all[i]->vars->end()); } } } return out; }
// 1 sat,0 unsat,-1 unknown
static int query(State&S,E c,std::vector<std::pair<u32,u128>>*out){ auto cs=sliceFor(S,c); cs.push_back(c); int r=SOL->check(cs,out); if(r<0) incomplete.insert("solver-unknown"); return r; }
static void addC(State&S,E c){ if(isc(c)) return; S.pc=Ref<PCNode>(new PCNode(c,S.pc)); }
static int known(State&S,E c){ E n=mkNot(c); int k=0; for(PCNode*p=S.pc.p;p&&k<4000;p=p->prev.p,k++){ if(p->c==c) return 1; if(p->c==n) return 0; } return -1; }
static State* cloneS(State&S){ State*o=new State(S); o->id=++stateCtr; o->nundef=S.nundef0; o->forks++; nForks++; return o; }
static bool decide(State&S,E c){ if(isc(c)) return c->val!=0; int k=known(S,c); if(k>=0) return k; bool mv=evalE(c,*S.model)!=0; E other=mv?mkNot(c):c; std::vector<std::pair<u32,u128>> a; int r=query(S,other,&a);
  if(r==1){ State*o=cloneS(S); addC(*o,other); o->model=mergeModel(S.model,a); work.push_back(o); addC(S,mv?c:mkNot(c)); }
  else if(r<0) addC(S,mv?c:mkNot(c));
  return mv; }
static u64 concz(State&S,const Val&v,u32 w){ if(v.conc()) return v.c; E e=v.e(); if(isc(e)) return (u64)e->val; while(1){ u128 m=evalE(e,*S.model)&maskw(w); if(decide(S,mkEq(e,kc(m,w)))){ if(w<=64&&e->w>=32){ bool in=false; for(auto&p:S.eqs) in|=p.first==e; if(!in) S.eqs.push_back({e,(u64)m}); } return (u64)m; } } }
static void report(State&S,const std::string&kind,const std::string&msg,const MRef&m,const std::string&where){ std::string key=kind+"|"+msg+"|"+where; if(violSeen[key]++>=2) return; nviol++; 
  fprintf(OUT,"VIOL {\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"inputs\":%s,\"sched\":%s,\"obs\":%s}\n",esc(kind).c_str(),esc(msg).c_str(),esc(where).c_str(),esc(stackOf(S)).c_str(),inputsJson(S,*m).c_str(),schedJson(S).c_str(),obsJson(S,*m).c_str()); fflush(OUT); }
static std::string whereS(State&S){ std::string best; auto&st=S.T().st; for(int i=(int)st.size()-1;i>=0;i--){ auto&f=*st[i]; const Instruction*I=f.ip<f.f->code.size()?f.f->code[f.ip].I:0; std::string l=locOf(I); if(l.find("include/falcon")!=std::string::npos||l.find("/src/")!=std::string::npos||l.find("falcon/")==0) return l; if(best.empty()||best=="?") best=l; } return best; }
static RC viol(State&S,const std::string&kind,const std::string&msg){ report(S,kind,msg,S.model,whereS(S)); return R_END; }
// ---------- memory access ----------
static u32 freshU(State&S){ return S.nundef++; }
static E undefSym(State&S,u32 w){ return ksym("undef"+std::to_string(w)+"_"+std::to_string(freshU(S)),w); }
static bool raceAccess(State&S,u32 id,Obj*o,u32 off,u32 n,int kind,std::string&why);
static bool resolve(State&S,u64 a,u32 n,bool wr,u32&id,u32&off,RC&rc){ id=a>>24; i64 d=(i64)(a&0xffffff)-(i64)OBASE; Obj*o=S.mem.get(id); char b[160];
  if(!o){ snprintf(b,160,"%s of %u bytes at invalid address 0x%llx",wr?"write":"read",n,(unsigned long long)a); rc=viol(S, a<0x1000000?"null-deref":"wild-pointer",b); return false; }
  if(!o->alive){ snprintf(b,160,"%s of %u bytes in a released %s object (size %u, offset %lld)",wr?"write":"read",n,o->kind==K_STACK?"stack":"heap",o->size,(long long)d); rc=viol(S,"use-after-free",b); return false; }
  if(d<0||(u64)d+n>o->size||o->kind==K_FUNC){ snprintf(b,160,"%s of %u bytes at offset %lld of a %u byte %s object",wr?"write":"read",n,(long long)d,o->size,o->kind==K_STACK?"stack":o->kind==K_HEAP?"heap":"global"); rc=viol(S,"out-of-bounds",b); return false; }
  if(wr&&o->ro){ rc=viol(S,"write-to-constant","write to read-only object"); return false; }
  off=(u32)d; return true; }
static Val rdBytes(State&S,u32 id,u32 off,u32 n,u32 w){ Obj*o=S.mem.get(id);
  bool sym=false; if(o->m) for(u32 i=0;i<n;i++) if(o->m[off+i]){sym=true;break;}
  if(!sym){ if(w<=64){ u64 v=0; memcpy(&v,o->c+off,n); if(w<64) v&=((u64)1<<w)-1; return VC(v);} u128 v=0; memcpy(&v,o->c+off,n); return VE(kc(v,w)); }
  bool und=false; for(u32 i=0;i<n;i++) if(o->m[off+i]==2) und=true;
  if(und){ Obj*x=S.mem.getW(id); x->needS(); bool all=true; for(u32 i=0;i<n;i++) if(x->m[off+i]!=2) all=false; if(all){ E e=undefSym(S,n*8); for(u32 i=0;i<n;i++){ x->m[off+i]=1; x->s[off+i]={e,i}; } } else for(u32 i=0;i<n;i++) if(x->m[off+i]==2){ x->m[off+i]=1; x->s[off+i]={undefSym(S,8),0}; } o=x; }
  E acc=0; u32 i=0; while(i<n){ E part; if(o->m[off+i]==0){ part=kc(o->c[off+i],8); i++; } else { SymB s=o->s[off+i]; u32 k=1; while(i+k<n&&o->m[off+i+k]==1&&o->s[off+i+k].e==s.e&&o->s[off+i+k].i==s.i+k) k++; part= mkEx(s.e,s.i*8,k*8); i+=k; } acc=acc? mkE(O_CONCAT,acc->w+part->w,part,acc): part; }
  if(w<acc->w) acc=mkEx(acc,0,w); return VE(acc); }
static void wrBytes(State&S,u32 id,u32 off,u32 n,const Val&v,u32 w){ Obj*o=S.mem.getW(id); 
  if(v.conc()){ u64 x=v.c; memcpy(o->c+off,&x,n); if(o->m) memset(o->m+off,0,n); return; }
  E e=v.e(); if(isc(e)){ u128 x=e->val; memcpy(o->c+off,&x,n); if(o->m) memset(o->m+off,0,n); return; }
  if(e->w<n*8) e=mkZ(e,n*8); o->needS(); for(u32 i=0;i<n;i++){ E b=mkEx(e,i*8,8); if(isc(b)){ o->c[off+i]=(u8)b->val; o->m[off+i]=0; } else { o->m[off+i]=1; if(b->op==O_EXTRACT&&b->aux%8==0&&b->a->w%8==0) o->s[off+i]={b->a,b->aux/8}; else if(e->op!=O_CONCAT&&e->op!=O_ZEXT&&e->op!=O_ITE) o->s[off+i]={e,i}; else o->s[off+i]={b,0}; } } }
static u32 newObj(State&S,u64 size,ObjKind k,bool undef){ u32 id=S.nextId++; Obj*o=new Obj; o->size=(u32)size; o->kind=k; o->c=new u8[size+1]; memset(o->c,0,size+1); if(undef&&size){ o->m=new u8[size]; memset(o->m,2,size); } S.mem.set(id,o); return id; }
// typed load/store (handles aggregates)
static u32 bitsOf(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if(t->isX86_FP80Ty()) return 80; return 0; }
static bool isAgg(Type*t){ return t->isStructTy()||t->isArrayTy()||t->isVectorTy(); }
static void subTypes(Type*t,std::vector<std::pair<Type*,u64>>&v){ if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) v.push_back({s->getElementType(i),sl->getElementOffset(i)}); } else if(auto*a=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) v.push_back({a->getElementType(),i*es}); } else if(auto*a=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) v.push_back({a->getElementType(),i*es}); } }
static Val ldT(State&S,u32 id,u32 off,Type*t){ if(isAgg(t)){ std::vector<std::pair<Type*,u64>> v; subTypes(t,v); AggV a; for(auto&p:v) a.push_back(ldT(S,id,off+p.second,p.first)); return VA(a); } u32 w=bitsOf(t); Val v=rdBytes(S,id,off,(w+7)/8,w); if(w>=32&&!S.eqs.empty()&&!v.conc()&&!v.undef()){ E e=v.e(); for(auto&p:S.eqs) if(p.first==e) return VC(p.second); } return v; } // a value already pinned on this path is read as that value
static Val mat(State&S,const Val&v){ if(v.undef()) return VE(undefSym(S,(u32)v.c)); return v; }
static void stT(State&S,u32 id,u32 off,Type*t,const Val&v){ if(isAgg(t)){ std::vector<std::pair<Type*,u64>> s; subTypes(t,s); for(size_t i=0;i<s.size();i++) stT(S,id,off+s[i].second,s[i].first,aggOf(v)[i]); return; } u32 w=bitsOf(t); u32 n=(w+7)/8; if(v.undef()){ Obj*o=S.mem.getW(id); o->needM(); memset(o->m+off,2,n); return; } wrBytes(S,id,off,n,v,w); }
static bool checkRace(State&S,u32 id,u32 off,u32 n,int kind,RC&rc){ if(!S.raceOn) return true; Obj*o=S.mem.get(id); if(o->norace||o->ro) return true; std::string why; if(raceAccess(S,id,o,off,n,kind,why)) return true; rc=viol(S,"data-race",why); return false; }
static bool raceAccess(State&S,u32 id,Obj*o,u32 off,u32 n,int kind,std::string&why){ Obj*x=S.mem.getW(id); if(!x->sh) x->sh=new Shadow; auto&T=S.T(); if((int)T.vc.size()<=S.cur) T.vc.resize(S.cur+1); u32 end=off+n; for(u32 g=off/8;g<=(end-1)/8;g++){ u8 mask=0; for(u32 b=0;b<8;b++){ u32 p=g*8+b; if(p>=off&&p<end) mask|=1<<b; } auto&v=(*x->sh)[g]; for(size_t i=0;i<v.size();){ auto&r=v[i]; if((r.mask&mask)&&r.tid!=S.cur){ bool conf; bool w1=r.kind&1,w2=kind&1; bool a1=r.kind>=2,a2=kind>=2; conf=(w1||w2)&&!(a1&&a2); if(conf&&r.clk>(r.tid<T.vc.size()?T.vc[r.tid]:0)){ static const char*nm[]={"read","write","atomic read","atomic write"}; why=std::string("unordered ")+nm[kind]+" by thread "+std::to_string(S.cur)+" and "+nm[r.kind]+" by thread "+std::to_string(r.tid)+" of the same memory"; return false; } }
      if(r.tid==S.cur&&r.kind==kind&&(r.mask&~mask)==0){ v.erase(v.begin()+i); continue; } i++; } v.push_back({(u8)S.cur,(u8)kind,mask,T.vc[S.cur]}); } return true; }
// pointer resolution incl. symbolic; returns concrete address
static u64 ptrOf(State&S,const Val&v){ return concz(S,v,64); }
// unsigned interval of an expression (structural, no solver); false when nothing better than the full range
static void rng(E e,u128&lo,u128&hi,int d=0){ lo=0; hi=maskw(e->w); if(isc(e)){ lo=hi=e->val; return; } if(d>12) return; u128 a,b,c,f; switch(e->op){
  case O_ZEXT: rng(e->a,lo,hi,d+1); return; case O_UREM: if(isc(e->b)&&e->b->val){ rng(e->a,a,b,d+1); if(b<e->b->val){ lo=a; hi=b; } else hi=e->b->val-1; } return;
  case O_UDIV: if(isc(e->b)&&e->b->val){ rng(e->a,a,b,d+1); lo=a/e->b->val; hi=b/e->b->val; } return;
  case O_LSHR: if(isc(e->b)&&e->b->val<e->w){ rng(e->a,a,b,d+1); lo=a>>(int)e->b->val; hi=b>>(int)e->b->val; } return;
  case O_AND: rng(e->a,a,b,d+1); rng(e->b,c,f,d+1); hi=b<f?b:f; return; case O_OR: case O_XOR: rng(e->a,a,b,d+1); rng(e->b,c,f,d+1); { u128 m=b|f; u128 t=1; while(t-1<m) t<<=1; if(t-1<hi) hi=t-1; } return;
  case O_ADD: rng(e->a,a,b,d+1); rng(e->b,c,f,d+1); if(e->w<128){ u128 l=a+c,h=b+f; if(h<=maskw(e->w)){ lo=l; hi=h; } else if(l>maskw(e->w)&&h<=2*maskw(e->w)+1){ lo=l&maskw(e->w); hi=h&maskw(e->w); } } return;
  case O_SUB: rng(e->a,a,b,d+1); rng(e->b,c,f,d+1); if(a>=f){ lo=a-f; hi=b-c; } return;
  case O_MUL: rng(e->a,a,b,d+1); rng(e->b,c,f,d+1); if(e->w<=64&&b<((u128)1<<63)&&f<((u128)1<<63)&&b*f<=maskw(e->w)){ lo=a*c; hi=b*f; } return; case O_SHL: if(isc(e->b)&&e->b->val<e->w){ rng(e->a,a,b,d+1); if((b<<(int)e->b->val)<=maskw(e->w)&&((b<<(int)e->b->val)>>(int)e->b->val)==b){ lo=a<<(int)e->b->val; hi=b<<(int)e->b->val; } } return;
  case O_EXTRACT: rng(e->a,a,b,d+1); if(e->aux==0&&b<=maskw(e->w)){ lo=a; hi=b; } return; case O_CONCAT: rng(e->a,a,b,d+1); rng(e->b,c,f,d+1); lo=(a<<e->b->w)|c; hi=(b<<e->b->w)|f; return; case O_SEXT: rng(e->a,a,b,d+1); if(b<((u128)1<<(e->a->w-1))){ lo=a; hi=b; } return;
  case O_ITE: rng(e->b,a,b,d+1); rng(e->c,c,f,d+1); lo=a<c?a:c; hi=b>f?b:f; return; default: return; } }
static u64 strideOf(E e,int d=0){ // largest known power-of-two divisor (up to 64)
  if(isc(e)){ u64 v=(u64)e->val; if(!v) return 64; u64 s=1; while(s<64&&!(v&s)) s<<=1; return s; } if(d>10) return 1; switch(e->op){ case O_ADD: case O_SUB: return std::min(strideOf(e->a,d+1),strideOf(e->b,d+1)); case O_MUL: return std::min<u64>(64,strideOf(e->a,d+1)*strideOf(e->b,d+1)); case O_SHL: if(isc(e->b)&&e->b->val<7) return std::min<u64>(64,strideOf(e->a,d+1)<<(int)e->b->val); return 1; case O_ZEXT: case O_SEXT: return strideOf(e->a,d+1); case O_ITE: return std::min(strideOf(e->b,d+1),strideOf(e->c,d+1)); case O_CONCAT: { u64 s=strideOf(e->b,d+1); return e->b->w<6? std::min<u64>(s,1ull<<e->b->w): s; } case O_AND: return std::max(strideOf(e->a,d+1),strideOf(e->b,d+1)); default: return 1; } }
static bool symRead(State&S,E addr,Type*t,Val&out){ // read through a symbolic address into one small object: an if-then-else over the possible cells
  u32 w=bitsOf(t); if(!w||w>64) return false; u32 n=(w+7)/8; u128 m=evalE(addr,*S.model); u32 id=(u32)((u64)m>>24); Obj*o=S.mem.get(id); if(!o||!o->alive||o->size>4096||o->size<n) return false;
  u64 base=addrOf(id); E off=mkE(O_SUB,64,addr,kc(base,64)); u128 lo,hi; rng(off,lo,hi); bool inb=hi+n<=o->size;
  if(!inb){ E c=mkE(O_ULE,1,off,kc(o->size-n,64)); if(known(S,c)!=1){ std::vector<std::pair<u32,u128>> a; if(query(S,mkNot(c),&a)!=0) return false; } hi=o->size-n; if(lo>hi) lo=0; }
  u64 al=strideOf(addr); if(al>1&&(base%al)) al=1; if(al<n&&n>1){ u64 mo=(u64)m-base; if(mo%n) return false; E ae=mkEq(mkE(O_AND,64,off,kc(n-1,64)),kc(0,64)); std::vector<std::pair<u32,u128>> a; if(isc(ae)? ae->val!=0 : query(S,mkNot(ae),&a)==0) al=n; else return false; }
  u64 k0=((u64)lo+al-1)/al*al, k1=(u64)hi/al*al; if(k1<k0||(k1-k0)/al>260) return false; if(o->m) for(u64 k=k0;k<=k1;k+=al) for(u32 i=0;i<n;i++) if(o->m[k+i]==2) return false; if(S.raceOn&&!o->norace&&!o->ro) return false;
  E r=0; for(i64 k=(i64)k1;k>=(i64)k0;k-=al){ E v=toE(rdBytes(S,id,k,n,w),w); r= r? mkIte(mkEq(off,kc(k,64)),v,r): v; } out=VE(r); return true; }
// ---------- constants ----------
static u64 gaddr(const GlobalValue*g){ if(auto*a=dyn_cast<GlobalAlias>(g)) return gaddr(cast<GlobalValue>(a->getAliasee()->stripPointerCasts())); if(g->hasExternalWeakLinkage()&&g->isDeclaration()&&!handlers.count(g->getName().str())) return 0; auto it=gid.find(g); if(it==gid.end()){ errs()<<"no gid "<<g->getName()<<"\n"; abort(); } return addrOf(it->second); }
static Val cval(const Constant*c){ Type*t=c->getType();
  if(auto*i=dyn_cast<ConstantInt>(c)){ u32 w=i->getBitWidth(); if(w<=64) return VC(i->getZExtValue()); u128 v=i->getValue().extractBitsAsZExtValue(64,0); if(w>64) v|=(u128)i->getValue().extractBitsAsZExtValue(std::min(64u,w-64),64)<<64; return VE(kc(v,w)); }
  if(auto*f=dyn_cast<ConstantFP>(c)){ APInt b=f->getValueAPF().bitcastToAPInt(); u32 w=b.getBitWidth(); if(w<=64) return VC(b.getZExtValue()); u128 v=b.extractBitsAsZExtValue(64,0); v|=(u128)b.extractBitsAsZExtValue(w-64,64)<<64; return VE(kc(v,w)); }
  if(isa<ConstantPointerNull>(c)) return VC(0);
  if(isa<UndefValue>(c)||isa<PoisonValue>(c)){ if(isAgg(t)){ std::vector<std::pair<Type*,u64>> v; subTypes(t,v); AggV a; for(auto&p:v) a.push_back(cval(UndefValue::get(p.first))); return VA(a);} Val v; v.c=bitsOf(t); v.p=2; return v; }
  if(isa<ConstantAggregateZero>(c)){ std::vector<std::pair<Type*,u64>> v; subTypes(t,v); AggV a; for(auto&p:v) a.push_back(cval(Constant::getNullValue(p.first))); return VA(a); }
  if(isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){ AggV a; unsigned n= isa<ConstantDataSequential>(c)? cast<ConstantDataSequential>(c)->getNumElements(): c->getNumOperands(); for(unsigned i=0;i<n;i++) a.push_back(cval(c->getAggregateElement(i))); return VA(a); }
  if(auto*g=dyn_cast<GlobalValue>(c)) return VC(gaddr(g));
  if(auto*ce=dyn_cast<ConstantExpr>(c)){ switch(ce->getOpcode()){
    case Instruction::GetElementPtr:{ APInt off(64,0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off); Val b=cval(ce->getOperand(0)); return VC(b.c+off.getSExtValue()); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return cval(ce->getOperand(0));
    case Instruction::Trunc: { u32 w=bitsOf(t); return VC(cval(ce->getOperand(0)).c&(u64)maskw(w)); } case Instruction::ZExt: return cval(ce->getOperand(0));
    case Instruction::Add: return VC((u64)((cval(ce->getOperand(0)).c+cval(ce->getOperand(1)).c)&(u64)maskw(bitsOf(t)))); case Instruction::Sub: return VC((cval(ce->getOperand(0)).c-cval(ce->getOperand(1)).c)&(u64)maskw(bitsOf(t)));
    case Instruction::ICmp: { u64 a=cval(ce->getOperand(0)).c,b=cval(ce->getOperand(1)).c; switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: return VC(a==b); case CmpInst::ICMP_NE: return VC(a!=b); case CmpInst::ICMP_ULT: return VC(a<b); case CmpInst::ICMP_UGT: return VC(a>b); default:; } break; }
    case Instruction::Select: return cval(ce->getOperand(0)).c? cval(ce->getOperand(1)):cval(ce->getOperand(2));
    default:; } }
  errs()<<"fsx: unsupported constant "<<*c<<"\n"; abort(); }
static void initMem(State&S,u32 id,u32 off,const Constant*c){ Type*t=c->getType(); if(isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)) return; if(isa<UndefValue>(c)) return;
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ u32 es=cd->getElementByteSize(); for(unsigned i=0;i<cd->getNumElements();i++) initMem(S,id,off+i*es,cd->getElementAsConstant(i)); return; }
  if(isa<ConstantAggregate>(c)){ std::vector<std::pair<Type*,u64>> v; subTypes(t,v); for(size_t i=0;i<v.size();i++) initMem(S,id,off+v[i].second,c->getAggregateElement(i)); return; }
  stT(S,id,off,t,cval(c)); }
// ---------- decoding ----------
static RC h_unmodelled(State&S,DInst&I,std::vector<Val>&a,Val&ret){ std::string n=I.callee? I.callee->name:"?"; unmodelled.insert(n); incomplete.insert("unmodelled external function "+n); return R_END; }
static DFunc* getF(const Function*F){ auto it=funcs.find(F); if(it!=funcs.end()) return it->second; DFunc*d=new DFunc; d->F=F; d->name=F->getName().str(); d->id=funcById.size(); funcById.push_back(d); auto h=handlers.find(d->name); if(h!=handlers.end()) d->h=h->second; 
  if(auto*sp=F->getSubprogram()){ std::string p=sp->getFilename().str(); if(!p.empty()&&p[0]!='/'&&sp->getFile()) p=(sp->getFile()->getDirectory()+"/"+p).str(); d->repo=p.compare(0,repoPrefix.size(),repoPrefix)==0; } for(const char*n:{"__ostream_insert","6xsputn","10_M_replace","14_M_replace_aux","9_M_append","12_M_constructEmc"}) d->lens|=!d->repo&&d->name.compare(0,2,"_Z")==0&&d->name.find(n)!=std::string::npos; funcs[F]=d; return d; }
static Handler intrinsicH(const Function*F);
static bool isNoSchedAtomic(const Instruction*I){ if(auto&dl=I->getDebugLoc()){ auto*l=dl.get(); StringRef f=l->getFilename(); if(f.contains("ext/atomicity.h")||f.contains("shared_ptr")) return true; } return false; }
static void decode(DFunc*d){ const Function*F=d->F; d->decoded=true; std::map<const Value*,int> reg; u32 n=0; for(auto&a:F->args()){ reg[&a]=n++; d->argW.push_back(bitsOf(a.getType())); } std::map<const BasicBlock*,u32> bidx; for(auto&b:*F){ bidx[&b]=d->blocks.size(); d->blocks.push_back({}); for(auto&i:b) if(!i.getType()->isVoidTy()) reg[&i]=n++; } d->nregs=n;
  std::map<const Constant*,int> cidx; auto opi=[&](const Value*v)->int{ auto it=reg.find(v); if(it!=reg.end()) return it->second; if(auto*c=dyn_cast<Constant>(v)){ auto j=cidx.find(c); if(j!=cidx.end()) return j->second; d->consts.push_back(cval(c)); int k=-(int)d->consts.size(); cidx[c]=k; return k; } return INT32_MIN; };
  u32 bi=0; for(auto&b:*F){ auto&B=d->blocks[bi]; B.bb=&b; int pi=0; for(auto*p:predecessors(&b)) if(!B.predIdx.count(bidx[p])) B.predIdx[bidx[p]]=pi++; B.start=d->code.size();
    for(auto&i:b){ if(isa<DbgInfoIntrinsic>(i)) continue; DInst D; D.I=&i; D.op=i.getOpcode(); D.ty=i.getType(); D.w=bitsOf(i.getType()); if(!i.getType()->isVoidTy()) D.dst=reg[&i];
      if(auto*ph=dyn_cast<PHINode>(&i)){ D.o.assign(B.predIdx.size(),0); for(unsigned k=0;k<ph->getNumIncomingValues();k++) D.o[B.predIdx[bidx[ph->getIncomingBlock(k)]]]=opi(ph->getIncomingValue(k)); B.phis.push_back(d->code.size()); d->code.push_back(D); continue; }
      if(auto*cb=dyn_cast<CallBase>(&i)){ if(auto*ii=dyn_cast<IntrinsicInst>(&i)){ switch(ii->getIntrinsicID()){ case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::prefetch: case Intrinsic::var_annotation: if(!isa<InvokeInst>(i)) continue; default:; } }
        for(auto&u:cb->args()) { if(u->getType()->isMetadataTy()) D.o.push_back(INT32_MIN); else D.o.push_back(opi(u)); } const Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliasee()->stripPointerCasts(); if(auto*cf=dyn_cast<Function>(cv)){ D.callee=getF(cf); if(D.callee->h) D.h=D.callee->h; else if(cf->isIntrinsic()){ D.h=intrinsicH(cf); if(!D.h) D.h=h_unmodelled; } else if(cf->isDeclaration()) D.h=h_unmodelled; } else D.o.push_back(opi(cb->getCalledOperand()));
        if(auto*iv=dyn_cast<InvokeInst>(&i)){ D.b0=bidx[iv->getNormalDest()]; D.b1=bidx[iv->getUnwindDest()]; } }
      else { for(auto&u:i.operands()) D.o.push_back(isa<BasicBlock>(u)?(int)bidx[cast<BasicBlock>(u)]:opi(u));
        if(i.getNumOperands()) D.w2=bitsOf(i.getOperand(0)->getType()); 
        if(auto*br=dyn_cast<BranchInst>(&i)){ D.b0=bidx[br->getSuccessor(0)]; if(br->isConditional()) D.b1=bidx[br->getSuccessor(1)]; }
        else if(auto*cmp=dyn_cast<CmpInst>(&i)) D.sub=cmp->getPredicate();
        else if(auto*al=dyn_cast<AllocaInst>(&i)){ D.imm=DL->getTypeAllocSize(al->getAllocatedType()); }
        else if(auto*st=dyn_cast<StoreInst>(&i)){ D.ty=st->getValueOperand()->getType(); D.sub=st->isAtomic(); D.imm=(int)st->getOrdering(); }
        else if(auto*ld=dyn_cast<LoadInst>(&i)){ D.sub=ld->isAtomic(); D.imm=(int)ld->getOrdering(); }
        else if(auto*rm=dyn_cast<AtomicRMWInst>(&i)){ D.sub=rm->getOperation(); D.imm=(int)rm->getOrdering(); D.w=bitsOf(rm->getType()); }
        else if(auto*cx=dyn_cast<AtomicCmpXchgInst>(&i)){ D.imm=(int)cx->getSuccessOrdering(); D.sub=(int)cx->getFailureOrdering(); D.w=bitsOf(cx->getCompareOperand()->getType()); D.w2=cx->isWeak(); }
        else if(auto*fe=dyn_cast<FenceInst>(&i)) D.imm=(int)fe->getOrdering();
        else if(auto*g=dyn_cast<GetElementPtrInst>(&i)){ i64 off=0; for(auto gt=gep_type_begin(g),e=gep_type_end(g);gt!=e;++gt){ const Value*ix=gt.getOperand(); if(auto*stt=gt.getStructTypeOrNull()){ off+=DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; } i64 sc=DL->getTypeAllocSize(gt.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*sc; else { D.gep.push_back({opi(ix),sc}); D.o.push_back((int)bitsOf(ix->getType())); } } D.imm=off; 
          std::vector<int> widths(D.o.end()-D.gep.size(),D.o.end()); int p0=D.o[0]; D.o.assign(1,p0); for(int w:widths) D.o.push_back(w); }
        if(i.isAtomic()) D.noSched=isNoSchedAtomic(&i); }
      d->code.push_back(D); }
    bi++; } }
static inline Val getv(State&S,Frame&f,int i){ if(i>=0) return f.r[i]; const Val&v=f.f->consts[-i-1]; if(v.p==2) return VE(undefSym(S,(u32)v.c)); return v; }
static inline Val getraw(Frame&f,int i){ if(i>=0) return f.r[i]; return f.f->consts[-i-1]; }
static void jumpTo(State&S,Frame&f,u32 b){ auto&B=f.f->blocks[b]; if(!B.phis.empty()){ int pi=B.predIdx[f.bb]; Val tmp[64]; std::vector<Val> big; size_t n=B.phis.size(); Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t k=0;k<n;k++) { Val v=getraw(f,f.f->code[B.phis[k]].o[pi]); t[k]=mat(S,v); } for(size_t k=0;k<n;k++) f.r[f.f->code[B.phis[k]].dst]=t[k]; } f.bb=b; f.ip=B.start+B.phis.size(); }
static RC pushCall(State&S,DFunc*d,const std::vector<Val>&args,DInst*call){ if(!d->decoded) decode(d); if(d->repo&&!d->entered){ d->entered=true; repoFns.insert(d->name); } if(S.T().st.size()>400){ return viol(S,"stack-overflow","call depth above 400"); } Frame*f=new Frame; f->f=d; f->r.resize(d->nregs); u32 na=d->F->arg_size(); for(u32 i=0;i<na&&i<args.size();i++) f->r[i]=args[i]; f->call=call; f->bb=0; f->ip=d->blocks[0].start;
  if(d->F->isVarArg()){ u32 extra=args.size()>na?args.size()-na:0; u32 id=newObj(S,extra*16+16,K_STACK,true); u32 off=0; for(u32 i=na;i<args.size();i++){ u32 w=64; Type*t=call&&call->I? cast<CallBase>(call->I)->getArgOperand(i)->getType():0; if(t) w=bitsOf(t); if(w==80){ off=(off+15)&~15u; wrBytes(S,id,off,10,args[i],80); off+=16; } else { Val v=args[i]; if(w<64&&!v.conc()) v=VE(mkZ(v.e(),64)); wrBytes(S,id,off,8,v,64); off+=8; } } f->va=addrOf(id); f->allocas.push_back(id); }
  // byval arguments: copy
  for(u32 i=0;i<na;i++) if(d->F->hasParamAttribute(i,Attribute::ByVal)){ u64 sz=DL->getTypeAllocSize(d->F->getParamByValType(i)); u32 id=newObj(S,sz,K_STACK,true); u32 sid,soff; RC rc; u64 a=ptrOf(S,args[i]); if(!resolve(S,a,sz,false,sid,soff,rc)){ delete f; return rc; } Obj*o=S.mem.getW(id); Obj*so=S.mem.get(sid); memcpy(o->c,so->c+soff,sz); if(so->m){ o->needM(); memcpy(o->m,so->m+soff,sz); if(so->s){ o->needS(); memcpy(o->s,so->s+soff,sz*sizeof(SymB)); } } else { delete[] o->m; o->m=0; } f->r[i]=VC(addrOf(id)); f->allocas.push_back(id); }
  S.T().st.push_back(FrameR(f)); return R_JUMP; }
static Obj* deadStack(){ static Obj*d=0; if(!d){ d=new Obj; d->rc=1; d->kind=K_STACK; d->alive=false; d->c=new u8[1]; } return d; }
static void freeStackObj(State&S,u32 id){ Obj*o=S.mem.get(id); if(!o) return; S.mem.set(id,deadStack()); }
static void popFrame(State&S){ auto&T=S.T(); FrameR f=T.st.back(); T.st.pop_back(); for(u32 id:f->allocas) freeStackObj(S,id); }
// return value to caller; returns R_END when thread finished
static RC threadDone(State&S);
static RC doRet(State&S,const Val&v,bool has){ auto&T=S.T(); DInst*call=T.st.back()->call; popFrame(S); if(T.st.empty()) return threadDone(S); Frame&f=S.topW(); if(call){ if(has&&call->dst>=0) f.r[call->dst]=v; if(call->op==Instruction::Invoke) jumpTo(S,f,call->b0); else f.ip++; } return R_JUMP; }
// ---------- exceptions ----------
static u64 ld64(State&S,u64 a,bool&ok){ u32 id=a>>24; i64 off=(i64)(a&0xffffff)-(i64)OBASE; Obj*o=S.mem.get(id); if(!o||!o->alive||off<0||off+8>o->size){ ok=false; return 0; } Val v=rdBytes(S,id,off,8,64); if(!v.conc()){ ok=false; return 0;} return v.c; }
static u64 ld32(State&S,u64 a,bool&ok){ u32 id=a>>24; i64 off=(i64)(a&0xffffff)-(i64)OBASE; Obj*o=S.mem.get(id); if(!o||!o->alive||off<0||off+4>o->size){ ok=false; return 0; } Val v=rdBytes(S,id,off,4,32); if(!v.conc()){ ok=false; return 0;} return v.c; }
static void st64(State&S,u64 a,u64 v){ u32 id=a>>24; wrBytes(S,id,(a&0xffffff)-OBASE,8,VC(v),64); }
static u64 symAddr(const char*n){ auto*g=M->getNamedValue(n); return g? gaddr(g):0; }
static u64 vtSI=0,vtVMI=0,vtC=0;
static bool tiBase(State&S,u64 ti,u64 want,u64 obj,u64&adj){ if(ti==want){ adj=obj; return true; } bool ok=true; u64 vp=ld64(S,ti,ok); if(!ok) return false; if(vtSI&&vp==vtSI+16){ u64 b=ld64(S,ti+16,ok); return ok&&tiBase(S,b,want,obj,adj); } if(vtVMI&&vp==vtVMI+16){ u64 n=ld32(S,ti+20,ok); for(u64 i=0;i<n&&ok;i++){ u64 b=ld64(S,ti+24+i*16,ok); i64 of=(i64)ld64(S,ti+32+i*16,ok); u64 o2=obj; i64 off=of>>8; if(of&1){ u64 vt=ld64(S,obj,ok); if(!ok) return false; off=(i64)ld64(S,vt+off,ok); if(!ok) return false; } o2=obj+off; if(tiBase(S,b,want,o2,adj)) return true; } } return false; }
static int selId(u64 ti){ static std::map<u64,int> m; auto it=m.find(ti); if(it!=m.end()) return it->second; int k=m.size()+1; m[ti]=k; return k; }
static std::string tiName(State&S,u64 ti){ bool ok=true; u64 p=ld64(S,ti+8,ok); std::string s; if(ok){ Obj*o=S.mem.get(p>>24); u32 off=(p&0xffffff)-OBASE; if(o) while(off<o->size&&o->c[off]) s+=o->c[off++]; } return dem("_ZTI"+s); }
static RC unwind(State&S,u64 exc){ auto&T=S.T(); bool ok=true; u64 ti=ld64(S,exc-64,ok); 
  { // search phase: is there any handler at all?
    bool found=false; for(int k=(int)T.st.size()-2;k>=0&&!found;k--){ auto&f=*T.st[k]; const Instruction*I=f.f->code[f.ip].I; if(!isa<InvokeInst>(I)) continue; auto*lp=cast<InvokeInst>(I)->getLandingPadInst(); for(unsigned i=0;i<lp->getNumClauses();i++){ if(!lp->isCatch(i)){ found=true; continue; } u64 w=cval(lp->getClause(i)).c; u64 adj; if(!w||tiBase(S,ti,w,exc,adj)) found=true; } }
    if(!found) return viol(S,"uncaught-exception","exception of type "+tiName(S,ti)+" is not caught"); }
  while(1){ popFrame(S); if(T.st.empty()) return viol(S,"uncaught-exception","exception escapes thread"); Frame&f=S.topW(); DInst&c=f.f->code[f.ip]; if(!isa<InvokeInst>(c.I)) continue; auto*lp=cast<InvokeInst>(c.I)->getLandingPadInst(); int sel=-1; for(unsigned i=0;i<lp->getNumClauses();i++){ if(!lp->isCatch(i)){ incomplete.insert("exception filter"); return R_END; } u64 w=cval(lp->getClause(i)).c; u64 adj=exc; if(!w||tiBase(S,ti,w,exc,adj)){ sel=selId(w); st64(S,exc-64+24,adj); break; } } if(sel<0&&lp->isCleanup()) sel=0; if(sel<0) continue; T.exc=exc; T.sel=sel; jumpTo(S,f,c.b1); return R_JUMP; } }
#include "threads.inc"
#include "handlers.inc"
#include "exec.inc"
#include "instrument.inc"
#include "main.inc"
