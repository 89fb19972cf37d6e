#include "solver.h"
#include <set>
#include <cstdio>
#include <cstdlib>
Solver* SOL;
static void errh(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error %d: %s\n",(int)e,Z3_get_error_msg(c,e)); }
Solver::Solver(){ Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,errh);
  bv=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,bv); gen=0; }
bool Solver::hasFP(E e){ if(isc(e)||e->op==O_SYM) return false; if(fpc.size()<=e->id) fpc.resize(P.all.size()+1024,-1); int&r=fpc[e->id]; if(r>=0) return r; bool x=e->op>=O_FADD; 
  if(!x&&e->a) x=hasFP(e->a); if(!x&&e->b) x=hasFP(e->b); if(!x&&e->c) x=hasFP(e->c); fpc[e->id]=x; return x; }
static Z3_ast bvnum(Z3_context ctx,u128 v,u32 w){ if(w<=64) return Z3_mk_unsigned_int64(ctx,(u64)v,Z3_mk_bv_sort(ctx,w)); 
  std::string s; u128 t=v; if(!t) s="0"; while(t){ s.insert(s.begin(),'0'+(int)(t%10)); t/=10; } return Z3_mk_numeral(ctx,s.c_str(),Z3_mk_bv_sort(ctx,w)); }
Z3_ast Solver::lowF(E e){ // float of bit pattern e
  auto it=zf.find(e->id); if(it!=zf.end()) return it->second; Z3_ast r, rne=Z3_mk_fpa_round_nearest_ties_to_even(ctx);
  switch(e->op){ // arithmetic stays in the theory of floating point: no round trip through bits
  case O_FADD: r=Z3_mk_fpa_add(ctx,rne,lowF(e->a),lowF(e->b)); break; case O_FSUB: r=Z3_mk_fpa_sub(ctx,rne,lowF(e->a),lowF(e->b)); break;
  case O_FMUL: r=Z3_mk_fpa_mul(ctx,rne,lowF(e->a),lowF(e->b)); break; case O_FDIV: r=Z3_mk_fpa_div(ctx,rne,lowF(e->a),lowF(e->b)); break;
  case O_SITOF: r=Z3_mk_fpa_to_fp_signed(ctx,rne,lowV(e->a),fsort(e->w)); break; case O_UITOF: r=Z3_mk_fpa_to_fp_unsigned(ctx,rne,lowV(e->a),fsort(e->w)); break;
  case O_FEXT: case O_FTRUNC: r=Z3_mk_fpa_to_fp_float(ctx,rne,lowF(e->a),fsort(e->w)); break;
  case O_ITE: r=Z3_mk_ite(ctx,lowB(e->a),lowF(e->b),lowF(e->c)); break;
  default: r= e->w==80? Z3_mk_fpa_to_fp_bv(ctx,Z3_mk_concat(ctx,Z3_mk_extract(ctx,79,64,lowV(e)),Z3_mk_extract(ctx,62,0,lowV(e))),fsort(80)) : Z3_mk_fpa_to_fp_bv(ctx,lowV(e),fsort(e->w)); }
  Z3_inc_ref(ctx,r); zf[e->id]=r; return r; }
Z3_ast Solver::lowB(E e){ if(e->zb) return e->zb; Z3_ast r=0;
  switch(e->op){
  case O_CONST: r=e->val?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
  case O_EQ: if(e->a->w==1) r=Z3_mk_iff(ctx,lowB(e->a),lowB(e->b)); else r=Z3_mk_eq(ctx,lowV(e->a),lowV(e->b)); break;
  case O_ULT: r=Z3_mk_bvult(ctx,lowV(e->a),lowV(e->b)); break; case O_ULE: r=Z3_mk_bvule(ctx,lowV(e->a),lowV(e->b)); break;
  case O_SLT: r=Z3_mk_bvslt(ctx,lowV(e->a),lowV(e->b)); break; case O_SLE: r=Z3_mk_bvsle(ctx,lowV(e->a),lowV(e->b)); break;
  case O_AND: { Z3_ast t[2]={lowB(e->a),lowB(e->b)}; r=Z3_mk_and(ctx,2,t); break; } case O_OR: { Z3_ast t[2]={lowB(e->a),lowB(e->b)}; r=Z3_mk_or(ctx,2,t); break; }
  case O_XOR: if(isc(e->b)) r=e->b->val?Z3_mk_not(ctx,lowB(e->a)):lowB(e->a); else r=Z3_mk_xor(ctx,lowB(e->a),lowB(e->b)); break;
  case O_ITE: r=Z3_mk_ite(ctx,lowB(e->a),lowB(e->b),lowB(e->c)); break;
  case O_FEQ: r=Z3_mk_fpa_eq(ctx,lowF(e->a),lowF(e->b)); break; case O_FLT: r=Z3_mk_fpa_lt(ctx,lowF(e->a),lowF(e->b)); break; case O_FLE: r=Z3_mk_fpa_leq(ctx,lowF(e->a),lowF(e->b)); break;
  case O_FNAN: r=Z3_mk_fpa_is_nan(ctx,lowF(e->a)); break;
  default: r=Z3_mk_eq(ctx,lowV(e),bvnum(ctx,1,1)); }
  Z3_inc_ref(ctx,r); e->zb=r; return r; }
Z3_ast Solver::lowV(E e){ if(e->zv) return e->zv; Z3_ast r=0;
  auto A=[&]{return lowV(e->a);}; auto B=[&]{return lowV(e->b);};
  Z3_ast rne=0; if(e->op>=O_FADD) rne=Z3_mk_fpa_round_nearest_ties_to_even(ctx);
  auto fb=[&](Z3_ast f)->Z3_ast{ Z3_ast v=Z3_mk_fpa_to_ieee_bv(ctx,f); if(e->w!=80) return v; // x87 keeps the leading significand bit explicitly
    Z3_ast hi=Z3_mk_extract(ctx,78,63,v), ex=Z3_mk_extract(ctx,77,63,v), one=Z3_mk_ite(ctx,Z3_mk_eq(ctx,ex,bvnum(ctx,0,15)),bvnum(ctx,0,1),bvnum(ctx,1,1)); return Z3_mk_concat(ctx,hi,Z3_mk_concat(ctx,one,Z3_mk_extract(ctx,62,0,v))); };
  switch(e->op){
  case O_CONST: r=bvnum(ctx,e->val,e->w); break;
  case O_SYM: { char b[64]; snprintf(b,64,"v%u",e->aux); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,b),Z3_mk_bv_sort(ctx,e->w)); break; }
  case O_ADD: r=Z3_mk_bvadd(ctx,A(),B()); break; case O_SUB: r=Z3_mk_bvsub(ctx,A(),B()); break; case O_MUL: r=Z3_mk_bvmul(ctx,A(),B()); break;
  case O_UDIV: r=Z3_mk_bvudiv(ctx,A(),B()); break; case O_SDIV: r=Z3_mk_bvsdiv(ctx,A(),B()); break; case O_UREM: r=Z3_mk_bvurem(ctx,A(),B()); break; case O_SREM: r=Z3_mk_bvsrem(ctx,A(),B()); break;
  case O_AND: case O_OR: case O_XOR: if(e->w==1) { r=Z3_mk_ite(ctx,lowB(e),bvnum(ctx,1,1),bvnum(ctx,0,1)); break; } r= e->op==O_AND?Z3_mk_bvand(ctx,A(),B()): e->op==O_OR?Z3_mk_bvor(ctx,A(),B()): Z3_mk_bvxor(ctx,A(),B()); break;
  case O_SHL: r=Z3_mk_bvshl(ctx,A(),B()); break; case O_LSHR: r=Z3_mk_bvlshr(ctx,A(),B()); break; case O_ASHR: r=Z3_mk_bvashr(ctx,A(),B()); break;
  case O_ITE: r=Z3_mk_ite(ctx,lowB(e->a),lowV(e->b),lowV(e->c)); break;
  case O_CONCAT: r=Z3_mk_concat(ctx,A(),B()); break; case O_EXTRACT: r=Z3_mk_extract(ctx,e->aux+e->w-1,e->aux,A()); break;
  case O_ZEXT: r=Z3_mk_zero_ext(ctx,e->w-e->a->w,A()); break; case O_SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,A()); break;
  case O_FADD: r=fb(Z3_mk_fpa_add(ctx,rne,lowF(e->a),lowF(e->b))); break; case O_FSUB: r=fb(Z3_mk_fpa_sub(ctx,rne,lowF(e->a),lowF(e->b))); break;
  case O_FMUL: r=fb(Z3_mk_fpa_mul(ctx,rne,lowF(e->a),lowF(e->b))); break; case O_FDIV: r=fb(Z3_mk_fpa_div(ctx,rne,lowF(e->a),lowF(e->b))); break;
  case O_FTOSI: { Z3_ast rtz=Z3_mk_fpa_round_toward_zero(ctx); Z3_ast f=lowF(e->a); // x86: out of range -> min
      Z3_ast conv=Z3_mk_fpa_to_sbv(ctx,rtz,f,e->w); Z3_sort fs=fsort(e->a->w); Z3_ast rt=Z3_mk_fpa_round_to_integral(ctx,rtz,f);
      double hi=std::ldexp(1.0,e->w-1); Z3_ast hiA=Z3_mk_fpa_numeral_double(ctx,hi,fs), loA=Z3_mk_fpa_numeral_double(ctx,-hi,fs);
      Z3_ast ok2[2]={Z3_mk_fpa_lt(ctx,rt,hiA),Z3_mk_fpa_geq(ctx,rt,loA)}; Z3_ast ok=Z3_mk_and(ctx,2,ok2); r=Z3_mk_ite(ctx,ok,conv,bvnum(ctx,(u128)1<<(e->w-1),e->w)); break; }
  case O_FTOUI: r=Z3_mk_fpa_to_ubv(ctx,Z3_mk_fpa_round_toward_zero(ctx),lowF(e->a),e->w); break;
  case O_SITOF: r=fb(Z3_mk_fpa_to_fp_signed(ctx,rne,A(),fsort(e->w))); break; case O_UITOF: r=fb(Z3_mk_fpa_to_fp_unsigned(ctx,rne,A(),fsort(e->w))); break;
  case O_FEXT: case O_FTRUNC: r=fb(Z3_mk_fpa_to_fp_float(ctx,rne,lowF(e->a),fsort(e->w))); break;
  case O_FRND: { Z3_ast m= e->aux==0?Z3_mk_fpa_round_toward_negative(ctx): e->aux==1?Z3_mk_fpa_round_toward_positive(ctx): e->aux==2?Z3_mk_fpa_round_toward_zero(ctx): e->aux==3?Z3_mk_fpa_round_nearest_ties_to_away(ctx):rne; r=fb(Z3_mk_fpa_round_to_integral(ctx,m,lowF(e->a))); break; }
  default: r=Z3_mk_ite(ctx,lowB(e),bvnum(ctx,1,1),bvnum(ctx,0,1)); }
  Z3_inc_ref(ctx,r); e->zv=r; return r; }
static u128 numv(Z3_context ctx,Z3_ast a){ const char*s=Z3_get_numeral_string(ctx,a); u128 v=0; while(*s>='0'&&*s<='9'){ v=v*10+(*s-'0'); s++; } return v; }
int Solver::raw(const std::vector<E>& cs,const std::vector<u32>& vars,std::vector<std::pair<u32,u128>>*out,bool plain){
  bool fp=false; for(auto c:cs) if(hasFP(c)) { fp=true; break; }
  auto t0=std::chrono::steady_clock::now(); Z3_solver s=bv; int r=-1;
  auto setto=[&](Z3_solver s,unsigned ms){ Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),ms); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p); };
  std::vector<u8> lits;
  for(int attempt=0;attempt<2;attempt++){
    bool fresh=fp||attempt==1;
    if(fresh){ if(plain){ s=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,s); } else { Z3_tactic t=Z3_mk_tactic(ctx,fp?"qffp":"qfbv"); Z3_tactic_inc_ref(ctx,t); s=Z3_mk_solver_from_tactic(ctx,t); Z3_solver_inc_ref(ctx,s); Z3_tactic_dec_ref(ctx,t); } setto(s,timeout_ms); }
    else { setto(s,attempt==0?8000:timeout_ms); Z3_solver_push(ctx,s); }
    for(auto c:cs) Z3_solver_assert(ctx,s,lowB(c));
    Z3_lbool l=Z3_solver_check(ctx,s); r= l==Z3_L_TRUE?1: l==Z3_L_FALSE?0:-1;
    if(r==1&&out){ Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
      for(u32 v:vars){ E e=ksym(P.syms[v].first,P.syms[v].second); Z3_ast o=0; u128 val=0; if(Z3_model_eval(ctx,m,lowV(e),true,&o)&&o) { Z3_inc_ref(ctx,o); val=numv(ctx,o); Z3_dec_ref(ctx,o);} out->push_back({v,val}); }
      Z3_model_dec_ref(ctx,m); }
    if(fresh) Z3_solver_dec_ref(ctx,s); else Z3_solver_pop(ctx,s,1);
    if(r>=0||fresh) break; }
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); st.time+=dt; if(dt>st.maxq) st.maxq=dt; st.queries++; if(r==1) st.sat++; else if(r==0) st.unsat++; else st.unknown++;
  return r; }
#include "lia.inc"
int Solver::check(const std::vector<E>& cs,std::vector<std::pair<u32,u128>>*out){
  std::vector<u32> key; std::set<u32> vs; for(auto c:cs){ if(isc(c)){ if(!c->val) return 0; continue; } key.push_back(c->id); if(c->vars) vs.insert(c->vars->begin(),c->vars->end()); }
  std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  u64 h=0; for(u32 k:key) h=ExprPool::mix(h,k);
  auto&bk=cache[h]; for(auto&p:bk) if(p.first==key){ st.cached++; if(out) *out=p.second.second; return p.second.first; }
  std::vector<u32> vars(vs.begin(),vs.end()); std::vector<std::pair<u32,u128>> o; std::vector<E> u; for(auto c:cs) if(!isc(c)) u.push_back(c);
  bool fpq=false,dv=false; for(auto c:u){ fpq|=hasFP(c); dv|=hasDiv(c); } int r=-1; if(dv&&!fpq&&!getenv("FSX_NOLIA")){ r=rawInt(u,vars,&o); if(r==1){ Model m; m.id=++modelCtr; m.v.resize(P.syms.size()); for(auto&p:o) m.v[p.first]=p.second; for(auto c:u) if(!evalE(c,m)){ fprintf(stderr,"fsx: integer translation mismatch\n"); st.liabad++; r=-1; break; } } if(r>=0&&getenv("FSX_LIACHECK")){ std::vector<std::pair<u32,u128>> o2; int r2=raw(u,vars,&o2); if(r2>=0&&r2!=r) { fprintf(stderr,"fsx: LIA %d BV %d\n",r,r2); abort(); } } if(r<0) o.clear(); } if(r<0) r=raw(u,vars,&o);
  for(int plain=0;r==1;plain++){ // cross-check the model with our own evaluator (guards translator bugs); a floating point model that fails it is asked again of another solver
    Model m; m.id=++modelCtr; m.v.resize(P.syms.size()); for(auto&p:o) m.v[p.first]=p.second; bool bad=false,fp=false; for(auto c:u) if(!evalE(c,m)){ bad=true; fp=hasFP(c); if(!fp) fprintf(stderr,"fsx: INTERNAL model mismatch\n"); break; }
    if(!bad) break; if(plain||!fp){ r=-1; st.unknown++; break; } o.clear(); r=raw(u,vars,&o,true); }
  bk.push_back({key,{r,o}}); if(out) *out=o; return r; }
u128 evalE(E e,const Model&m){ if(e->op==O_CONST) return e->val; if(e->estamp==m.id) return e->ev; u128 r;
  if(e->op==O_SYM) r=m.get(e->aux)&maskw(e->w);
  else if(e->op==O_ITE) r= evalE(e->a,m)? evalE(e->b,m):evalE(e->c,m);
  else { u128 a=e->a?evalE(e->a,m):0,b=e->b?evalE(e->b,m):0,c=e->c?evalE(e->c,m):0; r=opval(e->op,e->w,e->aux,a,e->a?e->a->w:0,b,e->b?e->b->w:0,c); }
  e->estamp=m.id; e->ev=r; return r; }
