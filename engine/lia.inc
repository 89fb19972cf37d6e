// Queries with divisions by constants, translated exactly to integers: every bit-vector term is an integer congruent to it modulo 2^w, with an
// interval; canonical forms are taken (a remainder by 2^w, unless the interval shows it is not needed) where an operation needs them.
bool Solver::hasDiv(E e){ if(isc(e)||e->op==O_SYM) return false; if(dvc.size()<=e->id) dvc.resize(P.all.size()+1024,-1); int r=dvc[e->id]; if(r>=0) return r;
  bool x=(e->op==O_UDIV||e->op==O_SDIV||e->op==O_UREM||e->op==O_SREM)&&isc(e->b)&&(e->b->val&(e->b->val-1)); if(!x&&e->a) x=hasDiv(e->a); if(!x&&e->b) x=hasDiv(e->b); if(!x&&e->c) x=hasDiv(e->c); if(dvc.size()<=e->id) dvc.resize(P.all.size()+1024,-1); dvc[e->id]=x; return x; }
static Z3_ast inum(Z3_context c,i128 v){ bool n=v<0; u128 u=n?-(u128)v:(u128)v; std::string s; if(!u) s="0"; while(u){ s.insert(s.begin(),'0'+(int)(u%10)); u/=10; } if(n) s.insert(s.begin(),'-'); return Z3_mk_numeral(c,s.c_str(),Z3_mk_int_sort(c)); }
static Z3_ast iadd(Z3_context c,Z3_ast a,Z3_ast b){ Z3_ast t[2]={a,b}; return Z3_mk_add(c,2,t); } static Z3_ast isub(Z3_context c,Z3_ast a,Z3_ast b){ Z3_ast t[2]={a,b}; return Z3_mk_sub(c,2,t); } static Z3_ast imul(Z3_context c,Z3_ast a,Z3_ast b){ Z3_ast t[2]={a,b}; return Z3_mk_mul(c,2,t); }
IT Solver::keep(Z3_ast t,i128 lo,i128 hi){ Z3_inc_ref(ctx,t); return IT{t,lo,hi}; }
IT Solver::canU(const IT&x,u32 w){ i128 m=(i128)1<<w; if(x.lo>=0&&x.hi<m) return x; if(x.lo>=-m&&x.hi<m) return keep(Z3_mk_ite(ctx,Z3_mk_lt(ctx,x.t,inum(ctx,0)),iadd(ctx,x.t,inum(ctx,m)),x.t),0,m-1); if(x.lo>=0&&x.hi<2*m) return keep(Z3_mk_ite(ctx,Z3_mk_ge(ctx,x.t,inum(ctx,m)),isub(ctx,x.t,inum(ctx,m)),x.t),0,m-1); return keep(Z3_mk_mod(ctx,x.t,inum(ctx,m)),0,m-1); }
IT Solver::canS(const IT&x,u32 w){ i128 h=(i128)1<<(w-1); if(x.lo>=-h&&x.hi<h) return x; IT u=canU(x,w); if(u.hi<h) return u; return keep(Z3_mk_ite(ctx,Z3_mk_ge(ctx,u.t,inum(ctx,h)),isub(ctx,u.t,inum(ctx,2*h)),u.t),-h,h-1); }
IT Solver::lowI(E e){ auto it=zi.find(e->id); if(it!=zi.end()) return it->second; if(e->w>64||intFail){ intFail=true; return IT{inum(ctx,0),0,0}; }
  IT r; u32 w=e->w; i128 full=(i128)1<<w;
  auto small=[&](IT x){ i128 lim=(i128)1<<100; return x.lo<-lim||x.hi>lim? canU(x,w): x; };
  switch(e->op){
  case O_CONST: { i128 v=(i128)e->val; if(w>1&&v>=full/2&&v>full-(full>>2)) v-=full; r=keep(inum(ctx,v),v,v); break; } // large constants are small negative ones
  case O_SYM: { char b[64]; snprintf(b,64,"i%u",e->aux); Z3_ast s=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,b),Z3_mk_int_sort(ctx)); r=keep(s,0,full-1); break; }
  case O_ADD: { IT a=lowI(e->a),b=lowI(e->b); r=small(keep(iadd(ctx,a.t,b.t),a.lo+b.lo,a.hi+b.hi)); break; }
  case O_SUB: { IT a=lowI(e->a),b=lowI(e->b); r=small(keep(isub(ctx,a.t,b.t),a.lo-b.hi,a.hi-b.lo)); break; }
  case O_SHL: case O_MUL: { E x=e->a,k=e->b; if(!isc(k)) std::swap(x,k); if(!isc(k)||(e->op==O_SHL&&(k!=e->b||k->val>=w))){ intFail=true; return IT{inum(ctx,0),0,0}; } i128 c= e->op==O_SHL? (i128)1<<(int)k->val: sextw(k->val,w); IT a=lowI(x); i128 lim=(i128)1<<62; if(a.lo<-lim||a.hi>lim) a=canS(a,w); i128 p=a.lo*c,q=a.hi*c; r=small(keep(imul(ctx,a.t,inum(ctx,c)),p<q?p:q,p<q?q:p)); break; }
  case O_LSHR: if(!isc(e->b)||e->b->val>=w){ intFail=true; return IT{inum(ctx,0),0,0}; } { IT a=canU(lowI(e->a),w); i128 c=(i128)1<<(int)e->b->val; r=keep(Z3_mk_div(ctx,a.t,inum(ctx,c)),a.lo/c,a.hi/c); } break;
  case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: { if(!isc(e->b)||!e->b->val){ intFail=true; return IT{inum(ctx,0),0,0}; } bool sg=e->op==O_SDIV||e->op==O_SREM, rem=e->op==O_UREM||e->op==O_SREM; i128 c=sg? sextw(e->b->val,w):(i128)e->b->val; if(c<=0){ intFail=true; return IT{inum(ctx,0),0,0}; } IT a=sg? canS(lowI(e->a),w): canU(lowI(e->a),w); Z3_ast k=inum(ctx,c),z=inum(ctx,0);
      if(a.lo>=0){ r= rem? keep(Z3_mk_mod(ctx,a.t,k),0,std::min(a.hi,c-1)): keep(Z3_mk_div(ctx,a.t,k),a.lo/c,a.hi/c); }
      else { Z3_ast n=isub(ctx,z,a.t), q=Z3_mk_ite(ctx,Z3_mk_ge(ctx,a.t,z),rem?Z3_mk_mod(ctx,a.t,k):Z3_mk_div(ctx,a.t,k),isub(ctx,z,rem?Z3_mk_mod(ctx,n,k):Z3_mk_div(ctx,n,k))); r= rem? keep(q,-(c-1),c-1): keep(q,-((-a.lo)/c),a.hi>0?a.hi/c:0); } break; }
  case O_AND: { if(w==1) goto boolean; E x=e->a,k=e->b; if(!isc(k)) std::swap(x,k); if(!isc(k)||(k->val&(k->val+1))){ intFail=true; return IT{inum(ctx,0),0,0}; } IT a=lowI(x); i128 m=(i128)k->val+1; if(a.lo>=0&&a.hi<m) r=a; else r=keep(Z3_mk_mod(ctx,a.t,inum(ctx,m)),0,m-1); break; }
  case O_ITE: { IT a=lowI(e->b),b=lowI(e->c); r=keep(Z3_mk_ite(ctx,lowIB(e->a),a.t,b.t),std::min(a.lo,b.lo),std::max(a.hi,b.hi)); break; }
  case O_ZEXT: r=canU(lowI(e->a),e->a->w); break; case O_SEXT: r=canS(lowI(e->a),e->a->w); break;
  case O_EXTRACT: { IT a=lowI(e->a); if(e->aux==0) { r=a; break; } a=canU(a,e->a->w); i128 c=(i128)1<<e->aux; r=keep(Z3_mk_div(ctx,a.t,inum(ctx,c)),a.lo/c,a.hi/c); break; }
  case O_CONCAT: { IT a=canU(lowI(e->a),e->a->w),b=canU(lowI(e->b),e->b->w); i128 c=(i128)1<<e->b->w; r=keep(iadd(ctx,imul(ctx,a.t,inum(ctx,c)),b.t),a.lo*c+b.lo,a.hi*c+b.hi); break; }
  default: boolean: if(w!=1){ intFail=true; return IT{inum(ctx,0),0,0}; } r=keep(Z3_mk_ite(ctx,lowIB(e),inum(ctx,1),inum(ctx,0)),0,1); }
  if(intFail) return r; zi[e->id]=r; return r; }
Z3_ast Solver::lowIB(E e){ auto it=zib.find(e->id); if(it!=zib.end()) return it->second; Z3_ast r=0; if(intFail) return Z3_mk_true(ctx);
  auto U=[&](E x){ return canU(lowI(x),x->w).t; }; auto G=[&](E x){ return canS(lowI(x),x->w).t; };
  switch(e->op){
  case O_CONST: r=e->val?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
  case O_EQ: if(e->a->w==1) r=Z3_mk_iff(ctx,lowIB(e->a),lowIB(e->b)); else { IT a=lowI(e->a),b=lowI(e->b); i128 m=(i128)1<<e->a->w; i128 lo=std::min(a.lo,b.lo),hi=std::max(a.hi,b.hi); if(hi-lo<m) r=Z3_mk_eq(ctx,a.t,b.t); else if((a.lo>=0&&a.hi<m)||(b.lo>=0&&b.hi<m)) r=Z3_mk_eq(ctx,canU(a,e->a->w).t,canU(b,e->a->w).t); else r=Z3_mk_eq(ctx,canS(a,e->a->w).t,canS(b,e->a->w).t); } break;
  case O_ULT: r=Z3_mk_lt(ctx,U(e->a),U(e->b)); break; case O_ULE: r=Z3_mk_le(ctx,U(e->a),U(e->b)); break; case O_SLT: r=Z3_mk_lt(ctx,G(e->a),G(e->b)); break; case O_SLE: r=Z3_mk_le(ctx,G(e->a),G(e->b)); break;
  case O_AND: { Z3_ast t[2]={lowIB(e->a),lowIB(e->b)}; r=Z3_mk_and(ctx,2,t); break; } case O_OR: { Z3_ast t[2]={lowIB(e->a),lowIB(e->b)}; r=Z3_mk_or(ctx,2,t); break; } case O_XOR: r=Z3_mk_xor(ctx,lowIB(e->a),lowIB(e->b)); break;
  case O_ITE: r=Z3_mk_ite(ctx,lowIB(e->a),lowIB(e->b),lowIB(e->c)); break;
  default: if(e->w!=1){ intFail=true; return Z3_mk_true(ctx); } { IT a; switch(e->op){ case O_EXTRACT: case O_SYM: case O_LSHR: a=canU(e->op==O_SYM? lowI(e): [&]{ IT t=lowI(e->a); t=canU(t,e->a->w); i128 c=(i128)1<<(e->op==O_EXTRACT? e->aux: (u32)0); if(e->op==O_LSHR) intFail=true; return c>1? keep(Z3_mk_div(ctx,t.t,inum(ctx,c)),t.lo/c,t.hi/c): t; }(),1); r=Z3_mk_eq(ctx,a.t,inum(ctx,1)); break; default: intFail=true; return Z3_mk_true(ctx); } } }
  if(intFail) return Z3_mk_true(ctx); Z3_inc_ref(ctx,r); zib[e->id]=r; return r; }
// 1 sat, 0 unsat, -1 unknown or not translatable
int Solver::rawInt(const std::vector<E>&cs,const std::vector<u32>&vars,std::vector<std::pair<u32,u128>>*out){
  intFail=false; std::vector<Z3_ast> bs; for(auto c:cs){ bs.push_back(lowIB(c)); if(intFail) break; } if(intFail) return -1;
  auto t0=std::chrono::steady_clock::now(); Z3_solver s=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,s); Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),1500); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p);
  for(u32 v:vars){ IT x=lowI(ksym(P.syms[v].first,P.syms[v].second)); Z3_solver_assert(ctx,s,Z3_mk_ge(ctx,x.t,inum(ctx,0))); Z3_solver_assert(ctx,s,Z3_mk_le(ctx,x.t,inum(ctx,x.hi))); }
  for(auto b:bs) Z3_solver_assert(ctx,s,b);
  Z3_lbool l=Z3_solver_check(ctx,s); int r= l==Z3_L_TRUE?1: l==Z3_L_FALSE?0:-1;
  if(r==1&&out){ Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m); for(u32 v:vars){ IT x=lowI(ksym(P.syms[v].first,P.syms[v].second)); Z3_ast o=0; u128 val=0; if(Z3_model_eval(ctx,m,x.t,true,&o)&&o){ Z3_inc_ref(ctx,o); val=numv(ctx,o); Z3_dec_ref(ctx,o); } out->push_back({v,val}); } Z3_model_dec_ref(ctx,m); }
  Z3_solver_dec_ref(ctx,s); double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); st.time+=dt; if(r>=0){ if(dt>st.maxq) st.maxq=dt; st.queries++; st.lia++; if(r) st.sat++; else st.unsat++; } return r; }
