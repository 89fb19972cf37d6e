// ---------- handlers for intrinsics, runtime primitives and the harness interface ----------
#define HH(n) static RC n(State&S,DInst&I,std::vector<Val>&a,Val&ret)
static std::string cstr(State&S,u64 p){ std::string s; u32 id=p>>24; i64 off=(i64)(p&0xffffff)-(i64)OBASE; Obj*o=S.mem.get(id); if(!o||off<0) return "?"; while(off<(i64)o->size&&o->c[off]) s+=(char)o->c[off++]; return s; }
HH(h_malloc){ u64 n=concz(S,a[0],64); u64 kind=a.size()>1?concz(S,a[1],32):3; if(n>(8u<<20)){ ret=VC(0); return R_NEXT; } u32 id=newObj(S,n,K_HEAP,true); Obj*o=S.mem.getW(id); o->akind=(u8)kind; o->site=I.I; if(kind==9) o->norace=true; if(kind<3&&S.T().inGuard) o->quiet=true; else if(kind<3) S.live++; ret=VC(addrOf(id)); return R_NEXT; }
HH(h_free){ u64 p=ptrOf(S,a[0]); u64 kind=a.size()>1?concz(S,a[1],32):3; if(!p) return R_NEXT; u32 id=p>>24; Obj*o=S.mem.get(id); if(!o||o->kind!=K_HEAP) return viol(S,"invalid-free","release of an address that is not a heap block"); if(!o->alive) return viol(S,"double-free","heap block released twice"); if((p&0xffffff)!=OBASE) return viol(S,"invalid-free","release of an address inside a heap block"); 
  if(o->akind!=kind&&o->akind<8) return viol(S,"alloc-dealloc-mismatch","block allocated with kind "+std::to_string(o->akind)+" released with kind "+std::to_string(kind)); 
  if(S.raceOn&&o->sh&&!o->norace){ auto&T=S.T(); for(auto&g:*o->sh) for(auto&r:g.second) if(r.tid!=S.cur&&r.clk>(r.tid<T.vc.size()?T.vc[r.tid]:0)) return viol(S,"data-race","release of memory by thread "+std::to_string(S.cur)+" not ordered after an access by thread "+std::to_string(r.tid)); }
  Obj*n=new Obj; n->size=o->size; n->kind=K_HEAP; n->alive=false; n->akind=o->akind; n->c=0; if(o->akind<3&&!o->quiet) S.live--; n->size=o->size; S.mem.set(id,n); return R_NEXT; }
HH(h_dirty){ return R_NEXT; }
HH(h_live){ ret=VC((u64)S.live); return R_NEXT; }
HH(h_sym){ std::string nm=cstr(S,ptrOf(S,a[0])); u32 w=(u32)concz(S,a[1],32); std::string key=nm+"#"+std::to_string(S.in.size())+":"+std::to_string(w); E e=ksym(key,w); if(S.model->v.size()<P.syms.size()){} S.in.push_back({nm,w,e}); ret=VE(mkZ(e,64)); return R_NEXT; }
HH(h_assume){ Val c=a[0]; if(c.conc()){ if(!c.c){ nAssumeFalse++; return R_END; } return R_NEXT; } E e=c.e(); E t=mkNot(mkEq(e,kc(0,e->w))); if(isc(t)){ if(!t->val){ nAssumeFalse++; return R_END;} return R_NEXT; } if(known(S,t)==1) return R_NEXT; if(!evalE(t,*S.model)){ std::vector<std::pair<u32,u128>> m; int r=query(S,t,&m); if(r!=1){ nAssumeFalse++; return R_END; } S.model=mergeModel(S.model,m); } addC(S,t); return R_NEXT; }
HH(h_check){ nChecks++; Val c=a[0]; std::string msg=cstr(S,ptrOf(S,a[1])); if(c.conc()){ if(!c.c) return viol(S,"check",msg); return R_NEXT; } E e=c.e(); E t=mkNot(mkEq(e,kc(0,e->w))); if(isc(t)){ if(!t->val) return viol(S,"check",msg); return R_NEXT; } if(known(S,t)==1) return R_NEXT; opQueries["check"]++;
  if(!evalE(t,*S.model)){ report(S,"check",msg,S.model,whereS(S)); std::vector<std::pair<u32,u128>> m; if(query(S,t,&m)!=1) return R_END; S.model=mergeModel(S.model,m); addC(S,t); return R_NEXT; }
  std::vector<std::pair<u32,u128>> m; int r=query(S,mkNot(t),&m); if(r==1) report(S,"check",msg,mergeModel(S.model,m),whereS(S)); addC(S,t); return R_NEXT; }
HH(h_reach){ std::string l=cstr(S,ptrOf(S,a[0])); S.reach.insert(l); return R_NEXT; }
HH(h_observe){ Val v=a[1]; S.obs.push_back({cstr(S,ptrOf(S,a[0])),v,64}); return R_NEXT; }
HH(h_param){ std::string n=cstr(S,ptrOf(S,a[0])); auto it=params.find(n); if(it!=params.end()) ret=VC((u64)atoll(it->second.c_str())); else ret=a[1]; return R_NEXT; }
HH(h_conc){ ret=VC(concz(S,a[0],64)); return R_NEXT; }
HH(h_insym){ ret=VC(1); return R_NEXT; }
HH(h_rtabort){ return viol(S,"abort",cstr(S,ptrOf(S,a[0]))); }
HH(h_exit){ return viol(S,"exit","process exit called"); }
HH(h_tid){ ret=VC(S.cur); return R_NEXT; }
HH(h_debug){ fprintf(stderr,"DBG %s",cstr(S,ptrOf(S,a[0])).c_str()); if(a.size()>1){ if(a[1].conc()) fprintf(stderr," %llx",(unsigned long long)a[1].c); else fprintf(stderr," sym(%llx)",(unsigned long long)evalE(a[1].e(),*S.model)); } fprintf(stderr,"\n"); return R_NEXT; }
HH(h_atexit){ ret=VC(0); return R_NEXT; }
HH(h_thread_atexit){ S.T().atexit.push_back({ptrOf(S,a[0]),ptrOf(S,a[1])}); ret=VC(0); return R_NEXT; }
HH(h_unwind){ u64 exc=ptrOf(S,a[0]); return unwind(S,exc); }
// bulk memory
static RC copyMem(State&S,u64 d,u64 s,u64 n){ if(!n) return R_NEXT; u32 di,dof,si,sof; RC rc; if(!resolve(S,s,n,false,si,sof,rc)) return rc; if(!resolve(S,d,n,true,di,dof,rc)) return rc; if(!checkRace(S,si,sof,n,0,rc)) return rc; if(!checkRace(S,di,dof,n,1,rc)) return rc; Obj*o=S.mem.getW(di); Obj*so=S.mem.get(si); if(so->m){ o->needM(); memmove(o->m+dof,so->m+sof,n); if(so->s){ o->needS(); memmove(o->s+dof,so->s+sof,n*sizeof(SymB)); } } else if(o->m) memset(o->m+dof,0,n); memmove(o->c+dof,so->c+sof,n); return R_NEXT; }
HH(h_memcpy){ u64 n=concz(S,a[2],64); u64 d=n?ptrOf(S,a[0]):0, s=n?ptrOf(S,a[1]):0; RC r=copyMem(S,d,s,n); ret=n?VC(d):a[0]; return r; }
HH(h_memset){ u64 n=concz(S,a[2],64); if(!n){ ret=a[0]; return R_NEXT; } u64 d=ptrOf(S,a[0]); u32 id,off; RC rc; if(!resolve(S,d,n,true,id,off,rc)) return rc; if(!checkRace(S,id,off,n,1,rc)) return rc; Val v=a[1]; if(v.conc()){ Obj*o=S.mem.getW(id); memset(o->c+off,(int)v.c,n); if(o->m) memset(o->m+off,0,n); } else { Val b=VE(mkEx(v.e(),0,8)); for(u64 i=0;i<n;i++) wrBytes(S,id,off+i,1,b,8); } ret=VC(d); return R_NEXT; }
HH(h_memcmp){ u64 n=concz(S,a[2],64); if(!n){ ret=VC(0); return R_NEXT; } u64 x=ptrOf(S,a[0]), y=ptrOf(S,a[1]); u32 xi,xo,yi,yo; RC rc; if(!resolve(S,x,n,false,xi,xo,rc)||!resolve(S,y,n,false,yi,yo,rc)) return rc; if(!checkRace(S,xi,xo,n,0,rc)||!checkRace(S,yi,yo,n,0,rc)) return rc; E r=kc(0,32); for(i64 i=n-1;i>=0;i--){ E p=toE(rdBytes(S,xi,xo+i,1,8),8), q=toE(rdBytes(S,yi,yo+i,1,8),8); r=mkIte(mkEq(p,q),r,mkIte(mkE(O_ULT,1,p,q),kc(0xffffffffu,32),kc(1,32))); } ret=VE(r); return R_NEXT; }
HH(h_memchr){ u64 n=concz(S,a[2],64); if(!n){ ret=VC(0); return R_NEXT; } u64 p=ptrOf(S,a[0]); u32 id,off; RC rc; Obj*o0=S.mem.get(p>>24); Val c=a[1]; E ce=mkEx(toE(c,32),0,8); for(u64 i=0;i<n;i++){ if(!resolve(S,p+i,1,false,id,off,rc)) return rc; E b=toE(rdBytes(S,id,off,1,8),8); if(decide(S,mkEq(b,ce))){ ret=VC(p+i); return R_NEXT; } } ret=VC(0); return R_NEXT; }
HH(h_strlen){ u64 p=ptrOf(S,a[0]); u32 id,off; RC rc; u64 i=0; while(1){ if(!resolve(S,p+i,1,false,id,off,rc)) return rc; if(!checkRace(S,id,off,1,0,rc)) return rc; Val b=rdBytes(S,id,off,1,8); if(b.conc()? b.c==0 : decide(S,mkEq(b.e(),kc(0,8)))) break; i++; } ret=VC(i); return R_NEXT; }
// printf family (integers, characters and strings stay symbolic; only their sign and number of digits fork)
typedef std::vector<Val> FmtOut;
static E fitE(const Val&v,u32 w){ E e=v.conc()? kc((u128)v.c&maskw(w),w): v.e(); if(e->w>w) return mkEx(e,0,w); if(e->w<w) return mkZ(e,w); return e; }
static RC fmtPrint(State&S,const std::string&f,const std::function<Val(int)>&arg,FmtOut&out){ // arg(kind): 0 int64 slot,1 double,2 long double
  auto puts=[&](const std::string&t){ for(char ch:t) out.push_back(VC((u8)ch)); };
  size_t i=0; while(i<f.size()){ if(f[i]!='%'){ out.push_back(VC((u8)f[i++])); continue; } size_t j=i+1; std::string spec="%"; int lng=0,sh=0; bool L=false;
    while(j<f.size()&&strchr("-+ #0123456789.*hlLzjt",f[j])){ if(f[j]=='*'){ int v=(int)concz(S,arg(0),64); if(v<0&&spec.back()=='.') spec.pop_back(); else spec+=std::to_string(v); } else if(f[j]=='l'||f[j]=='z'||f[j]=='j'||f[j]=='t') lng++; else if(f[j]=='L') L=true; else if(f[j]=='h') sh++; else spec+=f[j]; j++; }
    char c=j<f.size()?f[j]:0; char buf[6000]; if(c==0) break; 
    bool left=false,plus=false,spc=false,alt=false,zero=false; size_t q=1; while(q<spec.size()&&strchr("-+ #0",spec[q])){ char z=spec[q++]; left|=z=='-'; plus|=z=='+'; spc|=z==' '; alt|=z=='#'; zero|=z=='0'; } size_t width=0; while(q<spec.size()&&isdigit(spec[q])) width=width*10+(spec[q++]-'0'); i64 prec=-1; if(q<spec.size()&&spec[q]=='.') prec=atoi(spec.c_str()+q+1); if(left) zero=false;
    u32 w=lng>0?64:sh==1?16:sh>1?8:32;
    auto field=[&](const std::string&pre,const FmtOut&body,bool z){ size_t n=pre.size()+body.size(), pad=width>n?width-n:0; if(!left&&!z) for(size_t x=0;x<pad;x++) out.push_back(VC(' ')); puts(pre); if(z) for(size_t x=0;x<pad;x++) out.push_back(VC('0')); out.insert(out.end(),body.begin(),body.end()); if(left) for(size_t x=0;x<pad;x++) out.push_back(VC(' ')); };
    switch(c){ case '%': puts("%"); break; case 'c': field("",{VE(fitE(arg(0),8))},false); break;
     case 'd': case 'i': case 'u': case 'x': case 'X': case 'o':{ E v=fitE(arg(0),w); bool sg=c=='d'||c=='i', neg=false; if(sg){ neg=decide(S,mkE(O_SLT,1,v,kc(0,w))); if(neg) v=mkE(O_SUB,w,kc(0,w),v); }
       u64 base=c=='x'||c=='X'?16:c=='o'?8:10; size_t n=1; u128 lim=base; while(lim<=maskw(w)&&decide(S,mkNot(mkE(O_ULT,1,v,kc(lim,w))))){ n++; lim*=base; }
       bool isz=false; if(prec==0||(alt&&base!=10)) isz=n==1&&decide(S,mkEq(v,kc(0,w))); if(isz&&prec==0) n=0;
       FmtOut b; for(i64 x=(i64)n;x<prec;x++) b.push_back(VC('0')); u128 dv=1; for(size_t x=1;x<n;x++) dv*=base; for(size_t x=0;x<n;x++,dv/=base){ E dg=mkEx(mkE(O_UREM,w,dv==1?v:mkE(O_UDIV,w,v,kc(dv,w)),kc(base,w)),0,8); if(x==0&&n>=1) dg=mkEx(dv==1?v:mkE(O_UDIV,w,v,kc(dv,w)),0,8); E ch=mkE(O_ADD,8,dg,kc('0',8)); if(base==16) ch=mkIte(mkE(O_ULT,1,dg,kc(10,8)),ch,mkE(O_ADD,8,dg,kc((c=='x'?'a':'A')-10,8))); b.push_back(VE(ch)); }
       std::string pre=sg?(neg?"-":plus?"+":spc?" ":""):""; if(alt&&base==16&&!isz) pre=c=='x'?"0x":"0X"; if(alt&&base==8&&(b.empty()||!isz)&&!(b.size()&&b[0].conc()&&b[0].c=='0')) b.insert(b.begin(),VC('0')); field(pre,b,zero&&prec<0); break; }
     case 'p': snprintf(buf,sizeof buf,"0x%llx",(unsigned long long)concz(S,arg(0),64)); { FmtOut b; for(char*x=buf;*x;x++) b.push_back(VC((u8)*x)); field("",b,false); } break;
     case 's':{ u64 p=ptrOf(S,arg(0)); FmtOut b; while(prec<0||(i64)b.size()<prec){ u32 id,off; RC rc; if(!resolve(S,p+b.size(),1,false,id,off,rc)) return rc; if(!checkRace(S,id,off,1,0,rc)) return rc; Val v=rdBytes(S,id,off,1,8); if(v.conc()? v.c==0 : decide(S,mkEq(v.e(),kc(0,8)))) break; b.push_back(v); } field("",b,false); break; }
     case 'f': case 'g': case 'e': case 'G': case 'E': case 'F': case 'a':{ if(L){ Val v=arg(2); E e=toE(v,80); u128 b=isc(e)?e->val: evalE(e,*S.model); if(!isc(e)) if(!decide(S,mkEq(e,kc(b,80)))) return R_END; spec+="L"; spec+=c; snprintf(buf,sizeof buf,spec.c_str(),f_of(b,80)); } else { Val v=arg(1); if(optSymFloat&&!v.conc()&&!isc(v.e())){ puts("<float>"); break; } u64 b=concz(S,v,64); double d; memcpy(&d,&b,8); spec+=c; snprintf(buf,sizeof buf,spec.c_str(),d); } puts(buf); break; }
     default: incomplete.insert("printf format "+f); return R_END; }
    i=j+1; } return R_NEXT; }
static RC putStr(State&S,u64 d,const FmtOut&s,u64 n){ if(!n) return R_NEXT; u64 k=std::min<u64>(s.size(),n-1); u32 id,off; RC rc; if(!resolve(S,d,k+1,true,id,off,rc)) return rc; if(!checkRace(S,id,off,k+1,1,rc)) return rc; for(u64 i=0;i<k;i++) wrBytes(S,id,off+i,1,s[i],8); wrBytes(S,id,off+k,1,VC(0),8); return R_NEXT; }
HH(h_vsnprintf){ u64 d=ptrOf(S,a[0]), n=concz(S,a[1],64); std::string f=cstr(S,ptrOf(S,a[2])); u64 va=ptrOf(S,a[3]); bool ok=true; u64 ov=ld64(S,va+8,ok); if(!ok) return viol(S,"wild-pointer","va_list"); FmtOut out; bool bad=false; auto arg=[&](int k)->Val{ if(k==2) ov=(ov+15)&~15ull; u32 id,off; RC rc; if(!resolve(S,ov,k==2?10:8,false,id,off,rc)){ bad=true; return VC(0); } Val v=rdBytes(S,id,off,k==2?10:8,k==2?80:64); ov+=k==2?16:8; return v; }; RC rc=fmtPrint(S,f,arg,out); if(rc!=R_NEXT) return rc; if(bad) return R_END; rc=putStr(S,d,out,n); ret=VC((u64)(u32)out.size()); return rc; }
HH(h_snprintf){ u64 d=ptrOf(S,a[0]), n=concz(S,a[1],64); std::string f=cstr(S,ptrOf(S,a[2])); size_t k=3; FmtOut out; auto arg=[&](int)->Val{ return k<a.size()?a[k++]:VC(0); }; RC rc=fmtPrint(S,f,arg,out); if(rc!=R_NEXT) return rc; rc=putStr(S,d,out,n); ret=VC((u64)(u32)out.size()); return rc; }
HH(h_sprintf){ u64 d=ptrOf(S,a[0]); std::string f=cstr(S,ptrOf(S,a[1])); size_t k=2; FmtOut out; auto arg=[&](int)->Val{ return k<a.size()?a[k++]:VC(0); }; RC rc=fmtPrint(S,f,arg,out); if(rc!=R_NEXT) return rc; rc=putStr(S,d,out,1<<20); ret=VC((u64)(u32)out.size()); return rc; }
// libm on concrete values (symbolic arguments fork over their values), long double for the l-variants
static u128 conc128(State&S,const Val&v,u32 w){ if(w<=64) return concz(S,v,w); E e=toE(v,w); if(isc(e)) return e->val; while(1){ u128 m=evalE(e,*S.model)&maskw(w); if(decide(S,mkEq(e,kc(m,w)))) return m; } }
static u32 argW(DInst&I,int k){ return bitsOf(cast<CallBase>(I.I)->getArgOperand(k)->getType()); }
static Val fval(long double x,u32 w){ u128 v=f_to(x,w); return w<=64? VC((u64)v): VE(kc(v,w)); }
static const std::map<std::string,long double(*)(long double)>& libm1(){ static const std::map<std::string,long double(*)(long double)> m={ {"sqrt",sqrtl},{"exp",expl},{"exp2",exp2l},{"log",logl},{"log10",log10l},{"log2",log2l},{"log1p",log1pl},{"expm1",expm1l},{"sin",sinl},{"cos",cosl},{"tan",tanl},{"asin",asinl},{"acos",acosl},{"atan",atanl},{"sinh",sinhl},{"cosh",coshl},{"tanh",tanhl},{"cbrt",cbrtl},{"fabs",fabsl},{"floor",floorl},{"ceil",ceill},{"trunc",truncl},{"round",roundl},{"rint",rintl},{"nearbyint",nearbyintl} }; return m; }
static const std::map<std::string,long double(*)(long double,long double)>& libm2(){ static const std::map<std::string,long double(*)(long double,long double)> m={ {"pow",powl},{"fmod",fmodl},{"hypot",hypotl},{"atan2",atan2l},{"fmax",fmaxl},{"fmin",fminl},{"fdim",fdiml},{"copysign",copysignl},{"remainder",remainderl} }; return m; }
static double libm64(const std::string&n,double x,double y,bool two){ if(!two){ if(n=="sqrt") return sqrt(x); if(n=="exp") return exp(x); if(n=="log") return log(x); if(n=="log10") return log10(x); if(n=="log2") return log2(x); if(n=="sin") return sin(x); if(n=="cos") return cos(x); return (double)libm1().at(n)(x); } if(n=="pow") return pow(x,y); return (double)libm2().at(n)(x,y); }
static std::string mbase(std::string n,u32 w){ if(n.compare(0,5,"llvm.")==0){ n=n.substr(5,n.rfind('.')-5); return n=="maxnum"?"fmax":n=="minnum"?"fmin":n; } if((w==80&&n.back()=='l'&&n!="ceil")||(w==32&&n.back()=='f')) n.pop_back(); return n; }
HH(h_libm1){ u32 w=argW(I,0); u128 x=conc128(S,a[0],w); std::string n=mbase(I.callee->name,w); if(w==64){ ret=fval(libm64(n,(double)f_of(x,w),0,false),64); } else ret=fval(libm1().at(n)(f_of(x,w)),w); return R_NEXT; }
HH(h_libm2){ u32 w=argW(I,0); u128 x=conc128(S,a[0],w),y=conc128(S,a[1],w); std::string n=mbase(I.callee->name,w); if(w==64) ret=fval(libm64(n,(double)f_of(x,w),(double)f_of(y,w),true),64); else ret=fval(libm2().at(n)(f_of(x,w),f_of(y,w)),w); return R_NEXT; }
HH(h_lround){ u32 w=argW(I,0); long double x=f_of(conc128(S,a[0],w),w); bool rnd=I.callee->name.find("round")!=std::string::npos; ret=VC((u64)(rnd?llroundl(x):llrintl(x))&(u64)maskw(I.w)); return R_NEXT; }
HH(h_ldexp){ u32 w=argW(I,0); long double x=f_of(conc128(S,a[0],w),w); int k=(int)concz(S,a[1],32); ret=fval(ldexpl(x,k),w); return R_NEXT; }
HH(h_frexp){ u32 w=argW(I,0); long double x=f_of(conc128(S,a[0],w),w); u64 p=ptrOf(S,a[1]); int k=0; long double r=frexpl(x,&k); u32 id,off; RC rc; if(!resolve(S,p,4,true,id,off,rc)) return rc; wrBytes(S,id,off,4,VC((u32)k),32); ret=fval(r,w); return R_NEXT; }
HH(h_frexpi){ u32 w=argW(I,0); long double x=f_of(conc128(S,a[0],w),w); int k=0; long double r=frexpl(x,&k); ret=VA({fval(r,w),VC((u32)k)}); return R_NEXT; }
HH(h_modf){ u32 w=argW(I,0); long double x=f_of(conc128(S,a[0],w),w); u64 p=ptrOf(S,a[1]); long double ip; long double r=modfl(x,&ip); u32 id,off,n=(w+7)/8; RC rc; if(!resolve(S,p,n,true,id,off,rc)) return rc; wrBytes(S,id,off,n,fval(ip,w),w); ret=fval(r,w); return R_NEXT; }
HH(h_nextafter){ u32 w=argW(I,0); u128 x=conc128(S,a[0],w),y=conc128(S,a[1],w); long double r= w==32? (long double)nextafterf((float)f_of(x,w),(float)f_of(y,w)): w==64? (long double)nextafter((double)f_of(x,w),(double)f_of(y,w)): nextafterl(f_of(x,w),f_of(y,w)); ret=fval(r,w); return R_NEXT; }
HH(h_strtod){ std::string s=cstr(S,ptrOf(S,a[0])); char*e; double d=strtod(s.c_str(),&e); u64 ep=ptrOf(S,a[1]); if(ep) st64(S,ep,ptrOf(S,a[0])+(e-s.c_str())); u64 b; memcpy(&b,&d,8); ret=VC(b); return R_NEXT; }
// RTTI
HH(h_dyncast){ u64 p=ptrOf(S,a[0]); u64 dst=ptrOf(S,a[2]); u32 id,off; RC rc; if(!resolve(S,p,8,false,id,off,rc)) return rc; bool ok=true; u64 vt=ld64(S,p,ok); if(!ok) return viol(S,"wild-pointer","dynamic_cast on a corrupted object"); i64 top=(i64)ld64(S,vt-16,ok); u64 ti=ld64(S,vt-8,ok); if(!ok) return viol(S,"wild-pointer","dynamic_cast on a corrupted object"); u64 full=p+top; u64 adj; ret=VC(tiBase(S,ti,dst,full,adj)?adj:0); return R_NEXT; }
// TLS
HH(h_tls){ u64 t=a[0].c; u32 tid=t>>24; auto&m=S.T().tls; auto it=m.find(tid); u32 id; if(it!=m.end()) id=it->second; else { const GlobalVariable*g=tlsTempl[tid]; u64 sz=DL->getTypeAllocSize(g->getValueType()); id=newObj(S,sz,K_TLS,false); S.mem.getW(id)->norace=rtSyms.count(g->getName().str()); if(g->hasInitializer()) initMem(S,id,0,g->getInitializer()); m[tid]=id; } ret=VC(addrOf(id)+(t&0xffffff)-OBASE); return R_NEXT; }
// LLVM intrinsics
HH(h_nop){ return R_NEXT; }
HH(h_id){ ret=a[0]; return R_NEXT; }
HH(h_lifetime_start){ u64 p=ptrOf(S,a[1]); u32 id=p>>24; Obj*o=S.mem.get(id); if(!o||!o->alive||o->kind!=K_STACK) return R_NEXT; o=S.mem.getW(id); if(o->size){ o->needM(); memset(o->m,2,o->size); } delete o->sh; o->sh=0; return R_NEXT; }
HH(h_trap){ return viol(S,"trap","llvm.trap"); }
HH(h_typeid){ ret=VC((u64)selId(a[0].c)); return R_NEXT; }
static const llvm::Type* retTy(DInst&I){ return I.ty; }
static Val binop(State&S,unsigned op,const Val&x,const Val&y,u32 w,RC&rc);
HH(h_minmax){ Intrinsic::ID id=cast<IntrinsicInst>(I.I)->getIntrinsicID(); u32 w=I.w; E x=toE(a[0],w),y=toE(a[1],w); Op o=(id==Intrinsic::smax||id==Intrinsic::smin)?O_SLT:O_ULT; E lt=mkE(o,1,x,y); bool mx=id==Intrinsic::smax||id==Intrinsic::umax; ret=VE(mx?mkIte(lt,y,x):mkIte(lt,x,y)); return R_NEXT; }
HH(h_iabs){ u32 w=I.w; E x=toE(a[0],w); ret=VE(mkIte(mkE(O_SLT,1,x,kc(0,w)),mkE(O_SUB,w,kc(0,w),x),x)); return R_NEXT; }
HH(h_ctlz){ u32 w=I.w; if(a[0].conc()){ u64 v=a[0].c; u32 n=0; while(n<w&&!((v>>(w-1-n))&1)) n++; ret=VC(n); return R_NEXT; } E x=a[0].e(); E r=kc(w,w); for(u32 i=0;i<w;i++) r=mkIte(mkEx(x,i,1),kc(w-1-i,w),r); ret=VE(r); return R_NEXT; }
HH(h_cttz){ u32 w=I.w; E x=toE(a[0],w); E r=kc(w,w); for(int i=w-1;i>=0;i--) r=mkIte(mkEx(x,i,1),kc(i,w),r); ret=VE(r); return R_NEXT; }
HH(h_ctpop){ u32 w=I.w; E x=toE(a[0],w); E r=kc(0,w); for(u32 i=0;i<w;i++) r=mkE(O_ADD,w,r,mkZ(mkEx(x,i,1),w)); ret=VE(r); return R_NEXT; }
HH(h_bswap){ u32 w=I.w; E x=toE(a[0],w); E r=0; for(u32 i=0;i<w/8;i++){ E b=mkEx(x,i*8,8); r= r? mkE(O_CONCAT,r->w+8,r,b): b; } ret=VE(r); return R_NEXT; }
HH(h_fshl){ u32 w=I.w; bool right=cast<IntrinsicInst>(I.I)->getIntrinsicID()==Intrinsic::fshr; E x=toE(a[0],w),y=toE(a[1],w),s=mkE(O_UREM,w,toE(a[2],w),kc(w,w)); E inv=mkE(O_SUB,w,kc(w,w),s); E z=mkEq(s,kc(0,w)); if(!right) ret=VE(mkIte(z,x,mkOr(mkE(O_SHL,w,x,s),mkE(O_LSHR,w,y,inv)))); else ret=VE(mkIte(z,y,mkOr(mkE(O_SHL,w,x,inv),mkE(O_LSHR,w,y,s)))); return R_NEXT; }
HH(h_ovf){ Intrinsic::ID id=cast<IntrinsicInst>(I.I)->getIntrinsicID(); u32 w=bitsOf(I.I->getOperand(0)->getType()); E x=toE(a[0],w),y=toE(a[1],w); E r,o; 
  switch(id){ case Intrinsic::uadd_with_overflow: r=mkE(O_ADD,w,x,y); o=mkE(O_ULT,1,r,x); break; case Intrinsic::usub_with_overflow: r=mkE(O_SUB,w,x,y); o=mkE(O_ULT,1,x,y); break;
   case Intrinsic::umul_with_overflow:{ if(isc(x)&&isc(y)){ u128 m=(u128)(u64)x->val*(u64)y->val; r=kc(m,w); o=kc((m>>w)!=0,1); break; } if(isc(y)||isc(x)){ E c=isc(y)?y:x, v=isc(y)?x:y; r=mkE(O_MUL,w,v,c); o= c->val==0?kc(0,1): mkE(O_ULT,1,kc(maskw(w)/c->val,w),v); break; } E m=mkE(O_MUL,2*w,mkZ(x,2*w),mkZ(y,2*w)); r=mkEx(m,0,w); o=mkNot(mkEq(mkEx(m,w,w),kc(0,w))); break; }
   case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:{ bool sub=id==Intrinsic::ssub_with_overflow; r=mkE(sub?O_SUB:O_ADD,w,x,y); E z=mkE(sub?O_SUB:O_ADD,w+1,mkS(x,w+1),mkS(y,w+1)); o=mkNot(mkEq(z,mkS(r,w+1))); break; }
   default:{ E m=mkE(O_MUL,2*w>128?128:2*w,mkS(x,2*w),mkS(y,2*w)); r=mkEx(m,0,w); o=mkNot(mkEq(m,mkS(r,2*w))); } }
  ret=VA({VE(r),VE(o)}); return R_NEXT; }
HH(h_sat){ Intrinsic::ID id=cast<IntrinsicInst>(I.I)->getIntrinsicID(); u32 w=I.w; E x=toE(a[0],w),y=toE(a[1],w); if(id==Intrinsic::usub_sat) ret=VE(mkIte(mkE(O_ULT,1,x,y),kc(0,w),mkE(O_SUB,w,x,y))); else { E r=mkE(O_ADD,w,x,y); ret=VE(mkIte(mkE(O_ULT,1,r,x),kc(maskw(w),w),r)); } return R_NEXT; }
HH(h_vastart){ u64 p=ptrOf(S,a[0]); u32 id,off; RC rc; if(!resolve(S,p,24,true,id,off,rc)) return rc; wrBytes(S,id,off,4,VC(48),32); wrBytes(S,id,off+4,4,VC(304),32); wrBytes(S,id,off+8,8,VC(S.top().va),64); wrBytes(S,id,off+16,8,VC(0),64); return R_NEXT; }
HH(h_vacopy){ return copyMem(S,ptrOf(S,a[0]),ptrOf(S,a[1]),24); }
HH(h_stacksave){ ret=VC(0); return R_NEXT; }
HH(h_false){ ret=VC(0); return R_NEXT; }
HH(h_m1){ ret=VC(maskw(I.w)); return R_NEXT; }
HH(h_fabs){ u32 w=I.w; E x=toE(a[0],w); ret=VE(mkAnd(x,kc(maskw(w-1),w))); return R_NEXT; }
HH(h_fneg2){ u32 w=I.w; E x=toE(a[0],w); ret=VE(mkE(O_XOR,w,x,kc((u128)1<<(w-1),w))); return R_NEXT; }
HH(h_frnd){ u32 k; switch(cast<IntrinsicInst>(I.I)->getIntrinsicID()){ case Intrinsic::floor:k=0;break; case Intrinsic::ceil:k=1;break; case Intrinsic::trunc:k=2;break; case Intrinsic::round:k=3;break; default:k=4; } ret=VE(mkE(O_FRND,I.w,toE(a[0],I.w),0,0,k)); return R_NEXT; }
HH(h_fmuladd){ u32 w=I.w; ret=VE(mkE(O_FADD,w,mkE(O_FMUL,w,toE(a[0],w),toE(a[1],w)),toE(a[2],w))); return R_NEXT; }
HH(h_ffloor){ u32 k= I.callee->name=="floor"||I.callee->name=="floorf"?0: I.callee->name[0]=='c'?1: I.callee->name[0]=='t'?2: I.callee->name.compare(0,5,"round")==0?3:4; ret=VE(mkE(O_FRND,I.w,toE(a[0],I.w),0,0,k)); return R_NEXT; }
HH(h_fmaxmin){ u32 w=I.w; bool mx=I.callee->name.find("max")!=std::string::npos; E x=toE(a[0],w),y=toE(a[1],w); E lt=mkE(O_FLT,1,x,y); E r=mx?mkIte(lt,y,x):mkIte(lt,x,y); r=mkIte(mkE(O_FNAN,1,x),y,mkIte(mkE(O_FNAN,1,y),x,r)); ret=VE(r); return R_NEXT; }
HH(h_isfpclass){ u32 w=bitsOf(I.I->getOperand(0)->getType()); u64 m=a[1].c; E x=toE(a[0],w); if(w!=32&&w!=64){ incomplete.insert("is.fpclass"); return R_END; } u32 mb=w==64?52:23, eb=w==64?11:8; E ex=mkEx(x,mb,eb), ma=mkEx(x,0,mb), sg=mkEx(x,w-1,1); E e0=mkEq(ex,kc(0,eb)), e1=mkEq(ex,kc(maskw(eb),eb)), m0=mkEq(ma,kc(0,mb)), q=mkEx(x,mb-1,1), ns=mkNot(sg); E nz=mkNot(m0); E r=kc(0,1); auto add=[&](int b,E c){ if(m&(1u<<b)) r=mkOr(r,c); }; E nrm=mkAnd(mkNot(e0),mkNot(e1)); add(0,mkAnd(e1,mkAnd(nz,mkNot(q)))); add(1,mkAnd(e1,q)); add(2,mkAnd(mkAnd(e1,m0),sg)); add(3,mkAnd(nrm,sg)); add(4,mkAnd(mkAnd(e0,nz),sg)); add(5,mkAnd(mkAnd(e0,m0),sg)); add(6,mkAnd(mkAnd(e0,m0),ns)); add(7,mkAnd(mkAnd(e0,nz),ns)); add(8,mkAnd(nrm,ns)); add(9,mkAnd(mkAnd(e1,m0),ns)); ret=VE(r); return R_NEXT; }
HH(h_loadrel){ u64 p=ptrOf(S,a[0]); u64 o=concz(S,a[1],64); bool ok=true; u64 x=ld32(S,p+o,ok); if(!ok) return viol(S,"wild-pointer","load.relative"); ret=VC(p+(i64)(int)x); return R_NEXT; }
static Handler intrinsicH(const Function*F){ switch(F->getIntrinsicID()){
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return h_memcpy; case Intrinsic::memset: case Intrinsic::memset_inline: return h_memset;
  case Intrinsic::lifetime_start: return h_lifetime_start; case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_end: case Intrinsic::sideeffect: return h_nop;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptrmask: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return h_id;
  case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: return h_minmax; case Intrinsic::abs: return h_iabs; case Intrinsic::ctlz: return h_ctlz; case Intrinsic::cttz: return h_cttz; case Intrinsic::ctpop: return h_ctpop; case Intrinsic::bswap: return h_bswap; case Intrinsic::fshl: case Intrinsic::fshr: return h_fshl;
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return h_ovf; case Intrinsic::usub_sat: case Intrinsic::uadd_sat: return h_sat;
  case Intrinsic::vastart: return h_vastart; case Intrinsic::vacopy: return h_vacopy; case Intrinsic::stacksave: return h_stacksave; case Intrinsic::is_constant: return h_false; case Intrinsic::objectsize: return h_m1; case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return h_trap; case Intrinsic::eh_typeid_for: return h_typeid; case Intrinsic::threadlocal_address: return h_tls;
  case Intrinsic::fabs: return h_fabs; case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: return h_frnd; case Intrinsic::fmuladd: return h_fmuladd; case Intrinsic::is_fpclass: return h_isfpclass; case Intrinsic::load_relative: return h_loadrel;
  case Intrinsic::invariant_start: return h_false; case Intrinsic::frexp: return h_frexpi; case Intrinsic::ldexp: return h_ldexp; case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::copysign: case Intrinsic::pow: return h_libm2; case Intrinsic::sqrt: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: return h_libm1; case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint: return h_lround;
  default: return 0; } }
static void initHandlers(){ auto&h=handlers;
  for(const char*sfx:{"","f","l"}){ for(auto&p:libm1()) h[p.first+sfx]=h_libm1; for(auto&p:libm2()) h[p.first+sfx]=h_libm2; for(const char*n:{"lround","llround","lrint","llrint"}) h[std::string(n)+sfx]=h_lround; h[std::string("ldexp")+sfx]=h_ldexp; h[std::string("scalbn")+sfx]=h_ldexp; h[std::string("frexp")+sfx]=h_frexp; h[std::string("modf")+sfx]=h_modf; h[std::string("nextafter")+sfx]=h_nextafter; }
  h["__fsx_malloc"]=h_malloc; h["__fsx_free"]=h_free; h["fsx_live"]=h_live; h["fsx_dirty"]=h_dirty; h["fsx_sym"]=h_sym; h["fsx_assume"]=h_assume; h["fsx_check"]=h_check; h["fsx_reach"]=h_reach; h["fsx_observe"]=h_observe; h["fsx_param"]=h_param; h["fsx_conc"]=h_conc; h["fsx_symbolic"]=h_insym; h["__fsx_abort"]=h_rtabort; h["__fsx_debug"]=h_debug; h["__fsx_unwind"]=h_unwind; h["fsx_tid"]=h_tid;
  h["exit"]=h_exit; h["_exit"]=h_exit; h["__cxa_atexit"]=h_atexit; h["atexit"]=h_atexit; h["__cxa_thread_atexit"]=h_thread_atexit;
  h["memcpy"]=h_memcpy; h["memmove"]=h_memcpy; h["memset"]=h_memset; h["memcmp"]=h_memcmp; h["bcmp"]=h_memcmp; h["memchr"]=h_memchr; h["strlen"]=h_strlen; h["vsnprintf"]=h_vsnprintf; h["snprintf"]=h_snprintf; h["sprintf"]=h_sprintf; h["strtod"]=h_strtod;
  h["__dynamic_cast"]=h_dyncast; h["__cxa_guard_acquire"]=h_guard_acquire; h["__cxa_guard_release"]=h_guard_release; h["__cxa_guard_abort"]=h_guard_abort;
  h["pthread_mutex_lock"]=h_mutex_lock; h["pthread_mutex_trylock"]=h_mutex_trylock; h["pthread_mutex_unlock"]=h_mutex_unlock; h["pthread_mutex_clocklock"]=h_mutex_timed; h["pthread_mutex_timedlock"]=h_mutex_timed; h["pthread_rwlock_rdlock"]=h_rw_rdlock; h["pthread_rwlock_wrlock"]=h_rw_wrlock; h["pthread_rwlock_tryrdlock"]=h_rw_tryrd; h["pthread_rwlock_trywrlock"]=h_rw_trywr; h["pthread_rwlock_unlock"]=h_rw_unlock; h["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"]=h_cv_wait; h["_ZNSt18condition_variable10notify_oneEv"]=h_cv_notify_one; h["_ZNSt18condition_variable10notify_allEv"]=h_cv_notify_all; h["pthread_cond_wait"]=h_pcv_wait; h["pthread_cond_clockwait"]=h_pcv_timed; h["pthread_cond_timedwait"]=h_pcv_timed; h["pthread_cond_signal"]=h_cv_notify_one; h["pthread_cond_broadcast"]=h_cv_notify_all;
  h["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"]=h_thread_start; h["_ZNSt6thread4joinEv"]=h_thread_join; h["_ZNSt6thread6detachEv"]=h_thread_detach; h["sched_yield"]=h_yield; h["pthread_self"]=h_self;
  for(const char*n:{"floor","ceil","trunc","round","rint","nearbyint","floorf","ceilf","truncf","roundf"}) h[n]=h_ffloor; h["fabs"]=h_fabs; h["fabsf"]=h_fabs; for(const char*n:{"fmax","fmin","fmaxf","fminf"}) h[n]=h_fmaxmin; }
