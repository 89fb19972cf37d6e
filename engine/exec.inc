// ---------- instruction semantics ----------
static Val binop(State&S,unsigned op,const Val&x,const Val&y,u32 w,RC&rc){
  bool isdiv= op==Instruction::UDiv||op==Instruction::SDiv||op==Instruction::URem||op==Instruction::SRem;
  if(isdiv){ if(y.conc()? y.c==0 : decide(S,mkEq(y.e(),kc(0,w)))){ rc=viol(S,"division-by-zero","integer division by zero"); return VC(0); } }
  Op o; switch(op){ case Instruction::Add:o=O_ADD;break; case Instruction::Sub:o=O_SUB;break; case Instruction::Mul:o=O_MUL;break; case Instruction::UDiv:o=O_UDIV;break; case Instruction::SDiv:o=O_SDIV;break; case Instruction::URem:o=O_UREM;break; case Instruction::SRem:o=O_SREM;break; case Instruction::And:o=O_AND;break; case Instruction::Or:o=O_OR;break; case Instruction::Xor:o=O_XOR;break; case Instruction::Shl:o=O_SHL;break; case Instruction::LShr:o=O_LSHR;break; case Instruction::AShr:o=O_ASHR;break; case Instruction::FAdd:o=O_FADD;break; case Instruction::FSub:o=O_FSUB;break; case Instruction::FMul:o=O_FMUL;break; case Instruction::FDiv:o=O_FDIV;break; default: incomplete.insert("binary op"); rc=R_END; return VC(0); }
  if(w<=64&&x.conc()&&y.conc()){ u64 a=x.c,b=y.c,m=w==64?~0ull:((1ull<<w)-1); switch(o){ case O_ADD:return VC((a+b)&m); case O_SUB:return VC((a-b)&m); case O_MUL:return VC((a*b)&m); case O_AND:return VC(a&b); case O_OR:return VC(a|b); case O_XOR:return VC(a^b); case O_SHL:return VC(b>=w?0:(a<<b)&m); case O_LSHR:return VC(b>=w?0:a>>b); default: return VC((u64)opval(o,w,0,a,w,b,w,0)); } }
  return VE(mkE(o,w,toE(x,w),toE(y,w))); }
static Val icmp(unsigned p,const Val&x,const Val&y,u32 w){
  if(w<=64&&x.conc()&&y.conc()){ u64 a=x.c,b=y.c; i64 sa=(i64)sextw(a,w),sb=(i64)sextw(b,w); switch(p){ case CmpInst::ICMP_EQ:return VC(a==b); case CmpInst::ICMP_NE:return VC(a!=b); case CmpInst::ICMP_ULT:return VC(a<b); case CmpInst::ICMP_ULE:return VC(a<=b); case CmpInst::ICMP_UGT:return VC(a>b); case CmpInst::ICMP_UGE:return VC(a>=b); case CmpInst::ICMP_SLT:return VC(sa<sb); case CmpInst::ICMP_SLE:return VC(sa<=sb); case CmpInst::ICMP_SGT:return VC(sa>sb); default:return VC(sa>=sb); } }
  E a=toE(x,w),b=toE(y,w); switch(p){ case CmpInst::ICMP_EQ:return VE(mkEq(a,b)); case CmpInst::ICMP_NE:return VE(mkNot(mkEq(a,b))); case CmpInst::ICMP_ULT:return VE(mkE(O_ULT,1,a,b)); case CmpInst::ICMP_ULE:return VE(mkE(O_ULE,1,a,b)); case CmpInst::ICMP_UGT:return VE(mkE(O_ULT,1,b,a)); case CmpInst::ICMP_UGE:return VE(mkE(O_ULE,1,b,a)); case CmpInst::ICMP_SLT:return VE(mkE(O_SLT,1,a,b)); case CmpInst::ICMP_SLE:return VE(mkE(O_SLE,1,a,b)); case CmpInst::ICMP_SGT:return VE(mkE(O_SLT,1,b,a)); default:return VE(mkE(O_SLE,1,b,a)); } }
static Val fcmp(unsigned p,const Val&x,const Val&y,u32 w){ E a=toE(x,w),b=toE(y,w); E nan=mkOr(mkE(O_FNAN,1,a),mkE(O_FNAN,1,b)); auto base=[&](unsigned q)->E{ switch(q&7){ case 0: return kc(0,1); case 1: return mkE(O_FEQ,1,a,b); case 2: return mkE(O_FLT,1,b,a); case 3: return mkE(O_FLE,1,b,a); case 4: return mkE(O_FLT,1,a,b); case 5: return mkE(O_FLE,1,a,b); case 6: return mkOr(mkE(O_FLT,1,a,b),mkE(O_FLT,1,b,a)); default: return mkNot(nan);} };
  if(p==CmpInst::FCMP_FALSE) return VC(0); if(p==CmpInst::FCMP_TRUE) return VC(1); if(p<8) return VE(base(p)); if(p==CmpInst::FCMP_UNO) return VE(nan); return VE(mkOr(nan,base(p&7))); }
static Val castop(State&S,unsigned op,const Val&x,u32 wf,u32 wt,RC&rc){ switch(op){
  case Instruction::Trunc: if(x.conc()) return VC(x.c&(u64)maskw(wt)); return VE(mkEx(x.e(),0,wt));
  case Instruction::ZExt: if(x.conc()&&wt<=64) return x; return VE(mkZ(toE(x,wf),wt));
  case Instruction::SExt: if(x.conc()&&wt<=64) return VC((u64)sextw(x.c,wf)&(u64)maskw(wt)); return VE(mkS(toE(x,wf),wt));
  case Instruction::PtrToInt: case Instruction::IntToPtr: if(wf==wt) return x; if(wt<wf) return VE(mkEx(toE(x,wf),0,wt)); return VE(mkZ(toE(x,wf),wt));
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return x;
  case Instruction::FPToSI: return VE(mkE(O_FTOSI,wt,toE(x,wf))); case Instruction::FPToUI: return VE(mkE(O_FTOUI,wt,toE(x,wf))); case Instruction::SIToFP: return VE(mkE(O_SITOF,wt,toE(x,wf))); case Instruction::UIToFP: return VE(mkE(O_UITOF,wt,toE(x,wf))); case Instruction::FPExt: return VE(mkE(O_FEXT,wt,toE(x,wf))); case Instruction::FPTrunc: return VE(mkE(O_FTRUNC,wt,toE(x,wf)));
  default: incomplete.insert("cast"); rc=R_END; return VC(0); } }
static Val matA(State&S,const Val&v){ if(v.agg()){ AggV a; for(auto&x:aggOf(v)) a.push_back(matA(S,x)); return VA(a);} return mat(S,v); }
static Val selV(State&S,E c,const Val&x,const Val&y,Type*t){ if(isAgg(t)){ std::vector<std::pair<Type*,u64>> s; subTypes(t,s); AggV a; for(size_t i=0;i<s.size();i++) a.push_back(selV(S,c,aggOf(x)[i],aggOf(y)[i],s[i].first)); return VA(a); } u32 w=bitsOf(t); return VE(mkIte(c,toE(mat(S,x),w),toE(mat(S,y),w))); }
static Val insV(const Val&agg,ArrayRef<unsigned> idx,const Val&v){ AggV a=aggOf(agg); a[idx[0]]= idx.size()==1? v: insV(a[idx[0]],idx.slice(1),v); return VA(a); }
static bool rmwEnabledChanged(const Val&o,const Val&n){ return !(o.p==n.p&&o.c==n.c); }
static RC step(State&S,Frame&f,DInst&I){
  RC rc=R_NEXT; 
#define GV(i) getv(S,f,I.o[i])
#define SET(v) do{ Val _v=(v); Frame&_f=S.topW(); _f.r[I.dst]=_v; _f.ip++; return R_JUMP; }while(0)
  switch(I.op){
  case Instruction::Alloca:{ u64 n=concz(S,GV(0),64); u32 id=newObj(S,I.imm*n,K_STACK,true); Frame&g=S.topW(); g.allocas.push_back(id); g.r[I.dst]=VC(addrOf(id)); g.ip++; return R_JUMP; }
  case Instruction::Load:{ Val pv=GV(0); 
    if(!pv.conc()&&!I.sub){ Val out; if(!isAgg(I.ty)&&symRead(S,pv.e(),I.ty,out)) SET(out); }
    u64 p=ptrOf(S,pv); u32 n=(u32)DL->getTypeStoreSize(I.ty); u32 id,off;
    if(I.sub){ if(!atomPre(S,I,p,n,false,false,id,off,rc)) return rc; if(!checkRace(S,id,off,n,2,rc)) return rc; atRead(S,p,(int)I.imm); Val v=ldT(S,id,off,I.ty); spinNote(S,I,p,false); atomPost(S,p,false); SET(v); }
    if(!resolve(S,p,n,false,id,off,rc)) return rc; if(!checkRace(S,id,off,n,0,rc)) return rc; SET(ldT(S,id,off,I.ty)); }
  case Instruction::Store:{ Val v=getraw(f,I.o[0]); u64 p=ptrOf(S,GV(1)); u32 n=(u32)DL->getTypeStoreSize(I.ty); u32 id,off;
    if(I.sub){ v=mat(S,v); if(!atomPre(S,I,p,n,false,true,id,off,rc)) return rc; if(!checkRace(S,id,off,n,3,rc)) return rc; Val old=ldT(S,id,off,I.ty); stT(S,id,off,I.ty,v); atWrite(S,p,(int)I.imm,false); bool ch=rmwEnabledChanged(old,v); if(multi(S)) { if(ch) bumpVer(S,p); progress(S); doneOp(S); } S.topW().ip++; return R_JUMP; }
    if(!resolve(S,p,n,true,id,off,rc)) return rc; if(!checkRace(S,id,off,n,1,rc)) return rc; stT(S,id,off,I.ty,v); S.topW().ip++; return R_JUMP; }
  case Instruction::GetElementPtr:{ Val b=GV(0); if(b.agg()){ incomplete.insert("vector gep"); return R_END; } i64 off=I.imm; E sy=0; for(size_t i=0;i<I.gep.size();i++){ Val ix=getv(S,f,I.gep[i].first); u32 w=I.o[1+i]; if(ix.conc()) off+=(i64)sextw(ix.c,w)*I.gep[i].second; else { E t=w<64?mkS(ix.e(),64):ix.e(); t=mkE(O_MUL,64,t,kc((u64)I.gep[i].second,64)); sy=sy?mkE(O_ADD,64,sy,t):t; } } if(!sy&&b.conc()) SET(VC(b.c+off)); E r=toE(b,64); if(off) r=mkE(O_ADD,64,r,kc((u64)off,64)); if(sy) r=mkE(O_ADD,64,r,sy); SET(VE(r)); }
  case Instruction::ICmp:{ Val x=GV(0),y=GV(1); if(x.agg()){ AggV a; u32 w=bitsOf(cast<VectorType>(I.I->getOperand(0)->getType())->getElementType()); for(size_t i=0;i<aggOf(x).size();i++) a.push_back(icmp(I.sub,mat(S,aggOf(x)[i]),mat(S,aggOf(y)[i]),w)); SET(VA(a)); } SET(icmp(I.sub,x,y,I.w2)); }
  case Instruction::FCmp:{ Val x=GV(0),y=GV(1); if(x.agg()){ incomplete.insert("vector fcmp"); return R_END; } SET(fcmp(I.sub,x,y,I.w2)); }
  case Instruction::Br:{ if(I.o.size()==1){ jumpTo(S,S.topW(),I.b0); return R_JUMP; } Val c=GV(0); bool t; if(c.conc()) t=c.c&1; else t=decide(S,c.e()); jumpTo(S,S.topW(),t?I.b0:I.b1); return R_JUMP; }
  case Instruction::Switch:{ Val c=GV(0); u32 w=I.w2; if(c.conc()){ for(size_t i=2;i+1<I.o.size();i+=2) if(getraw(f,I.o[i]).c==c.c){ jumpTo(S,S.topW(),I.o[i+1]); return R_JUMP; } jumpTo(S,S.topW(),I.o[1]); return R_JUMP; }
    // group by target, most plausible (model) first
    std::map<u32,E> g; for(size_t i=2;i+1<I.o.size();i+=2){ E q=mkEq(c.e(),kc(getraw(f,I.o[i]).c,w)); auto it=g.find(I.o[i+1]); if(it==g.end()) g[I.o[i+1]]=q; else it->second=mkOr(it->second,q); }
    for(auto&p:g){ if(decide(S,p.second)){ jumpTo(S,S.topW(),p.first); return R_JUMP; } } jumpTo(S,S.topW(),I.o[1]); return R_JUMP; }
  case Instruction::Select:{ Val c=GV(0); Val x=getraw(f,I.o[1]),y=getraw(f,I.o[2]); if(c.agg()){ AggV a; auto*et=cast<VectorType>(I.ty)->getElementType(); for(size_t i=0;i<aggOf(c).size();i++){ Val ci=mat(S,aggOf(c)[i]); a.push_back(ci.conc()?(ci.c?aggOf(x)[i]:aggOf(y)[i]):selV(S,ci.e(),aggOf(x)[i],aggOf(y)[i],et)); } SET(VA(a)); } if(c.conc()) SET(matA(S,c.c&1?x:y));
    if(I.ty->isPointerTy()||isAgg(I.ty)){ Val xx=matA(S,x),yy=matA(S,y); if(!(xx.p==yy.p&&xx.c==yy.c)){ bool t=decide(S,c.e()); SET(t?xx:yy);} SET(xx); }
    SET(selV(S,c.e(),x,y,I.ty)); }
  case Instruction::Ret:{ if(I.o.empty()) return doRet(S,VC(0),false); return doRet(S,matA(S,getraw(f,I.o[0])),true); }
  case Instruction::Call: case Instruction::Invoke:{ std::vector<Val> a; size_t n=cast<CallBase>(I.I)->arg_size(); a.reserve(n); for(size_t i=0;i<n;i++) a.push_back(I.o[i]==INT32_MIN?VC(0):getv(S,f,I.o[i])); DFunc*d=I.callee; Handler h=I.h;
    if(!d){ u64 p=ptrOf(S,getv(S,f,I.o[n])); auto it=funcObj.find((u32)(p>>24)); if(it==funcObj.end()||(p&0xffffff)!=OBASE) return viol(S,p<0x1000000?"null-call":"wild-call","call through an invalid function pointer"); d=it->second; h=d->h; if(!h&&d->F->isDeclaration()){ if(d->name=="__cxa_pure_virtual") return viol(S,"pure-virtual","pure virtual call"); incomplete.insert("unmodelled external function "+d->name); unmodelled.insert(d->name); return R_END; } }
    if(h){ Val ret; DFunc*sv=I.callee; I.callee=d; RC r=h(S,I,a,ret); I.callee=sv; if(r!=R_NEXT) return r; Frame&g=S.topW(); if(I.dst>=0) { if(ret.conc()&&I.w&&I.w<64) ret.c&=(u64)maskw(I.w); else if(!ret.conc()&&!ret.agg()&&I.w&&ret.e()->w>I.w) ret=VE(mkEx(ret.e(),0,I.w)); g.r[I.dst]=ret; } if(I.op==Instruction::Invoke) jumpTo(S,g,I.b0); else g.ip++; return R_JUMP; }
    if(d->lens) for(u32 i=0;i<a.size()&&i<d->F->arg_size();i++) if(!a[i].conc()&&!a[i].undef()&&!a[i].agg()&&d->F->getArg(i)->getType()->isIntegerTy(64)) a[i]=VC(concz(S,a[i],64)); // lengths of text are explored one by one, the text itself stays symbolic
    return pushCall(S,d,a,&I); }
  case Instruction::LandingPad:{ SET(VA({VC(S.T().exc),VC((u64)(u32)S.T().sel)})); }
  case Instruction::Resume:{ Val v=GV(0); return unwind(S,aggOf(v)[0].c); }
  case Instruction::Unreachable: return viol(S,"unreachable","execution reached unreachable code (undefined behaviour)");
  case Instruction::ExtractValue:{ Val v=getraw(f,I.o[0]); for(unsigned i:cast<ExtractValueInst>(I.I)->indices()){ Val t=aggOf(v)[i]; v=t; } SET(matA(S,v)); }
  case Instruction::InsertValue:{ SET(insV(getraw(f,I.o[0]),cast<InsertValueInst>(I.I)->getIndices(),getraw(f,I.o[1]))); }
  case Instruction::ExtractElement:{ Val v=getraw(f,I.o[0]); u64 i=concz(S,GV(1),64); if(i>=aggOf(v).size()) i=0; SET(mat(S,aggOf(v)[i])); }
  case Instruction::InsertElement:{ Val v=getraw(f,I.o[0]); u64 i=concz(S,GV(2),64); AggV a=aggOf(v); if(i<a.size()) a[i]=getraw(S.topW(),I.o[1]); SET(VA(a)); }
  case Instruction::ShuffleVector:{ Val x=getraw(f,I.o[0]),y=getraw(f,I.o[1]); auto*sv=cast<ShuffleVectorInst>(I.I); AggV a; size_t n=aggOf(x).size(); u32 w=bitsOf(cast<VectorType>(I.ty)->getElementType()); for(int m:sv->getShuffleMask()){ if(m<0){ Val u; u.c=w; u.p=2; a.push_back(u); } else a.push_back((size_t)m<n?aggOf(x)[m]:aggOf(y)[m-n]); } SET(VA(a)); }
  case Instruction::Freeze: SET(matA(S,getraw(f,I.o[0])));
  case Instruction::FNeg:{ Val x=GV(0); if(x.agg()){ incomplete.insert("vector fneg"); return R_END; } SET(VE(mkE(O_XOR,I.w,toE(x,I.w),kc((u128)1<<(I.w-1),I.w)))); }
  case Instruction::AtomicRMW:{ u64 p=ptrOf(S,GV(0)); Val v=GV(1); u32 w=I.w,n=w/8; u32 id,off; if(!atomPre(S,I,p,n,true,true,id,off,rc)) return rc; if(!checkRace(S,id,off,n,3,rc)) return rc; Val old=rdBytes(S,id,off,n,w); E o=toE(old,w),x=toE(v,w),r; switch(I.sub){ case AtomicRMWInst::Xchg:r=x;break; case AtomicRMWInst::Add:r=mkE(O_ADD,w,o,x);break; case AtomicRMWInst::Sub:r=mkE(O_SUB,w,o,x);break; case AtomicRMWInst::And:r=mkAnd(o,x);break; case AtomicRMWInst::Or:r=mkOr(o,x);break; case AtomicRMWInst::Xor:r=mkE(O_XOR,w,o,x);break; case AtomicRMWInst::Nand:r=mkE(O_XOR,w,mkAnd(o,x),kc(maskw(w),w));break; case AtomicRMWInst::Max:r=mkIte(mkE(O_SLT,1,o,x),x,o);break; case AtomicRMWInst::Min:r=mkIte(mkE(O_SLT,1,o,x),o,x);break; case AtomicRMWInst::UMax:r=mkIte(mkE(O_ULT,1,o,x),x,o);break; case AtomicRMWInst::UMin:r=mkIte(mkE(O_ULT,1,o,x),o,x);break; default: incomplete.insert("atomicrmw op"); return R_END; }
    Val nv=VE(r); bool ch=rmwEnabledChanged(old,nv); atRead(S,p,(int)I.imm); wrBytes(S,id,off,n,nv,w); atWrite(S,p,(int)I.imm,true); if(!I.noSched) spinNote(S,I,p,ch); if(!I.noSched) atomPost(S,p,ch); SET(old); }
  case Instruction::AtomicCmpXchg:{ u64 p=ptrOf(S,GV(0)); Val ex=GV(1),nw=GV(2); u32 w=I.w,n=w/8; u32 id,off; if(!atomPre(S,I,p,n,true,true,id,off,rc)) return rc; if(!checkRace(S,id,off,n,2,rc)) return rc; Val old=rdBytes(S,id,off,n,w); E eq=mkEq(toE(old,w),toE(ex,w)); bool ok=isc(eq)?eq->val!=0:decide(S,eq); 
    if(ok){ if(!checkRace(S,id,off,n,3,rc)) return rc; atRead(S,p,(int)I.imm); wrBytes(S,id,off,n,nw,w); atWrite(S,p,(int)I.imm,true); } else atRead(S,p,(int)I.sub); bool ch=ok&&rmwEnabledChanged(old,nw); if(!I.noSched){ if(!ok) spinNote(S,I,p,false); atomPost(S,p,ch); if(ok) progress(S); } SET(VA({old,VC(ok)})); }
  case Instruction::Fence:{ auto&T=S.T(); if(isAcq((int)I.imm)) vjoin(T.vc,T.acqf); if(isRel((int)I.imm)){ T.relf=T.vc; tick(S); } S.topW().ip++; return R_JUMP; }
  case Instruction::VAArg: incomplete.insert("va_arg instruction"); return R_END;
  default: break; }
  if(Instruction::isBinaryOp(I.op)){ Val x=GV(0),y=GV(1); if(x.agg()){ AggV a; u32 w=bitsOf(cast<VectorType>(I.ty)->getElementType()); for(size_t i=0;i<aggOf(x).size();i++){ Val xi=mat(S,aggOf(x)[i]),yi=mat(S,aggOf(y)[i]); a.push_back(binop(S,I.op,xi,yi,w,rc)); if(rc!=R_NEXT) return rc; } SET(VA(a)); } Val r=binop(S,I.op,x,y,I.w,rc); if(rc!=R_NEXT) return rc; SET(r); }
  if(Instruction::isCast(I.op)){ Val x=GV(0); Type*ft=I.I->getOperand(0)->getType(); bool va=ft->isVectorTy(),vb=I.ty->isVectorTy(); if(va&&vb&&cast<VectorType>(ft)->getElementCount()==cast<VectorType>(I.ty)->getElementCount()){ u32 wf=bitsOf(cast<VectorType>(ft)->getElementType()),wt=bitsOf(cast<VectorType>(I.ty)->getElementType()); AggV a; for(auto&e:aggOf(x)){ a.push_back(castop(S,I.op,mat(S,e),wf,wt,rc)); if(rc!=R_NEXT) return rc; } SET(VA(a)); }
    if(va||vb){ // reinterpret through bytes
      u64 sz=DL->getTypeStoreSize(ft); u32 id=newObj(S,sz,K_STACK,true); stT(S,id,0,ft,x); Val r=ldT(S,id,0,I.ty); freeStackObj(S,id); SET(r); }
    Val r=castop(S,I.op,x,I.w2,I.w,rc); if(rc!=R_NEXT) return rc; SET(r); }
  incomplete.insert(std::string("unsupported instruction ")+I.I->getOpcodeName()); return R_END; }
static void witness(State&S,const char*kind){ if(nwit>=maxWit) return; if(randWit&&nPaths>2&&(nPaths*2654435761u>>7)%7) return; nwit++; bool und=false; for(auto&o:S.obs) if(!o.v.conc()&&o.v.e()->vars) for(u32 v:*o.v.e()->vars) if(P.syms[v].first.compare(0,5,"undef")==0) und=true; for(PCNode*n=S.pc.p;n;n=n->prev.p) if(n->c->vars) for(u32 v:*n->c->vars) if(P.syms[v].first.compare(0,5,"undef")==0) und=true;
  fprintf(OUT,"WIT {\"kind\":\"%s\",\"undef\":%d,\"threads\":%d,\"inputs\":%s,\"sched\":%s,\"obs\":%s}\n",kind,(int)und,(int)S.th.size(),inputsJson(S,*S.model).c_str(),schedJson(S).c_str(),obsJson(S,*S.model).c_str()); }
static RC endOk(State&S){ nPaths++; for(auto&l:S.reach) reachAll.insert(l); witness(S,"ok"); return R_END; }
static bool stopAll=false; static volatile int dumpReq=0;
static void run(State&S){ CURS=&S; 
  while(true){ if(((++nInsts)&0xfff)==0&&now()-tStart>maxTime){ incomplete.insert("time limit"); stopAll=true; return; }
    if(dumpReq){ dumpReq=0; fprintf(stderr,"[work %zu insts %llu q %llu t %.1f] %s\n",work.size(),(unsigned long long)S.insts,(unsigned long long)SOL->st.queries,SOL->st.time,stackOf(S).c_str()); }
    S.insts++; if(S.insts>maxInsts){ viol(S,"hang","execution did not finish within "+std::to_string(maxInsts)+" instructions"); return; }
    S.nundef0=S.nundef; Frame&f=S.topW(); RC r=step(S,f,f.f->code[f.ip]);
    if(r==R_JUMP) continue; if(r==R_NEXT){ S.topW().ip++; continue; }
    if(r==R_PARK){ r=schedule(S); if(r==R_JUMP) continue; return; }
    return; } }
