// ---------- threads, synchronisation, scheduling (interleaving exploration with sleep sets) ----------
static bool multi(State&S){ return S.th.size()>1; }
static void tick(State&S){ auto&T=S.T(); if((int)T.vc.size()<=S.cur) T.vc.resize(S.cur+1); T.vc[S.cur]++; }
static bool dep(const POp&x,const POp&y){ if(x.k==P_START||y.k==P_START||x.k==P_JOIN||y.k==P_JOIN||x.k==P_YIELD||y.k==P_YIELD) return false; if(!(x.w||y.w)) return false; u64 xa[2]={x.a>>3,x.b>>3},ya[2]={y.a>>3,y.b>>3}; for(u64 p:xa) if(p) for(u64 q:ya) if(p==q) return true; return false; }
static void progress(State&S){ S.T().spin.clear(); }
static Mtx& mtxOf(State&S,u64 a){ return S.mtx[a]; }
static bool enabledT(State&S,int t){ Thread&T=S.th[t]; if(T.done) return false; POp&o=T.op; switch(o.k){
  case P_NONE: case P_START: case P_TRYLOCK: case P_UNLOCK: case P_WAIT: case P_NOTIFY: case P_YIELD: case P_CREATE: return true;
  case P_LOCK: { auto&m=mtxOf(S,o.a); return m.owner<0&&(o.b==1||m.rd.empty()); }
  case P_RELOCK: { auto&m=mtxOf(S,o.a); if(m.owner>=0) return false; return T.cvstate==2||T.timed||S.spurious<(u32)optSpurious; }
  case P_JOIN: return S.th[o.a].done;
  case P_GUARD: { auto it=S.guards.find(o.a); return it==S.guards.end()||it->second==0||it->second==t+1; }
  case P_ATOM: return true;
  case P_SPIN: { auto it=S.aver.find(o.a); u32 v=it==S.aver.end()?0:it->second; return v!=(u32)o.b; }
  } return true; }
static std::string opName(const POp&o){ static const char*n[]={"run","start","lock","trylock","unlock","wait","notify","join","atomic","guard","spin","cv-wakeup","create","yield"}; return n[o.k]; }
static POp depOp(const POp&o){ POp x=o; if(x.k==P_SPIN){ x.b=0; } return x; }
static RC endOk(State&S);
static RC schedule(State&S){ nSchedPts++;
  for(size_t t=0;t<S.th.size();t++){ Thread&T=S.th[t]; if(T.done) continue; if(T.op.k==P_START||(T.op.k==P_JOIN&&S.th[T.op.a].done)){ S.cur=t; if(T.op.k==P_START){ T.op=POp(); T.granted=false; } else T.granted=true; return R_JUMP; } }
  std::vector<int> en; bool any=false; bool curEn=false;
  for(size_t t=0;t<S.th.size();t++) if(enabledT(S,t)){ any=true; bool sl=false; for(auto&e:S.sleep) if(e.tid==(int)t) sl=true; if(!sl){ if((int)t==S.cur){ en.insert(en.begin(),t); curEn=true; } else en.push_back(t); } }
  bool curCould= !S.th[S.cur].done&&enabledT(S,S.cur);
  if(en.empty()&&!any&&S.spinRounds<optSpinCap){ for(size_t t=0;t<S.th.size();t++) if(!S.th[t].done&&S.th[t].op.k==P_SPIN){ S.spinRounds++; for(auto&p:S.th[t].spin) p.second.n=0; S.cur=t; S.th[t].granted=true; S.sched.push_back((u8)t); S.sleep.clear(); return R_JUMP; } }
  if(en.empty()){ if(any){ nSleepBlocked++; return R_END; } std::string d="no thread can make progress:"; bool spin=false; for(size_t t=0;t<S.th.size();t++) if(!S.th[t].done){ d+=" thread "+std::to_string(t)+" blocked in "+opName(S.th[t].op)+";"; if(S.th[t].op.k==P_SPIN) spin=true; }
    for(size_t t=0;t<S.th.size();t++) if(!S.th[t].done&&!S.th[t].st.empty()){ S.cur=t; break; } 
    return viol(S,spin?"livelock":"deadlock",d); }
  if(optPreempt>=0&&curCould&&S.preempts>=optPreempt){ if(curEn) en.resize(1); else { nSleepBlocked++; return R_END; } }
  std::vector<SleepE> base=S.sleep; int cur=S.cur;
  for(int i=(int)en.size()-1;i>=0;i--){ State*X=&S; if(i>0){ X=new State(S); X->id=++stateCtr; X->forks++; nForks++; } POp me=depOp(X->th[en[i]].op);
    std::vector<SleepE> sl; for(auto&e:base) if(!dep(e.op,me)) sl.push_back(e); for(int j=0;j<i;j++){ POp oj=depOp(S.th[en[j]].op); if(!dep(oj,me)) sl.push_back({en[j],oj}); }
    X->sleep=sl; if(curCould&&en[i]!=cur) X->preempts++; X->cur=en[i]; X->th[en[i]].granted=true; if(X->th[en[i]].op.k!=P_YIELD) X->sched.push_back((u8)en[i]); X->schedPts++; nTrans++; if(i>0) work.push_back(X); }
  return R_JUMP; }
static RC park(State&S,PK k,u64 a,u64 b,bool w){ auto&T=S.T(); T.op.k=k; T.op.a=a; T.op.b=b; T.op.w=w; T.granted=false; return R_PARK; }
// true: perform the operation now
static bool visible(State&S,PK k,u64 a,u64 b,bool w,RC&rc){ if(!multi(S)) return true; if(S.T().granted) return true; rc=park(S,k,a,b,w); return false; }
static void doneOp(State&S){ S.T().granted=false; S.T().op=POp(); }
static void bumpVer(State&S,u64 a){ S.aver[a]++; }
static RC threadDone(State&S){ auto&T=S.T(); if(!T.atexit.empty()){ auto p=T.atexit.back(); T.atexit.pop_back(); DFunc*d=funcObj.count((u32)(p.first>>24))?funcObj[(u32)(p.first>>24)]:0; if(d&&!d->F->isDeclaration()&&S.cur!=0) return pushCall(S,d,{VC(p.second)},0); if(S.cur!=0) return threadDone(S); }
  if(S.cur==0) return endOk(S); T.done=true; T.op=POp(); return R_PARK; }
// ---- mutexes ----
// readers/writer locks: a writer is the owner, readers are listed (op.b 1: asks as a reader)
static RC rwLock(State&S,std::vector<Val>&a,Val&ret,bool rd,bool tr); static void munlock(State&S,u64 a);
#define RWH(N,RD,TR) static RC N(State&S,DInst&I,std::vector<Val>&a,Val&ret){ return rwLock(S,a,ret,RD,TR); }
RWH(h_rw_rdlock,true,false) RWH(h_rw_wrlock,false,false) RWH(h_rw_tryrd,true,true) RWH(h_rw_trywr,false,true)
static RC h_rw_unlock(State&S,DInst&I,std::vector<Val>&a,Val&ret);
static void mlock(State&S,u64 a){ auto&m=mtxOf(S,a); m.owner=S.cur; m.cnt=1; progress(S); vjoin(S.T().vc,m.vc); }
// glibc keeps the kind at offset 16 (1: recursive); taking one again is no scheduling point
static bool isRecursive(State&S,u64 p){ u32 id=p>>24; i64 off=(i64)(p&0xffffff)-(i64)OBASE; Obj*o=S.mem.get(id); if(!o||!o->alive||off<0||off+20>o->size) return false; Val k=rdBytes(S,id,off+16,4,32); return k.conc()&&k.c==1; }
static RC h_mutex_lock(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 p=ptrOf(S,a[0]); RC rc; if(p==0) return viol(S,"null-deref","lock of a null mutex"); u32 id,off; if(!resolve(S,p,8,false,id,off,rc)) return rc; auto&m=mtxOf(S,p); if(m.owner==S.cur&&!S.T().granted&&isRecursive(S,p)){ m.cnt++; ret=VC(0); return R_NEXT; } if(m.owner==S.cur&&!S.T().granted) return viol(S,"deadlock","thread locks a mutex it already holds"); if(!visible(S,P_LOCK,p,0,true,rc)) return rc; mlock(S,p); doneOp(S); ret=VC(0); return R_NEXT; }
static RC h_mutex_trylock(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 p=ptrOf(S,a[0]); RC rc; if(mtxOf(S,p).owner==S.cur&&!S.T().granted&&isRecursive(S,p)){ mtxOf(S,p).cnt++; ret=VC(0); return R_NEXT; } if(!visible(S,P_TRYLOCK,p,0,true,rc)) return rc; auto&m=mtxOf(S,p); if(m.owner<0){ mlock(S,p); ret=VC(0); } else ret=VC(16); doneOp(S); return R_NEXT; }

static void munlock(State&S,u64 p){ auto&m=mtxOf(S,p); m.owner=-1; m.cnt=0; m.vc=S.T().vc; tick(S); }
static RC rwLock(State&S,std::vector<Val>&a,Val&ret,bool rd,bool tr){ u64 p=ptrOf(S,a[0]); RC rc; u32 id,off; if(p==0) return viol(S,"null-deref","lock of a null mutex"); if(!resolve(S,p,8,false,id,off,rc)) return rc;
  if(!tr&&!S.T().granted){ auto&m=mtxOf(S,p); bool mine=m.owner==S.cur; if(!rd) for(int t:m.rd) mine|=t==S.cur; if(mine) return viol(S,"deadlock","thread locks a mutex it already holds"); }
  if(!visible(S,tr?P_TRYLOCK:P_LOCK,p,rd?1:0,true,rc)) return rc; auto&m=mtxOf(S,p); bool free=m.owner<0&&(rd||m.rd.empty()); if(!free){ if(!tr&&!multi(S)) return viol(S,"deadlock","lock of a mutex nobody will release"); ret=VC(16); doneOp(S); return R_NEXT; }
  if(rd){ m.rd.push_back(S.cur); progress(S); vjoin(S.T().vc,m.vc); } else { mlock(S,p); vjoin(S.T().vc,mtxOf(S,p).rvc); } doneOp(S); ret=VC(0); return R_NEXT; }
static RC h_mutex_unlock(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 p=ptrOf(S,a[0]); RC rc; u32 id,off; if(!resolve(S,p,8,false,id,off,rc)) return rc; { auto&m0=mtxOf(S,p); if(m0.owner==S.cur&&m0.cnt>1){ m0.cnt--; ret=VC(0); return R_NEXT; } } if(optUnlockVisible&&!visible(S,P_UNLOCK,p,0,true,rc)) return rc; auto&m=mtxOf(S,p); if(m.owner!=S.cur) return viol(S,"bad-unlock","unlock of a mutex the thread does not hold"); munlock(S,p); doneOp(S); ret=VC(0); return R_NEXT; }
// condition variables
static RC h_rw_unlock(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 p=ptrOf(S,a[0]); RC rc; u32 id,off; if(!resolve(S,p,8,false,id,off,rc)) return rc; if(optUnlockVisible&&!visible(S,P_UNLOCK,p,0,true,rc)) return rc; auto&m=mtxOf(S,p); ret=VC(0);
  if(m.owner==S.cur){ munlock(S,p); doneOp(S); return R_NEXT; } for(size_t i=0;i<m.rd.size();i++) if(m.rd[i]==S.cur){ m.rd.erase(m.rd.begin()+i); vjoin(m.rvc,S.T().vc); tick(S); doneOp(S); return R_NEXT; } return viol(S,"bad-unlock","unlock of a mutex the thread does not hold"); }
// a timed lock fails when it is its turn and the mutex is taken
static RC h_mutex_timed(State&S,DInst&I,std::vector<Val>&a,Val&ret){ RC rc=h_mutex_trylock(S,I,a,ret); if(rc==R_NEXT&&ret.conc()&&ret.c==16) ret=VC(110); return rc; }
static RC cvWait(State&S,u64 cv,u64 m,bool timed,Val&ret){ RC rc; auto&T=S.T(); if(T.cvstate==0){ if(mtxOf(S,m).owner!=S.cur) return viol(S,"bad-wait","condition wait without holding the mutex"); if(!visible(S,P_WAIT,cv,m,true,rc)) return rc; if(!multi(S)){ if(timed){ ret=VC(110); return R_NEXT; } return viol(S,"deadlock","wait with no other thread"); } munlock(S,m); T.cvstate=1; T.cv=cv; T.mtx=m; T.timed=timed; T.op.k=P_RELOCK; T.op.a=m; T.op.b=0; T.op.w=true; T.granted=false; return R_PARK; }
  if(!T.granted){ T.op.k=P_RELOCK; T.op.a=m; T.op.b=0; T.op.w=true; return R_PARK; }
  if(T.cvstate==1&&!T.timed) S.spurious++; mlock(S,m); ret=VC(T.cvstate==1&&T.timed?110:0); T.cvstate=0; T.cv=0; T.timed=false; doneOp(S); return R_NEXT; }
static RC h_cv_wait(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 cv=ptrOf(S,a[0]), ul=ptrOf(S,a[1]); RC rc; u32 id,off; if(!resolve(S,ul,16,false,id,off,rc)) return rc; if(!resolve(S,cv,8,false,id,off,rc)) return rc; bool ok=true; u64 m=ld64(S,ul,ok); if(!ok||!m) return viol(S,"bad-wait","condition wait with an empty lock"); return cvWait(S,cv,m,false,ret); }
static RC h_pcv_wait(State&S,DInst&I,std::vector<Val>&a,Val&ret){ return cvWait(S,ptrOf(S,a[0]),ptrOf(S,a[1]),false,ret); }
static RC h_pcv_timed(State&S,DInst&I,std::vector<Val>&a,Val&ret){ return cvWait(S,ptrOf(S,a[0]),ptrOf(S,a[1]),true,ret); }
static RC h_cv_notify(State&S,DInst&I,std::vector<Val>&a,Val&ret,bool all){ u64 cv=ptrOf(S,a[0]); RC rc; u32 id,off; if(!resolve(S,cv,8,false,id,off,rc)) return rc; if(!visible(S,P_NOTIFY,cv,0,true,rc)) return rc; std::vector<int> w; for(size_t t=0;t<S.th.size();t++) if(!S.th[t].done&&S.th[t].cvstate==1&&S.th[t].cv==cv) w.push_back(t);
  if(all) for(int t:w) S.th[t].cvstate=2; else if(w.size()==1) S.th[w[0]].cvstate=2; else if(w.size()>1){ // branch on the awakened thread
    E s=ksym("notify_"+std::to_string(S.schedPts)+"_"+std::to_string(S.cur),8); E in=mkE(O_ULT,1,s,kc(w.size(),8)); addC(S,in); { std::vector<std::pair<u32,u128>> m; if(!evalE(in,*S.model)){ query(S,in,&m); S.model=mergeModel(S.model,m);} } u64 k=concz(S,VE(s),8); S.th[w[k]].cvstate=2; S.sched.push_back((u8)(200+w[k])); }
  ret=VC(0); doneOp(S); return R_NEXT; }
static RC h_cv_notify_one(State&S,DInst&I,std::vector<Val>&a,Val&ret){ return h_cv_notify(S,I,a,ret,false); }
static RC h_cv_notify_all(State&S,DInst&I,std::vector<Val>&a,Val&ret){ return h_cv_notify(S,I,a,ret,true); }
// threads
static RC h_thread_start(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 self=ptrOf(S,a[0]), up=ptrOf(S,a[1]); bool ok=true; u64 st=ld64(S,up,ok); if(!ok) return viol(S,"wild-pointer","thread start"); st64(S,up,0); int nt=S.th.size(); if(nt>12){ incomplete.insert("too many threads"); return R_END; } auto*F=M->getFunction("fsx_thread_main"); if(!F){ incomplete.insert("no fsx_thread_main"); return R_END; }
  st64(S,self,nt+1); if(!S.raceOn&&optRace) S.raceOn=true; if(nt==1){ auto&T=S.th[0]; T.vc.assign(1,1); }
  VClk parent=S.T().vc; S.th.push_back(Thread()); S.th[nt].vc=parent; S.th[nt].vc.resize(nt+1); S.th[nt].vc[nt]=1; tick(S); int cur=S.cur; S.cur=nt; RC rc=pushCall(S,getF(F),{VC(st)},0); S.th[nt].op.k=P_START; S.cur=cur; if(rc==R_END) return rc; return R_NEXT; }
static RC h_thread_join(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 self=ptrOf(S,a[0]); bool ok=true; u64 id=ld64(S,self,ok); if(!ok) return viol(S,"wild-pointer","thread join"); if(!id) return viol(S,"invalid-join","join of a thread that is not joinable"); int t=id-1; if(t>=(int)S.th.size()) return viol(S,"invalid-join","join of unknown thread"); if(t==S.cur) return viol(S,"deadlock","thread joins itself"); RC rc; if(!S.T().granted){ if(!S.th[t].done) { rc=park(S,P_JOIN,t,0,false); return rc; } } vjoin(S.T().vc,S.th[t].vc); st64(S,self,0); doneOp(S); return R_NEXT; }
static RC h_thread_detach(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 self=ptrOf(S,a[0]); bool ok=true; u64 id=ld64(S,self,ok); if(!ok||!id) return viol(S,"invalid-detach","detach of a thread that is not joinable"); S.th[id-1].detached=true; st64(S,self,0); return R_NEXT; }
static RC h_yield(State&S,DInst&I,std::vector<Val>&a,Val&ret){ ret=VC(0); return R_NEXT; }
static RC h_self(State&S,DInst&I,std::vector<Val>&a,Val&ret){ ret=VC(S.cur+1); return R_NEXT; }
// static-initialisation guards
static RC h_guard_acquire(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 g=ptrOf(S,a[0]); RC rc; bool ok=true; auto it=S.guards.find(g); if(it!=S.guards.end()&&it->second==S.cur+1) return viol(S,"recursive-init","recursive initialisation of a static"); if(!visible(S,P_GUARD,g,0,true,rc)) return rc; u32 id,off; if(!resolve(S,g,1,true,id,off,rc)) return rc; Val b=rdBytes(S,id,off,1,8); doneOp(S); vjoin(S.T().vc,S.avc[g]); if(b.conc()&&b.c){ ret=VC(0); return R_NEXT; } S.guards[g]=S.cur+1; S.T().inGuard++; ret=VC(1); return R_NEXT; }
static RC h_guard_release(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 g=ptrOf(S,a[0]); RC rc; if(!visible(S,P_ATOM,g,0,true,rc)) return rc; u32 id,off; if(!resolve(S,g,1,true,id,off,rc)) return rc; wrBytes(S,id,off,1,VC(1),8); S.guards[g]=0; S.T().inGuard--; vjoin(S.avc[g],S.T().vc); tick(S); bumpVer(S,g); doneOp(S); return R_NEXT; }
static RC h_guard_abort(State&S,DInst&I,std::vector<Val>&a,Val&ret){ u64 g=ptrOf(S,a[0]); RC rc; if(!visible(S,P_ATOM,g,0,true,rc)) return rc; S.guards[g]=0; S.T().inGuard--; vjoin(S.avc[g],S.T().vc); tick(S); doneOp(S); return R_NEXT; }
// ---- atomics ---- (LLVM ordering: 2 monotonic 4 acquire 5 release 6 acq_rel 7 seq_cst)
static bool isAcq(int o){ return o==4||o==6||o==7; }
static bool isRel(int o){ return o==5||o==6||o==7; }
static void atRead(State&S,u64 a,int ord){ auto it=S.avc.find(a); if(it==S.avc.end()) return; if(isAcq(ord)) vjoin(S.T().vc,it->second); else vjoin(S.T().acqf,it->second); }
static void atWrite(State&S,u64 a,int ord,bool rmw){ if(!S.raceOn&&!multi(S)) return; VClk src; if(isRel(ord)) src=S.T().vc; else src=S.T().relf; if(rmw) vjoin(S.avc[a],src); else S.avc[a]=src; if(isRel(ord)) tick(S); }
static bool atomPre(State&S,DInst&I,u64 a,u32 n,bool mayWrite,bool wr,u32&id,u32&off,RC&rc){ // resolve + scheduling point; false => rc
  if(multi(S)&&!I.noSched&&!S.T().granted){ // spin detection
    auto&T=S.T(); auto it=T.spin.find({(void*)&I,(u32)0}); u32 ver=0; { auto v=S.aver.find(a); if(v!=S.aver.end()) ver=v->second; }
    if(it!=T.spin.end()&&it->second.a==a&&it->second.ver==ver&&it->second.n>=optSpinK){ T.op.k=P_SPIN; T.op.a=a; T.op.b=ver; T.op.w=mayWrite; rc=R_PARK; return false; }
    rc=park(S,P_ATOM,a,0,wr||mayWrite); return false; }
  return resolve(S,a,n,wr,id,off,rc); }
static void spinNote(State&S,DInst&I,u64 a,bool changed){ if(!multi(S)) return; auto&T=S.T(); auto&s=T.spin[{(void*)&I,(u32)0}]; u32 ver=0; { auto v=S.aver.find(a); if(v!=S.aver.end()) ver=v->second; } if(!changed&&s.a==a&&s.ver==ver) s.n++; else { s.a=a; s.ver=ver; s.n=changed?0:1; } }
static void atomPost(State&S,u64 a,bool changed){ if(changed){ bumpVer(S,a); progress(S); } doneOp(S); }
