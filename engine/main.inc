// ---------- driver ----------
static State* initState(const std::string&entry){ auto*S=new State; S->model=MRef(new Model{++SOL->modelCtr,{}}); S->th.push_back(Thread());
  auto reg=[&](const GlobalValue*g,u32 id){ gid[g]=id; };
  for(auto&F:*M){ if(F.isIntrinsic()) continue; u32 id=newObj(*S,1,K_FUNC,false); reg(&F,id); funcObj[id]=getF(&F); }
  std::vector<GlobalVariable*> gs; for(auto&G:M->globals()){ if(G.getName().starts_with("llvm.")) continue; u64 sz= G.getValueType()->isSized()?(u64)DL->getTypeAllocSize(G.getValueType()):8; u32 id=newObj(*S,sz,K_GLOBAL,false); reg(&G,id); gs.push_back(&G); Obj*o=S->mem.getW(id); o->norace=rtSyms.count(G.getName().str()); if(G.isThreadLocal()) tlsTempl[id]=&G; }
  for(auto*G:gs){ if(G->hasInitializer()){ initMem(*S,gid[G],0,G->getInitializer()); if(G->isConstant()) S->mem.getW(gid[G])->ro=true; } }
  vtSI=symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"); vtVMI=symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); vtC=symAddr("_ZTVN10__cxxabiv117__class_type_infoE");
  Function*E=M->getFunction(entry); if(!E||E->isDeclaration()){ errs()<<"no entry "<<entry<<"\n"; exit(3); }
  auto push=[&](Function*F){ DFunc*d=getF(F); pushCall(*S,d,{},0); }; push(E);
  if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())){ std::vector<std::pair<u64,Function*>> v; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*F=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),F}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(int i=v.size()-1;i>=0;i--) push(v[i].second); }
  return S; }
static void dumpStats(){ fprintf(OUT,"STAT paths %llu\nSTAT forks %llu\nSTAT insts %llu\nSTAT checks %llu\nSTAT transitions %llu\nSTAT sleepblocked %llu\nSTAT assumefalse %llu\nSTAT schedpoints %llu\nSTAT queries %llu\nSTAT sat %llu\nSTAT unsat %llu\nSTAT unknown %llu\nSTAT lia %llu\nSTAT cached %llu\nSTAT solvertime %.3f\nSTAT maxquery %.3f\n",(unsigned long long)nPaths,(unsigned long long)nForks,(unsigned long long)nInsts,(unsigned long long)nChecks,(unsigned long long)nTrans,(unsigned long long)nSleepBlocked,(unsigned long long)nAssumeFalse,(unsigned long long)nSchedPts,(unsigned long long)SOL->st.queries,(unsigned long long)SOL->st.sat,(unsigned long long)SOL->st.unsat,(unsigned long long)SOL->st.unknown,(unsigned long long)SOL->st.lia,(unsigned long long)SOL->st.cached,SOL->st.time,SOL->st.maxq);
  for(auto&f:repoFns) fprintf(OUT,"FUNC %s\n",f.c_str()); for(auto&l:reachAll) fprintf(OUT,"REACH %s\n",l.c_str()); for(auto&i:incomplete) fprintf(OUT,"INCOMPLETE %s\n",i.c_str()); fflush(OUT); }
static void explore(size_t until){ // until>0: breadth first until that many open states; 0: depth first to the end
  while(!work.empty()&&!stopAll){ if(nviol>=maxViol){ break; } State*S; if(until){ if(work.size()>=until) return; size_t b=0; for(size_t i=1;i<work.size();i++) if(work[i]->forks<work[b]->forks) b=i; S=work[b]; work.erase(work.begin()+b); } else { S=work.back(); work.pop_back(); } run(*S); delete S; if(work.size()>200000){ incomplete.insert("too many open states"); break; } } }
// direct references to thread-local variables become calls giving the running thread's instance
static void fixTls(Module&m){ std::vector<Constant*> t; for(auto&G:m.globals()) if(G.isThreadLocal()) t.push_back(&G); if(t.empty()) return; convertUsersOfConstantsToInstructions(t);
  for(auto*c:t){ auto*G=cast<GlobalVariable>(c); Function*tf=Intrinsic::getDeclaration(&m,Intrinsic::threadlocal_address,{G->getType()}); std::vector<Use*> us; for(auto&u:G->uses()) if(auto*i=dyn_cast<Instruction>(u.getUser())){ if(auto*ii=dyn_cast<IntrinsicInst>(i)) if(ii->getIntrinsicID()==Intrinsic::threadlocal_address) continue; us.push_back(&u); }
    for(auto*u:us){ auto*i=cast<Instruction>(u->getUser()); Instruction*at=i; if(auto*p=dyn_cast<PHINode>(i)) at=p->getIncomingBlock(*u)->getTerminator(); auto*c2=CallInst::Create(tf,{G},"",at); u->set(c2); } } }
int main(int argc,char**argv){ 
  if(argc>=4&&std::string(argv[1])=="--instrument") return instrument(argv[2],argv[3],argc>4);
  { struct rlimit r; getrlimit(RLIMIT_STACK,&r); rlim_t want=512ul<<20; if(r.rlim_cur!=RLIM_INFINITY&&r.rlim_cur<want&&!getenv("FSX_RE")){ r.rlim_cur= r.rlim_max==RLIM_INFINITY?want:std::min(want,r.rlim_max); if(setrlimit(RLIMIT_STACK,&r)==0){ setenv("FSX_RE","1",1); execv(argv[0],argv); } } }
  std::string bc,rt,entry="fsx_main",outp="/tmp/fsx_out"; std::set<std::string> big;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--entry") entry=nx(); else if(a=="--rt") rt=nx(); else if(a=="--out") outp=nx(); else if(a=="--param"){ auto s=nx(); auto e=s.find('='); params[s.substr(0,e)]=s.substr(e+1); } else if(a=="--jobs") jobs=std::stoi(nx()); else if(a=="--time") maxTime=std::stod(nx()); else if(a=="--insts") maxInsts=std::stoull(nx()); else if(a=="--preempt") optPreempt=std::stoi(nx()); else if(a=="--spurious") optSpurious=std::stoi(nx()); else if(a=="--spin") optSpinK=std::stoi(nx()); else if(a=="--symfloat") optSymFloat=true; else if(a=="--norace") optRace=false; else if(a=="--unlock-visible") optUnlockVisible=true; else if(a=="--maxviol") maxViol=std::stoi(nx()); else if(a=="--maxwit") maxWit=std::stoi(nx()); else if(a=="--repo") repoPrefix=nx(); else bc=a; }
  signal(SIGUSR1,[](int){ dumpReq=1; }); tStart=now(); LLVMContext C; SMDiagnostic err; auto m=parseIRFile(bc,err,C); if(!m){ err.print("fsx",errs()); return 3; } M=m.get(); DL=&M->getDataLayout();
  fixTls(*m);
  if(!rt.empty()){ LLVMContext C2; SMDiagnostic e2; auto m2=parseIRFile(rt,e2,C2); if(m2) for(auto&G:m2->globals()) if(!G.isDeclaration()) rtSyms.insert(G.getName().str()); }
  SOL=new Solver; initHandlers(); for(const char*n:{"pthread_mutex_trylock","pthread_mutex_clocklock","pthread_mutex_timedlock","pthread_rwlock_tryrdlock","pthread_rwlock_trywrlock"}) optUnlockVisible=optUnlockVisible||(M->getFunction(n)&&!M->getFunction(n)->use_empty());
  State*S0=initState(entry); OUT=fopen((outp+".0").c_str(),"w"); setvbuf(OUT,0,_IOFBF,1<<20); work.push_back(S0); maxWit=maxWit>1?maxWit:1;
  int wit0=maxWit; maxWit=2; explore(jobs>1? (size_t)jobs*12:0);
  if(work.empty()||stopAll||nviol>=maxViol){ dumpStats(); return 0; }
  std::stable_sort(work.begin(),work.end(),[](State*a,State*b){return a->forks<b->forks;});
  auto*ctr=(volatile u32*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); ctr[0]=0; ctr[1]=0; fflush(OUT); std::vector<State*> roots=work; work.clear(); std::vector<pid_t> pids;
  for(int j=1;j<=jobs;j++){ pid_t p=fork(); if(p==0){ OUT=fopen((outp+"."+std::to_string(j)).c_str(),"w"); setvbuf(OUT,0,_IOFBF,1<<20); nPaths=nForks=nInsts=nChecks=nTrans=nSleepBlocked=nAssumeFalse=nSchedPts=0; SOL->st=Stats(); nviol=0; nwit=0; maxWit=std::max(1,wit0/jobs); randWit=true; 
      while(!stopAll){ u32 k=__sync_fetch_and_add((u32*)&ctr[0],1); if(k>=roots.size()||ctr[1]>=(u32)maxViol) break; work.push_back(roots[k]); explore(0); if(nviol) __sync_fetch_and_add((u32*)&ctr[1],nviol); if(nviol>=maxViol) break; }
      dumpStats(); fclose(OUT); _exit(0); } pids.push_back(p); }
  bool bad=false; for(pid_t p:pids){ int st; waitpid(p,&st,0); if(st!=0){ bad=true; fprintf(OUT,"CRASH %d\n",st); } }
  dumpStats(); fclose(OUT); return bad?4:0; }
