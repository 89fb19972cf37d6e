// ---------- native schedule replay: insert scheduling points before visible operations of the (unlinked) IR ----------
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Bitcode/BitcodeWriter.h>
static int instrument(const std::string&in,const std::string&out,bool tsan){ LLVMContext C; SMDiagnostic err; auto m=parseIRFile(in,err,C); if(!m) return 3; Type*vo=Type::getVoidTy(C); Type*pt=PointerType::getUnqual(C); auto pre=m->getOrInsertFunction("fsxn_pre",vo,pt), post=m->getOrInsertFunction("fsxn_post",vo,pt), idf=m->getOrInsertFunction("fsxn_id",pt,pt);
  static const std::map<std::string,std::string> ren={{"pthread_mutex_lock","fsxn_mutex_lock"},{"pthread_mutex_trylock","fsxn_mutex_trylock"},{"pthread_mutex_unlock","fsxn_mutex_unlock"},{"pthread_mutex_clocklock","fsxn_mutex_clocklock"},{"_ZNSt10_Sp_lockerC1EPKv","fsxn_sp_lock"},{"_ZNSt10_Sp_lockerC1EPKvS1_","fsxn_sp_lock"},{"_ZNSt10_Sp_lockerD1Ev","fsxn_sp_unlock"},{"pthread_rwlock_rdlock","fsxn_rw_rdlock"},{"pthread_rwlock_wrlock","fsxn_rw_wrlock"},{"pthread_rwlock_tryrdlock","fsxn_rw_tryrd"},{"pthread_rwlock_trywrlock","fsxn_rw_trywr"},{"pthread_rwlock_unlock","fsxn_rw_unlock"},{"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE","fsxn_cv_wait"},{"_ZNSt18condition_variable10notify_oneEv","fsxn_cv_one"},{"_ZNSt18condition_variable10notify_allEv","fsxn_cv_all"},{"pthread_cond_clockwait","fsxn_cv_timed"},{"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE","fsxn_thread_start"},{"__cxa_guard_acquire","fsxn_guard_acquire"},{"__cxa_guard_release","fsxn_guard_release"},{"__cxa_guard_abort","fsxn_guard_abort"},{"sched_yield","fsxn_yield"}};
  for(auto&F:*m){ auto it=ren.find(F.getName().str()); if(it!=ren.end()&&F.isDeclaration()) F.setName(it->second); }
  for(auto&F:*m){ if(F.isDeclaration()) continue; F.addFnAttr(tsan?Attribute::SanitizeThread:Attribute::SanitizeAddress); if(tsan){ /* the race detector skips objects it takes for local ones: hide where they come from */
      std::vector<AllocaInst*> al; for(auto&i:F.getEntryBlock()) if(auto*a=dyn_cast<AllocaInst>(&i)) if(a->isStaticAlloca()) al.push_back(a);
      Instruction*at=nullptr; for(auto&i:F.getEntryBlock()) if(!isa<AllocaInst>(&i)&&!isa<DbgInfoIntrinsic>(&i)){ at=&i; break; }
      for(auto*a:al){ bool used=false; for(auto*u:a->users()) if(auto*I=dyn_cast<Instruction>(u)) used|=!I->isLifetimeStartOrEnd()&&!isa<DbgInfoIntrinsic>(I)&&!(isa<LoadInst>(I))&&!(isa<StoreInst>(I)&&cast<StoreInst>(I)->getValueOperand()!=a); if(!used) continue;
         bool before=false; for(auto&i:F.getEntryBlock()){ if(&i==at) break; if(&i!=a) for(auto&op:i.operands()) before|=op.get()==a; } if(before) continue;
         IRBuilder<> B(at); auto*c=B.CreateCall(idf,{a}); if(auto*sp=F.getSubprogram()) c->setDebugLoc(DILocation::get(C,0,0,sp)); a->replaceUsesWithIf(c,[&](Use&u){ auto*I=dyn_cast<Instruction>(u.getUser()); return I&&I!=c&&!I->isLifetimeStartOrEnd()&&!isa<DbgInfoIntrinsic>(I); }); } } std::vector<Instruction*> v; for(auto&b:F) for(auto&i:b) if(i.isAtomic()&&!isa<FenceInst>(i)&&!isNoSchedAtomic(&i)) v.push_back(&i); for(auto*i:v){ IRBuilder<> B(i); auto*c=B.CreateCall(pre,{ConstantPointerNull::get(cast<PointerType>(pt))}); c->setDebugLoc(i->getDebugLoc()); B.SetInsertPoint(i->getNextNode()); auto*d=B.CreateCall(post,{ConstantPointerNull::get(cast<PointerType>(pt))}); d->setDebugLoc(i->getDebugLoc()); } }
  std::error_code ec; raw_fd_ostream o(out,ec); WriteBitcodeToFile(*m,o); return 0; }
