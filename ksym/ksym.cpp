// ksym: a symbolic executor for the LLVM IR rustc emits for the code in /repo.
//
// It interprets the fully linked (LTO) bitcode of a harness crate.  Integers are
// bit-vectors, floats are IEEE-754 terms (z3 FP theory), memory is a set of
// objects with byte-precise bounds; every branch, address or divisor that depends
// on a symbolic input is decided by z3, and both sides are explored when both are
// satisfiable (the process forks).  Assertions become queries "path condition and
// not property"; a satisfying assignment is written out as a concrete input file.
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <z3.h>
#include <cstdio>
#include <functional>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <memory>
#include <atomic>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <errno.h>
#include <sys/stat.h>
using std::string; using std::vector;
typedef unsigned __int128 u128; typedef __int128 i128; typedef uint64_t u64; typedef int64_t i64;

static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ---------------------------------------------------------------- shared state
static const int MAXIN=128;
struct VRec { char kind[24]; char id[160]; char loc[240]; int nin; char names[MAXIN][24]; u64 vals[MAXIN]; int widths[MAXIN]; char stack[900]; };
// a completed path: one model of its inputs and the values its observations have under that model
struct WRec { int nin; char names[MAXIN][24]; u64 vals[MAXIN]; int widths[MAXIN]; int nnotes; u64 notes[256]; unsigned char nw[256]; };
struct Shared {
  std::atomic<long> paths, done_paths, infeasible, asserts, asserts_sym, queries, unknowns, instrs, errors, limits, panics_ok, forks, covers_n;
  std::atomic<long> solver_us;
  std::atomic<int> slots; std::atomic<int> abort_flag;
  std::atomic<int> lock; std::atomic<double> stop_at; std::atomic<long> second;
  std::atomic<int> nviol; std::atomic<long> ended; std::atomic<int> nwit; WRec wit[40]; std::atomic<int> overapprox; std::atomic<long> havoc_reads;
  VRec viol[64];
  std::atomic<int> ncov; char cov[256][64]; std::atomic<long> covn[256];
  std::atomic<int> nloc; int lochash[1<<16]; char loc[1<<14][120];
  char err[32][300]; std::atomic<int> nerr;
};
static Shared* sh; static double deadline=0;
static bool pastDeadline(){ double n=now(); double s=sh->stop_at; return (deadline>0&&n>deadline)||(s>0&&n>s); }
static void lock(){ int e=0; while(!sh->lock.compare_exchange_strong(e,1)){ e=0; usleep(50);} }
static void unlock(){ sh->lock.store(0); }
static unsigned char* covmap; // one byte per debug location

static u64 max_instr=40000000ull; static u64 zrlimit=0;
static bool verbose=false;

// ---------------------------------------------------------------- z3 helpers
static Z3_context Z; static Z3_solver S; 
static Z3_sort fpS32, fpS64, boolS; static Z3_ast RNE;
static Z3_sort bvS(unsigned w){ static std::unordered_map<unsigned,Z3_sort> m; auto&x=m[w]; if(!x){ x=Z3_mk_bv_sort(Z,w); Z3_inc_ref(Z,Z3_sort_to_ast(Z,x)); } return x; }
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(Z,a); return a; }
static Z3_ast simp(Z3_ast a){ keep(a); Z3_ast b=keep(Z3_simplify(Z,a)); return b; }
static bool isBool(Z3_ast a){ return Z3_get_sort_kind(Z,Z3_get_sort(Z,a))==Z3_BOOL_SORT; }

struct Val; typedef std::shared_ptr<vector<Val>> Agg;
struct Val { u128 c=0; Z3_ast e=nullptr; Agg a; 
  Val(){} Val(u128 x):c(x){} static Val sym(Z3_ast x){ Val v; v.e=x; return v; } };

static inline u128 mask(unsigned w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline i128 sx(u128 v,unsigned w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); v&=mask(w); return (i128)((v^m)-m); }
static Z3_ast bvc(u128 v,unsigned w){
  v&=mask(w);
  if(w<=64) return keep(Z3_mk_unsigned_int64(Z,(u64)v,bvS(w)));
  char buf[64]; int p=63; buf[p]=0; if(!v) buf[--p]='0'; while(v){ buf[--p]='0'+(int)(v%10); v/=10; }
  return keep(Z3_mk_numeral(Z,buf+p,bvS(w)));
}
// expression -> bit-vector (of width w) ; booleans are turned into a 1-bit vector
static Z3_ast asBV(const Val&v,unsigned w){ if(!v.e) return bvc(v.c,w); if(isBool(v.e)) return keep(Z3_mk_ite(Z,v.e,bvc(1,1),bvc(0,1))); return v.e; }
static Z3_ast asBool(const Val&v){ if(!v.e) return keep((v.c&1)?Z3_mk_true(Z):Z3_mk_false(Z)); if(isBool(v.e)) return v.e; 
  // recognise ite(b,1,0)
  if(Z3_get_ast_kind(Z,v.e)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,v.e); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap))==Z3_OP_ITE){ u64 t,f; if(Z3_get_numeral_uint64(Z,Z3_get_app_arg(Z,ap,1),(uint64_t*)&t)&&Z3_get_numeral_uint64(Z,Z3_get_app_arg(Z,ap,2),(uint64_t*)&f)&&t==1&&f==0) return keep(Z3_get_app_arg(Z,ap,0)); } }
  return keep(Z3_mk_eq(Z,v.e,bvc(1,1))); }
static bool numeral(Z3_ast a,u128&out){
  Z3_ast_kind k=Z3_get_ast_kind(Z,a);
  if(isBool(a)){ Z3_lbool b=Z3_get_bool_value(Z,a); if(b==Z3_L_TRUE){out=1;return true;} if(b==Z3_L_FALSE){out=0;return true;} return false; }
  if(k!=Z3_NUMERAL_AST) return false;
  uint64_t v; unsigned w=Z3_get_bv_sort_size(Z,Z3_get_sort(Z,a));
  if(w<=64){ if(Z3_get_numeral_uint64(Z,a,&v)){ out=v; return true;} return false; }
  const char*s=Z3_get_numeral_string(Z,a); u128 r=0; for(;*s;s++) r=r*10+(*s-'0'); out=r; return true;
}
// sums are kept as one canonical chain (flattened, constants merged, sorted by ast id), so that equal sums in different association are the same term
static void addLeaves(Z3_ast a,vector<Z3_ast>&v,unsigned lim){
  if(Z3_get_ast_kind(Z,a)==Z3_APP_AST){ Z3_app p=Z3_to_app(Z,a); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,p))==Z3_OP_BADD&&v.size()<lim){ unsigned n=Z3_get_app_num_args(Z,p); for(unsigned i=0;i<n;i++) addLeaves(Z3_get_app_arg(Z,p,i),v,lim); return; } }
  v.push_back(a);
}
static Z3_ast mkadd(Z3_ast x,Z3_ast y,unsigned w){
  vector<Z3_ast> l,t; addLeaves(x,l,24); addLeaves(y,l,24); u128 c=0,n; u128 m=w>=128?~(u128)0:(((u128)1<<w)-1);
  for(auto a:l){ if(numeral(a,n)) c=(c+n)&m; else t.push_back(a); }
  if(t.empty()) return bvc(c,w);
  std::sort(t.begin(),t.end(),[](Z3_ast p,Z3_ast q){ return Z3_get_ast_id(Z,p)<Z3_get_ast_id(Z,q); });
  Z3_ast r=t[0]; for(size_t i=1;i<t.size();i++) r=keep(Z3_mk_bvadd(Z,r,t[i]));
  if(c) r=keep(Z3_mk_bvadd(Z,r,bvc(c,w)));
  return r;
}
static Val mkVal(Z3_ast e){ e=simp(e); u128 n; if(numeral(e,n)) return Val(n); return Val::sym(e); }
static unsigned bvw(Z3_ast e){ return isBool(e)?1:Z3_get_bv_sort_size(Z,Z3_get_sort(Z,e)); }

// floats: value terms are bit-vectors; fp terms are recovered through a side table
static std::unordered_map<Z3_ast,Z3_ast> bv2fp, fp2bv;
static Z3_ast nanc32,nanc64;
static bool pc_has_fp=false;
static Z3_ast toFP(const Val&v,unsigned w){
  pc_has_fp=true;
  if(!v.e){ return keep(Z3_mk_fpa_to_fp_bv(Z,bvc(v.c,w),w==32?fpS32:fpS64)); }
  auto it=bv2fp.find(v.e); if(it!=bv2fp.end()) return it->second;
  Z3_ast f=keep(Z3_mk_fpa_to_fp_bv(Z,v.e,w==32?fpS32:fpS64)); bv2fp[v.e]=f; return f;
}
static Val fromFP(Z3_ast f,unsigned w){
  // NaN results get the canonical quiet NaN (what x86 SSE produces for invalid operations, sign aside)
  f=simp(f);
  auto it=fp2bv.find(f); if(it!=fp2bv.end()) return Val::sym(it->second);
  Z3_ast b=keep(Z3_mk_fpa_to_ieee_bv(Z,f));
  Z3_ast bs=keep(Z3_simplify(Z,b)); u128 n; if(numeral(bs,n)) return Val(n);
  bv2fp[b]=f; fp2bv[f]=b; return Val::sym(b);
}

// ---------------------------------------------------------------- path state
struct Input { string name; unsigned w; Z3_ast e; };
static vector<Input> inputs;
static vector<Z3_ast> pc;
static Z3_model curModel=nullptr;
static bool panicOk=false, rtMode=false, havocTables=false, tainted=false; static vector<std::pair<Z3_ast,std::pair<u64,int>>> notes;
static std::map<string,Z3_ast> dummy;

static void terminate(const char*why);
static void engine_error(const string&m);

static void setModel(Z3_model m){ if(m) Z3_model_inc_ref(Z,m); if(curModel) Z3_model_dec_ref(Z,curModel); curModel=m; }
static int tri=0;
static string curLoc();
// check PC && extra (bool asts).  1 sat, 0 unsat, -1 unknown.  model returned if sat
static u64 rl_bv=700000, rl_fp=60000000; static int portfolio_s=150;
static void setRlimit(Z3_solver s,u64 v){ Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),(unsigned)v); Z3_solver_set_params(Z,s,p); Z3_params_dec_ref(Z,p); }
// Second stage for queries z3 does not settle quickly: the same formula as SMT-LIB text to
// several solver configurations side by side (integer translation, bit-blasting); the first
// definite answer counts.  fp.to_ieee_bv (a z3 extension) is replaced by a constrained constant.
static void collectIeee(Z3_ast a,std::set<Z3_ast>&seen,vector<Z3_ast>&out){
  if(!seen.insert(a).second) return; if(Z3_get_ast_kind(Z,a)!=Z3_APP_AST) return; Z3_app ap=Z3_to_app(Z,a);
  for(unsigned i=0;i<Z3_get_app_num_args(Z,ap);i++) collectIeee(Z3_get_app_arg(Z,ap,i),seen,out);
  if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap))==Z3_OP_FPA_TO_IEEE_BV) out.push_back(a);
}
static int secondStage(Z3_ast extra,Z3_model*out){
  vector<Z3_ast> as(pc.begin(),pc.end()); if(extra) as.push_back(extra);
  std::set<Z3_ast> seen; vector<Z3_ast> ie; for(auto a:as) collectIeee(a,seen,ie);
  vector<Z3_ast> from,to,defs;
  for(size_t i=0;i<ie.size();i++){ Z3_ast f=Z3_get_app_arg(Z,Z3_to_app(Z,ie[i]),0); unsigned w=Z3_get_bv_sort_size(Z,Z3_get_sort(Z,ie[i])); Z3_ast c=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,("ieee_"+std::to_string(i)).c_str()),bvS(w)));
    from.push_back(ie[i]); to.push_back(c);
    Z3_ast back=keep(Z3_mk_fpa_to_fp_bv(Z,c,w==32?fpS32:fpS64)); defs.push_back(keep(Z3_mk_eq(Z,back,f)));
    defs.push_back(keep(Z3_mk_implies(Z,keep(Z3_mk_fpa_is_nan(Z,f)),keep(Z3_mk_eq(Z,c,keep(Z3_mk_unsigned_int64(Z,w==32?0x7fc00000ull:0x7ff8000000000000ull,bvS(w)))))))); }
  for(auto d:defs) as.push_back(d);
  Z3_solver s=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,s);
  for(auto a:as){ Z3_ast x=from.size()?keep(Z3_substitute(Z,a,from.size(),from.data(),to.data())):a; Z3_solver_assert(Z,s,x); }
  for(auto&i:inputs) if(i.e) { Z3_ast x=from.size()?keep(Z3_substitute(Z,i.e,from.size(),from.data(),to.data())):i.e; if(Z3_get_ast_kind(Z,x)==Z3_APP_AST&&Z3_get_app_num_args(Z,Z3_to_app(Z,x))==0) Z3_solver_assert(Z,s,keep(Z3_mk_eq(Z,x,x))); }
  string body=Z3_solver_to_string(Z,s); for(const char*o:{"bvudiv","bvurem","bvsdiv","bvsrem","bvsmod"}){ string i=string(o)+"_i"; size_t p=0; while((p=body.find(i,p))!=string::npos) body.replace(p,i.size(),o); } Z3_solver_dec_ref(Z,s);
  bool fp=pc_has_fp; char dir[]="/tmp/ksymXXXXXX"; if(!mkdtemp(dir)) return -1; string d=dir;
  string vars; vector<int> idx; for(size_t i=0;i<inputs.size();i++) if(inputs[i].e){ string nm=Z3_ast_to_string(Z,inputs[i].e); if(body.find("(declare-fun "+nm+" ")==string::npos) continue; vars+=" "+nm; idx.push_back(i); }
  FILE*f=fopen((d+"/q.smt2").c_str(),"w"); fprintf(f,"(set-option :produce-models true)\n(set-logic %s)\n%s(check-sat)\n",fp?"QF_BVFP":"QF_BV",body.c_str()); if(vars.size()) fprintf(f,"(get-value (%s))\n",vars.c_str()); fclose(f);
  string tl=std::to_string(portfolio_s*1000);
  vector<string> cmds; if(!fp){ cmds.push_back("exec cvc5 --tlimit="+tl+" --solve-bv-as-int=sum q.smt2 >o0 2>&1"); cmds.push_back("exec z3-new -T:"+std::to_string(portfolio_s)+" sat.smt=true smt.bv.solver=2 tactic.default_tactic=smt q.smt2 >o1 2>&1"); cmds.push_back("exec z3-new -T:"+std::to_string(portfolio_s)+" q.smt2 >o2 2>&1"); cmds.push_back("exec cvc5 --tlimit="+tl+" q.smt2 >o3 2>&1"); }
  else { cmds.push_back("exec cvc5 --tlimit="+tl+" q.smt2 >o0 2>&1"); cmds.push_back("exec z3-new -T:"+std::to_string(portfolio_s)+" q.smt2 >o1 2>&1"); }
  vector<pid_t> ps; for(auto&c:cmds){ pid_t p=fork(); if(p==0){ if(chdir(d.c_str())) _exit(1); execl("/bin/sh","sh","-c",c.c_str(),(char*)0); _exit(127); } ps.push_back(p); }
  int res=-1; string ans; size_t left=ps.size(); vector<bool> done(ps.size());
  while(left&&res<0){ for(size_t i=0;i<ps.size();i++) if(!done[i]){ int st; if(waitpid(ps[i],&st,WNOHANG)==ps[i]){ done[i]=true; left--; FILE*o=fopen((d+"/o"+std::to_string(i)).c_str(),"r"); string txt; if(o){ char buf[4096]; size_t n; while((n=fread(buf,1,4096,o))>0) txt.append(buf,n); fclose(o);} 
      if(verbose) fprintf(stderr,"second stage %zu: %.60s\n",i,txt.c_str());
      if(txt.compare(0,5,"unsat")==0){ res=0; break; } if(txt.compare(0,3,"sat")==0){ res=1; ans=txt; break; } } }
    if(res<0&&left){ if(sh->abort_flag||pastDeadline()) break; usleep(3000); } }
  for(size_t i=0;i<ps.size();i++) if(!done[i]){ kill(ps[i],SIGKILL); int st; waitpid(ps[i],&st,0); }
  for(size_t i=0;i<ps.size();i++) unlink((d+"/o"+std::to_string(i)).c_str()); unlink((d+"/q.smt2").c_str()); rmdir(d.c_str());
  if(res==1&&out){ // rebuild a z3 model from the reported input values
    Z3_solver v=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,v); for(auto a:pc) Z3_solver_assert(Z,v,a); if(extra) Z3_solver_assert(Z,v,extra);
    for(int k:idx){ string nm=Z3_ast_to_string(Z,inputs[k].e); size_t p=ans.find("("+nm+" "); if(p==string::npos) continue; p+=nm.size()+2; u64 val=0; bool ok=false;
      if(!ans.compare(p,2,"#x")){ val=strtoull(ans.c_str()+p+2,0,16); ok=true; } else if(!ans.compare(p,2,"#b")){ val=strtoull(ans.c_str()+p+2,0,2); ok=true; } else if(!ans.compare(p,5,"(_ bv")){ val=strtoull(ans.c_str()+p+5,0,10); ok=true; }
      if(ok) Z3_solver_assert(Z,v,keep(Z3_mk_eq(Z,inputs[k].e,bvc(val,inputs[k].w)))); }
    setRlimit(v,400000000); if(Z3_solver_check(Z,v)==Z3_L_TRUE){ *out=Z3_solver_get_model(Z,v); Z3_model_inc_ref(Z,*out); } else res=-1; Z3_solver_dec_ref(Z,v); }
  return res;
}
static bool modelOk(Z3_model m,Z3_ast extra){ // every model is evaluated against the formula it is a model of
  for(size_t i=0;i<=pc.size();i++){ Z3_ast a=i<pc.size()?pc[i]:extra; if(!a) continue; Z3_ast r; if(!Z3_model_eval(Z,m,a,true,&r)) continue; keep(r); if(Z3_get_bool_value(Z,r)==Z3_L_UNDEF) r=simp(r); if(Z3_get_bool_value(Z,r)==Z3_L_FALSE){ if(verbose) fprintf(stderr,"bad conjunct %zu/%zu: %.1500s\n",i,pc.size(),Z3_ast_to_string(Z,a)); return false; } }
  return true; }
static int checkSat(Z3_ast extra, Z3_model*out){
  double t0=now();
  sh->queries++;
  Z3_lbool r; Z3_solver s=S; bool fresh=false;
  if(pc_has_fp){
    fresh=true;
    s=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_FPBV")); Z3_solver_inc_ref(Z,s); setRlimit(s,rl_fp);
    for(auto a:pc) Z3_solver_assert(Z,s,a);
    if(extra) Z3_solver_assert(Z,s,extra);
    r=Z3_solver_check(Z,s);
  } else {
    if(extra){ Z3_solver_push(Z,S); Z3_solver_assert(Z,S,extra); }
    r=Z3_solver_check(Z,S);
  }
  if(out&&r==Z3_L_TRUE){ *out=Z3_solver_get_model(Z,s); Z3_model_inc_ref(Z,*out); }
  if(fresh) Z3_solver_dec_ref(Z,s);
  else if(r==Z3_L_UNDEF){ // an interrupted incremental solver is not reused
    Z3_solver_dec_ref(Z,S); S=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,S); setRlimit(S,rl_bv); for(auto a:pc) Z3_solver_assert(Z,S,a); }
  else if(extra) Z3_solver_pop(Z,S,1);
  if(out&&r==Z3_L_TRUE&&!modelOk(*out,extra)){ if(verbose) fprintf(stderr,"z3 model does not satisfy the formula (fp %d) at %s\n",pc_has_fp,curLoc().c_str()); r=Z3_L_UNDEF; *out=nullptr; }
  double t1=now(); int res= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
  if(res<0){ sh->second++; res=secondStage(extra,out); }
  double dt=now()-t0; sh->solver_us+=(long)(dt*1e6);
  if(verbose&&dt>1) fprintf(stderr,"slow query %.1fs+%.1fs -> %d at %s\n",t1-t0,now()-t1,res,curLoc().c_str());
  if(res<0) sh->unknowns++;
  return res;
}
static void addPC(Z3_ast a){ a=simp(a); u128 n; if(numeral(a,n)&&n==1) return; pc.push_back(a); Z3_solver_assert(Z,S,a); }
static int evalBool(Z3_ast b){ // under current model
  if(!curModel) return -1;
  Z3_ast r; if(!Z3_model_eval(Z,curModel,b,true,&r)) return -1; keep(r); u128 n; r=simp(r); if(numeral(r,n)) return (int)n; return -1;
}
static bool evalNum(Z3_model m,Z3_ast e,u128&n){ Z3_ast r; if(!Z3_model_eval(Z,m,e,true,&r)) return false; keep(r); r=simp(r); return numeral(r,n); }

static void release_slot_exit(int code);
static bool haveSlot=false; static vector<pid_t> kids;
static void reap(bool block){
  for(size_t i=0;i<kids.size();){ int st; pid_t p=waitpid(kids[i],&st,block?0:WNOHANG); if(p==kids[i]){ if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ sh->errors++; lock(); int k=sh->nerr.load(); if(k<32){ snprintf(sh->err[k],300,"child process died (status %d: %s)",st,WIFSIGNALED(st)?strsignal(WTERMSIG(st)):"exit"); sh->nerr=k+1;} unlock(); } kids.erase(kids.begin()+i);} else i++; }
}
static void release_slot_exit(int code){
  if(haveSlot){ sh->slots++; haveSlot=false; }
  reap(true); _exit(code);
}
static u64 icount=0, iflushed=0;
static void finish_path(){ sh->done_paths++; sh->instrs+=(long)(icount-iflushed); iflushed=icount; release_slot_exit(0); }
static bool evalNum(Z3_model m,Z3_ast e,u128&n);
static double bfD(u64 c){ uint32_t b=(uint32_t)c; float f; memcpy(&f,&b,4); return f; }
static void record_end(){
  long n=sh->ended++; bool take=n<12; if(!take){ long q=n; while(q>12&&q%3==0) q/=3; take=q<12; } // first paths, then ever sparser
  if(!take||tainted) return;
  if(!curModel){ Z3_model m; if(checkSat(nullptr,&m)<=0) return; setModel(m); }
  { // prefer a model with non-trivial values: pin inputs to pseudo-random values where the path allows it
    static const u64 pat[]={0x3e9a3d71,0x3f1c28f6,0xbf2b851f,0x3dcccccd,0x40490fdb,0xbe4ccccd,0x3f7d70a4,0x3f000000}; u64 rnd=88172645463325252ull+n*7919; auto nx=[&]{ rnd^=rnd<<13; rnd^=rnd>>7; rnd^=rnd<<17; return rnd; };
    vector<Z3_ast> eqs; for(auto&i:inputs) if(i.e){ u64 v=nx(); if(i.w==32) v=pat[v&7]; if(i.w==64){ if(v&1){ double d=bfD(pat[(v>>3)&7]); memcpy(&v,&d,8);} } eqs.push_back(keep(Z3_mk_eq(Z,i.e,bvc(v,i.w)))); }
    if(eqs.size()){ Z3_ast all=keep(Z3_mk_and(Z,eqs.size(),eqs.data())); Z3_model m=nullptr; int r=checkSat(all,&m); if(r==1) setModel(m); else if(!pc_has_fp||pc.size()<6){ vector<Z3_ast> acc; int tries=0; for(auto q:eqs){ if(++tries>10) break; acc.push_back(q); Z3_model m2=nullptr; int r2=checkSat(keep(Z3_mk_and(Z,acc.size(),acc.data())),&m2); if(r2==1) setModel(m2); else acc.pop_back(); } } } }
  static WRec w; memset(&w,0,sizeof w); for(auto&i:inputs){ if(w.nin>=MAXIN) return; snprintf(w.names[w.nin],24,"%s",i.name.c_str()); w.widths[w.nin]=i.w; u128 x=0; if(i.e) evalNum(curModel,i.e,x); w.vals[w.nin]=(u64)x; w.nin++; }
  for(auto&t:notes){ u128 x=t.second.first; if(t.first&&!evalNum(curModel,t.first,x)) return; w.notes[w.nnotes]=(u64)x; w.nw[w.nnotes]=t.second.second; w.nnotes++; }
  lock(); int k=sh->nwit.load(); if(k<40){ memcpy(&sh->wit[k],&w,sizeof w); sh->nwit=k+1; } unlock();
}
static void terminate(const char*why){ (void)why; finish_path(); }
static void engine_error(const string&m){
  lock(); int k=sh->nerr.load(); bool dup=false; for(int i=0;i<k;i++) if(!strncmp(sh->err[i],m.c_str(),299)) dup=true;
  if(k<32&&!dup){ snprintf(sh->err[k],300,"%s",m.c_str()); sh->nerr=k+1; } unlock();
  sh->errors++; sh->instrs+=(long)(icount-iflushed); release_slot_exit(0);
}
// fork: returns true in the child
static bool do_fork(){
  if(sh->abort_flag||pastDeadline()){ sh->abort_flag=1; release_slot_exit(0); }
  sh->forks++;
  fflush(stdout); fflush(stderr);
  int sl=sh->slots.load(); bool par=false;
  while(sl>0){ if(sh->slots.compare_exchange_weak(sl,sl-1)){ par=true; break; } }
  pid_t p=fork();
  if(p<0){ if(par) sh->slots++; engine_error("fork failed"); }
  if(p==0){ kids.clear(); haveSlot=par; sh->paths++; iflushed=icount; return true; }
  if(par){ kids.push_back(p); if(kids.size()>16) reap(false); }
  else { int st; // lend our own slot while waiting is not needed: the child runs in our stead
    while(waitpid(p,&st,0)<0&&errno==EINTR){}
    if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ sh->errors++; lock(); int k=sh->nerr.load(); if(k<32){ snprintf(sh->err[k],300,"child process died (status %d)",st); sh->nerr=k+1;} unlock(); }
  }
  return false;
}

// ---------------------------------------------------------------- types
struct Ty { enum K{Void,Int,Ptr,Flt,Dbl,Struct,Array,Vec,Other} k=Other; unsigned bits=0; u64 store=0, alloc=0; vector<Ty*> el; vector<u64> off; u64 n=0; };
static LLVMTargetDataRef TD; static std::unordered_map<LLVMTypeRef,Ty*> tys;
static Ty* ty(LLVMTypeRef t){
  auto it=tys.find(t); if(it!=tys.end()) return it->second;
  Ty*r=new Ty; tys[t]=r;
  switch(LLVMGetTypeKind(t)){
    case LLVMVoidTypeKind: r->k=Ty::Void; return r;
    case LLVMIntegerTypeKind: r->k=Ty::Int; r->bits=LLVMGetIntTypeWidth(t); break;
    case LLVMPointerTypeKind: r->k=Ty::Ptr; r->bits=64; break;
    case LLVMFloatTypeKind: r->k=Ty::Flt; r->bits=32; break;
    case LLVMDoubleTypeKind: r->k=Ty::Dbl; r->bits=64; break;
    case LLVMStructTypeKind: { r->k=Ty::Struct; unsigned n=LLVMCountStructElementTypes(t); r->n=n; for(unsigned i=0;i<n;i++){ r->el.push_back(ty(LLVMStructGetTypeAtIndex(t,i))); r->off.push_back(LLVMOffsetOfElement(TD,t,i)); } break; }
    case LLVMArrayTypeKind: { r->k=Ty::Array; r->n=LLVMGetArrayLength2(t); r->el.push_back(ty(LLVMGetElementType(t))); break; }
    case LLVMVectorTypeKind: { r->k=Ty::Vec; r->n=LLVMGetVectorSize(t); r->el.push_back(ty(LLVMGetElementType(t))); break; }
    default: r->k=Ty::Other; return r;
  }
  r->store=LLVMStoreSizeOfType(TD,t); r->alloc=LLVMABISizeOfType(TD,t);
  return r;
}

// ---------------------------------------------------------------- memory
struct SymB { Z3_ast e=nullptr; unsigned idx=0; };
struct Obj { u64 base,size; vector<uint8_t> d; vector<SymB> s; char kind; bool ro=false; };
static std::map<u64,Obj*> mem; static u64 nextAddr=0x100000000ull; static Obj* lastObj=nullptr;
static std::map<u64,u64> freedRanges; // base->size of freed heap / dead stack objects (for messages)
static Obj* newObj(u64 size,u64 align,char kind){
  if(align<16) align=16; u64 a=(nextAddr+align-1)/align*align; nextAddr=a+size+ (size<4096?8192:65536)+ (size>>1);
  Obj*o=new Obj; o->base=a; o->size=size; o->d.assign(size, kind=='h'?0xA5:(kind=='s'?0x5A:0)); o->kind=kind; mem.emplace_hint(mem.end(),a,o); return o;
}
static Obj* findObj(u64 a){
  if(lastObj&&a>=lastObj->base&&a-lastObj->base<lastObj->size) return lastObj;
  auto it=mem.upper_bound(a); if(it==mem.begin()) return nullptr; --it; Obj*o=it->second;
  if(a-o->base<o->size){ lastObj=o; return o; } return nullptr;
}
static void killObj(Obj*o){ if(lastObj==o) lastObj=nullptr; mem.erase(o->base); delete o; }

static void violation(const char*kind,const string&id,Z3_ast extra,Z3_model given=nullptr);
static string curLoc(); static string stackStr();

static Obj* access(u64 a,u64 n,bool wr){
  Obj*o=findObj(a);
  if(!o||a-o->base+n>o->size){
    if(n==0) return nullptr;
    char b[120]; snprintf(b,sizeof b,"%s of %lu bytes %s",wr?"write":"read",n,!o?(a<4096?"through a null pointer":"outside every live object (freed, dangling or out of bounds)"):"past the end of its object");
    violation("memory",b,nullptr); terminate("mem");
  }
  if(wr&&o->ro){ violation("memory","write to constant memory",nullptr); terminate("mem"); }
  return o;
}
// `e` seen as bits of another term: that term and the first bit
static Z3_ast innerOf(Z3_ast e,unsigned&lo){
  if(Z3_get_ast_kind(Z,e)!=Z3_APP_AST) return nullptr; Z3_app ap=Z3_to_app(Z,e); Z3_func_decl d=Z3_get_app_decl(Z,ap);
  if(Z3_get_decl_kind(Z,d)!=Z3_OP_EXTRACT) return nullptr;
  lo=Z3_get_decl_int_parameter(Z,d,1); return Z3_get_app_arg(Z,ap,0);
}
static Val part(Z3_ast e,unsigned hi,unsigned lo){
  unsigned w=bvw(e); if(lo==0&&hi==w-1) return mkVal(e);
  Z3_decl_kind k=Z3_get_ast_kind(Z,e)==Z3_APP_AST?Z3_get_decl_kind(Z,Z3_get_app_decl(Z,Z3_to_app(Z,e))):Z3_OP_TRUE;
  Z3_ast x=keep(Z3_mk_extract(Z,hi,lo,asBV(Val::sym(e),w)));
  // not simplified over sums and products, so that rejoining the parts gives the whole back
  return k==Z3_OP_BADD||k==Z3_OP_BMUL?Val::sym(x):mkVal(x);
}
static Val loadScalar(u64 a,unsigned bits){
  unsigned n=(bits+7)/8; Obj*o=access(a,n,false); u64 off=a-o->base;
  if(o->s.empty()){ u128 v=0; if(n==8){ u64 x; memcpy(&x,&o->d[off],8); v=x; } else memcpy(&v,&o->d[off],n); return Val(v&mask(bits)); }
  bool any=false; for(unsigned i=0;i<n;i++) if(o->s[off+i].e){ any=true; break; }
  if(!any){ u128 v=0; memcpy(&v,&o->d[off],n); return Val(v&mask(bits)); }
  SymB b0=o->s[off]; 
  if(b0.e&&b0.idx==0){ unsigned w=bvw(b0.e); unsigned wn=(w+7)/8; if(wn==n){ bool ok=true; for(unsigned i=1;i<n;i++) if(o->s[off+i].e!=b0.e||o->s[off+i].idx!=i){ok=false;break;} if(ok&&w==bits) return Val::sym(b0.e);
      if(ok&&w<bits){ return mkVal(Z3_mk_zero_ext(Z,bits-w,asBV(Val::sym(b0.e),w))); }
      if(ok&&w>bits){ return part(b0.e,bits-1,0); } } }
  // pieces, lowest byte first: neighbouring bytes of one term are one piece (splitting and rejoining a word gives the word back)
  struct Piece{ Z3_ast e; unsigned lo,hi; }; vector<Piece> ps;
  for(unsigned i=0;i<n;i++){ SymB s=o->s[off+i];
    if(!s.e){ ps.push_back({bvc(o->d[off+i],8),0,7}); continue; }
    unsigned w=bvw(s.e); Z3_ast e=asBV(Val::sym(s.e),w); unsigned lo=s.idx*8, hi=lo+7;
    if(hi>=w){ ps.push_back({keep(Z3_mk_zero_ext(Z,8-(w-lo),keep(Z3_mk_extract(Z,w-1,lo,e)))),0,7}); continue; }
    unsigned sh; if(Z3_ast in=innerOf(e,sh)){ e=in; lo+=sh; hi+=sh; }
    if(!ps.empty()&&ps.back().e==e&&ps.back().hi+1==lo) ps.back().hi=hi; else ps.push_back({e,lo,hi}); }
  if(ps.size()==1&&n*8==bits) return part(ps[0].e,ps[0].hi,ps[0].lo);
  Z3_ast r=nullptr;
  for(auto&p:ps){ Z3_ast b=bvw(p.e)==p.hi-p.lo+1?p.e:keep(Z3_mk_extract(Z,p.hi,p.lo,p.e)); r=r?keep(Z3_mk_concat(Z,b,r)):b; }
  if(n*8>bits) r=keep(Z3_mk_extract(Z,bits-1,0,r));
  return mkVal(r);
}
static void storeScalar(u64 a,const Val&v,unsigned bits){
  unsigned n=(bits+7)/8; Obj*o=access(a,n,true); u64 off=a-o->base;
  if(!v.e){ u128 c=v.c&mask(bits); if(n==8){ u64 x=(u64)c; memcpy(&o->d[off],&x,8);} else memcpy(&o->d[off],&c,n); if(!o->s.empty()) for(unsigned i=0;i<n;i++) o->s[off+i].e=nullptr; return; }
  if(o->s.empty()) o->s.resize(o->size);
  for(unsigned i=0;i<n;i++){ o->s[off+i].e=v.e; o->s[off+i].idx=i; }
}
static Val loadTy(u64 a,Ty*t){
  switch(t->k){
    case Ty::Int: case Ty::Ptr: case Ty::Flt: case Ty::Dbl: return loadScalar(a,t->bits);
    case Ty::Struct: { Val v; v.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++) v.a->push_back(loadTy(a+t->off[i],t->el[i])); return v; }
    case Ty::Array: { Val v; v.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++) v.a->push_back(loadTy(a+i*t->el[0]->alloc,t->el[0])); return v; }
    case Ty::Vec: { Val v; v.a=std::make_shared<vector<Val>>(); if(t->el[0]->bits%8){ Val w=loadScalar(a,t->n*t->el[0]->bits); if(w.e) engine_error("symbolic sub-byte vector load"); for(u64 i=0;i<t->n;i++) v.a->push_back(Val((w.c>>(i*t->el[0]->bits))&mask(t->el[0]->bits))); return v; } for(u64 i=0;i<t->n;i++) v.a->push_back(loadTy(a+i*t->el[0]->bits/8,t->el[0])); return v; }
    default: engine_error("load of unsupported type"); }
  return Val();
}
static void storeTy(u64 a,const Val&v,Ty*t){
  switch(t->k){
    case Ty::Int: case Ty::Ptr: case Ty::Flt: case Ty::Dbl: storeScalar(a,v,t->bits); return;
    case Ty::Struct: for(u64 i=0;i<t->n;i++) storeTy(a+t->off[i],v.a?(*v.a)[i]:Val(),t->el[i]); return;
    case Ty::Array: for(u64 i=0;i<t->n;i++) storeTy(a+i*t->el[0]->alloc,v.a?(*v.a)[i]:Val(),t->el[0]); return;
    case Ty::Vec: if(t->el[0]->bits%8){ u128 w=0; for(u64 i=0;i<t->n;i++){ Val x=v.a?(*v.a)[i]:Val(); if(x.e) engine_error("symbolic sub-byte vector store"); w|=(x.c&mask(t->el[0]->bits))<<(i*t->el[0]->bits);} storeScalar(a,Val(w),t->n*t->el[0]->bits); return; }
      for(u64 i=0;i<t->n;i++) storeTy(a+i*t->el[0]->bits/8,v.a?(*v.a)[i]:Val(),t->el[0]); return;
    default: engine_error("store of unsupported type"); }
}
static void copyMem(u64 dst,u64 src,u64 n){
  if(!n) return; Obj*s=access(src,n,false); Obj*d=access(dst,n,true); u64 so=src-s->base, dO=dst-d->base;
  memmove(&d->d[dO],&s->d[so],n);
  if(!s->s.empty()){ if(d->s.empty()){ bool any=false; for(u64 i=0;i<n;i++) if(s->s[so+i].e){any=true;break;} if(!any) return; d->s.resize(d->size); } vector<SymB> t(s->s.begin()+so,s->s.begin()+so+n); std::copy(t.begin(),t.end(),d->s.begin()+dO); }
  else if(!d->s.empty()) for(u64 i=0;i<n;i++) d->s[dO+i].e=nullptr;
}

// ---------------------------------------------------------------- decoded code
struct Opd { int reg=-1; Val c; };
struct GStep { Opd o; u64 scale; };
struct Op { int opc=0; int dst=-1; Ty*t=nullptr; Ty*t2=nullptr; vector<Opd> o; int aux=0; i64 off=0; vector<GStep> g; vector<int> idx; vector<u128> cases; vector<int> bbs; int fn=-1; int intr=0; int loc=0; u64 al=0; LLVMValueRef inst=nullptr; };
struct PhiMove { int dst; Opd src; };
struct BB { vector<Op> ops; vector<std::pair<int,vector<PhiMove>>> phi; };
struct Fn { string name; LLVMValueRef v; bool decl=false, decoded=false; int nregs=0, nargs=0; vector<BB> bb; u64 addr=0; int handler=0; Ty*ret=nullptr; bool used=false; };
static vector<Fn> fns; static std::unordered_map<LLVMValueRef,int> fnIdx; static std::unordered_map<u64,int> fnByAddr;
static std::unordered_map<LLVMValueRef,u64> gaddr;
static vector<string> locs; static std::map<std::pair<string,unsigned>,int> locIdx; 
static const int MAXLOC=1<<17;
static int sharedLoc(const string&s){ // index of a /repo source line in the shared coverage table
  u64 h=1469598103934665603ull; for(char c:s) h=(h^(unsigned char)c)*1099511628211ull; int m=(1<<16)-1; int k=(int)(h&m);
  lock(); int r=0; for(;;k=(k+1)&m){ int x=sh->lochash[k]; if(!x){ int n=sh->nloc.load()+1; if(n>=(1<<14)){ r=0; break; } snprintf(sh->loc[n],120,"%s",s.c_str()); sh->nloc=n; sh->lochash[k]=n; r=n; break; } if(!strncmp(sh->loc[x],s.c_str(),119)){ r=x; break; } } unlock(); return r; }
static vector<int> locCov;

static Val constVal(LLVMValueRef v);
static u64 globalAddr(LLVMValueRef v);
static Val zeroOf(Ty*t){ Val v; if(t->k==Ty::Struct){ v.a=std::make_shared<vector<Val>>(); for(auto e:t->el) v.a->push_back(zeroOf(e)); } else if(t->k==Ty::Array||t->k==Ty::Vec){ v.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++) v.a->push_back(zeroOf(t->el[0])); } return v; }
static Val constVal(LLVMValueRef v){
  Ty*t=ty(LLVMTypeOf(v));
  if(LLVMIsAUndefValue(v)||LLVMIsAPoisonValue(v)||LLVMIsAConstantAggregateZero(v)) return zeroOf(t);
  if(LLVMIsAConstantPointerNull(v)) return Val(0);
  if(LLVMIsAConstantInt(v)){ 
    if(t->k==Ty::Vec){ Val r; r.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++){ LLVMValueRef e=LLVMGetAggregateElement(v,i); r.a->push_back(constVal(e)); } return r; }
    if(t->bits<=64) return Val(LLVMConstIntGetZExtValue(v)); char*s=LLVMPrintValueToString(v); char*p=strchr(s,' '); p++; bool neg=*p=='-'; if(neg)p++; u128 r=0; for(;*p>='0'&&*p<='9';p++) r=r*10+(*p-'0'); if(neg) r=-r; LLVMDisposeMessage(s); return Val(r&mask(t->bits)); }
  if(LLVMIsAConstantFP(v)){ 
    if(t->k==Ty::Vec){ Val r; r.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++) r.a->push_back(constVal(LLVMGetAggregateElement(v,i))); return r; }
    LLVMBool li; double d=LLVMConstRealGetDouble(v,&li); if(t->k==Ty::Flt){ float f=(float)d; uint32_t b; memcpy(&b,&f,4); return Val(b);} u64 b; memcpy(&b,&d,8); return Val(b); }
  if(LLVMIsAGlobalAlias(v)) return constVal(LLVMAliasGetAliasee(v));
  if(LLVMIsAFunction(v)||LLVMIsAGlobalVariable(v)) return Val(globalAddr(v));
  if(LLVMIsAConstantExpr(v)){
    int op=LLVMGetConstOpcode(v);
    auto O=[&](int i){ return LLVMGetOperand(v,i); };
    switch(op){
      case LLVMGetElementPtr: { Val b=constVal(O(0)); u64 a=(u64)b.c; LLVMTypeRef st=LLVMGetGEPSourceElementType(v); int n=LLVMGetNumOperands(v); LLVMTypeRef cur=st;
        for(int i=1;i<n;i++){ i64 ix=(i64)sx(constVal(O(i)).c,ty(LLVMTypeOf(O(i)))->bits); if(i==1) a+=ix*ty(cur)->alloc; else { Ty*ct=ty(cur); if(ct->k==Ty::Struct){ a+=ct->off[ix]; cur=LLVMStructGetTypeAtIndex(cur,ix);} else { cur=LLVMGetElementType(cur); a+=ix*ty(cur)->alloc; } } }
        return Val(a); }
      case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case 69: case LLVMTrunc: { Val b=constVal(O(0)); return Val(b.c&mask(t->bits)); }
      case LLVMAdd: return Val((constVal(O(0)).c+constVal(O(1)).c)&mask(t->bits));
      case LLVMSub: return Val((constVal(O(0)).c-constVal(O(1)).c)&mask(t->bits));
      default: { char*s=LLVMPrintValueToString(v); engine_error(string("constant expression ")+s); } }
  }
  if(LLVMIsAConstantDataSequential(v)||LLVMIsAConstantArray(v)||LLVMIsAConstantStruct(v)||LLVMIsAConstantVector(v)){
    Val r; r.a=std::make_shared<vector<Val>>(); u64 n=t->n; for(u64 i=0;i<n;i++) r.a->push_back(constVal(LLVMGetAggregateElement(v,i))); return r; }
  char*s=LLVMPrintValueToString(v); engine_error(string("constant ")+s); return Val();
}
static LLVMModuleRef M;
static int fnOf(LLVMValueRef f){ auto it=fnIdx.find(f); if(it!=fnIdx.end()) return it->second; int i=fns.size(); fns.emplace_back(); Fn&F=fns.back(); F.v=f; size_t l; F.name=LLVMGetValueName2(f,&l); F.decl=LLVMIsDeclaration(f); F.addr=0x10000+ (u64)i*64; fnIdx[f]=i; fnByAddr[F.addr]=i; F.ret=ty(LLVMGetReturnType(LLVMGlobalGetValueType(f))); F.nargs=LLVMCountParams(f); return i; }
static void storeInit(u64 a,LLVMValueRef init){
  Ty*t=ty(LLVMTypeOf(init));
  if(LLVMIsAConstantAggregateZero(init)||LLVMIsAUndefValue(init)) return; // memory starts zeroed
  if(t->k==Ty::Array&&LLVMIsAConstantDataSequential(init)){ if(t->el[0]->bits==8&&LLVMIsConstantString(init)){ size_t l; const char*s=LLVMGetAsString(init,&l); Obj*o=findObj(a); memcpy(&o->d[a-o->base],s,l); return; } }
  if(t->k==Ty::Struct){ for(u64 i=0;i<t->n;i++){ if(t->el[i]->store==0) continue; storeInit(a+t->off[i],LLVMGetAggregateElement(init,i)); } return; }
  if(t->k==Ty::Array){ if(t->el[0]->store==0) return; for(u64 i=0;i<t->n;i++) storeInit(a+i*t->el[0]->alloc,LLVMGetAggregateElement(init,i)); return; }
  storeTy(a,constVal(init),t);
}
static u64 globalAddr(LLVMValueRef v){
  if(LLVMIsAFunction(v)) return fns[fnOf(v)].addr;
  auto it=gaddr.find(v); if(it!=gaddr.end()) return it->second;
  Ty*t=ty(LLVMGlobalGetValueType(v)); u64 al=LLVMGetAlignment(v); Obj*o=newObj(t->alloc?t->alloc:1,al?al:16,'g'); std::fill(o->d.begin(),o->d.end(),0); gaddr[v]=o->base; u64 base=o->base;
  LLVMValueRef init=LLVMGetInitializer(v); if(init) storeInit(base,init);
  if(init&&LLVMIsGlobalConstant(v)){ Obj*oo=findObj(base); oo->ro=true; }
  return base;
}

enum Intr { I_NONE=0,I_NOP,I_MEMCPY,I_MEMSET,I_ASSUME,I_OVF,I_SAT,I_MINMAX,I_ABS,I_CT,I_BSWAP,I_FSH,I_FUN1,I_FUN2,I_FMA,I_FPTOI_SAT,I_FPCLASS,I_TRAP,I_EXPECT,I_TLS,I_ISCONST,I_CMP3,I_COPYSIGN,I_FMINMAX,I_BITREV,I_OBJSIZE,I_FRINT };
static int intrOf(const string&n,int&aux){
  auto has=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
  if(has("llvm.lifetime")||has("llvm.experimental.noalias")||has("llvm.dbg")||has("llvm.prefetch")||has("llvm.donothing")||has("llvm.x86.sse2.pause")||has("llvm.sideeffect")||has("llvm.invariant")||has("llvm.x86.sse.sfence")||has("llvm.x86.sse.ldmxcsr")||has("llvm.x86.sse.stmxcsr")||has("llvm.fake.use")) return I_NOP;
  if(has("llvm.memcpy")||has("llvm.memmove")) return I_MEMCPY;
  if(has("llvm.memset")) return I_MEMSET;
  if(has("llvm.assume")) return I_ASSUME;
  if(has("llvm.expect")) return I_EXPECT;
  if(has("llvm.ssa.copy")||has("llvm.launder")||has("llvm.strip.invariant")||has("llvm.ptrmask_x")) return I_EXPECT;
  const char* ov[]={"llvm.uadd.with.overflow","llvm.usub.with.overflow","llvm.umul.with.overflow","llvm.sadd.with.overflow","llvm.ssub.with.overflow","llvm.smul.with.overflow"};
  for(int i=0;i<6;i++) if(has(ov[i])){ aux=i; return I_OVF; }
  const char* sa[]={"llvm.uadd.sat","llvm.usub.sat","llvm.sadd.sat","llvm.ssub.sat"}; for(int i=0;i<4;i++) if(has(sa[i])){ aux=i; return I_SAT; }
  const char* mm[]={"llvm.umin","llvm.umax","llvm.smin","llvm.smax"}; for(int i=0;i<4;i++) if(has(mm[i])){ aux=i; return I_MINMAX; }
  if(has("llvm.abs")) return I_ABS;
  if(has("llvm.ctlz")){aux=0;return I_CT;} if(has("llvm.cttz")){aux=1;return I_CT;} if(has("llvm.ctpop")){aux=2;return I_CT;}
  if(has("llvm.bswap")) return I_BSWAP; if(has("llvm.bitreverse")) return I_BITREV;
  if(has("llvm.fshl")){aux=0;return I_FSH;} if(has("llvm.fshr")){aux=1;return I_FSH;}
  if(has("llvm.ucmp")){aux=0;return I_CMP3;} if(has("llvm.scmp")){aux=1;return I_CMP3;}
  if(has("llvm.fptosi.sat")){aux=1;return I_FPTOI_SAT;} if(has("llvm.fptoui.sat")){aux=0;return I_FPTOI_SAT;}
  if(has("llvm.is.fpclass")) return I_FPCLASS;
  if(has("llvm.trap")||has("llvm.debugtrap")||has("llvm.ubsantrap")) return I_TRAP;
  if(has("llvm.threadlocal.address")) return I_TLS;
  if(has("llvm.is.constant")) return I_ISCONST;
  if(has("llvm.objectsize")) return I_OBJSIZE;
  if(has("llvm.fma.")||has("llvm.fmuladd")) return I_FMA;
  if(has("llvm.copysign")) return I_COPYSIGN;
  const char* fm[]={"llvm.minnum.","llvm.maxnum.","llvm.minimumnum","llvm.maximumnum","llvm.minimum.","llvm.maximum."}; for(int i=0;i<6;i++) if(has(fm[i])){ aux=i%2; return i>=4?I_NONE:I_FMINMAX; }
  const char* fr[]={"llvm.floor","llvm.ceil","llvm.trunc","llvm.roundeven","llvm.rint","llvm.nearbyint","llvm.round."}; for(int i=0;i<7;i++) if(has(fr[i])){ aux=i; return I_FRINT; }
  const char* f1[]={"llvm.fabs","llvm.sqrt","llvm.sin.","llvm.cos.","llvm.exp.","llvm.exp2","llvm.log.","llvm.log2","llvm.log10","llvm.tan.","llvm.tanh."}; for(int i=0;i<11;i++) if(has(f1[i])){ aux=i; return I_FUN1; }
  if(has("llvm.pow.")){aux=0;return I_FUN2;} if(has("llvm.powi.")){aux=1;return I_FUN2;}
  return I_NONE;
}
enum Hnd { H_NONE=0,H_MALLOC,H_CALLOC,H_REALLOC,H_MEMALIGN,H_FREE,H_BCMP,H_STRLEN,H_ANY,H_ANYF32,H_ANYF64,H_CHOICE,H_ASSUME,H_ASSERT,H_COVER,H_PANICOK,H_MIX,H_CONC,H_PANIC,H_MATH1,H_MATH2,H_ABORT,H_GETRANDOM,H_ZERO,H_FMOD,H_LOG,H_FRESHF,H_EQBITS,H_ISSYM,H_NOTE,H_NOTEF,H_RT,H_HAVOC };
struct HN{const char*n;int h;}; 
static const char* math1[]={"fabs","sqrt","sin","cos","exp","exp2","log","log2","log10","tan","tanh","sinh","cosh","atan","asin","acos","cbrt","expm1","log1p","floor","ceil","trunc","round","rint"};
static int math1Of(const string&n,bool&isf){ for(int i=0;i<24;i++){ if(n==math1[i]){isf=false;return i;} if(n==string(math1[i])+"f"){isf=true;return i;} } return -1; }
static int handlerOf(const string&n){
  static const HN t[]={{"malloc",H_MALLOC},{"calloc",H_CALLOC},{"realloc",H_REALLOC},{"posix_memalign",H_MEMALIGN},{"free",H_FREE},{"bcmp",H_BCMP},{"memcmp",H_BCMP},{"strlen",H_STRLEN},{"ks_any",H_ANY},{"ks_mix",H_MIX},{"ks_any_f32",H_ANYF32},{"ks_any_f64",H_ANYF64},{"ks_choice",H_CHOICE},{"ks_assume",H_ASSUME},{"ks_assert",H_ASSERT},{"ks_cover",H_COVER},{"ks_panic_ok",H_PANICOK},{"ks_concretize",H_CONC},{"ks_issym",H_ISSYM},{"ks_note",H_NOTE},{"ks_note_f32",H_NOTEF},{"ks_rt",H_RT},{"ks_havoc_tables",H_HAVOC},{"abort",H_ABORT},{"getrandom",H_GETRANDOM},{"__cxa_thread_atexit_impl",H_ZERO},{"pow",H_MATH2},{"powf",H_MATH2},{"atan2",H_MATH2},{"atan2f",H_MATH2},{"hypot",H_MATH2},{"hypotf",H_MATH2},{"fmod",H_FMOD},{"fmodf",H_FMOD},{"gettid",H_ZERO},{"getenv",H_ZERO}};
  for(auto&x:t) if(n==x.n) return x.h;
  bool f; if(math1Of(n,f)>=0) return H_MATH1;
  // panic entry points of core/std (v0 and legacy mangling)
  if(n.find("9panicking")!=string::npos){
    static const char* ent[]={"9panicking9panic_fmt","9panicking5panic","9panicking18panic_nounwind","9panicking11panic_const","9panicking18panic_bounds_check","9panicking19panic_cannot_unwind","9panicking11panic_display","9panicking14panic_explicit","9panicking13assert_failed","9panicking19assert_failed_inner","9panicking22panic_nounwind_nobacktrace","9panicking26panic_nounwind_nobacktrace","9panicking36panic_misaligned_pointer_dereference","9panicking30panic_null_pointer_dereference","9panicking20rust_panic_with_hook","9panicking13panic_handler","9panicking15panic_str_2015","9panicking16panic_in_cleanup","9panicking11begin_panic","9panicking10rust_panic"};
    for(auto e:ent) if(n.find(e)!=string::npos) return H_PANIC;
    return H_NONE;
  }
  if(n.find("17rust_begin_unwind")!=string::npos||n=="rust_begin_unwind"||n=="rust_panic") return H_PANIC;
  return H_NONE;
}

static void decode(int fi){
  Fn*F=&fns[fi]; if(F->decoded) return; 
  LLVMValueRef f=F->v; int h=F->handler=handlerOf(F->name); F->decoded=true; if(F->decl||h) return;
  std::unordered_map<LLVMValueRef,int> regs; std::unordered_map<LLVMBasicBlockRef,int> bbi; int n=0;
  for(int i=0;i<F->nargs;i++) regs[LLVMGetParam(f,i)]=n++;
  int nb=0; for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)){ bbi[b]=nb++; for(LLVMValueRef I=LLVMGetFirstInstruction(b);I;I=LLVMGetNextInstruction(I)) regs[I]=n++; }
  vector<BB> bbs(nb); 
  auto opd=[&](LLVMValueRef v)->Opd{ Opd o; auto it=regs.find(v); if(it!=regs.end()) o.reg=it->second; else { if(LLVMGetTypeKind(LLVMTypeOf(v))==LLVMMetadataTypeKind) return o; if(LLVMIsAInlineAsm(v)) return o; o.c=constVal(v);} return o; };
  int k=0;
  for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b),k++){
    BB&B=bbs[k]; std::map<int,vector<PhiMove>> ph;
    for(LLVMValueRef I=LLVMGetFirstInstruction(b);I;I=LLVMGetNextInstruction(I)){
      Op op; op.opc=LLVMGetInstructionOpcode(I); op.dst=regs[I]; op.t=ty(LLVMTypeOf(I)); op.inst=I;
      unsigned fl=0,dl=0; 
      { unsigned line=LLVMGetDebugLocLine(I); if(line){ const char*fn=LLVMGetDebugLocFilename(I,&fl); const char*dir=LLVMGetDebugLocDirectory(I,&dl); string s(fn?string(fn,fl):""); if(dir&&s.size()&&s[0]!='/') s=string(dir,dl)+"/"+s; auto key=std::make_pair(s,line); auto it=locIdx.find(key); if(it==locIdx.end()){ if((int)locs.size()<MAXLOC-1){ op.loc=locs.size(); locIdx[key]=op.loc; locs.push_back(s+":"+std::to_string(line)); locCov.push_back(s.compare(0,6,"/repo/")==0?sharedLoc(s+":"+std::to_string(line)):0); } } else op.loc=it->second; } }
      int no=LLVMGetNumOperands(I);
      switch(op.opc){
        case LLVMPHI: { int c=LLVMCountIncoming(I); for(int i=0;i<c;i++) ph[bbi[LLVMGetIncomingBlock(I,i)]].push_back({op.dst,opd(LLVMGetIncomingValue(I,i))}); continue; }
        case LLVMAlloca: { op.t2=ty(LLVMGetAllocatedType(I)); op.al=LLVMGetAlignment(I); op.o.push_back(opd(LLVMGetOperand(I,0))); break; }
        case LLVMGetElementPtr: { op.o.push_back(opd(LLVMGetOperand(I,0))); LLVMTypeRef cur=LLVMGetGEPSourceElementType(I);
          for(int i=1;i<no;i++){ LLVMValueRef ix=LLVMGetOperand(I,i); u64 sc; if(i>1){ Ty*ct=ty(cur); if(ct->k==Ty::Struct){ u64 j=LLVMConstIntGetZExtValue(ix); op.off+=ct->off[j]; cur=LLVMStructGetTypeAtIndex(cur,j); continue; } cur=LLVMGetElementType(cur); } sc=ty(cur)->alloc; if(LLVMIsAConstantInt(ix)) op.off+=(i64)sx(constVal(ix).c,ty(LLVMTypeOf(ix))->bits)*(i64)sc; else { GStep g; g.o=opd(ix); g.scale=sc; op.g.push_back(g); op.idx.push_back(ty(LLVMTypeOf(ix))->bits);} }
          break; }
        case LLVMSwitch: { op.o.push_back(opd(LLVMGetOperand(I,0))); op.t2=ty(LLVMTypeOf(LLVMGetOperand(I,0)));
          // generic: successors; case values through operands or dedicated accessor
          unsigned ns=LLVMGetNumSuccessors(I); for(unsigned i=0;i<ns;i++) op.bbs.push_back(bbi[LLVMGetSuccessor(I,i)]);
          break; }
        case LLVMBr: { }
        default: if(LLVMIsATerminatorInst(I)&&op.opc!=LLVMRet&&op.opc!=LLVMUnreachable&&op.opc!=LLVMInvoke&&op.opc!=LLVMSwitch&&op.opc!=LLVMResume){
            unsigned ns=LLVMGetNumSuccessors(I); for(unsigned i=0;i<ns;i++) op.bbs.push_back(bbi[LLVMGetSuccessor(I,i)]); op.opc=LLVMBr; if(ns==2) op.o.push_back(opd(LLVMGetCondition(I))); break; }
          if(op.opc==LLVMCall||op.opc==LLVMInvoke){ LLVMValueRef cv=LLVMGetCalledValue(I); int na=LLVMGetNumArgOperands(I);
            if(LLVMIsAFunction(cv)){ size_t l; string nm=LLVMGetValueName2(cv,&l); if(nm.compare(0,5,"llvm.")==0){ op.intr=intrOf(nm,op.aux); if(op.intr==I_NONE){ op.intr=-1; } op.t2= na? ty(LLVMTypeOf(LLVMGetArgOperand(I,0))):nullptr; } else op.fn=fnOf(cv), F=&fns[fi]; }
            if(LLVMIsAInlineAsm(cv)) op.intr=I_NOP;
            if(op.intr!=I_NOP||LLVMIsAInlineAsm(cv)) for(int i=0;i<na;i++) op.o.push_back(opd(LLVMGetArgOperand(I,i)));
            if(op.fn<0&&op.intr==0) op.o.push_back(opd(cv)), op.aux=1;
            if(op.opc==LLVMInvoke) op.bbs.push_back(bbi[LLVMGetNormalDest(I)]);
            break; }
          for(int i=0;i<no;i++){ LLVMValueRef v=LLVMGetOperand(I,i); if(LLVMValueIsBasicBlock(v)) continue; op.o.push_back(opd(v)); }
          if(op.opc==LLVMICmp) { op.aux=LLVMGetICmpPredicate(I); op.t2=ty(LLVMTypeOf(LLVMGetOperand(I,0))); }
          else if(op.opc==LLVMFCmp) { op.aux=LLVMGetFCmpPredicate(I); op.t2=ty(LLVMTypeOf(LLVMGetOperand(I,0))); }
          else if(op.opc==LLVMStore) op.t2=ty(LLVMTypeOf(LLVMGetOperand(I,0)));
          else if(op.opc==LLVMExtractValue||op.opc==LLVMInsertValue){ unsigned c=LLVMGetNumIndices(I); const unsigned*ix=LLVMGetIndices(I); for(unsigned i=0;i<c;i++) op.idx.push_back(ix[i]); }
          else if(op.opc==LLVMAtomicRMW){ op.aux=LLVMGetAtomicRMWBinOp(I); op.t2=ty(LLVMTypeOf(LLVMGetOperand(I,1))); }
          else if(op.opc==LLVMAtomicCmpXchg){ op.t2=ty(LLVMTypeOf(LLVMGetOperand(I,1))); }
          else if(op.opc==LLVMShuffleVector){ unsigned c=LLVMGetNumMaskElements(I); for(unsigned i=0;i<c;i++) op.idx.push_back(LLVMGetMaskValue(I,i)); op.t2=ty(LLVMTypeOf(LLVMGetOperand(I,0))); }
          else if(no&&op.opc!=LLVMRet) op.t2=ty(LLVMTypeOf(LLVMGetOperand(I,0)));
          else if(op.opc==LLVMRet&&no) op.t2=ty(LLVMTypeOf(LLVMGetOperand(I,0)));
      }
      if(op.opc==LLVMSwitch){ // case values: print-independent accessor differs between LLVM versions; operands are (cond, default, v1, bb1, ...) in older ones
        char*s=LLVMPrintValueToString(I); char*p=strchr(s,'['); if(p){ p++; // lines: "    i32 5, label %x"
          unsigned w=op.t2->bits; while(*p&&*p!=']'){ char*q=strstr(p,", label"); char*e2=strchr(p,']'); if(!q||(e2&&e2<q)) break; char*r=q; while(r>p&&r[-1]!=' ') r--; bool neg=*r=='-'; if(neg) r++; u128 v=0; if(!strncmp(r,"true",4)) v=1; else if(!strncmp(r,"false",5)) v=0; else for(;*r>='0'&&*r<='9';r++) v=v*10+(*r-'0'); if(neg) v=-v; op.cases.push_back(v&mask(w)); p=q+7; char*nl=strchr(p,'\n'); char*e3=strchr(p,']'); if(!nl||(e3&&e3<nl)) break; p=nl+1; } }
        LLVMDisposeMessage(s); if(op.cases.size()+1!=op.bbs.size()) engine_error("switch decode in "+F->name); }
      B.ops.push_back(std::move(op));
    }
    for(auto&x:ph) B.phi.push_back({x.first,x.second});
  }
  F=&fns[fi]; F->bb=std::move(bbs); F->nregs=n;
}

// ---------------------------------------------------------------- interpreter
struct Frame { int fn; int bb=0; size_t pc=0; vector<Val> r; vector<Obj*> al; int retDst=-1; int normBB=-1; };
static vector<Frame*> st; static Op* curOp=nullptr;
static string demangle(const string&n){ return n; }
static string locOf(const Op*o){ return o&&o->loc?locs[o->loc]:string("?"); }
static string curLoc(){ // innermost location inside /repo if any, else innermost
  string first; 
  for(int i=(int)st.size()-1;i>=0;i--){ Frame*f=st[i]; Fn&F=fns[f->fn]; if(f->bb<(int)F.bb.size()&&F.bb[f->bb].ops.size()){ size_t p=f->pc; if(p>=F.bb[f->bb].ops.size()) p=F.bb[f->bb].ops.size()-1; else if(i!=(int)st.size()-1&&p>0) p--; 
      const Op*o=&F.bb[f->bb].ops[p]; if(i==(int)st.size()-1&&curOp) o=curOp; string l=locOf(o); if(first.empty()&&l!="?") first=l; if(l.find("/repo/")!=string::npos) return l;
      // inlined callers are lost in line tables: ask LLVM for the inlinedAt chain through scopes
      } }
  return first.empty()?"?":first; }
static string stackStr(){ string s; for(int i=(int)st.size()-1;i>=0&&s.size()<700;i--){ Frame*f=st[i]; Fn&F=fns[f->fn]; string l="?"; if(f->bb<(int)F.bb.size()&&F.bb[f->bb].ops.size()){ size_t p=f->pc; if(p>=F.bb[f->bb].ops.size()) p=F.bb[f->bb].ops.size()-1; else if(p>0) p--; l=locOf(&F.bb[f->bb].ops[p]); } size_t sl=l.rfind('/'); if(sl!=string::npos) { size_t s2=l.rfind('/',sl-1); l=l.substr(s2==string::npos?sl+1:s2+1);} s+=l+" < "; } return s; }

static void violation(const char*kind,const string&id,Z3_ast extra,Z3_model given){
  string loc=curLoc();
  lock(); int n=sh->nviol.load(); int same=0; for(int i=0;i<n;i++) if(!strcmp(sh->viol[i].kind,kind)&&!strncmp(sh->viol[i].id,id.c_str(),159)&&!strncmp(sh->viol[i].loc,loc.c_str(),239)) same++; unlock();
  if(same>=3||n>=60) return;
  Z3_model m=given; 
  if(!m){ int r=checkSat(extra,&m); if(r==0) return; if(r<0){ return; } }
  lock(); n=sh->nviol.load(); if(n<64){ VRec&v=sh->viol[n]; memset(&v,0,sizeof v); snprintf(v.kind,24,"%s",kind); snprintf(v.id,160,"%s",id.c_str()); snprintf(v.loc,240,"%s",loc.c_str()); snprintf(v.stack,900,"%s",stackStr().c_str()); v.nin=0; for(auto&i:inputs){ if(v.nin>=MAXIN) break; snprintf(v.names[v.nin],24,"%s",i.name.c_str()); v.widths[v.nin]=i.w; u128 x=0; if(i.e) evalNum(m,i.e,x); v.vals[v.nin]=(u64)x; v.nin++; } sh->nviol=n+1; if(sh->stop_at==0.0) sh->stop_at=now()+45; } unlock();
}
static void addInput(const string&name,unsigned w,Z3_ast e){ inputs.push_back({name,w,e}); }

// decide a boolean condition: returns the side this process follows
static bool decide(const Val&c){
  if(!c.e) return c.c&1;
  Z3_ast b=asBool(c); b=simp(b); u128 n; if(numeral(b,n)) return n;
  Z3_ast nb=keep(Z3_mk_not(Z,b));
  int mv=evalBool(b); bool canT,canF; Z3_model mt=nullptr,mf=nullptr; 
  if(mv==1){ canT=true; int r=checkSat(nb,&mf); if(r<0) engine_error("solver gave no answer on a branch at "+curLoc()); canF=r; }
  else if(mv==0){ canF=true; int r=checkSat(b,&mt); if(r<0) engine_error("solver gave no answer on a branch at "+curLoc()); canT=r; }
  else { int r1=checkSat(b,&mt), r2=checkSat(nb,&mf); if(r1<0||r2<0) engine_error("solver gave no answer on a branch at "+curLoc()); canT=r1; canF=r2; if(!canT&&!canF){ sh->infeasible++; terminate("infeasible"); } }
  if(canT&&canF){
    if(do_fork()){ addPC(b); if(mv!=1) setModel(mt); return true; }
    addPC(nb); if(mv!=0) setModel(mf); return false;
  }
  if(canT){ if(mt) setModel(mt); return true; }
  if(mf) setModel(mf); return false;
}
// make a symbolic bit-vector concrete, exploring every feasible value
static u128 concretize(const Val&v,unsigned w){
  if(!v.e) return v.c;
  Z3_ast e=asBV(v,w);
  for(int guard=0;guard<100000;guard++){
    Z3_model m=curModel; u128 x; if(!m){ int r=checkSat(nullptr,&m); if(r<=0) engine_error("solver gave no model"); setModel(m); }
    if(!evalNum(curModel,e,x)) engine_error("model evaluation failed");
    Val c=mkVal(Z3_mk_eq(Z,e,bvc(x,w)));
    if(!c.e) return x; // entailed syntactically
    if(decide(c)) return x;
  }
  engine_error("concretization diverged"); return 0;
}
static u64 addrOf(const Val&v,u64 n,bool wr){
  if(!v.e) return (u64)v.c;
  // memory-safety query first: can the address leave the object the current model points to?
  Z3_ast e=asBV(v,64); u128 x; if(!curModel){ Z3_model m; int r=checkSat(nullptr,&m); if(r<=0) engine_error("solver gave no model"); setModel(m);} 
  if(!evalNum(curModel,e,x)) engine_error("model evaluation failed");
  Obj*o=findObj((u64)x);
  if(o&&n&&o->size>=n){
    Z3_ast inb=keep(Z3_mk_bvule(Z,keep(Z3_mk_bvsub(Z,e,bvc(o->base,64))),bvc(o->size-n,64)));
    Z3_model m=nullptr; int r=checkSat(keep(Z3_mk_not(Z,inb)),&m); if(r<0) engine_error("solver gave no answer on an address at "+curLoc());
    if(r==1){ u128 y; if(evalNum(m,e,y)){ Obj*p=findObj((u64)y); if(!p||(u64)y-p->base+n>p->size){ char b[120]; snprintf(b,sizeof b,"%s of %lu bytes at an address outside every live object",wr?"write":"read",n); violation("memory",b,keep(Z3_mk_not(Z,inb)),m); } } }
  }
  return (u64)concretize(v,64);
}

static Val iteVal(Z3_ast c,const Val&a,const Val&b,Ty*t); static Val freshF(unsigned w,const char*nm); static Val fun2(const string&n,const Val&x,const Val&y,unsigned w);
// a load at a symbolic offset inside one object, as an if-then-else over the object's elements
static bool symLoad(const Val&v,Ty*t,Val&out){
  unsigned n=t->store; Z3_ast e=asBV(v,64); u128 x; if(!curModel){ Z3_model m; int r=checkSat(nullptr,&m); if(r<=0) engine_error("solver gave no model"); setModel(m);} 
  if(!evalNum(curModel,e,x)) return false; Obj*o=findObj((u64)x); if(!o||o->size<n) return false; u64 base=o->base, cnt=o->size/n;
  if(cnt<2) return false; bool big=cnt>1024; if(cnt>64&&!havocTables) return false;
  Z3_ast off=keep(Z3_mk_bvsub(Z,e,bvc(base,64)));
  Z3_ast inb=keep(Z3_mk_bvule(Z,off,bvc(o->size-n,64)));
  Z3_model m=nullptr; int r=checkSat(keep(Z3_mk_not(Z,inb)),&m); if(r<0) engine_error("solver gave no answer on an address at "+curLoc());
  if(r==1){ u128 y; if(evalNum(m,e,y)){ Obj*p=findObj((u64)y); if(!p||(u64)y-p->base+n>p->size){ char b[120]; snprintf(b,sizeof b,"read of %u bytes at an address outside every live object",n); violation("memory",b,keep(Z3_mk_not(Z,inb)),m); } }
    if(!decide(Val::sym(inb))) return false; o=findObj(base); }
  if(big){ // an unknown function of the offset, the same for the same contents
    sh->havoc_reads++; tainted=true; sh->overapprox=1; u64 h=1469598103934665603ull; for(uint8_t b:o->d) h=(h^b)*1099511628211ull;
    for(auto&sb:o->s) if(sb.e){ h=(h^(u64)(uintptr_t)sb.e)*1099511628211ull; h=(h^(u64)sb.idx)*1099511628211ull; }
    struct T{u64 h;unsigned bits;Z3_ast off;Val v;}; static vector<T> reads; for(auto&q:reads) if(q.h==h&&q.bits==t->bits&&q.off==off){ out=q.v; return true; }
    char b[64]; snprintf(b,64,"table_%zu",reads.size()); out=Val::sym(keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),bvS(t->bits))));
    for(auto&q:reads) if(q.h==h&&q.bits==t->bits) { Z3_ast c=keep(Z3_mk_implies(Z,keep(Z3_mk_eq(Z,off,q.off)),keep(Z3_mk_eq(Z,out.e,q.v.e)))); addPC(c); if(curModel&&evalBool(c)!=1) setModel(nullptr); }
    reads.push_back({h,t->bits,off,out}); return true; }
  if(n>1){ u64 start=((u64)x-base)%n; Z3_ast al=keep(Z3_mk_not(Z,keep(Z3_mk_eq(Z,keep(Z3_mk_bvurem(Z,off,bvc(n,64))),bvc(start,64))))); int q=checkSat(al,nullptr); if(q!=0) return false; 
    Val acc; bool first=true; for(u64 k=start;k+n<=o->size;k+=n){ Val el=loadScalar(base+k,t->bits); if(first){ acc=el; first=false; } else acc=iteVal(keep(Z3_mk_eq(Z,off,bvc(k,64))),el,acc,t); } out=acc; return true; }
  Val acc; bool first=true; for(u64 k=0;k<o->size;k++){ Val el=loadScalar(base+k,t->bits); if(first){ acc=el; first=false; } else acc=iteVal(keep(Z3_mk_eq(Z,off,bvc(k,64))),el,acc,t); } out=acc; return true;
}
static float bf(u128 c){ uint32_t b=(uint32_t)c; float f; memcpy(&f,&b,4); return f; } static double bd(u128 c){ u64 b=(u64)c; double d; memcpy(&d,&b,8); return d; }
static Val fb(float f){ uint32_t b; memcpy(&b,&f,4); return Val(b); } static Val db(double d){ u64 b; memcpy(&b,&d,8); return Val(b); }
static Val mkF(double d,unsigned w){ return w==32?fb((float)d):db(d); }

static int freshN=0;
static Val freshF(unsigned w,const char*nm){ tainted=true; sh->overapprox=1; char b[64]; snprintf(b,64,"fresh_%s_%d",nm,freshN++); Z3_ast e=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),bvS(w))); return Val::sym(e); }
static std::map<std::pair<string,Z3_ast>,Val> uf1;
// transcendental functions of a symbolic argument: an arbitrary value (over-approximation), the same for the same argument,
// inside the mathematical range where one exists
static Val mathSym(const string&n,const Val&x,unsigned w){
  auto key=std::make_pair(n+std::to_string(w),x.e); auto it=uf1.find(key); if(it!=uf1.end()) return it->second;
  Val r=freshF(w,n.c_str()); Z3_ast f=toFP(r,w), a=toFP(x,w); Z3_sort fs=w==32?fpS32:fpS64;
  auto C=[&](double d){ return keep(Z3_mk_fpa_numeral_double(Z,d,fs)); };
  Z3_ast fin=keep(Z3_mk_not(Z,keep(Z3_mk_fpa_is_nan(Z,a)))); Z3_ast inf=keep(Z3_mk_fpa_is_infinite(Z,a));
  auto both=[&](Z3_ast p,Z3_ast q){ Z3_ast v[2]={p,q}; return keep(Z3_mk_and(Z,2,v)); };
  if(n=="sin"||n=="cos"){ Z3_ast ok=both(fin,keep(Z3_mk_not(Z,inf))); addPC(keep(Z3_mk_ite(Z,ok,both(keep(Z3_mk_fpa_leq(Z,f,C(1))),keep(Z3_mk_fpa_geq(Z,f,C(-1)))),keep(Z3_mk_fpa_is_nan(Z,f))))); }
  else if(n=="tanh"){ addPC(keep(Z3_mk_ite(Z,fin,both(keep(Z3_mk_fpa_leq(Z,f,C(1))),keep(Z3_mk_fpa_geq(Z,f,C(-1)))),keep(Z3_mk_fpa_is_nan(Z,f))))); }
  else if(n=="exp"||n=="exp2"){ addPC(keep(Z3_mk_ite(Z,fin,keep(Z3_mk_fpa_geq(Z,f,C(0))),keep(Z3_mk_fpa_is_nan(Z,f))))); }
  else addPC(keep(Z3_mk_ite(Z,fin,Z3_mk_true(Z),keep(Z3_mk_fpa_is_nan(Z,f)))));
  setModel(nullptr); Z3_model m; int rr=checkSat(nullptr,&m); if(rr<=0) engine_error("solver: no model after math function"); setModel(m);
  uf1[key]=r; return r;
}
// the same for functions of two arguments; the floating-point remainder with its defining bounds
static std::map<std::pair<string,std::pair<Z3_ast,Z3_ast>>,Val> uf2;
static Val fun2(const string&n,const Val&x,const Val&y,unsigned w){
  Z3_ast xa=asBV(x,w), ya=asBV(y,w); auto key=std::make_pair(n+std::to_string(w),std::make_pair(xa,ya)); auto it=uf2.find(key); if(it!=uf2.end()) return it->second;
  Val r=freshF(w,n.c_str());
  if(n=="fmod"||n=="fmodf"){ Z3_ast f=toFP(r,w), a=toFP(x,w), b=toFP(y,w); auto K=[&](Z3_ast e){ return keep(e); };
    Z3_ast fa=K(Z3_mk_fpa_abs(Z,a)), fbb=K(Z3_mk_fpa_abs(Z,b)), fr=K(Z3_mk_fpa_abs(Z,f));
    Z3_ast bad[4]={K(Z3_mk_fpa_is_nan(Z,a)),K(Z3_mk_fpa_is_nan(Z,b)),K(Z3_mk_fpa_is_infinite(Z,a)),K(Z3_mk_fpa_is_zero(Z,b))};
    Z3_ast in[3]={K(Z3_mk_fpa_lt(Z,fr,fbb)),K(Z3_mk_fpa_leq(Z,fr,fa)),K(Z3_mk_eq(Z,K(Z3_mk_extract(Z,w-1,w-1,r.e)),K(Z3_mk_extract(Z,w-1,w-1,xa))))};
    addPC(K(Z3_mk_ite(Z,K(Z3_mk_or(Z,4,bad)),K(Z3_mk_fpa_is_nan(Z,f)),K(Z3_mk_ite(Z,K(Z3_mk_fpa_lt(Z,fa,fbb)),K(Z3_mk_eq(Z,r.e,xa)),K(Z3_mk_and(Z,3,in)))))));
    setModel(nullptr); Z3_model m; int rr=checkSat(nullptr,&m); if(rr<=0) engine_error("solver: no model after math function"); setModel(m); }
  uf2[key]=r; return r;
}
static Val fun1(const string&n,const Val&x,unsigned w){
  if(x.e){
    if(n=="fabs") { // clear the sign bit; keep an fp view
      Z3_ast f=keep(Z3_mk_fpa_abs(Z,toFP(x,w))); Val r=mkVal(Z3_mk_bvand(Z,asBV(x,w),bvc(mask(w-1),w))); if(r.e) bv2fp[r.e]=f; return r; }
    if(n=="sqrt") return fromFP(keep(Z3_mk_fpa_sqrt(Z,RNE,toFP(x,w))),w);
    int rm=-1; if(n=="floor") rm=0; else if(n=="ceil") rm=1; else if(n=="trunc") rm=2; else if(n=="roundeven"||n=="rint"||n=="nearbyint") rm=3; else if(n=="round") rm=4;
    if(rm>=0){ Z3_ast m= rm==0?Z3_mk_fpa_rtn(Z): rm==1?Z3_mk_fpa_rtp(Z): rm==2?Z3_mk_fpa_rtz(Z): rm==3?Z3_mk_fpa_rne(Z):Z3_mk_fpa_rna(Z); keep(m); return fromFP(keep(Z3_mk_fpa_round_to_integral(Z,m,toFP(x,w))),w); }
    return mathSym(n,x,w);
  }
  if(w==32){ float a=bf(x.c);
#define M(nm) if(n==#nm) return fb(nm##f(a));
    M(fabs)M(sqrt)M(sin)M(cos)M(exp)M(exp2)M(log)M(log2)M(log10)M(tan)M(tanh)M(sinh)M(cosh)M(atan)M(asin)M(acos)M(cbrt)M(expm1)M(log1p)M(floor)M(ceil)M(trunc)M(round)M(rint)M(nearbyint)
#undef M
    if(n=="roundeven") return fb(rintf(a));
  } else { double a=bd(x.c);
#define M(nm) if(n==#nm) return db(nm(a));
    M(fabs)M(sqrt)M(sin)M(cos)M(exp)M(exp2)M(log)M(log2)M(log10)M(tan)M(tanh)M(sinh)M(cosh)M(atan)M(asin)M(acos)M(cbrt)M(expm1)M(log1p)M(floor)M(ceil)M(trunc)M(round)M(rint)M(nearbyint)
#undef M
    if(n=="roundeven") return db(rint(a));
  }
  engine_error("math function "+n); return Val();
}

static uint32_t mix32(uint32_t a,uint32_t b){ uint32_t h=(a*0xcc9e2d51u)^((b<<13|b>>19)*0x1b873593u+0xe6546b64u); h^=h>>16; h*=0x85ebca6bu; h^=h>>13; h*=0xc2b2ae35u; h^=h>>16; return h; }
static Val binop(int opc,const Val&a,const Val&b,Ty*t){
  if(t->k==Ty::Vec){ Val r; r.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++) r.a->push_back(binop(opc,(*a.a)[i],(*b.a)[i],t->el[0])); return r; }
  unsigned w=t->bits; u128 m=mask(w);
  if(t->k==Ty::Flt||t->k==Ty::Dbl){
    if(!a.e&&!b.e){
      if(w==32){ float x=bf(a.c),y=bf(b.c); switch(opc){ case LLVMFAdd:return fb(x+y); case LLVMFSub:return fb(x-y); case LLVMFMul:return fb(x*y); case LLVMFDiv:return fb(x/y); case LLVMFRem:return fb(fmodf(x,y)); } }
      else { double x=bd(a.c),y=bd(b.c); switch(opc){ case LLVMFAdd:return db(x+y); case LLVMFSub:return db(x-y); case LLVMFMul:return db(x*y); case LLVMFDiv:return db(x/y); case LLVMFRem:return db(fmod(x,y)); } }
    }
    Z3_ast x=toFP(a,w),y=toFP(b,w),r=nullptr;
    if((opc==LLVMFAdd||opc==LLVMFMul)&&Z3_get_ast_id(Z,x)>Z3_get_ast_id(Z,y)) std::swap(x,y); // commutative (one NaN in the theory)
    switch(opc){ case LLVMFAdd:r=Z3_mk_fpa_add(Z,RNE,x,y);break; case LLVMFSub:r=Z3_mk_fpa_sub(Z,RNE,x,y);break; case LLVMFMul:r=Z3_mk_fpa_mul(Z,RNE,x,y);break; case LLVMFDiv:r=Z3_mk_fpa_div(Z,RNE,x,y);break;
      case LLVMFRem: return fun2(w==32?"fmodf":"fmod",a,b,w); }
    return fromFP(keep(r),w);
  }
  if(!a.e&&!b.e){ u128 x=a.c&m,y=b.c&m; switch(opc){
    case LLVMAdd:return Val((x+y)&m); case LLVMSub:return Val((x-y)&m); case LLVMMul:return Val((x*y)&m);
    case LLVMUDiv: if(!y) engine_error("division by zero in IR"); return Val(x/y); case LLVMURem: if(!y) engine_error("division by zero in IR"); return Val(x%y);
    case LLVMSDiv: if(!y) engine_error("division by zero in IR"); return Val((u128)(sx(x,w)/sx(y,w))&m); case LLVMSRem: if(!y) engine_error("division by zero in IR"); return Val((u128)(sx(x,w)%sx(y,w))&m);
    case LLVMShl:return Val(y>=w?0:(x<<(unsigned)y)&m); case LLVMLShr:return Val(y>=w?0:x>>(unsigned)y); case LLVMAShr:return Val((u128)(sx(x,w)>>(unsigned)(y>=w?w-1:y))&m);
    case LLVMAnd:return Val(x&y); case LLVMOr:return Val(x|y); case LLVMXor:return Val(x^y); } }
  if(w==1){ Z3_ast x=asBool(a),y=asBool(b); Z3_ast v[2]={x,y}; switch(opc){ case LLVMAnd:return mkVal(Z3_mk_and(Z,2,v)); case LLVMOr:return mkVal(Z3_mk_or(Z,2,v)); case LLVMXor: case LLVMAdd: case LLVMSub: return mkVal(Z3_mk_xor(Z,x,y)); } }
  Z3_ast x=asBV(a,w),y=asBV(b,w),r=nullptr;
  switch(opc){ case LLVMAdd:r=mkadd(x,y,w);break; case LLVMSub:r=Z3_mk_bvsub(Z,x,y);break; case LLVMMul:r=Z3_mk_bvmul(Z,x,y);break; case LLVMUDiv:r=Z3_mk_bvudiv(Z,x,y);break; case LLVMURem:r=Z3_mk_bvurem(Z,x,y);break; case LLVMSDiv:r=Z3_mk_bvsdiv(Z,x,y);break; case LLVMSRem:r=Z3_mk_bvsrem(Z,x,y);break;
    case LLVMShl:r=Z3_mk_bvshl(Z,x,y);break; case LLVMLShr:r=Z3_mk_bvlshr(Z,x,y);break; case LLVMAShr:r=Z3_mk_bvashr(Z,x,y);break; case LLVMAnd:r=Z3_mk_bvand(Z,x,y);break; case LLVMOr:r=Z3_mk_bvor(Z,x,y);break; case LLVMXor:r=Z3_mk_bvxor(Z,x,y);break; default: engine_error("binop"); }
  Val res=mkVal(r);
  // sign flip of a float seen as xor with the sign bit keeps its fp view
  if(res.e&&opc==LLVMXor&&!b.e&&b.c==((u128)1<<(w-1))&&a.e&&bv2fp.count(a.e)) bv2fp[res.e]=keep(Z3_mk_fpa_neg(Z,bv2fp[a.e]));
  return res;
}
static Val icmp(int p,const Val&a,const Val&b,Ty*t){
  if(t->k==Ty::Vec){ Val r; r.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++) r.a->push_back(icmp(p,(*a.a)[i],(*b.a)[i],t->el[0])); return r; }
  unsigned w=t->bits;
  if(!a.e&&!b.e){ u128 x=a.c&mask(w),y=b.c&mask(w); i128 sx_=sx(x,w),sy=sx(y,w); switch(p){ case LLVMIntEQ:return Val(x==y); case LLVMIntNE:return Val(x!=y); case LLVMIntUGT:return Val(x>y); case LLVMIntUGE:return Val(x>=y); case LLVMIntULT:return Val(x<y); case LLVMIntULE:return Val(x<=y); case LLVMIntSGT:return Val(sx_>sy); case LLVMIntSGE:return Val(sx_>=sy); case LLVMIntSLT:return Val(sx_<sy); case LLVMIntSLE:return Val(sx_<=sy);} }
  if(w==1&&(p==LLVMIntEQ||p==LLVMIntNE)){ Z3_ast e=Z3_mk_eq(Z,asBool(a),asBool(b)); keep(e); return mkVal(p==LLVMIntEQ?e:Z3_mk_not(Z,e)); }
  Z3_ast x=asBV(a,w),y=asBV(b,w),r=nullptr;
  switch(p){ case LLVMIntEQ:r=Z3_mk_eq(Z,x,y);break; case LLVMIntNE:r=Z3_mk_not(Z,keep(Z3_mk_eq(Z,x,y)));break; case LLVMIntUGT:r=Z3_mk_bvugt(Z,x,y);break; case LLVMIntUGE:r=Z3_mk_bvuge(Z,x,y);break; case LLVMIntULT:r=Z3_mk_bvult(Z,x,y);break; case LLVMIntULE:r=Z3_mk_bvule(Z,x,y);break; case LLVMIntSGT:r=Z3_mk_bvsgt(Z,x,y);break; case LLVMIntSGE:r=Z3_mk_bvsge(Z,x,y);break; case LLVMIntSLT:r=Z3_mk_bvslt(Z,x,y);break; case LLVMIntSLE:r=Z3_mk_bvsle(Z,x,y);break; }
  return mkVal(r);
}
static Val fcmp(int p,const Val&a,const Val&b,Ty*t){
  if(t->k==Ty::Vec){ Val r; r.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++) r.a->push_back(fcmp(p,(*a.a)[i],(*b.a)[i],t->el[0])); return r; }
  unsigned w=t->bits;
  if(p==LLVMRealPredicateFalse) return Val(0); if(p==LLVMRealPredicateTrue) return Val(1);
  if(!a.e&&!b.e){ double x=w==32?bf(a.c):bd(a.c), y=w==32?bf(b.c):bd(b.c); bool un=std::isnan(x)||std::isnan(y); bool r=false; switch(p){ case LLVMRealOEQ:r=!un&&x==y;break; case LLVMRealOGT:r=!un&&x>y;break; case LLVMRealOGE:r=!un&&x>=y;break; case LLVMRealOLT:r=!un&&x<y;break; case LLVMRealOLE:r=!un&&x<=y;break; case LLVMRealONE:r=!un&&x!=y;break; case LLVMRealORD:r=!un;break; case LLVMRealUNO:r=un;break; case LLVMRealUEQ:r=un||x==y;break; case LLVMRealUGT:r=un||x>y;break; case LLVMRealUGE:r=un||x>=y;break; case LLVMRealULT:r=un||x<y;break; case LLVMRealULE:r=un||x<=y;break; case LLVMRealUNE:r=un||x!=y;break; } return Val(r); }
  Z3_ast x=toFP(a,w),y=toFP(b,w); auto NOT=[&](Z3_ast q){ return keep(Z3_mk_not(Z,keep(q))); };
  Z3_ast r=nullptr; auto un=[&]{ Z3_ast v[2]={keep(Z3_mk_fpa_is_nan(Z,x)),keep(Z3_mk_fpa_is_nan(Z,y))}; return keep(Z3_mk_or(Z,2,v)); };
  switch(p){ case LLVMRealOEQ:r=Z3_mk_fpa_eq(Z,x,y);break; case LLVMRealOGT:r=Z3_mk_fpa_gt(Z,x,y);break; case LLVMRealOGE:r=Z3_mk_fpa_geq(Z,x,y);break; case LLVMRealOLT:r=Z3_mk_fpa_lt(Z,x,y);break; case LLVMRealOLE:r=Z3_mk_fpa_leq(Z,x,y);break;
    case LLVMRealUNE:r=NOT(Z3_mk_fpa_eq(Z,x,y));break; case LLVMRealULE:r=NOT(Z3_mk_fpa_gt(Z,x,y));break; case LLVMRealULT:r=NOT(Z3_mk_fpa_geq(Z,x,y));break; case LLVMRealUGE:r=NOT(Z3_mk_fpa_lt(Z,x,y));break; case LLVMRealUGT:r=NOT(Z3_mk_fpa_leq(Z,x,y));break;
    case LLVMRealUNO:r=un();break; case LLVMRealORD:r=NOT(un());break;
    case LLVMRealONE:{ Z3_ast v[2]={NOT(un()),NOT(Z3_mk_fpa_eq(Z,x,y))}; r=Z3_mk_and(Z,2,v);break; }
    case LLVMRealUEQ:{ Z3_ast v[2]={un(),keep(Z3_mk_fpa_eq(Z,x,y))}; r=Z3_mk_or(Z,2,v);break; } }
  return mkVal(r);
}
static Val iteVal(Z3_ast c,const Val&a,const Val&b,Ty*t){
  if(t->k==Ty::Struct||t->k==Ty::Array||t->k==Ty::Vec){ Val r; r.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++) r.a->push_back(iteVal(c,(*a.a)[i],(*b.a)[i],t->k==Ty::Struct?t->el[i]:t->el[0])); return r; }
  if(!a.e&&!b.e&&a.c==b.c) return a;
  if(t->bits==1){ return mkVal(Z3_mk_ite(Z,c,asBool(a),asBool(b))); }
  if(t->k==Ty::Flt||t->k==Ty::Dbl){ Z3_ast e=simp(keep(Z3_mk_ite(Z,c,asBV(a,t->bits),asBV(b,t->bits)))); u128 n; if(numeral(e,n)) return Val(n); bool fa=a.e&&bv2fp.count(a.e), fb2=b.e&&bv2fp.count(b.e); if(fa||fb2){ bv2fp[e]=keep(Z3_mk_ite(Z,c,toFP(a,t->bits),toFP(b,t->bits))); } return Val::sym(e); }
  return mkVal(Z3_mk_ite(Z,c,asBV(a,t->bits),asBV(b,t->bits)));
}
static Val select_(const Val&c,const Val&a,const Val&b,Ty*t,bool vec){
  if(vec&&c.a){ Val r; r.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++) r.a->push_back(select_((*c.a)[i],(*a.a)[i],(*b.a)[i],t->el[0],false)); return r; }
  if(!c.e) return (c.c&1)?a:b;
  if(t->k==Ty::Ptr) { if(!a.e&&!b.e&&a.c==b.c) return a; return decide(c)?a:b; }
  return iteVal(asBool(c),a,b,t);
}
static Val castOp(int opc,const Val&a,Ty*from,Ty*to){
  if(to->k==Ty::Vec&&from->k==Ty::Vec&&opc!=LLVMBitCast){ Val r; r.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<to->n;i++) r.a->push_back(castOp(opc,(*a.a)[i],from->el[0],to->el[0])); return r; }
  unsigned fw=from->bits,tw=to->bits;
  switch(opc){
    case LLVMTrunc: if(!a.e) return Val(a.c&mask(tw)); if(tw==1){ return mkVal(Z3_mk_eq(Z,keep(Z3_mk_extract(Z,0,0,a.e)),bvc(1,1))); } return mkVal(Z3_mk_extract(Z,tw-1,0,asBV(a,fw)));
    case LLVMZExt: if(!a.e) return Val(a.c&mask(fw)); if(isBool(a.e)) return mkVal(Z3_mk_ite(Z,a.e,bvc(1,tw),bvc(0,tw))); return mkVal(Z3_mk_zero_ext(Z,tw-fw,a.e));
    case LLVMSExt: if(!a.e) return Val((u128)sx(a.c,fw)&mask(tw)); if(isBool(a.e)) return mkVal(Z3_mk_ite(Z,a.e,bvc(mask(tw),tw),bvc(0,tw))); return mkVal(Z3_mk_sign_ext(Z,tw-fw,a.e));
    case LLVMPtrToInt: case LLVMIntToPtr: case 69: case LLVMAddrSpaceCast: if(!a.e) return Val(a.c&mask(tw)); if(fw==tw) return a; if(tw<fw) return mkVal(Z3_mk_extract(Z,tw-1,0,a.e)); return mkVal(Z3_mk_zero_ext(Z,tw-fw,a.e));
    case LLVMBitCast: {
      if(from->k!=Ty::Vec&&to->k!=Ty::Vec) return a;
      // pack into one integer, unpack again
      unsigned tot=from->k==Ty::Vec?from->n*from->el[0]->bits:from->bits; Val packed;
      if(from->k==Ty::Vec){ unsigned ew=from->el[0]->bits; bool anys=false; for(auto&x:*a.a) if(x.e) anys=true; if(!anys){ if(tot<=128){ u128 v=0; for(u64 i=0;i<from->n;i++) v|=((*a.a)[i].c&mask(ew))<<(i*ew); packed=Val(v);} else if(to->k==Ty::Vec){ Val r; r.a=std::make_shared<vector<Val>>(); unsigned tw2=to->el[0]->bits; for(u64 j=0;j<to->n;j++){ u128 v=0; for(unsigned b=0;b<tw2;b++){ u64 bit=j*tw2+b; u64 src=bit/ew; if(((*a.a)[src].c>>(bit%ew))&1) v|=(u128)1<<b; } r.a->push_back(Val(v)); } return r; } else engine_error("wide bitcast"); } else { Z3_ast e=nullptr; for(int i=(int)from->n-1;i>=0;i--){ Z3_ast b=asBV((*a.a)[i],ew); e=e?keep(Z3_mk_concat(Z,e,b)):b; } packed=mkVal(e); } }
      else packed=a;
      if(to->k!=Ty::Vec) return packed;
      Val r; r.a=std::make_shared<vector<Val>>(); unsigned ew=to->el[0]->bits; for(u64 i=0;i<to->n;i++){ if(!packed.e) r.a->push_back(Val((packed.c>>(i*ew))&mask(ew))); else { r.a->push_back(mkVal(Z3_mk_extract(Z,i*ew+ew-1,i*ew,asBV(packed,tot)))); if(ew==1) engine_error("symbolic bool vector bitcast"); } } return r; }
    case LLVMFPTrunc: if(!a.e) return fb((float)bd(a.c)); return fromFP(keep(Z3_mk_fpa_to_fp_float(Z,RNE,toFP(a,64),fpS32)),32);
    case LLVMFPExt: if(!a.e) return db((double)bf(a.c)); return fromFP(keep(Z3_mk_fpa_to_fp_float(Z,RNE,toFP(a,32),fpS64)),64);
    case LLVMUIToFP: if(!a.e){ u128 c=a.c&mask(fw); return tw==32?fb((float)c):db((double)c);} return fromFP(keep(Z3_mk_fpa_to_fp_unsigned(Z,RNE,asBV(a,fw),tw==32?fpS32:fpS64)),tw);
    case LLVMSIToFP: if(!a.e){ i128 c=sx(a.c,fw); return tw==32?fb((float)c):db((double)c);} return fromFP(keep(Z3_mk_fpa_to_fp_signed(Z,RNE,asBV(a,fw),tw==32?fpS32:fpS64)),tw);
    case LLVMFPToUI: if(!a.e){ double d=fw==32?bf(a.c):bd(a.c); return Val((u128)d&mask(tw)); } return mkVal(Z3_mk_fpa_to_ubv(Z,keep(Z3_mk_fpa_rtz(Z)),toFP(a,fw),tw));
    case LLVMFPToSI: if(!a.e){ double d=fw==32?bf(a.c):bd(a.c); return Val((u128)(i128)d&mask(tw)); } return mkVal(Z3_mk_fpa_to_sbv(Z,keep(Z3_mk_fpa_rtz(Z)),toFP(a,fw),tw));
  }
  engine_error("cast"); return Val();
}

static Val fptoiSat(const Val&a,unsigned fw,unsigned tw,bool sg){
  if(!a.e){ double d=fw==32?bf(a.c):bd(a.c); if(std::isnan(d)) return Val(0);
    if(sg){ double lo=-ldexp(1.0,tw-1), hi=ldexp(1.0,tw-1); if(d<=lo) return Val(((u128)1<<(tw-1))); if(d>=hi) return Val(mask(tw-1)); return Val((u128)(i128)d&mask(tw)); }
    if(d<=0) return Val(0); if(d>=ldexp(1.0,tw)) return Val(mask(tw)); return Val((u128)d&mask(tw)); }
  Z3_ast f=toFP(a,fw); Z3_sort fs=fw==32?fpS32:fpS64; Z3_ast rtz=keep(Z3_mk_fpa_rtz(Z));
  double hi=ldexp(1.0,sg?tw-1:tw), lo=sg?-ldexp(1.0,tw-1):0.0;
  if(fw==32&&hi>3.5e38) hi=INFINITY;
  Z3_ast H=keep(Z3_mk_fpa_numeral_double(Z,hi,fs)), L=keep(Z3_mk_fpa_numeral_double(Z,lo,fs));
  Z3_ast conv=keep(sg?Z3_mk_fpa_to_sbv(Z,rtz,f,tw):Z3_mk_fpa_to_ubv(Z,rtz,f,tw));
  Z3_ast r=keep(Z3_mk_ite(Z,keep(Z3_mk_fpa_is_nan(Z,f)),bvc(0,tw), keep(Z3_mk_ite(Z,keep(Z3_mk_fpa_leq(Z,f,L)),bvc(sg?((u128)1<<(tw-1)):0,tw), keep(Z3_mk_ite(Z,keep(Z3_mk_fpa_geq(Z,f,H)),bvc(sg?mask(tw-1):mask(tw),tw),conv))))));
  return mkVal(r);
}

static Val intrinsic(Op&op,vector<Val>&A){
  Ty*t=op.t, *t0=op.t2; 
  if(t&&t->k==Ty::Vec&&(op.intr==I_SAT||op.intr==I_MINMAX||op.intr==I_ABS||op.intr==I_CT||op.intr==I_FUN1||op.intr==I_FRINT||op.intr==I_FMINMAX||op.intr==I_FMA||op.intr==I_COPYSIGN||op.intr==I_BSWAP||op.intr==I_FSH)){
    Val r; r.a=std::make_shared<vector<Val>>(); for(u64 i=0;i<t->n;i++){ Op o2; o2.opc=op.opc; o2.intr=op.intr; o2.aux=op.aux; o2.inst=op.inst; o2.t=t->el[0]; o2.t2=t0&&t0->k==Ty::Vec?t0->el[0]:t0; vector<Val> B; for(auto&x:A) B.push_back(x.a?(*x.a)[i]:x); r.a->push_back(intrinsic(o2,B)); } return r; }
  unsigned w=t0?t0->bits:0;
  switch(op.intr){
    case I_NOP: return Val(); case I_ASSUME: return Val(); case I_EXPECT: return A[0];
    case I_MEMCPY: { u64 n=(u64)concretize(A[2],64); if(!n) return Val(); u64 d=addrOf(A[0],n,true), s=addrOf(A[1],n,false); copyMem(d,s,n); return Val(); }
    case I_MEMSET: { u64 n=(u64)concretize(A[2],64); if(!n) return Val(); u64 d=addrOf(A[0],n,true); Obj*o=access(d,n,true); u64 off=d-o->base; if(A[1].e){ for(u64 i=0;i<n;i++) storeScalar(d+i,A[1],8); } else { memset(&o->d[off],(int)(A[1].c&255),n); if(!o->s.empty()) for(u64 i=0;i<n;i++) o->s[off+i].e=nullptr; } return Val(); }
    case I_OVF: { Val x=A[0],y=A[1],r,ov; u128 m=mask(w); 
      if(!x.e&&!y.e){ u128 a=x.c&m,b=y.c&m; switch(op.aux){ case 0: r=Val((a+b)&m); ov=Val(w<128?(a+b)>m:(a+b)<a); break; case 1: r=Val((a-b)&m); ov=Val(a<b); break; case 2: { if(w<=64){ u128 p=a*b; r=Val(p&m); ov=Val(p>m);} else { u128 p; bool o=__builtin_mul_overflow(a,b,&p); r=Val(p); ov=Val(o);} break; }
          case 3: { i128 p; bool o=__builtin_add_overflow(sx(a,w),sx(b,w),&p); r=Val((u128)p&m); ov=Val(o||(w<128&&sx((u128)p&m,w)!=p)); break; } case 4: { i128 p; bool o=__builtin_sub_overflow(sx(a,w),sx(b,w),&p); r=Val((u128)p&m); ov=Val(o||(w<128&&sx((u128)p&m,w)!=p)); break; } case 5: { i128 p; bool o=__builtin_mul_overflow(sx(a,w),sx(b,w),&p); r=Val((u128)p&m); ov=Val(o||(w<128&&sx((u128)p&m,w)!=p)); break; } } }
      else { Z3_ast a=asBV(x,w),b=asBV(y,w); switch(op.aux){
          case 0: r=mkVal(Z3_mk_bvadd(Z,a,b)); ov=mkVal(Z3_mk_not(Z,keep(Z3_mk_bvadd_no_overflow(Z,a,b,false)))); break;
          case 1: r=mkVal(Z3_mk_bvsub(Z,a,b)); ov=mkVal(Z3_mk_bvult(Z,a,b)); break;
          case 2: { r=mkVal(Z3_mk_bvmul(Z,a,b)); // unsigned: a*c overflows iff a > max/c
            u128 cc=0; bool ka=numeral(a,cc), kb=!ka&&numeral(b,cc);
            if(ka||kb){ ov= cc==0?Val(0):mkVal(Z3_mk_bvugt(Z,ka?b:a,bvc(mask(w)/cc,w))); }
            else { Z3_ast p=keep(Z3_mk_bvmul(Z,keep(Z3_mk_zero_ext(Z,w,a)),keep(Z3_mk_zero_ext(Z,w,b)))); ov=mkVal(Z3_mk_not(Z,keep(Z3_mk_eq(Z,keep(Z3_mk_extract(Z,2*w-1,w,p)),bvc(0,w))))); } break; }
          default: { unsigned W=op.aux==5?2*w:w+1; Z3_ast xa=keep(Z3_mk_sign_ext(Z,W-w,a)), xb=keep(Z3_mk_sign_ext(Z,W-w,b)); Z3_ast p=keep(op.aux==3?Z3_mk_bvadd(Z,xa,xb):op.aux==4?Z3_mk_bvsub(Z,xa,xb):Z3_mk_bvmul(Z,xa,xb)); Z3_ast lo=keep(Z3_mk_extract(Z,w-1,0,p)); r=mkVal(lo); ov=mkVal(Z3_mk_not(Z,keep(Z3_mk_eq(Z,p,keep(Z3_mk_sign_ext(Z,W-w,lo)))))); } } }
      Val v; v.a=std::make_shared<vector<Val>>(); v.a->push_back(r); v.a->push_back(ov); return v; }
    case I_SAT: { Val x=A[0],y=A[1]; u128 m=mask(w); if(!x.e&&!y.e){ u128 a=x.c&m,b=y.c&m; if(op.aux==0){ u128 s=a+b; return Val((w<128?s>m:s<a)?m:s);} if(op.aux==1) return Val(a<b?0:a-b); i128 s=op.aux==2?sx(a,w)+sx(b,w):sx(a,w)-sx(b,w); i128 hi=(i128)mask(w-1),lo=-hi-1; if(s>hi)s=hi; if(s<lo)s=lo; return Val((u128)s&m);} 
      Z3_ast a=asBV(x,w),b=asBV(y,w); if(op.aux==0) return mkVal(Z3_mk_ite(Z,keep(Z3_mk_bvadd_no_overflow(Z,a,b,false)),keep(Z3_mk_bvadd(Z,a,b)),bvc(m,w))); if(op.aux==1) return mkVal(Z3_mk_ite(Z,keep(Z3_mk_bvult(Z,a,b)),bvc(0,w),keep(Z3_mk_bvsub(Z,a,b)))); engine_error("symbolic signed saturating op"); return Val(); }
    case I_MINMAX: { int preds[]={LLVMIntULT,LLVMIntUGT,LLVMIntSLT,LLVMIntSGT}; Val c=icmp(preds[op.aux],A[0],A[1],t0); if(!c.e) return c.c?A[0]:A[1]; return iteVal(asBool(c),A[0],A[1],t); }
    case I_ABS: { Val z(0); Val c=icmp(LLVMIntSLT,A[0],z,t0); Val ng=binop(LLVMSub,z,A[0],t0); if(!c.e) return c.c?ng:A[0]; return iteVal(asBool(c),ng,A[0],t); }
    case I_CT: { Val x=A[0]; if(!x.e){ u128 v=x.c&mask(w); unsigned r=0; if(op.aux==2){ while(v){ r+=v&1; v>>=1;} } else if(op.aux==0){ r=w; while(v){ r--; v>>=1;} } else { if(!v) r=w; else while(!((v>>r)&1)) r++; } return Val(r);} 
      Z3_ast e=asBV(x,w); Z3_ast r=nullptr; if(op.aux==2){ r=bvc(0,w); for(unsigned i=0;i<w;i++) r=keep(Z3_mk_bvadd(Z,r,keep(Z3_mk_zero_ext(Z,w-1,keep(Z3_mk_extract(Z,i,i,e)))))); } else if(op.aux==0){ r=bvc(w,w); for(unsigned i=0;i<w;i++) r=keep(Z3_mk_ite(Z,keep(Z3_mk_eq(Z,keep(Z3_mk_extract(Z,i,i,e)),bvc(1,1))),bvc(w-1-i,w),r)); } else { r=bvc(w,w); for(int i=(int)w-1;i>=0;i--) r=keep(Z3_mk_ite(Z,keep(Z3_mk_eq(Z,keep(Z3_mk_extract(Z,i,i,e)),bvc(1,1))),bvc(i,w),r)); } return mkVal(r); }
    case I_BSWAP: { Val x=A[0]; unsigned n=w/8; if(!x.e){ u128 r=0; for(unsigned i=0;i<n;i++) r|=((x.c>>(8*i))&255)<<(8*(n-1-i)); return Val(r);} Z3_ast r=nullptr; for(unsigned i=0;i<n;i++){ Z3_ast b=keep(Z3_mk_extract(Z,8*i+7,8*i,x.e)); r=r?keep(Z3_mk_concat(Z,r,b)):b; } return mkVal(r); }
    case I_BITREV: { Val x=A[0]; if(x.e) engine_error("symbolic bitreverse"); u128 r=0; for(unsigned i=0;i<w;i++) if((x.c>>i)&1) r|=(u128)1<<(w-1-i); return Val(r); }
    case I_FSH: { unsigned k=(unsigned)(concretize(A[2],w)%w); Val sh1(op.aux==0?k:w-k), sh2(op.aux==0?w-k:k); if(k==0) return op.aux==0?A[0]:A[1]; Val hi=binop(LLVMShl,A[0],sh1,t0), lo=binop(LLVMLShr,A[1],sh2,t0); return binop(LLVMOr,hi,lo,t0); }
    case I_CMP3: { Val lt=icmp(op.aux?LLVMIntSLT:LLVMIntULT,A[0],A[1],t0), gt=icmp(op.aux?LLVMIntSGT:LLVMIntUGT,A[0],A[1],t0); unsigned rw=t->bits; if(!lt.e&&!gt.e) return Val(lt.c?mask(rw):gt.c?1:0); return mkVal(Z3_mk_ite(Z,asBool(lt),bvc(mask(rw),rw),keep(Z3_mk_ite(Z,asBool(gt),bvc(1,rw),bvc(0,rw))))); }
    case I_FPTOI_SAT: return fptoiSat(A[0],t0->bits,t->bits,op.aux);
    case I_FPCLASS: { unsigned mk=(unsigned)A[1].c; if(!A[0].e){ double d=w==32?bf(A[0].c):bd(A[0].c); bool sg=(A[0].c>>(w-1))&1; unsigned c; int k=w==32?std::fpclassify(bf(A[0].c)):std::fpclassify(d); if(k==FP_NAN) { bool q=(A[0].c>>(w==32?22:51))&1; c=q?2:1; } else if(k==FP_INFINITE) c=sg?4:512; else if(k==FP_NORMAL) c=sg?8:256; else if(k==FP_SUBNORMAL) c=sg?16:128; else c=sg?32:64; return Val((mk&c)!=0);} 
      Z3_ast f=toFP(A[0],w); Z3_ast neg=keep(Z3_mk_fpa_is_negative(Z,f)), pos=keep(Z3_mk_fpa_is_positive(Z,f)); vector<Z3_ast> v; auto add=[&](Z3_ast p,Z3_ast q){ Z3_ast a[2]={keep(p),q}; v.push_back(keep(Z3_mk_and(Z,2,a))); };
      if(mk&3) v.push_back(keep(Z3_mk_fpa_is_nan(Z,f))); if(mk&4) add(Z3_mk_fpa_is_infinite(Z,f),neg); if(mk&512) add(Z3_mk_fpa_is_infinite(Z,f),pos); if(mk&8) add(Z3_mk_fpa_is_normal(Z,f),neg); if(mk&256) add(Z3_mk_fpa_is_normal(Z,f),pos); if(mk&16) add(Z3_mk_fpa_is_subnormal(Z,f),neg); if(mk&128) add(Z3_mk_fpa_is_subnormal(Z,f),pos); if(mk&32) add(Z3_mk_fpa_is_zero(Z,f),neg); if(mk&64) add(Z3_mk_fpa_is_zero(Z,f),pos);
      if((mk&3)==1||(mk&3)==2) engine_error("signalling NaN class test"); if(v.empty()) return Val(0); return mkVal(Z3_mk_or(Z,v.size(),v.data())); }
    case I_TRAP: violation("trap","trap instruction reached",nullptr); terminate("trap");
    case I_TLS: return A[0]; case I_ISCONST: return Val(0); case I_OBJSIZE: return Val((A[1].c&1)?0:mask(t->bits));
    case I_FUN1: { const char*nm[]={"fabs","sqrt","sin","cos","exp","exp2","log","log2","log10","tan","tanh"}; return fun1(nm[op.aux],A[0],w); }
    case I_FRINT: { const char*nm[]={"floor","ceil","trunc","roundeven","rint","nearbyint","round"}; return fun1(nm[op.aux],A[0],w); }
    case I_FUN2: if(op.aux==1){ // powi: the repeated squaring of the runtime library
        int k=(int)sx(Val(concretize(A[1],32)).c,32); bool rec=k<0; Val x=A[0], q=w==32?fb(1.0f):db(1.0); bool first=true;
        while(true){ if(k&1){ q=first?x:binop(LLVMFMul,q,x,t0); first=false; } k/=2; if(!k) break; x=binop(LLVMFMul,x,x,t0); }
        return rec?binop(LLVMFDiv,w==32?fb(1.0f):db(1.0),q,t0):q; }
      if(!A[0].e&&!A[1].e) return w==32?fb(powf(bf(A[0].c),bf(A[1].c))):db(pow(bd(A[0].c),bd(A[1].c))); return fun2(w==32?"powf":"pow",A[0],A[1],w);
    case I_FMA: { if(!A[0].e&&!A[1].e&&!A[2].e){ return w==32?fb(fmaf(bf(A[0].c),bf(A[1].c),bf(A[2].c))):db(fma(bd(A[0].c),bd(A[1].c),bd(A[2].c))); } return fromFP(keep(Z3_mk_fpa_fma(Z,RNE,toFP(A[0],w),toFP(A[1],w),toFP(A[2],w))),w); }
    case I_COPYSIGN: { if(!A[0].e&&!A[1].e) return Val((A[0].c&mask(w-1))|(A[1].c&((u128)1<<(w-1)))); return mkVal(Z3_mk_bvor(Z,keep(Z3_mk_bvand(Z,asBV(A[0],w),bvc(mask(w-1),w))),keep(Z3_mk_bvand(Z,asBV(A[1],w),bvc((u128)1<<(w-1),w))))); }
    case I_FMINMAX: { Val an=fcmp(LLVMRealUNO,A[0],A[0],t0), bn=fcmp(LLVMRealUNO,A[1],A[1],t0), c=fcmp(op.aux==0?LLVMRealOLT:LLVMRealOGT,A[0],A[1],t0); Val r=select_(c,A[0],A[1],t,false); r=select_(bn,A[0],r,t,false); r=select_(an,A[1],r,t,false); return r; }
    default: { char*s=LLVMPrintValueToString(op.inst); engine_error(string("unsupported intrinsic: ")+s); } }
  return Val();
}
static string cstr(u64 p,u64 n){ Obj*o=findObj(p); string s; if(!o) return "?"; for(u64 i=0;i<n&&p-o->base+i<o->size;i++) s+=(char)o->d[p-o->base+i]; return s; }
static string panicLoc(const vector<Val>&A){ // any argument pointing to a core::panic::Location {ptr,len,line,col}
  for(int i=(int)A.size()-1;i>=0;i--){ if(A[i].e||A[i].a) continue; u64 p=(u64)A[i].c; Obj*o=findObj(p); if(!o||o->kind!='g'||o->size-(p-o->base)<24) continue; u64 fp,fl; memcpy(&fp,&o->d[p-o->base],8); memcpy(&fl,&o->d[p-o->base+8],8); if(fl==0||fl>300) continue; Obj*so=findObj(fp); if(!so||so->size-(fp-so->base)<fl) continue; string s=cstr(fp,fl); if(s.find(".rs")==string::npos) continue; uint32_t line; memcpy(&line,&o->d[p-o->base+16],4); return s+":"+std::to_string(line); }
  return ""; }
static string panicMsg(const vector<Val>&A){ if(A.size()>=2&&!A[0].e&&!A[1].e){ Obj*o=findObj((u64)A[0].c); u64 n=(u64)A[1].c; if(o&&n<200&&o->kind=='g'){ string s=cstr((u64)A[0].c,n); bool ok=s.size()>0; for(char c:s) if((unsigned char)c<9) ok=false; if(ok) return s; } } return ""; }

static vector<char> fnUsed;
static void registerCover(const string&id){ lock(); int n=sh->ncov.load(); int i; for(i=0;i<n;i++) if(!strncmp(sh->cov[i],id.c_str(),63)) break; if(i==n&&n<256){ snprintf(sh->cov[n],64,"%s",id.c_str()); sh->ncov=n+1; } unlock(); if(i<256) sh->covn[i]++; }

// returns true if handled as an external (result in r)
static bool external(Fn&F,vector<Val>&A,Val&r){
  int h=F.handler;
  if(rtMode&&(h==H_MALLOC||h==H_CALLOC||h==H_REALLOC||h==H_MEMALIGN||h==H_FREE)){ if(!(h==H_FREE&&!A[0].e&&A[0].c==0)){ violation("alloc",h==H_FREE?"heap memory released on the audio side":"heap memory allocated on the audio side",nullptr); terminate("rt"); } }
  switch(h){
    case H_MALLOC: { u64 n=(u64)concretize(A[0],64); r=Val(newObj(n?n:1,16,'h')->base); return true; }
    case H_CALLOC: { u64 n=(u64)(concretize(A[0],64)*concretize(A[1],64)); Obj*o=newObj(n?n:1,16,'h'); std::fill(o->d.begin(),o->d.end(),0); r=Val(o->base); return true; }
    case H_REALLOC: { u64 p=(u64)A[0].c, n=(u64)concretize(A[1],64); Obj*o=findObj(p); if(!o||o->base!=p||o->kind!='h'){ violation("memory","realloc of an invalid pointer",nullptr); terminate("m"); } u64 os=o->size; Obj*q=newObj(n?n:1,16,'h'); u64 qb=q->base; copyMem(qb,p,std::min(os,n)); killObj(findObj(p)); r=Val(qb); return true; }
    case H_MEMALIGN: { u64 n=(u64)concretize(A[2],64); Obj*o=newObj(n?n:1,(u64)A[1].c,'h'); storeScalar((u64)A[0].c,Val(o->base),64); r=Val(0); return true; }
    case H_FREE: { u64 p=(u64)concretize(A[0],64); if(!p) return true; Obj*o=findObj(p); if(!o||o->base!=p||o->kind!='h'){ violation("memory","free of a pointer that is not a live allocation (double free or wild free)",nullptr); terminate("m"); } killObj(o); return true; }
    case H_BCMP: { u64 n=(u64)concretize(A[2],64); Val acc(0); Ty i8; i8.k=Ty::Int; i8.bits=8; if(!n){ r=Val(0); return true; } u64 p=addrOf(A[0],n,false),q=addrOf(A[1],n,false); 
        bool memcmp_=F.name=="memcmp"; for(u64 i=0;i<n;i++){ Val x=loadScalar(p+i,8),y=loadScalar(q+i,8); Val ne=icmp(LLVMIntNE,x,y,&i8); if(decide(ne)){ if(!memcmp_){ r=Val(1); return true;} Val lt=icmp(LLVMIntULT,x,y,&i8); r=Val(decide(lt)?0xffffffffu:1u); return true; } } r=Val(0); return true; }
    case H_STRLEN: { u64 p=(u64)A[0].c,n=0; while(loadScalar(p+n,8).c) n++; r=Val(n); return true; }
    case H_ANY: { unsigned w=(unsigned)A[0].c; string nm=cstr((u64)A[1].c,(u64)A[2].c); char b[80]; snprintf(b,80,"%s_%zu",nm.c_str(),inputs.size()); Z3_ast e=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),bvS(w))); addInput(b,w,e); r=Val::sym(w<64?keep(Z3_mk_zero_ext(Z,64-w,e)):e); return true; }
    case H_ANYF32: case H_ANYF64: { unsigned w=h==H_ANYF32?32:64; string nm=cstr((u64)A[0].c,(u64)A[1].c); char b[80]; snprintf(b,80,"%s_%zu",nm.c_str(),inputs.size()); Z3_ast e=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),bvS(w))); addInput(b,w,e); r=Val::sym(e); return true; }
    case H_CHOICE: { u64 n=(u64)concretize(A[0],32); string nm=cstr((u64)A[1].c,(u64)A[2].c); char b[80]; snprintf(b,80,"%s_%zu",nm.c_str(),inputs.size()); Z3_ast e=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),bvS(32))); addInput(b,32,e); addPC(keep(Z3_mk_bvult(Z,e,bvc(n,32)))); setModel(nullptr); r=Val(concretize(Val::sym(e),32)); return true; }
    case H_ASSUME: { Val c=A[0]; if(!c.e){ if(!(c.c&1)){ sh->infeasible++; finish_path(); } return true; } Z3_ast b=asBool(c); if(evalBool(b)==1){ addPC(b); return true; } Z3_model m; int q=checkSat(b,&m); if(q<0) engine_error("solver gave no answer on an assumption"); if(q==0){ sh->infeasible++; finish_path(); } addPC(b); setModel(m); return true; }
    case H_ASSERT: { Val c=A[0]; sh->asserts++; string id=cstr((u64)A[1].c,(u64)A[2].c); if(!c.e){ if(!(c.c&1)){ violation("assert",id,nullptr); terminate("v"); } return true; } sh->asserts_sym++; Z3_ast b=asBool(c); Z3_ast nb=keep(Z3_mk_not(Z,b)); Z3_model m=nullptr; int q=checkSat(nb,&m); if(q<0&&getenv("KSYM_DUMP")){ FILE*df=fopen(getenv("KSYM_DUMP"),"w"); fprintf(df,"%s\n",Z3_ast_to_string(Z,b)); fclose(df); } if(q<0) engine_error("solver gave no answer on assertion "+id); if(q==1){ violation("assert",id,nb,m); Z3_model m2; int q2=checkSat(b,&m2); if(q2<=0) terminate("v"); setModel(m2); } addPC(b); return true; }
    case H_COVER: registerCover(cstr((u64)A[0].c,(u64)A[1].c)); return true;
    case H_PANICOK: panicOk=A[0].c&1; return true;
    case H_CONC: r=Val(concretize(A[0],64)); return true;
    case H_NOTE: case H_NOTEF: if(notes.size()<256) notes.push_back({A[0].e?asBV(A[0],h==H_NOTE?64:32):nullptr,{(u64)A[0].c,h==H_NOTE?64:32}}); return true;
    case H_RT: rtMode=A[0].c&1; return true;
    case H_MIX: { // a function nothing is known about (concrete on concrete arguments): equal arguments give equal results
      if(!A[0].e&&!A[1].e){ r=Val((u128)mix32((uint32_t)A[0].c,(uint32_t)A[1].c)); return true; }
      static Z3_func_decl fd=nullptr; if(!fd){ Z3_sort ss[2]={bvS(32),bvS(32)}; fd=Z3_mk_func_decl(Z,Z3_mk_string_symbol(Z,"mix"),2,ss,bvS(32)); Z3_inc_ref(Z,Z3_func_decl_to_ast(Z,fd)); }
      Z3_ast av[2]={asBV(A[0],32),asBV(A[1],32)}; r=Val::sym(keep(Z3_mk_app(Z,fd,2,av))); return true; }
    case H_HAVOC: havocTables=A[0].c&1; return true;
    case H_ISSYM: r=Val(A[0].e?1:0); return true;
    case H_ABORT: violation("abort","abort() reached",nullptr); terminate("a");
    case H_PANIC: { if(panicOk){ sh->panics_ok++; finish_path(); } string pl=panicLoc(A), m=panicMsg(A); string id="panic at "+(pl.empty()?curLoc():pl)+(m.empty()?"":" ("+m+")"); violation("panic",id,nullptr); terminate("p"); }
    case H_GETRANDOM: { u64 p=(u64)A[0].c,n=(u64)A[1].c; for(u64 i=0;i<n;i++) storeScalar(p+i,Val(0x11*(i%15)+1),8); r=Val(n); return true; }
    case H_ZERO: r=Val(0); return true;
    case H_MATH1: { bool f; int k=math1Of(F.name,f); r=fun1(math1[k],A[0],f?32:64); return true; }
    case H_FMOD: case H_MATH2: { bool f=F.name.back()=='f'&&F.name!="powf"?true:F.name=="powf"||F.name=="fmodf"||F.name=="atan2f"||F.name=="hypotf"; unsigned w=f?32:64; if(A[0].e||A[1].e){ r=fun2(F.name.c_str(),A[0],A[1],w); return true; } if(f){ float x=bf(A[0].c),y=bf(A[1].c); r=fb(F.name=="powf"?powf(x,y):F.name=="fmodf"?fmodf(x,y):F.name=="atan2f"?atan2f(x,y):hypotf(x,y)); } else { double x=bd(A[0].c),y=bd(A[1].c); r=db(F.name=="pow"?pow(x,y):F.name=="fmod"?fmod(x,y):F.name=="atan2"?atan2(x,y):hypot(x,y)); } return true; }
  }
  if(F.decl) engine_error("call to external function "+F.name);
  return false;
}
static void gotoBB(Frame*f,int nb){
  Fn&F=fns[f->fn]; BB&B=F.bb[nb];
  for(auto&p:B.phi) if(p.first==f->bb){ auto&mv=p.second; if(mv.size()==1){ f->r[mv[0].dst]=mv[0].src.reg>=0?f->r[mv[0].src.reg]:mv[0].src.c; } else { static vector<Val> tmp; tmp.clear(); for(auto&m:mv) tmp.push_back(m.src.reg>=0?f->r[m.src.reg]:m.src.c); for(size_t i=0;i<mv.size();i++) f->r[mv[i].dst]=std::move(tmp[i]); } break; }
  f->bb=nb; f->pc=0;
}
static void pushFrame(int fi,const vector<Val>&args,int retDst,int norm){
  Fn&F=fns[fi]; Frame*f=new Frame; f->fn=fi; f->r.resize(F.nregs); for(size_t i=0;i<args.size()&&i<(size_t)F.nargs;i++) f->r[i]=args[i]; f->retDst=retDst; f->normBB=norm; st.push_back(f); F.used=true; if(st.size()>2000) engine_error("call stack too deep in "+F.name); }
static void run(){
  while(true){
    Frame*f=st.back(); Fn*F=&fns[f->fn]; Op&op=F->bb[f->bb].ops[f->pc]; curOp=&op; covmap[locCov[op.loc]]=1;
    if((++icount&0xffff)==0){ if(sh->abort_flag||pastDeadline()){ sh->abort_flag=1; release_slot_exit(0);} if(icount>max_instr){ sh->limits++; violation("hang","instruction limit reached",nullptr); finish_path(); } }
    f->pc++;
    auto V=[&](int i)->const Val&{ Opd&o=op.o[i]; return o.reg>=0?f->r[o.reg]:o.c; };
    switch(op.opc){
      case LLVMRet: { Val rv; if(op.o.size()) rv=V(0); for(auto o:f->al) killObj(o); int rd=f->retDst,nb=f->normBB; delete f; st.pop_back(); if(st.empty()) return; Frame*p=st.back(); if(rd>=0) p->r[rd]=std::move(rv); if(nb>=0) gotoBB(p,nb); break; }
      case LLVMBr: if(op.bbs.size()==1) gotoBB(f,op.bbs[0]); else { bool c=decide(V(0)); gotoBB(f,op.bbs[c?0:1]); } break;
      case LLVMSwitch: { const Val&v=V(0); if(!v.e){ int tgt=op.bbs[0]; for(size_t i=0;i<op.cases.size();i++) if(op.cases[i]==v.c){ tgt=op.bbs[i+1]; break; } gotoBB(f,tgt); }
        else { Val vv=v; unsigned w=op.t2->bits; int tgt=-1; // group cases by target
          std::map<int,vector<u128>> g; for(size_t i=0;i<op.cases.size();i++) if(op.bbs[i+1]!=op.bbs[0]) g[op.bbs[i+1]].push_back(op.cases[i]);
          for(auto&x:g){ vector<Z3_ast> es; for(u128 c:x.second) es.push_back(keep(Z3_mk_eq(Z,asBV(vv,w),bvc(c,w)))); Val c=mkVal(Z3_mk_or(Z,es.size(),es.data())); if(decide(c)){ tgt=x.first; break; } }
          if(tgt<0) tgt=op.bbs[0]; gotoBB(f,tgt); } break; }
      case LLVMUnreachable: violation("ub","unreachable code reached",nullptr); terminate("u");
      case LLVMResume: engine_error("resume reached");
      case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: {
        Val r=binop(op.opc,V(0),V(1),op.t); f->r[op.dst]=std::move(r); break; }
      case LLVMFNeg: { std::function<Val(const Val&,Ty*)> ng=[&](const Val&a,Ty*t)->Val{ if(t->k==Ty::Vec){ Val r; r.a=std::make_shared<vector<Val>>(); for(auto&x:*a.a) r.a->push_back(ng(x,t->el[0])); return r; } if(!a.e) return Val(a.c^((u128)1<<(t->bits-1))); Z3_ast nf=keep(Z3_mk_fpa_neg(Z,toFP(a,t->bits))); Val r=mkVal(Z3_mk_bvxor(Z,asBV(a,t->bits),bvc((u128)1<<(t->bits-1),t->bits))); if(r.e) bv2fp[r.e]=nf; return r; }; f->r[op.dst]=ng(V(0),op.t); break; }
      case LLVMAlloca: { u64 n=op.t2->alloc; Val c=V(0); n*= (u64)c.c? (u64)c.c:1; Obj*o=newObj(n?n:1,op.al,'s'); f->al.push_back(o); f->r[op.dst]=Val(o->base); break; }
      case LLVMLoad: { const Val&pv=V(0); if(pv.e&&(op.t->k==Ty::Flt||op.t->k==Ty::Dbl||op.t->k==Ty::Int)){ Val r; if(symLoad(pv,op.t,r)){ f->r[op.dst]=std::move(r); break; } } u64 a=addrOf(V(0),op.t->store,false); f->r[op.dst]=loadTy(a,op.t); break; }
      case LLVMStore: { u64 a=addrOf(V(1),op.t2->store,true); storeTy(a,V(0),op.t2); break; }
      case LLVMGetElementPtr: { Val b=V(0); if(b.a) engine_error("vector gep"); if(op.off) { if(!b.e) b.c=(u64)((u64)b.c+op.off); else b=mkVal(Z3_mk_bvadd(Z,b.e,bvc((u128)(u64)op.off,64))); }
        for(size_t i=0;i<op.g.size();i++){ Val ix=op.g[i].o.reg>=0?f->r[op.g[i].o.reg]:op.g[i].o.c; unsigned w=op.idx[i]; if(!ix.e&&!b.e){ b.c=(u64)((u64)b.c+(u64)(i64)sx(ix.c,w)*op.g[i].scale); } else { Z3_ast e=asBV(ix,w); if(w<64) e=keep(Z3_mk_sign_ext(Z,64-w,e)); e=keep(Z3_mk_bvmul(Z,e,bvc(op.g[i].scale,64))); b=mkVal(Z3_mk_bvadd(Z,asBV(b,64),e)); } }
        f->r[op.dst]=std::move(b); break; }
      case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMAddrSpaceCast: case 69: f->r[op.dst]=castOp(op.opc,V(0),op.t2,op.t); break;
      case LLVMICmp: f->r[op.dst]=icmp(op.aux,V(0),V(1),op.t2); break;
      case LLVMFCmp: f->r[op.dst]=fcmp(op.aux,V(0),V(1),op.t2); break;
      case LLVMSelect: { Val r=select_(V(0),V(1),V(2),op.t,op.t->k==Ty::Vec); f->r[op.dst]=std::move(r); break; }
      case LLVMFreeze: f->r[op.dst]=V(0); break;
      case LLVMFence: break;
      case LLVMExtractValue: { Val v=V(0); for(int i:op.idx){ Val x=(*v.a)[i]; v=x; } f->r[op.dst]=std::move(v); break; }
      case LLVMInsertValue: { Val v=V(0); std::function<Val(const Val&,size_t)> ins=[&](const Val&x,size_t d)->Val{ if(d==op.idx.size()) return V(1); Val r; r.a=std::make_shared<vector<Val>>(*x.a); (*r.a)[op.idx[d]]=ins((*x.a)[op.idx[d]],d+1); return r; }; f->r[op.dst]=ins(v,0); break; }
      case LLVMExtractElement: { u64 i=(u64)concretize(V(1),64); const Val&v=V(0); if(i>=v.a->size()) engine_error("extractelement index"); Val x=(*v.a)[i]; f->r[op.dst]=std::move(x); break; }
      case LLVMInsertElement: { u64 i=(u64)concretize(V(2),64); Val r; r.a=std::make_shared<vector<Val>>(*V(0).a); if(i>=r.a->size()) engine_error("insertelement index"); (*r.a)[i]=V(1); f->r[op.dst]=std::move(r); break; }
      case LLVMShuffleVector: { Val r; r.a=std::make_shared<vector<Val>>(); const Val&x=V(0); const Val&y=V(1); int n=x.a->size(); for(int m:op.idx){ if(m<0) r.a->push_back(Val()); else r.a->push_back(m<n?(*x.a)[m]:(*y.a)[m-n]); } f->r[op.dst]=std::move(r); break; }
      case LLVMAtomicRMW: { u64 a=addrOf(V(0),op.t2->store,true); Val old=loadScalar(a,op.t2->bits); Val x=V(1),n; switch(op.aux){ case LLVMAtomicRMWBinOpXchg:n=x;break; case LLVMAtomicRMWBinOpAdd:n=binop(LLVMAdd,old,x,op.t2);break; case LLVMAtomicRMWBinOpSub:n=binop(LLVMSub,old,x,op.t2);break; case LLVMAtomicRMWBinOpAnd:n=binop(LLVMAnd,old,x,op.t2);break; case LLVMAtomicRMWBinOpOr:n=binop(LLVMOr,old,x,op.t2);break; case LLVMAtomicRMWBinOpXor:n=binop(LLVMXor,old,x,op.t2);break; case LLVMAtomicRMWBinOpUMax:{Val c=icmp(LLVMIntUGT,old,x,op.t2); n=select_(c,old,x,op.t2,false);break;} case LLVMAtomicRMWBinOpUMin:{Val c=icmp(LLVMIntULT,old,x,op.t2); n=select_(c,old,x,op.t2,false);break;} default: engine_error("atomicrmw op"); } storeScalar(a,n,op.t2->bits); f->r[op.dst]=old; break; }
      case LLVMAtomicCmpXchg: { u64 a=addrOf(V(0),op.t2->store,true); Val old=loadScalar(a,op.t2->bits); Val c=icmp(LLVMIntEQ,old,V(1),op.t2); bool ok=decide(c); if(ok) storeScalar(a,V(2),op.t2->bits); Val r; r.a=std::make_shared<vector<Val>>(); r.a->push_back(old); r.a->push_back(Val(ok)); f->r[op.dst]=std::move(r); break; }
      case LLVMCall: case LLVMInvoke: {
        vector<Val> A; A.reserve(op.o.size()); for(size_t i=0;i<op.o.size();i++) A.push_back(V(i)); int norm=op.opc==LLVMInvoke?op.bbs[0]:-1;
        if(op.intr){ if(op.intr<0){ char*s=LLVMPrintValueToString(op.inst); engine_error(string("unsupported intrinsic: ")+s); } Val r=intrinsic(op,A); if(op.t->k!=Ty::Void) f->r[op.dst]=std::move(r); if(norm>=0) gotoBB(f,norm); break; }
        int fi=op.fn; if(fi<0){ u64 a=(u64)concretize(A.back(),64); A.pop_back(); auto it=fnByAddr.find(a); if(it==fnByAddr.end()){ violation("memory","call through an invalid function pointer",nullptr); terminate("c"); } fi=it->second; }
        decode(fi); Fn&C=fns[fi]; Val r; if((C.handler||C.decl)&&external(C,A,r)){ if(op.t->k!=Ty::Void) f->r[op.dst]=std::move(r); if(norm>=0) gotoBB(f,norm); break; }
        pushFrame(fi,A,op.t->k==Ty::Void?-1:op.dst,norm); break; }
      case LLVMLandingPad: engine_error("landing pad reached");
      default: { char*s=LLVMPrintValueToString(op.inst); engine_error(string("unsupported instruction: ")+s); }
    }
  }
}
static string jesc(const string&s){ string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }

int main(int argc,char**argv){
  string bc,fn,out; int procs=8; double tmo=0;
  for(int i=1;i<argc;i++){ string a=argv[i]; if(a=="--bc") bc=argv[++i]; else if(a=="--fn") fn=argv[++i]; else if(a=="--out") out=argv[++i]; else if(a=="--procs") procs=atoi(argv[++i]); else if(a=="--time") tmo=atof(argv[++i]); else if(a=="--rlimit") zrlimit=strtoull(argv[++i],0,10); else if(a=="--max-instr") max_instr=strtoull(argv[++i],0,10); else if(a=="-v") verbose=true; else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 2; } }
  double t0=now(); if(tmo>0) deadline=t0+tmo;
  sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); covmap=(unsigned char*)mmap(0,MAXLOC+(1<<16),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  sh->slots=procs-1; sh->paths=1;
  LLVMContextRef C=LLVMContextCreate(); LLVMMemoryBufferRef mb; char*err=nullptr; if(LLVMCreateMemoryBufferWithContentsOfFile(bc.c_str(),&mb,&err)){ fprintf(stderr,"%s\n",err); return 2; }
  if(LLVMParseBitcodeInContext2(C,mb,&M)){ fprintf(stderr,"cannot parse bitcode\n"); return 2; }
  TD=LLVMGetModuleDataLayout(M); locs.push_back("?"); locCov.push_back(0);
  fns.reserve(65536);
  Z3_config cfg=Z3_mk_config(); Z=Z3_mk_context_rc(cfg); Z3_set_error_handler(Z,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); engine_error(string("z3: ")+Z3_get_error_msg(c,e)); });
  boolS=Z3_mk_bool_sort(Z); fpS32=Z3_mk_fpa_sort_32(Z); Z3_inc_ref(Z,Z3_sort_to_ast(Z,fpS32)); fpS64=Z3_mk_fpa_sort_64(Z); Z3_inc_ref(Z,Z3_sort_to_ast(Z,fpS64)); RNE=keep(Z3_mk_fpa_rne(Z));
  S=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,S);
  setRlimit(S,rl_bv);
  LLVMValueRef f=LLVMGetNamedFunction(M,fn.c_str()); if(!f){ fprintf(stderr,"no function %s\n",fn.c_str()); return 2; }
  double tl=now();
  // the exploration runs in a child so that the root survives anything
  pid_t p=fork(); 
  if(p==0){ setpgid(0,0); haveSlot=false; int fi=fnOf(f); for(size_t q=0;q<fns.size();q++) decode((int)q); pushFrame(fi,{},-1,-1); run(); registerCover("__end"); record_end(); finish_path(); }
  int stt=0; while(true){ pid_t q=waitpid(p,&stt,WNOHANG); if(q==p) break; if(pastDeadline()){ double s=sh->stop_at; double lim=std::min(deadline>0?deadline:1e18, s>0?s:1e18)+10; if(now()>lim){ sh->abort_flag=1; kill(-p,SIGKILL); waitpid(p,&stt,0); stt=0; break; } } usleep(2000); }
  if(!(WIFEXITED(stt)&&WEXITSTATUS(stt)==0)){ sh->errors++; int k=sh->nerr.load(); if(k<32){ snprintf(sh->err[k],300,"root process died (status %d)",stt); sh->nerr=k+1; } }
  while(waitpid(-1,&stt,0)>0){}
  string j="{\n"; auto num=[&](const char*k,long v){ j+=string("  \"")+k+"\": "+std::to_string(v)+",\n"; };
  j+="  \"harness\": \""+fn+"\",\n"; num("paths",sh->done_paths); num("started",sh->paths); num("infeasible",sh->infeasible); num("asserts",sh->asserts); num("asserts_symbolic",sh->asserts_sym); num("queries",sh->queries); num("unknown",sh->unknowns); num("instructions",sh->instrs); num("errors",sh->errors); num("limits",sh->limits); num("panics_ok",sh->panics_ok); num("forks",sh->forks); num("timeout",sh->abort_flag.load());
  char b[64]; snprintf(b,64,"%.3f",sh->solver_us/1e6); j+=string("  \"solver_s\": ")+b+",\n"; snprintf(b,64,"%.3f",now()-t0); j+=string("  \"wall_s\": ")+b+",\n"; snprintf(b,64,"%.3f",tl-t0); j+=string("  \"load_s\": ")+b+",\n";
  j+="  \"error_messages\": ["; for(int i=0;i<sh->nerr;i++) j+=string(i?", ":"")+"\""+jesc(sh->err[i])+"\""; j+="],\n";
  j+="  \"covers\": {"; for(int i=0;i<sh->ncov;i++) j+=string(i?", ":"")+"\""+jesc(sh->cov[i])+"\": "+std::to_string(sh->covn[i].load()); j+="},\n";
  j+="  \"violations\": ["; for(int i=0;i<sh->nviol;i++){ VRec&v=sh->viol[i]; j+=string(i?",":"")+"\n    {\"kind\": \""+v.kind+"\", \"id\": \""+jesc(v.id)+"\", \"loc\": \""+jesc(v.loc)+"\", \"stack\": \""+jesc(v.stack)+"\", \"inputs\": ["; for(int k=0;k<v.nin;k++) j+=string(k?", ":"")+"[\""+jesc(v.names[k])+"\", "+std::to_string(v.widths[k])+", \""+std::to_string(v.vals[k])+"\"]"; j+="]}"; } j+="],\n";
  num("ended",sh->ended); num("second_stage",sh->second); num("overapprox",sh->overapprox.load()); num("havoc_reads",sh->havoc_reads);
  j+="  \"witnesses\": ["; for(int i=0;i<sh->nwit;i++){ WRec&w=sh->wit[i]; j+=string(i?",":"")+"\n    {\"inputs\": ["; for(int k=0;k<w.nin;k++) j+=string(k?", ":"")+"[\""+jesc(w.names[k])+"\", "+std::to_string(w.widths[k])+", \""+std::to_string(w.vals[k])+"\"]"; j+="], \"notes\": ["; for(int k=0;k<w.nnotes;k++) j+=string(k?", ":"")+"["+std::to_string(w.nw[k])+", \""+std::to_string(w.notes[k])+"\"]"; j+="]}"; } j+="],\n";
  j+="  \"lines\": ["; { bool first=true; for(int i=1;i<=sh->nloc.load();i++) if(covmap[i]){ j+=string(first?"":", ")+"\""+jesc(sh->loc[i])+"\""; first=false; } } j+="],\n";
  j+="  \"_\": 0\n}\n";
  if(out.size()){ FILE*o=fopen(out.c_str(),"w"); fputs(j.c_str(),o); fclose(o);} else fputs(j.c_str(),stdout);
  return 0;
}
