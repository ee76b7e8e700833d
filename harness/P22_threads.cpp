// P22: the thread pool runs every task exactly once and delivers its result.
#include "pbt.h"
#include "AmpGen/ThreadPool.h"
#include "AmpGen/OptionsParser.h"
#include <atomic>
#include <chrono>
#include <memory>
#include <random>
using namespace AmpGen;
namespace {
  struct Job { int kind; int us; int value; std::future<int> f; std::future<void> fv; };
  void spin(int us){ auto t=std::chrono::steady_clock::now()+std::chrono::microseconds(us); while( std::chrono::steady_clock::now()<t ) std::this_thread::yield(); }
  void pool(pbt::Gen& g){ int nt=g.chance(1,4)?g.range(7,20):g.range(1,6), n=g.range(0,60); bool enable=!g.chance(1,4); OptionsParser::setArg(std::string("ThreadPool::Enable ")+(enable?"1":"0")); int waitAt=g.chance(1,3)?g.range(0,n):-1; bool nested=g.chance(1,4) && enable; bool early=g.coin(); g.desc(std::to_string(nt)+" threads, "+std::to_string(n)+" tasks"+(enable?"":", disabled")+(waitAt>=0?", stopped":"")); if( n>nt ) g.nontrivial(); if( !enable ) g.label("disabled"); std::vector<std::shared_ptr<std::atomic<int>>> runs; std::vector<Job> jobs(n); std::atomic<int> order{0}; std::vector<int> started; std::mutex mx; bool stopped=false;
    struct Plan { int kind, us, value; }; std::vector<Plan> plan; for(int i=0;i<n;++i) plan.push_back({int(g.weighted({6,2,2,2,3})),g.chance(1,3)?g.range(0,300):0,g.range(-1000,1000)});
    { ThreadPool tp(nt); for(int i=0;i<n;++i){ auto r=std::make_shared<std::atomic<int>>(0); runs.push_back(r); auto p=plan[i]; jobs[i].kind=p.kind; jobs[i].value=p.value; auto body=[r,p,i,&mx,&started](){ { std::lock_guard<std::mutex> l(mx); started.push_back(i); } ++*r; if( p.us ) spin(p.us); }; 
        switch( p.kind ){ case 0: jobs[i].f=tp.enqueue([body,p](){ body(); return p.value; }); break; case 1: jobs[i].fv=tp.enqueue([body](){ body(); }); break; case 2: if( enable ) jobs[i].f=tp.enqueue([body]() -> int { body(); throw std::runtime_error("task"); }); else { jobs[i].kind=0; jobs[i].f=tp.enqueue([body,p](){ body(); return p.value; }); } break; case 4: jobs[i].f=tp.enqueue([body](int a, int b){ body(); return a-b; },p.value+7,7); break; default: if( nested ) jobs[i].f=tp.enqueue([body,p,&tp,&order](){ body(); tp.enqueue([&order](){ ++order; }); return p.value; }); else jobs[i].f=tp.enqueue([body,p](){ body(); return p.value; }); }
        if( early && i%7==3 && jobs[i].f.valid() && jobs[i].kind!=2 ) g.require(jobs[i].f.wait_for(std::chrono::seconds(20))==std::future_status::ready,"the result of a task arrives while the pool is busy"); }
      if( nested ) for(auto& j : jobs) if( j.kind==3 ) j.f.wait();
      if( waitAt>=0 ){ tp.waitForStoppedThreads(); stopped=true; for(auto& r : runs) g.require(*r==1,"all tasks have run when the threads have stopped"); } }
    int nest=0; for(int i=0;i<n;++i){ g.requirel(*runs[i]==1,[&]{ return "task "+std::to_string(i)+" ran "+std::to_string(int(*runs[i]))+" times"; }); g.evals(1); bool ready=jobs[i].f.valid()?jobs[i].f.wait_for(std::chrono::seconds(0))==std::future_status::ready:jobs[i].fv.wait_for(std::chrono::seconds(0))==std::future_status::ready; g.require(ready,"the results are there once the pool is gone"); try { if( jobs[i].kind==1 ) jobs[i].fv.get(); else { int v=jobs[i].f.get(); g.require(jobs[i].kind!=2,"exceptions of tasks are delivered"); g.requirel(v==jobs[i].value,[&]{ return "result "+std::to_string(v)+", expected "+std::to_string(jobs[i].value); }); } } catch( std::future_error& e ){ g.fail(std::string("no result: ")+e.what()); } catch( std::runtime_error& e ){ g.require(jobs[i].kind==2 && std::string(e.what())=="task","unexpected exception"); } if( jobs[i].kind==3 && nested ) ++nest; }
    g.require(order==nest,"tasks submitted by tasks have run"); if( nt==1 || !enable ) for(size_t i=0;i<started.size();++i) g.require(started[i]==int(i),"tasks start in the order of submission"); (void)stopped; }
  // several threads submit tasks at once; workers go idle in between
  void producers(pbt::Gen& g){ OptionsParser::setArg("ThreadPool::Enable 1"); int nt=g.chance(1,5)?g.range(7,16):g.range(1,6), np=g.range(1,4), n=g.range(1,40), rounds=g.range(1,4); std::vector<int> pause; for(int i=0;i<np*n;++i) pause.push_back(g.chance(1,6)?g.range(1,200):0); int idle=g.chance(1,2)?g.range(0,500):0; g.desc(std::to_string(nt)+" threads, "+std::to_string(np)+" producers of "+std::to_string(n)+" tasks, "+std::to_string(rounds)+" rounds"); g.nontrivial(); std::vector<std::atomic<int>> runs(np*n*rounds); std::atomic<long> sum{0}; { ThreadPool tp(nt); for(int r=0;r<rounds;++r){ std::vector<std::thread> ps; std::atomic<int> bad{0}; for(int p=0;p<np;++p) ps.emplace_back([&,p,r](){ std::vector<std::future<int>> fs; for(int i=0;i<n;++i){ int id=(r*np+p)*n+i; if( pause[p*n+i] ) spin(pause[p*n+i]); fs.push_back(tp.enqueue([&runs,&sum,id](){ ++runs[id]; sum+=id; return 3*id+1; })); } for(int i=0;i<n;++i){ int id=(r*np+p)*n+i; if( fs[i].wait_for(std::chrono::seconds(20))!=std::future_status::ready || fs[i].get()!=3*id+1 ) ++bad; } }); for(auto& t : ps) t.join(); g.require(bad==0,"every producer gets its results while the pool lives"); if( idle ) spin(idle); } } long want=0; for(size_t i=0;i<runs.size();++i){ want+=i; g.requirel(runs[i]==1,[&]{ return "task ran "+std::to_string(int(runs[i]))+" times"; }); g.evals(1); } g.require(sum==want,"effects of the tasks"); }
}
int main(int argc, char** argv){
  pbt::Check c("P22","more tasks than threads, or several producers"); c.scale(2);
  c.prop("pool", 8000, 100000, pool, 60); c.prop("producers", 4000, 50000, producers, 60);
  return c.main(argc,argv);
}
