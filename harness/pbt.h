// Property-based testing engine used by every check in /verif.
//
//  * A case is a deterministic function of a "tape" of integers drawn by the generator; the
//    tape of a random case is a function of (VERIF_SEED, property function, case index).
//  * Cases run in forked workers, so that crashes, hangs and exits of the code under test are
//    observed and reported like any other failure.
//  * A failing case is re-run three times, then shrunk (tape deletion / minimisation, every
//    candidate in a process of its own) and written out as the replay file.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H 1
#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ftw.h>

namespace pbt {
  struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
  struct Discard {};

  constexpr size_t MAXTAPE = 1 << 18;
  struct Shared {
    volatile int prop, idx, state;     // state: 0 running, 1 passed, 2 failed, 3 discarded
    volatile uint64_t tapeLen;
    char msg[1 << 14];
    char desc[1 << 16];
    uint64_t tape[MAXTAPE];
  };

  inline uint64_t mix(uint64_t x){ x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
  inline uint64_t hashStr(const std::string& s){ uint64_t h = 1469598103934665603ull; for(unsigned char c : s){ h ^= c; h *= 1099511628211ull; } return h; }
  template <class T> std::string str(const T& t){ std::ostringstream o; o.precision(17); o << t; return o.str(); }

  struct Stats { double slowest=0;
    uint64_t cases=0, evals=0, discards=0; std::unordered_set<uint64_t> nontrivial; std::map<std::string,uint64_t> labels; std::vector<std::string> samples;
  };

  class Gen {
    Shared* sh; bool replay; size_t pos=0; uint64_t s; size_t replayLen=0;
    std::string m_desc; bool m_nt=false; uint64_t m_evals=0; std::vector<uint64_t> m_ntHashes; std::vector<std::string> m_labels;
   public:
    std::vector<std::string> extraSamples;
    Gen(Shared* sh, uint64_t seed) : sh(sh), replay(false), s(seed) { sh->tapeLen = 0; }
    struct Tape { size_t len; };
    Gen(Shared* sh, Tape t) : sh(sh), replay(true), s(0), replayLen(t.len) {}
    uint64_t raw(uint64_t n){ // uniform in [0,n); 0 is the simplest
      if( n <= 1 ) n = 1;
      uint64_t v;
      if( replay ) v = pos < replayLen ? sh->tape[pos] % n : 0;
      else { s = s * 6364136223846793005ull + 1442695040888963407ull; v = mix(s) % n; if( pos < MAXTAPE ){ sh->tape[pos] = v; sh->tapeLen = pos + 1; } else throw Discard{}; }
      ++pos; return v;
    }
    uint64_t draw(uint64_t n){ return raw(n); }
    int range(int lo, int hi){ return lo + (int)raw((uint64_t)(hi - lo) + 1); }          // simplest: lo
    bool chance(int num, int den){ return raw(den) >= (uint64_t)(den - num); }            // simplest: false
    bool coin(){ return raw(2) == 1; }
    double unit(){ return raw(1ull << 53) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi){ // mixture of short decimals and full-precision values
      switch( raw(4) ){
        case 0: return lo + (hi - lo) * raw(9) / 8.0;
        case 1: { double v = std::round((lo + (hi-lo)*unit())*100.)/100.; return v < lo || v > hi ? lo + (hi-lo)*0.5 : v; }
        default: return lo + (hi - lo) * unit();
      }
    }
    double uniform(double lo, double hi){ return lo + (hi - lo) * unit(); }
    double logreal(double lo, double hi){ return std::exp( uniform(std::log(lo), std::log(hi)) ); }
    template <class V> const typename V::value_type& pick(const V& v){ return *(v.begin() + raw(v.size())); }
    template <class T> T pick(std::initializer_list<T> v){ return *(v.begin() + raw(v.size())); }
    template <class V> void shuffle(V& v){ for(size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[i-1-raw(i)]); }
    int weighted(std::initializer_list<int> w){ uint64_t t=0; for(int x : w) t += x; uint64_t r = raw(t); int i=0; for(int x : w){ if( r < (uint64_t)x ) return i; r -= x; ++i; } return 0; }
    void desc(const std::string& t){ m_desc += t; size_t n = std::min(m_desc.size(), sizeof(sh->desc)-1); memcpy(sh->desc, m_desc.data(), n); sh->desc[n]=0; }
    void clearDesc(){ m_desc.clear(); }
    const std::string& description() const { return m_desc; }
    void label(const std::string& l){ m_labels.push_back(l); }
    void nontrivial(){ m_nt = true; }
    void evals(uint64_t n){ m_evals += n; }
    void ntCase(uint64_t h){ m_ntHashes.push_back(h); }         // one non-trivial sub-case of a bundle
    [[noreturn]] void fail(const std::string& m){ throw Failure(m); }
    void require(bool ok, const std::string& m){ if( !ok ) throw Failure(m); }
    template <class F> void requirel(bool ok, F&& m){ if( !ok ) throw Failure(m()); }
    void close(const std::string& what, double got, double want, double rtol, double atol = 0){
      if( std::isnan(got) && std::isnan(want) ) return;
      if( !(std::fabs(got-want) <= atol + rtol * std::max(std::fabs(got), std::fabs(want)) ) )
        throw Failure(what + ": got " + str(got) + ", expected " + str(want) + " (rtol " + str(rtol) + ", atol " + str(atol) + ")");
    }
    void close(const std::string& what, std::complex<double> got, std::complex<double> want, double rtol, double atol = 0){
      if( !(std::abs(got-want) <= atol + rtol * std::max(std::abs(got), std::abs(want)) ) )
        throw Failure(what + ": got " + str(got) + ", expected " + str(want) + " (rtol " + str(rtol) + ", atol " + str(atol) + ")");
    }
    [[noreturn]] void discard(){ throw Discard{}; }
    void assume(bool ok){ if( !ok ) throw Discard{}; }
    void fold(Stats& st, bool passed) const {
      st.cases++; st.evals += std::max<uint64_t>(m_evals, 1);
      for(auto& l : m_labels) st.labels[l]++;
      if( m_nt ) st.nontrivial.insert(hashStr(m_desc));
      for(auto h : m_ntHashes) st.nontrivial.insert(h);
      if( st.samples.size() < 2 && (m_nt || !m_ntHashes.empty()) ) st.samples.push_back(m_desc.substr(0,700));
    }
  };

  struct Prop { std::string name; uint64_t quick, thorough; std::function<void(Gen&)> fn; int timeout; bool flaky; };
  inline std::string& scratchRef(){ static std::string s; return s; }
  inline const std::string& scratch(){ return scratchRef(); }
  inline bool& thoroughRef(){ static bool t=false; return t; }
  inline bool thorough(){ return thoroughRef(); }

  inline std::string jsonEsc(const std::string& s){ std::string o; char b[8]; for(unsigned char c : s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<0x20||c>=0x7f){ snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
  inline int rmcb(const char* p, const struct stat*, int, struct FTW*){ return ::remove(p); }

  class Check {
    std::string id, rule; std::vector<std::string> assumptions; std::vector<Prop> props;
    std::string tier="quick", evidence, replaydir, only; uint64_t seed=1; double cap=240; int W=8; double mult=1, quickScale=1;
    bool verbose=false;
    typedef std::chrono::steady_clock clk; clk::time_point t0 = clk::now();
    double elapsed() const { return std::chrono::duration<double>(clk::now()-t0).count(); }
   public:
    std::function<void()> init; // run once per child, before the first case
    Check(const std::string& id, const std::string& rule) : id(id), rule(rule) {}
    void assume(const std::string& a){ assumptions.push_back(a); }
    void scale(double k){ quickScale=k; } // the quick tier runs k times the cases given to prop()
    void prop(const std::string& name, uint64_t quick, uint64_t thorough, std::function<void(Gen&)> fn, int timeout = 60, bool flaky=false){ props.push_back({name,quick,thorough,fn,timeout,flaky}); }

   private:
    static Shared* mapShared(){ void* p = mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); if(p==MAP_FAILED){ perror("mmap"); exit(2);} return (Shared*)p; }
    uint64_t caseSeed(size_t p, uint64_t i) const { return mix(mix(seed * 0x9e37ull + hashStr(id)) ^ mix(hashStr(props[p].name)) ^ mix(i*7919+13)); }
    static void setMsg(Shared* sh, const std::string& m){ size_t n = std::min(m.size(), sizeof(sh->msg)-1); memcpy(sh->msg, m.data(), n); sh->msg[n] = 0; }
    static int runCase(const Prop& p, Gen& g, Shared* sh){
      sh->state = 0; sh->msg[0]=0; sh->desc[0]=0;
      try { p.fn(g); sh->state = 1; }
      catch( Discard& ) { sh->state = 3; }
      catch( Failure& e ){ setMsg(sh, e.what()); sh->state = 2; }
      catch( std::exception& e ){ setMsg(sh, std::string("unexpected exception: ") + e.what()); sh->state = 2; }
      catch( ... ){ setMsg(sh, "unexpected exception"); sh->state = 2; }
      return sh->state;
    }
    void childSetup(){
      signal(SIGALRM, SIG_DFL);
      setpgid(0,0);
      if( !verbose ){ int fd = open("/dev/null", O_WRONLY); dup2(fd,1); dup2(fd,2); }
      std::string d = scratch() + "/w" + std::to_string(getpid()); mkdir(d.c_str(), 0700); if( chdir(d.c_str()) ){}; scratchRef() = d;
      setenv("OMP_NUM_THREADS","2",1);
      if( init ) init();
    }
    static std::string statusText(int st, const std::string& extra=""){
      if( WIFSIGNALED(st) ){ int s = WTERMSIG(st); if( s == SIGALRM ) return "did not terminate within the case time limit"; return std::string("process killed by signal ") + std::to_string(s) + " (" + strsignal(s) + ")"; }
      return "process ended unexpectedly with exit status " + std::to_string(WEXITSTATUS(st));
    }
    // run one tape (or one seed) in a fresh child; returns 2 on failure
    int isolated(size_t p, Shared* sh, bool useTape, size_t len, uint64_t sd, int timeout){
      fflush(stdout); fflush(stderr);
      pid_t c = fork();
      if( c == 0 ){ childSetup(); alarm(timeout); if( useTape ){ Gen g(sh,Gen::Tape{len}); runCase(props[p],g,sh);} else { Gen g(sh,sd); runCase(props[p],g,sh);} _exit(40+sh->state); }
      int st=0; waitpid(c,&st,0); kill(-c, SIGKILL);
      { std::string d = scratch() + "/w" + std::to_string(c); nftw(d.c_str(), rmcb, 16, FTW_DEPTH|FTW_PHYS); }
      if( WIFEXITED(st) && WEXITSTATUS(st) >= 41 && WEXITSTATUS(st) <= 43 ) return WEXITSTATUS(st)-40;
      setMsg(sh, statusText(st)); return 2;
    }
    // replay a worker's history up to and including (p, idx)
    int sequence(size_t p, uint64_t idx, int w, Shared* sh, int timeout){
      pid_t c = fork();
      if( c == 0 ){ childSetup(); int rc = 1;
        for(size_t q=0;q<=p;++q){ if(!selected(q)) continue; uint64_t N = count(q); for(uint64_t i=w;i<N;i+=W){ if(q==p && i>idx) break; alarm(timeout); Gen g(sh, caseSeed(q,i)); rc = runCase(props[q],g,sh); if( rc==2 ) _exit(42); } }
        _exit(41); }
      int st=0; waitpid(c,&st,0); kill(-c, SIGKILL);
      if( WIFEXITED(st) && WEXITSTATUS(st) >= 41 && WEXITSTATUS(st) <= 43 ) return WEXITSTATUS(st)-40;
      setMsg(sh, statusText(st)); return 2;
    }
    bool selected(size_t q) const { return only.empty() || only == props[q].name; }
    uint64_t count(size_t q) const { return std::max<uint64_t>(1,(uint64_t)((tier=="thorough" ? std::max<double>(props[q].thorough,props[q].quick*quickScale) : props[q].quick*quickScale)*mult)); }

    std::vector<uint64_t> shrink(size_t p, Shared* sh, std::vector<uint64_t> tape, double budget, std::string& msg, std::string& desc, uint64_t& steps){
      auto start = clk::now(); steps = 0;
      auto left = [&]{ return budget - std::chrono::duration<double>(clk::now()-start).count(); };
      auto tryit = [&](const std::vector<uint64_t>& t){
        if( left() <= 0 || t.size() > MAXTAPE ) return false; ++steps;
        std::copy(t.begin(), t.end(), sh->tape);
        int to = std::max(1, std::min(props[p].timeout, (int)left()+5));
        if( isolated(p, sh, true, t.size(), 0, to) == 2 ){
          if( std::string(sh->msg).find("time limit") != std::string::npos && msg.find("time limit") == std::string::npos ) return false;
          tape = t; msg = sh->msg; desc = sh->desc; return true; }
        return false; };
      bool progress = true;
      while( progress && left() > 0 ){
        progress = false;
        for( size_t chunk = std::max<size_t>(1,tape.size()/2); chunk >= 1 && left()>0; chunk /= 2 ){
          for( size_t i = 0; i + chunk <= tape.size() && left()>0; ){
            auto t = tape; t.erase(t.begin()+i, t.begin()+i+chunk);
            if( tryit(t) ) progress = true; else i += std::max<size_t>(1,chunk/2);
          }
          if( chunk == 1 ) break;
        }
        for( size_t i = 0; i < tape.size() && left()>0; ++i ){
          if( tape[i] == 0 ) continue;
          auto t = tape; t[i] = 0; if( tryit(t) ){ progress = true; continue; }
          uint64_t lo = 0, hi = tape[i]; int n=0;
          while( hi - lo > 1 && left()>0 && n++ < 12 ){ uint64_t mid = lo + (hi-lo)/2; auto u = tape; u[i] = mid; if( tryit(u) ){ hi = mid; progress = true; } else lo = mid; }
        }
      }
      return tape;
    }

    std::string writeReplay(size_t p, const std::vector<uint64_t>& tape, const std::string& msg, const std::string& desc, const std::string& how, uint64_t steps, uint64_t seqIdx, int seqW){
      mkdir(replaydir.c_str(), 0755);
      std::string path = replaydir + "/" + id + "-" + props[p].name + "-" + std::to_string(seed) + ".json";
      std::ofstream f(path);
      f << "{\n \"property\": \"" << id << "\",\n \"check\": \"" << props[p].name << "\",\n \"kind\": \"" << how << "\",\n \"seed\": " << seed << ",\n \"tier\": \"" << tier << "\",\n \"shrink_steps\": " << steps
        << ",\n \"sequence\": [" << seqW << ", " << seqIdx << "],\n \"message\": \"" << jsonEsc(msg) << "\",\n \"case\": \"" << jsonEsc(desc) << "\",\n \"tape\": [";
      for(size_t i=0;i<tape.size();++i) f << (i?", ":"") << tape[i];
      f << "]\n}\n";
      return path;
    }
    int violation(size_t p, const std::string& path, const std::string& msg, const std::string& desc){
      std::cout << "property " << id << ", check " << props[p].name << " FAILED\n  " << msg << "\n  minimal case: " << desc.substr(0,3000) << "\n";
      std::cout << "VIOLATION property=" << id << " replay=" << path << std::endl; return 1;
    }

    void writeEvidence(const std::map<size_t,Stats>& stats, int violations, const std::string& note){
      if( evidence.empty() ) return;
      uint64_t ev=0, nt=0; for(auto& [p,s] : stats){ ev += s.evals; nt += s.nontrivial.size(); }
      std::ofstream f(evidence + ".tmp");
      f << "{\n \"property\": \"" << id << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << nt
        << ",\n  \"rule\": \"" << jsonEsc(rule) << "\",\n  \"checks\": {";
      bool first=true;
      for(auto& [p,s] : stats){ f << (first?"\n":",\n") << "   \"" << props[p].name << "\": {\"cases\": " << s.cases << ", \"evaluations\": " << s.evals << ", \"discarded\": " << s.discards << ", \"distinct_nontrivial\": " << s.nontrivial.size() << ", \"labels\": {"; first=false;
        bool f2=true; for(auto& [l,n] : s.labels){ f << (f2?"":", ") << "\"" << jsonEsc(l) << "\": " << n; f2=false; } f << "}}"; }
      f << "\n  },\n  \"samples\": ["; first=true;
      for(auto& [p,s] : stats) for(size_t i=0;i<std::min<size_t>(2,s.samples.size());++i){ f << (first?"\n":",\n") << "   \"" << jsonEsc(props[p].name + ": " + s.samples[i]) << "\""; first=false; }
      f << "\n  ]\n },\n \"assumptions\": ["; first=true; for(auto& a : assumptions){ f << (first?"":", ") << "\"" << jsonEsc(a) << "\""; first=false; }
      f << "],\n \"wall_s\": " << elapsed() << ",\n \"violations\": " << violations;
      if( !note.empty() ) f << ",\n \"note\": \"" << jsonEsc(note) << "\"";
      f << "\n}\n"; f.close(); rename((evidence + ".tmp").c_str(), evidence.c_str());
    }

   public:
    int main(int argc, char** argv){
      std::string replayFile;
      for(int i=1;i<argc;++i){ std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
        if(a=="--tier") tier=nx(); else if(a=="--seed") seed=strtoull(nx().c_str(),0,10); else if(a=="--evidence") evidence=nx(); else if(a=="--replaydir") replaydir=nx();
        else if(a=="--replay") replayFile=nx(); else if(a=="--only") only=nx(); else if(a=="--verbose") verbose=true; else if(a=="--workers") W=atoi(nx().c_str()); else if(a=="--mult") mult=atof(nx().c_str()); else if(a=="--cap") cap=atof(nx().c_str()); }
      thoroughRef() = tier=="thorough";
      if( tier=="thorough" && cap==240 ) cap = 780;
      if( replaydir.empty() ) replaydir = ".";
      char tmpl[] = "/tmp/verif-XXXXXX"; if( !mkdtemp(tmpl) ){ perror("mkdtemp"); return 2; } scratchRef() = tmpl;
      int rc = replayFile.empty() ? run() : doReplay(replayFile);
      nftw(scratch().c_str(), rmcb, 16, FTW_DEPTH|FTW_PHYS);
      return rc;
    }
   private:
    int doReplay(const std::string& file){
      std::ifstream f(file); std::stringstream b; b << f.rdbuf(); std::string t=b.str();
      auto strv=[&](const std::string& k){ auto p=t.find("\""+k+"\":"); auto q=t.find('"',t.find(':',p)+1); return t.substr(q+1,t.find('"',q+1)-q-1); };
      std::string name=strv("check"), kind=strv("kind"); size_t p=0; for(;p<props.size()&&props[p].name!=name;++p); if(p==props.size()){ std::cerr<<"no such check\n"; return 2; }
      std::vector<uint64_t> tape; { auto q=t.find("\"tape\": ["); auto e=t.find(']',q); std::string l=t.substr(q+9,e-q-9); std::replace(l.begin(),l.end(),',',' '); std::stringstream s(l); uint64_t v; while(s>>v) tape.push_back(v); }
      Shared* sh = mapShared(); int r=0;
      if( kind=="sequence" ){ auto q=t.find("\"sequence\": ["); int w; unsigned long long idx; sscanf(t.c_str()+q+13,"%d, %llu",&w,&idx); auto sq=t.find("\"seed\": "); seed=strtoull(t.c_str()+sq+8,0,10); tier=strv("tier"); thoroughRef()=tier=="thorough"; r = sequence(p,idx,w,sh,props[p].timeout); }
      else { int tries = props[p].flaky?10:1; for(int i=0;i<tries&&r!=2;++i){ std::copy(tape.begin(),tape.end(),sh->tape); r = isolated(p,sh,true,tape.size(),0,props[p].timeout); } }
      if( r==2 ){ std::cout << "case: " << sh->desc << "\n"; return violation(p,file,sh->msg,sh->desc); }
      std::cout << "replay passes\ncase: " << sh->desc << std::endl; return 0;
    }
    int run(){
      std::vector<Shared*> sh(W); std::vector<pid_t> pid(W); for(auto& s : sh) s = mapShared();
      std::string sdir = scratch();
      std::vector<int> gen(W,0);
      auto launch = [&](int w, size_t p0, uint64_t i0){
        fflush(stdout); fflush(stderr);
        pid_t c = fork();
        if( c == 0 ){
          childSetup(); std::map<size_t,Stats> st; Shared* s = sh[w];
          auto dump = [&]{
            std::ofstream f(sdir + "/stats." + std::to_string(w) + "." + std::to_string(gen[w]));
            for(auto& [p,S] : st){ f << "P " << p << ' ' << S.cases << ' ' << S.evals << ' ' << S.discards << ' ' << S.slowest << '\n'; for(auto h : S.nontrivial) f << "N " << h << '\n'; for(auto& [l,n] : S.labels) f << "L " << n << ' ' << l << '\n'; for(auto x : S.samples){ std::replace(x.begin(),x.end(),'\n',' '); f << "S " << x << '\n'; } } };
          for(size_t p=p0;p<props.size();++p){ if(!selected(p)) continue; uint64_t N = count(p); auto& S = st[p];
            for(uint64_t i = p==p0 ? i0 : (uint64_t)w; i<N; i+=W){
              if( elapsed() > cap ) { S.labels["stopped at the time cap"]++; break; }
              s->prop=(int)p; s->idx=(int)i; alarm(props[p].timeout); double t1=elapsed(); Gen g(s, caseSeed(p,i)); int r = runCase(props[p], g, s); alarm(0); S.slowest=std::max(S.slowest,elapsed()-t1);
              if( r==2 ){ dump(); _exit(3); }
              if( r==3 ) S.discards++; else g.fold(S,true);
            } }
          s->prop = -1; dump(); _exit(0);
        }
        pid[w] = c;
      };
      for(int w=0;w<W;++w) launch(w,0,w);
      std::map<size_t,Stats> stats; for(size_t p=0;p<props.size();++p) if(selected(p)) stats[p];
      int alive = W; std::string note; int unrepro = 0;
      while( alive > 0 ){
        int st=0; pid_t c = wait(&st); if( c < 0 ) break; int w=-1; for(int k=0;k<W;++k) if(pid[k]==c) w=k; if( w<0 ) continue; --alive; kill(-c, SIGKILL);
        if( WIFEXITED(st) && WEXITSTATUS(st)==0 && sh[w]->prop == -1 ) continue;
        size_t p = sh[w]->prop; uint64_t idx = sh[w]->idx; std::string m0 = (WIFEXITED(st)&&WEXITSTATUS(st)==3) ? std::string(sh[w]->msg) : statusText(st);
        std::cerr << id << "/" << props[p].name << " case " << idx << " failed: " << m0 << "\n  case: " << std::string(sh[w]->desc).substr(0,2000) << "\n  confirming ..." << std::endl;
        Shared* s2 = mapShared(); int need = props[p].flaky ? 2 : 3, tries = props[p].flaky ? 12 : 3, got=0;
        bool slow = m0.find("time limit") != std::string::npos; // a hang is confirmed with four times the limit
        if( slow ){ need = tries = 1; }
        for(int k=0;k<tries && got<need;++k){ if( isolated(p,s2,false,0,caseSeed(p,idx),(slow?4:1)*props[p].timeout) == 2 ) ++got; else if( !props[p].flaky ) break; }
        if( got >= need ){
          for(int k=0;k<W;++k) if( k!=w ){ kill(-pid[k], SIGKILL); }
          std::vector<uint64_t> tape(s2->tape, s2->tape + s2->tapeLen); std::string msg=s2->msg, desc=s2->desc; uint64_t steps=0;
          double budget = tier=="thorough" ? 120 : 50;
          if( !props[p].flaky && msg.find("time limit")==std::string::npos ) tape = shrink(p,s2,tape,budget,msg,desc,steps);
          std::string path = writeReplay(p,tape,msg,desc,"tape",steps,idx,w);
          stats[p].evals += 1; stats[p].cases += 1;
          writeEvidence(stats,1,"stopped at the first violation: " + msg);
          return violation(p,path,msg,desc);
        }
        int seqok=0; if( !slow ) for(int k=0;k<2;++k) if( sequence(p,idx,w,s2,props[p].timeout) == 2 ) ++seqok; else break;
        if( seqok == 2 ){
          for(int k=0;k<W;++k) if( k!=w ) kill(-pid[k], SIGKILL);
          std::string msg = std::string(s2->msg) + " (only after the preceding cases of the same process)", desc=s2->desc;
          std::string path = writeReplay(p,{},msg,desc,"sequence",0,idx,w);
          writeEvidence(stats,1,"stopped at the first violation: " + msg);
          return violation(p,path,msg,desc);
        }
        std::cerr << "  not reproducible; not counted as a violation" << std::endl; ++unrepro; note += "unreproduced: " + props[p].name + ": " + m0 + "; ";
        munmap(s2,sizeof(Shared));
        if( unrepro < 20 ){ ++gen[w]; launch(w, p, idx+W); ++alive; }
      }
      for(int w=0;w<W;++w) for(int q=0;q<=gen[w];++q){ std::ifstream f(sdir + "/stats." + std::to_string(w) + "." + std::to_string(q)); std::string l; size_t p=0; 
        while(std::getline(f,l)){ std::stringstream s(l.substr(2)); if(l[0]=='P'){ uint64_t a,b,c; double tm=0; s>>p>>a>>b>>c>>tm; stats[p].slowest=std::max(stats[p].slowest,tm); stats[p].cases+=a; stats[p].evals+=b; stats[p].discards+=c; } else if(l[0]=='N'){ uint64_t h; s>>h; stats[p].nontrivial.insert(h);} else if(l[0]=='L'){ uint64_t n; s>>n; std::string r; std::getline(s,r); stats[p].labels[r.substr(1)]+=n; } else if(l[0]=='S'){ if(stats[p].samples.size()<3) stats[p].samples.push_back(l.substr(2)); } } }
      writeEvidence(stats,0,note);
      uint64_t ev=0,nt=0; for(auto& [p,s] : stats){ ev+=s.evals; nt+=s.nontrivial.size(); std::cout << "  " << props[p].name << ": " << s.cases << " cases, " << s.evals << " evaluations, " << s.nontrivial.size() << " distinct non-trivial, " << s.discards << " discarded, slowest " << s.slowest << " s\n"; }
      std::cout << id << " held on " << ev << " evaluations (" << nt << " distinct non-trivial), " << elapsed() << " s" << std::endl;
      return 0;
    }
  };
}
#endif
