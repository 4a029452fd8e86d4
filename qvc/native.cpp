// native driver: replay <harness> <file> | search <harness> <seed> <iters> <outfile> | list
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <time.h>
struct H { const char* n; void(*f)(); int k; };
static std::vector<H>& regs(){ static std::vector<H> r; return r; }
vc_reg::vc_reg(const char* n, void(*f)(), int k){ regs().push_back(H{n,f,k}); }
static jmp_buf jb;
static uint64_t rs;
static uint64_t rnd(){ rs += 0x9E3779B97F4A7C15ull; uint64_t z=rs; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static double ud(){ return (rnd()>>11)*(1.0/9007199254740992.0); }
struct In { std::string n; uint64_t v; };
static std::vector<In> ins;
static std::map<std::string,int> cnt;
static std::map<std::string,uint64_t> rep;
static bool replay=false;
static int style=0;
static std::string outfile;
static std::vector<void*> allocs;
static const char* cur="";
static std::string failmsg;
static void dump(const char* why){
  if(outfile.size()){ FILE* f=fopen(outfile.c_str(),"w"); if(f){ fprintf(f,"harness %s\nfailure %s\n",cur,why); for(auto&i:ins) fprintf(f,"%s 0x%llx\n",i.n.c_str(),(unsigned long long)i.v); fclose(f);} }
}
static bool lookup(std::string key, uint64_t& v){ auto it=rep.find(key); if(it==rep.end()) return false; v=it->second; return true; }
static std::string key(const char* n){ int k=cnt[n]++; return std::string(n)+"#"+std::to_string(k); }
static uint64_t log(std::string k, uint64_t v){ if(ins.size()<100000) ins.push_back(In{k,v}); return v; }
static uint64_t rint_(int bits){
  uint64_t m = bits==64? ~0ull : ((1ull<<bits)-1);
  switch(rnd()%8){
    case 0: return rnd()&m;
    case 1: return (rnd()%16)&m;
    case 2: return (0-(rnd()%16))&m;
    case 3: return ((1ull<<(rnd()%bits)) + (rnd()%3) - 1)&m;
    case 4: return ((0ull-(1ull<<(rnd()%bits))) + (rnd()%3) - 1)&m;
    case 5: return (rnd()>>(rnd()%64))&m;
    case 6: return ((uint64_t)(int64_t)((int64_t)rnd()>>(rnd()%64)))&m;
    default: return rnd()&m;
  }
}
static float rflt(){
  uint32_t u; float f;
  switch((style+rnd()%2)%10){
    case 0: u=(uint32_t)rnd(); memcpy(&f,&u,4); return f;
    case 1: return (float)((int64_t)(rnd()%21)-10);
    case 2: return (float)(ud()*20-10);
    case 3: return (float)(ud()*2-1);
    case 4: { static const float sp[]={0.0f,-0.0f,1.0f,-1.0f,0.5f,-0.5f,2.0f,INFINITY,-INFINITY,NAN,1.17549435e-38f,-1.17549435e-38f,3.4028235e38f,-3.4028235e38f,1e-45f,-1e-45f,8388608.f,8388607.5f,-8388607.5f,16777216.f,2147483648.f,-2147483648.f,4294967296.f}; return sp[rnd()%(sizeof sp/4)]; }
    case 5: { double e = ud()*80-40; return (float)((rnd()&1?1:-1)*exp2(e)); }
    case 6: return (float)((int64_t)(rnd()%2001)-1000)*0.25f;
    case 7: return (float)((int64_t)(rnd()%2001)-1000)*0.5f;
    case 8: { u=(uint32_t)rnd(); u=(u&0x807FFFFFu)|((100u+(u>>24)%60u)<<23); memcpy(&f,&u,4); return f; }
    default: return (float)((int64_t)(rnd()%7)-3);
  }
}
static float rfin(float lo,float hi){
  switch(rnd()%8){ case 0: return lo; case 1: return hi; case 2: { double m=floor(lo+ud()*((double)hi-lo)); if(m<lo) m=lo; return (float)m; }
   case 3: { double m=floor((lo+ud()*((double)hi-lo))*4)/4; if(m<lo||m>hi) m=lo; return (float)m; }
   default: { float f=(float)(lo+ud()*((double)hi-lo)); if(f<lo) f=lo; if(f>hi) f=hi; return f; } }
}
extern "C" {
uint8_t vc_u8(const char* n){ std::string k=key(n); uint64_t v; if(!replay||!lookup(k,v)) v=replay?0:rint_(8); return (uint8_t)log(k,v); }
uint16_t vc_u16(const char* n){ std::string k=key(n); uint64_t v; if(!replay||!lookup(k,v)) v=replay?0:rint_(16); return (uint16_t)log(k,v); }
uint32_t vc_u32(const char* n){ std::string k=key(n); uint64_t v; if(!replay||!lookup(k,v)) v=replay?0:rint_(32); return (uint32_t)log(k,v); }
uint64_t vc_u64(const char* n){ std::string k=key(n); uint64_t v; if(!replay||!lookup(k,v)) v=replay?0:rint_(64); return log(k,v); }
float vc_f32(const char* n){ std::string k=key(n); uint64_t v; if(!replay||!lookup(k,v)) { float f=replay?0.f:rflt(); v=vc_bits(f);} log(k,v); return vc_frombits((uint32_t)v); }
float vc_f32in(const char* n,float lo,float hi){ std::string k=key(n); uint64_t v; if(!replay||!lookup(k,v)) { float f=replay?lo:rfin(lo,hi); v=vc_bits(f);} log(k,v); float f=vc_frombits((uint32_t)v); vc_assume(f>=lo&&f<=hi); return f; }
uint64_t vc_size(const char* n,uint64_t lo,uint64_t hi){ std::string k=key(n); uint64_t v; if(!replay||!lookup(k,v)) { uint64_t h=hi; if(h-lo>12) h=lo+ (rnd()%8==0?12:6); v=replay?lo:lo+rnd()%(h-lo+1);} log(k,v); vc_assume(v>=lo&&v<=hi); if(v>100000) longjmp(jb,3); return v; }
uint64_t vc_index(const char* n,uint64_t lim){ std::string k=key(n); uint64_t v; if(!replay||!lookup(k,v)) v=replay?0:(lim?rnd()%lim:0); log(k,v); vc_assume(v<lim); return v; }
void* vc_array(const char* n,uint64_t len,uint64_t es,int kind,float lo,float hi){
  std::string k=key(n); char* p=(char*)malloc(len*es?len*es:1); allocs.push_back(p);
  int st=rnd()%3;
  for(uint64_t i=0;i<len;i++){ std::string kk=k+"["+std::to_string(i)+"]"; uint64_t v; if(!replay||!lookup(kk,v)){ if(replay) v=0; else if(kind==1){ float f = lo<hi? rfin(lo,hi): rflt(); v=vc_bits(f);} else v= st==0? rint_((int)es*8): st==1? rnd()%4 : rnd(); if(es<8) v&=(1ull<<(es*8))-1; } log(kk,v); memcpy(p+i*es,&v,es); }
  return p; }
void vc_assume(bool c){ if(!c) longjmp(jb,1); }
void vc_assert(bool c,const char* w){ if(!c){ failmsg=w; longjmp(jb,2); } }
void vc_close(double a,double b,double scale,const char* w){ double s=fabs(scale)+fabs(a)*0+ (std::isfinite(b)?fabs(b):0)+1e-30; if(!(fabs(a-b)<=2e-4*s)){ char buf[300]; snprintf(buf,300,"%s (got %.9g, expected %.9g)",w,a,b); failmsg=buf; longjmp(jb,2);} }
void vc_cover(const char*){}
float vc_uff1(const char*,float){ abort(); }
uint32_t vc_ufu6(const char*,uint32_t,uint32_t,uint32_t,uint32_t,uint32_t,uint32_t){ abort(); }
float vc_uff2(const char*,float,float){ abort(); }
void vc_assume_forall(bool (*p)(uint64_t), const char*){ for(uint64_t k=0;k<64;k++) vc_assume(p(k)); }
void __sanitizer_set_death_callback(void(*)(void)) __attribute__((weak));
}
static char deathbuf[64];
static void death(){ dump("sanitizer: undefined behaviour or memory error"); }
static void onalarm(int){ dump("timeout: the harness did not terminate"); _exit(43); }
static int run1(const H& h){
  ins.clear(); cnt.clear(); failmsg.clear();
  int r=setjmp(jb);
  if(r==0){ h.f(); r=0; }
  for(void* p: allocs) free(p);
  allocs.clear();
  return r;
}
int main(int c,char** v){
  if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
  signal(SIGALRM,onalarm);
  std::string cmd=c>1?v[1]:"";
  if(cmd=="list"){ for(auto&h:regs()) printf("%s %d\n",h.n,h.k); return 0; }
  const H* h=nullptr; for(auto&x:regs()) if(c>2&&std::string(x.n)==v[2]) h=&x;
  if(!h){ fprintf(stderr,"no harness\n"); return 3; }
  cur=h->n;
  if(cmd=="replay"){
    FILE* f=fopen(v[3],"r"); if(!f) return 3; char nm[512]; char line[1024];
    while(fgets(line,sizeof line,f)){ unsigned long long x; if(sscanf(line,"%511s 0x%llx",nm,&x)==2) rep[nm]=x; }
    fclose(f); replay=true; outfile = c>4?v[4]:""; alarm(20);
    int r=run1(*h);
    if(r==2){ dump(failmsg.c_str()); printf("FAIL %s\n",failmsg.c_str()); return 1; }
    if(r==0){ printf("PASS\n"); return 0; }
    printf("INADMISSIBLE\n"); return 4;
  }
  if(cmd=="search"){
    uint64_t seed=strtoull(v[3],0,10), iters=strtoull(v[4],0,10); outfile=v[5]; double budget=c>6?atof(v[6]):1e9;
    uint64_t ok=0; struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0); uint64_t i;
    for(i=0;i<iters;i++){
      rs=seed*1000003ull+i*7919ull; rnd(); style=rnd()%10;
      if((i&63)==0){ alarm(20); clock_gettime(CLOCK_MONOTONIC,&t1); if((t1.tv_sec-t0.tv_sec)+(t1.tv_nsec-t0.tv_nsec)*1e-9>budget) break; }
      int r=run1(*h);
      if(r==2){ dump(failmsg.c_str()); printf("FAIL iter %llu: %s\n",(unsigned long long)i,failmsg.c_str()); return 1; }
      if(r==0) ok++;
    }
    printf("OK iters %llu admissible %llu\n",(unsigned long long)i,(unsigned long long)ok); return 0;
  }
  return 3;
}
