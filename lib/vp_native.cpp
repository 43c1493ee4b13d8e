// Native runtime of the specification interface: replay and randomised execution of contracts.
#include "vp.h"
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
#include <cfloat>
#include <climits>
#include <sys/time.h>
static jmp_buf g_jb; static bool g_replay=false; static std::map<std::string,std::string> g_in;
static std::map<std::string,int> g_cnt; static std::vector<std::pair<std::string,std::string> > g_log;
static uint64_t g_s; static bool g_failed=false; static std::string g_label; static long g_reached=0; static const char* g_out=0;
static double g_tolscale=1;
static uint64_t rnd(){ g_s+=0x9E3779B97F4A7C15ull; uint64_t z=g_s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static std::string key(const char* n){ char b[32]; snprintf(b,32,"#%d",g_cnt[n]++); return std::string(n)+b; }
static bool lookup(const std::string& k, std::string& v){ std::map<std::string,std::string>::iterator i=g_in.find(k); if(i==g_in.end()) return false; v=i->second; return true; }
static void logv(const std::string& k,const std::string& v){ g_log.push_back(std::make_pair(k,v)); }
static uint64_t rint_(int bits){
  switch(rnd()%10){ case 0: return 0; case 1: return 1; case 2: return ~0ull; case 3: return 1ull<<(bits-1); case 4: return (1ull<<(bits-1))-1;
   case 5: return rnd()%256; case 6: return rnd()%4; case 7: { uint64_t p=1ull<<(rnd()%bits); return p+(rnd()%3)-1; } case 8: return -(int64_t)(rnd()%300); default: return rnd(); } }
static uint64_t geti(const char* n,int bits){ std::string k=key(n),v; uint64_t r;
  if(g_replay){ r = lookup(k,v)? strtoull(v.c_str(),0,0):0; } else r=rint_(bits);
  if(bits<64) r&=(1ull<<bits)-1; char b[40]; snprintf(b,40,"0x%llx",(unsigned long long)r); logv(k,b); return r; }
extern "C" {
int8_t vp_i8(const char*n){return geti(n,8);} uint8_t vp_u8(const char*n){return geti(n,8);}
int16_t vp_i16(const char*n){return geti(n,16);} uint16_t vp_u16(const char*n){return geti(n,16);}
int32_t vp_i32(const char*n){return geti(n,32);} uint32_t vp_u32(const char*n){return geti(n,32);}
int64_t vp_i64(const char*n){return geti(n,64);} uint64_t vp_u64(const char*n){return geti(n,64);}
bool vp_bool(const char*n){ std::string k=key(n),v; bool r; if(g_replay) r=lookup(k,v)?strtoull(v.c_str(),0,0)!=0:false; else r=rnd()&1; logv(k,r?"1":"0"); return r; }
static double rfloat(bool f32){
  static const double sp[]={0,-0.0,1,-1,0.5,-0.5,2,255,256,-256,127.5,0.25,3,1e-3,1e10,-1e10,16777216.0,2147483648.0,-2147483648.0,65535};
  switch(rnd()%12){ case 0: case 1: return sp[rnd()%(sizeof(sp)/sizeof(*sp))];
   case 2: { if(f32){ uint32_t u=rnd(); float f; memcpy(&f,&u,4); return f;} uint64_t u=rnd(); double d; memcpy(&d,&u,8); return d; }
   case 3: { int c=rnd()%6; return c==0?INFINITY:c==1?-INFINITY:c==2?NAN:c==3?(f32?FLT_MAX:DBL_MAX):c==4?(f32?FLT_MIN:DBL_MIN):(f32?1.4e-45:5e-324);} 
   case 4: case 5: return (double)(int64_t)(rnd()%41)-20; case 6: return (double)(rnd()%1000000)/1000000.0;
   case 7: return ((double)(rnd()%2000001)-1000000)/2000.0; case 8: return (rnd()%64)/4.0-8; default: return ((double)(rnd()%2000001)-1000000)/200000.0; } }
static double getf(const char* n,bool f32,const double* lo,const double* hi){ std::string k=key(n),v; double r;
  if(g_replay){ r=0; if(lookup(k,v)){ if(v.compare(0,2,"0x")==0){ uint64_t u=strtoull(v.c_str(),0,16); if(f32){ uint32_t w=u; float f; memcpy(&f,&w,4); r=f; } else memcpy(&r,&u,8); } else r=strtod(v.c_str(),0); } if(f32) r=(float)r; if(lo){ if(r<*lo) r=*lo; if(r>*hi) r=*hi; } }
  else if(lo){ int c=rnd()%10; if(c==0) r=*lo; else if(c==1) r=*hi; else if(c<5){ r=rfloat(f32); if(!(r>=*lo && r<=*hi)) r=*lo+(*hi-*lo)*((rnd()>>11)*(1.0/9007199254740992.0)); } else r=*lo+(*hi-*lo)*((rnd()>>11)*(1.0/9007199254740992.0)); if(f32) r=(float)r; if(r<*lo) r=*lo; if(r>*hi) r=*hi; }
  else r=rfloat(f32);
  if(f32) r=(float)r; char b[64]; if(f32){ float f=r; uint32_t u; memcpy(&u,&f,4); snprintf(b,64,"0x%08x",u);} else { uint64_t u; memcpy(&u,&r,8); snprintf(b,64,"0x%016llx",(unsigned long long)u);} logv(k,b); return r; }
float vp_f32(const char*n){return getf(n,true,0,0);} double vp_f64(const char*n){return getf(n,false,0,0);}
float vp_f32_in(const char*n,float lo,float hi){ double a=lo,b=hi; return getf(n,true,&a,&b);} double vp_f64_in(const char*n,double lo,double hi){ return getf(n,false,&lo,&hi);}
float vp_f32_near(const char*n,float lo,float hi){ if(g_replay||rnd()%8==0) return getf(n,true,0,0); if(!(lo<=hi)) hi=lo; double a=lo,b=hi; return getf(n,true,&a,&b); }
int32_t vp_range(const char*n,int32_t lo,int32_t hi){ std::string k=key(n),v; int64_t r; if(g_replay) r=lookup(k,v)?(int32_t)strtoull(v.c_str(),0,0):lo;
  else { uint64_t w=(int64_t)hi-lo+1; int c=rnd()%8; r= c==0?lo: c==1?hi: (int64_t)lo+(int64_t)(rnd()%w); if(c==2&&w>8) r=lo+rnd()%4; if(c==3&&lo<=0&&hi>=0) r=0; if(c==4&&w>8) r=hi-rnd()%4;}
  if(r<lo||r>hi) longjmp(g_jb,1);
  char b[40]; snprintf(b,40,"0x%x",(unsigned)(int32_t)r); logv(k,b); return r; }
int32_t vp_pick(const char*n,int32_t m){ std::string k=key(n),v; int32_t r; if(g_replay) r=lookup(k,v)?(int32_t)strtoull(v.c_str(),0,0):0; else r=rnd()%m; if(r<0||r>=m) longjmp(g_jb,1); char b[40]; snprintf(b,40,"%d",r); logv(k,b); return r; }
int64_t vp_concretize(int64_t v,int32_t){ return v; }
void vp_assume(bool c){ if(!c) longjmp(g_jb,1); }
void vp_assert(bool c,const char* l){ if(!c){ g_failed=true; g_label=l; longjmp(g_jb,2);} }
void vp_cut(){}
void vp_reach(const char*){ g_reached++; }
int vp_is_symbolic(){ return 0; }
bool vp_close(double a,double b,double tol){ if(a==b) return true; if(a!=a||b!=b) return a!=a&&b!=b; double m=std::fabs(a)>std::fabs(b)?std::fabs(a):std::fabs(b); if(m<1) m=1; return std::fabs(a-b)<=tol*m; }
}
static void dump(const char* why){ FILE* f=g_out?fopen(g_out,"w"):stdout; if(!f) return; fprintf(f,"# FAIL %s\n",why); for(size_t i=0;i<g_log.size();++i) fprintf(f,"%s %s\n",g_log[i].first.c_str(),g_log[i].second.c_str()); if(g_out) fclose(f); printf("NATIVE-FAIL %s\n",why); fflush(stdout); }
static void onsig(int s){ char b[64]; snprintf(b,64,"crash: signal %d%s",s,s==SIGALRM?" (timeout)":""); dump(b); _exit(1); }
extern "C" void __sanitizer_set_death_callback(void(*)(void)) __attribute__((weak));
static void ondeath(){ dump("sanitizer error"); }
typedef void(*pf)();
int main(int c,char** v){
  // vp_native <proof> random <seed> <iters> <secs> <outfile> | <proof> replay <infile>
  if(c<4) return 2;
  pf f=(pf)dlsym(RTLD_DEFAULT,v[1]); if(!f){ fprintf(stderr,"no proof %s\n",v[1]); return 2; }
  signal(SIGSEGV,onsig); signal(SIGFPE,onsig); signal(SIGABRT,onsig); signal(SIGBUS,onsig); signal(SIGALRM,onsig); signal(SIGILL,onsig);
  if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath);
  if(!strcmp(v[2],"replay")){ g_replay=true; FILE* in=fopen(v[3],"r"); if(!in) return 2; char a[512],b[512],line[2048]; while(fgets(line,2048,in)){ if(line[0]=='#') continue; if(sscanf(line,"%511s %511s",a,b)==2) g_in[a]=b; } fclose(in);
    alarm(60); int r=setjmp(g_jb); if(r==0){ f(); printf("NATIVE-PASS\n"); return 0; } if(r==1){ printf("NATIVE-SKIP (precondition false)\n"); return 3; } dump(g_label.c_str()); return 1; }
  g_s=strtoull(v[3],0,0)*0x1234567ull+77; long n=atol(v[4]); double secs=atof(v[5]); g_out=v[6]; timeval t0,t1; gettimeofday(&t0,0);
  static volatile long run=0,skip=0,i=0;
  for(i=0;i<n;++i){ g_log.clear(); g_cnt.clear(); if(i%64==0){ alarm(60); gettimeofday(&t1,0); if((t1.tv_sec-t0.tv_sec)+(t1.tv_usec-t0.tv_usec)*1e-6>secs) break; }
    int r=setjmp(g_jb); if(r==0){ f(); run=run+1; } else if(r==1) skip=skip+1; else { dump(g_label.c_str()); printf("NATIVE-STATS run=%ld skip=%ld\n",(long)run,(long)skip); return 1; } }
  printf("NATIVE-STATS run=%ld skip=%ld\n",(long)run,(long)skip); return 0; }
