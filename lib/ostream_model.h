// Assumed contract of std::ostream output on the engine side: characters are appended to a buffer kept inside the stream object
// (decimal/octal text for integers; text of reals only for multiples of 1/64 below 10^6).  Native runs use the real streams.
// Use with: replace="...;OSTREAM" (engine/prove.py expands OSTREAM to the list below).
#include <ostream>
#include <sstream>
#ifdef VP_BC
struct OVT { long vbase; const void* a; const void* b; char pad[8]; };
static const OVT g_ovt={8,0,0,{0}};
// ostringstream objects hold 296 characters; a file stream is declared as BigOut
struct OModel { const void* vptr; int len, oct; char gap[48]; int cap; char c[4]; };
struct BigOut { const void* vptr; int len, oct; char gap[48]; int cap; char c[2600]; };
static inline OModel& OM(void* s){ return *(OModel*)s; }
static inline void om_init(void* s,int cap){ OModel& m=OM(s); m.vptr=&g_ovt.pad; m.len=0; m.oct=0; m.cap=cap; }
static inline void om_c(void* s,char c){ OModel& m=OM(s); char* b=(char*)s+offsetof(OModel,c); if(m.len<m.cap) b[m.len++]=c; }
extern "C" {
void vpo_ctor(void* s){ om_init(s,296); }
void vpo_dtor(void*){}
void* vpo_put(void* s,char c){ om_c(s,c); return s; }
void* vpo_write(void* s,const char* p,long n){ for(long i=0;i<n;++i) om_c(s,p[i]); return s; }
void* vpo_cstr(void* s,const char* p){ for(;*p;++p) om_c(s,*p); return s; }
void* vpo_str(void* s,const std::string* p){ for(size_t i=0;i<p->size();++i) om_c(s,(*p)[i]); return s; }
void* vpo_uint(void* s,unsigned long u){ unsigned b=OM(s).oct?8:10; char t[24]; int k=0; do { t[k++]='0'+u%b; u/=b; } while(u); while(k) om_c(s,t[--k]); return s; }
void* vpo_int(void* s,int i){ if(i<0 && !OM(s).oct){ om_c(s,'-'); return vpo_uint(s,-(unsigned long)(long)i); } return vpo_uint(s,OM(s).oct?(unsigned)i:(unsigned long)i); }
void* vpo_real(void* s,double d){ if(d<0){ om_c(s,'-'); d=-d; } unsigned long w=(unsigned long)d; int o=OM(s).oct; OM(s).oct=0; vpo_uint(s,w); d-=w; if(d!=0){ om_c(s,'.'); for(int k=0;k<6&&d!=0;++k){ d*=10; int q=(int)d; om_c(s,'0'+q); d-=q; } } OM(s).oct=o; return s; }
void* vpo_manip(void* s,std::ios_base&(*f)(std::ios_base&)){ if(f==(std::ios_base&(*)(std::ios_base&))std::oct) OM(s).oct=1; else OM(s).oct=0; return s; }
std::string vpo_get(void* s){ return std::string((char*)s+offsetof(OModel,c),OM(s).len); }
}
#endif
