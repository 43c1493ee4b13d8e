// Byte sources for the RIB contracts.  Engine: std::istream's get/peek/unget/readsome are replaced by
// their documented contract over a byte array (assumed contract on the C++ library); native: a real istream
// over a streambuf presenting the same bytes.
#include <iostream>
#include <sstream>
#include <cstring>
struct Src { unsigned char data[2400]; int len, pos, chunk; };  // chunk: readsome() returns at most chunk-1 bytes (0: all available)
static Src g_src[2];
#define g_data (g_src[0].data)
#define g_len (g_src[0].len)
#define g_chunk (g_src[0].chunk)
#ifdef VP_BC
static char g_dummyStream[2][512];
static Src& srcOf(std::istream* s){ return g_src[(char*)s==g_dummyStream[1] ? 1 : 0]; }
extern "C" {
int vps_get(std::istream* s){ Src& q=srcOf(s); if(q.pos<q.len) return q.data[q.pos++]; return -1; }
int vps_peek(std::istream* s){ Src& q=srcOf(s); if(q.pos<q.len) return q.data[q.pos]; return -1; }
std::istream* vps_unget(std::istream* s){ Src& q=srcOf(s); if(q.pos>0) --q.pos; return s; }
long vps_readsome(std::istream* s, char* p, long n){ Src& q=srcOf(s); long k=q.len-q.pos; if(k>n) k=n; if(q.chunk && k>q.chunk-1) k=q.chunk-1; for(long i=0;i<k;++i) p[i]=(char)q.data[q.pos+i]; q.pos+=k; return k; }
}
struct ByteStream { int i; ByteStream(int i=0):i(i){ g_src[i].pos=0; } std::istream& s(){ return *(std::istream*)g_dummyStream[i]; } };
#else
struct ChunkBuf : std::streambuf { // underflow() exposes at most chunk-1 bytes at a time, so readsome() is chunked the same way
	Src& q; int shown;
	ChunkBuf(Src& q):q(q),shown(0){ expose(); }
	void expose(){ char* b=(char*)q.data; int k=q.len-shown; if(q.chunk>1 && k>q.chunk-1) k=q.chunk-1; setg(b,b+shown,b+shown+k); shown+=k; }
	int underflow(){ if(shown>=q.len) return -1; expose(); return (unsigned char)*gptr(); }
	std::streamsize showmanyc(){ return 0; }
	int pbackfail(int){ if(gptr()>(char*)q.data){ gbump(-1); return (unsigned char)*gptr(); } return -1; }
};
struct ByteStream { ChunkBuf b; std::istream st; ByteStream(int i=0):b(g_src[i]),st(&b){} std::istream& s(){ return st; } };
#endif
// specification helpers
static inline int put(int n, const char* s){ for(;*s;++s) g_data[n++]=(unsigned char)*s; return n; }
static inline bool bytesAre(const std::string& s, const unsigned char* d, int n){ if(s.size()!=(size_t)n) return false; bool ok=true; for(int i=0;i<n;++i) ok = ok & ((unsigned char)s[i]==d[i]); return ok; }
