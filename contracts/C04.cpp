// C04: typed RIB reads -- contracts on RibLexerImpl (getInt/getFloat/getString/get*Array/get*Param/nextRequest/discardUntilRequest).
//@flags -DAQSIS_RIUTIL_EXPORTS -I/repo/libs/riutil
//@default replace="^_ZNSi3getEv$=>vps_get;^_ZNSi4peekEv$=>vps_peek;^_ZNSi5ungetEv$=>vps_unget;^_ZNSi8readsomeEPcl$=>vps_readsome"
//@assume std::istream::get/peek/unget/readsome behave as documented (trusted stub in contracts/ribstream.h); text of error messages is outside the contract
#include "contract.h"
#include "ribstream.h"
#include "libs/riutil/ribtokenizer.cpp"
#include "libs/riutil/ribinputbuffer.cpp"
#include "libs/riutil/riblexer.cpp"
using namespace Aqsis;

// token stream builder; values symbolic.  Each token has a class: I integer, F float, S string, R request, [ ], X error, . end of file
static char g_cls[32]; static int g_ival[32]; static float g_fval[32]; static unsigned char g_sval[32]; static int g_nt, g_n;
static void start(){ g_nt=0; g_n=0; g_len=0; g_chunk=0; }
static void tokI(){ int n=g_n; g_data[n]=0201; g_data[n+1]=vp_u8("hi"); g_data[n+2]=vp_u8("lo"); g_cls[g_nt]='I'; g_ival[g_nt++]=g_data[n+1]*256+g_data[n+2]; g_n=n+3; }
static void tokF(){ int n=g_n; g_data[n]=0244; for(int i=1;i<5;++i) g_data[n+i]=vp_u8("f"); uint32_t u=((uint32_t)g_data[n+1]<<24)|(g_data[n+2]<<16)|(g_data[n+3]<<8)|g_data[n+4]; float f; memcpy(&f,&u,4); vp_assume(f==f); g_cls[g_nt]='F'; g_fval[g_nt++]=f; g_n=n+5; }
static void tokS(){ int n=g_n; g_data[n]=0222; g_data[n+1]=vp_u8("s"); vp_assume(g_data[n+1]!=0); g_data[n+2]='s'; g_cls[g_nt]='S'; g_sval[g_nt++]=g_data[n+1]; g_n=n+3; }
static void tokC(char c){ g_data[g_n++]=c; g_cls[g_nt++]=c; }
static void tokR(){ int n=g_n; n=put(n," Req "); g_cls[g_nt++]='R'; g_n=n; }
static void tokX(){ g_data[g_n++]=0250; g_cls[g_nt++]='X'; }
static void tok(int k){ switch(k){ case 0: tokI(); break; case 1: tokF(); break; case 2: tokS(); break; case 3: tokR(); break; case 4: tokC('['); break; case 5: tokC(']'); break; case 6: tokX(); break; } }
static void finish(){ g_len=g_n; g_cls[g_nt]='.'; }
static bool feq(float a,float b){ return vp_bits(a)==vp_bits(b); }
static float asF(int i){ return g_cls[i]=='I' ? (float)g_ival[i] : g_fval[i]; }
// after an error, or a successful read of `used` tokens, the stream continues at token `used`
static void resume(RibLexerImpl& L,int at){
	switch(g_cls[at]){
		case 'I': vp_assert(L.peekNextType()==RibLexer::Tok_Int && L.getInt()==g_ival[at],"reading continues at the next token"); break;
		case 'F': vp_assert(L.peekNextType()==RibLexer::Tok_Float && feq(L.getFloat(),g_fval[at]),"reading continues at the next token"); break;
		case 'S': { vp_assert(L.peekNextType()==RibLexer::Tok_String,"reading continues at the next token"); const char* s=L.getString(); vp_assert((unsigned char)s[0]==g_sval[at] && s[1]=='s' && s[2]==0,"reading continues at the next token"); break; }
		case 'R': vp_assert(L.peekNextType()==RibLexer::Tok_RequestEnd && !strcmp(L.nextRequest(),"Req"),"reading continues at the next token"); break;
		case '[': vp_assert(L.peekNextType()==RibLexer::Tok_Array,"reading continues at the next token"); break;
		case '.': vp_assert(L.peekNextType()==RibLexer::Tok_RequestEnd && L.nextRequest()==0,"end of file ends the request stream"); break;
	}
}
PROOF(scalar){
	start(); int k=vp_pick("tok",8); tok(k); if(k<7) tokI(); finish(); char c=g_cls[0];
	ByteStream bs; RibLexerImpl L; L.pushInput(bs.s(),"x");
	int what=vp_pick("what",4); bool ok=true, threw=false;
	try{
		if(what==0){ int v=L.getInt(); vp_assert(c=='I' && v==g_ival[0],"an integer read returns exactly an integer token's value"); }
		if(what==1){ float v=L.getFloat(); vp_assert((c=='I'||c=='F') && feq(v,asF(0)),"a float read returns an integer or float token's value"); }
		if(what==2){ const char* s=L.getString(); vp_assert(c=='S' && (unsigned char)s[0]==g_sval[0] && s[1]=='s' && s[2]==0,"a string read returns exactly a string token's text"); }
		if(what==3){ const char* s=L.nextRequest(); vp_assert(c=='.' ? s==0 : c=='R' && !strcmp(s,"Req"),"a request read returns exactly a request token's name, or null at end of file"); }
	} catch(XqParseError&){ threw=true; }
	if(threw) vp_assert(!((what==0&&c=='I')||(what==1&&(c=='I'||c=='F'))||(what==2&&c=='S')||(what==3&&(c=='R'||c=='.'))),"a token of the right type is accepted");
	// an unexpected request or end of file stays available; any other bad token is consumed
	resume(L, threw && (c=='R'||c=='.') ? 0 : (c=='.'?0:1));
}
// arrays: [ t0 t1 ] read with every array reader
//@proof array bounded="arrays of up to 2 elements of every token type (element loop)"
PROOF(array){
	start(); int open=vp_pick("open",2); if(open) tokC('['); int n=vp_pick("n",3); int e0=g_nt; for(int i=0;i<n;++i) tok(vp_pick("t",4)); tokC(']'); tokI(); finish();
	ByteStream bs; RibLexerImpl L; L.pushInput(bs.s(),"x");
	int what=vp_pick("what",3); bool threw=false; bool allI=true,allN=true,allS=true; int bad=n;
	for(int i=0;i<n;++i){ char c=g_cls[e0+i]; if(c!='I') allI=false; if(c!='I'&&c!='F') allN=false; if(c!='S') allS=false; }
	try{
		if(what==0){ Ri::IntArray a=L.getIntArray(); vp_assert(open && allI && a.size()==(size_t)n,"an integer array is bracketed integers"); for(int i=0;i<n;++i) vp_assert(a[i]==g_ival[e0+i],"array elements are returned in order"); }
		if(what==1){ Ri::FloatArray a=L.getFloatArray(); vp_assert(open && allN && a.size()==(size_t)n,"a float array is bracketed numbers"); for(int i=0;i<n;++i) vp_assert(feq(a[i],asF(e0+i)),"array elements are returned in order"); }
		if(what==2){ Ri::StringArray a=L.getStringArray(); vp_assert(open && allS && a.size()==(size_t)n,"a string array is bracketed strings"); for(int i=0;i<n;++i) vp_assert((unsigned char)a[i][0]==g_sval[e0+i] && a[i][1]=='s' && a[i][2]==0,"array elements are returned in order"); }
		resume(L,e0+n+1);
	} catch(XqParseError&){ threw=true; }
	if(threw) vp_assert(!open || !(what==0?allI:what==1?allN:allS),"a well formed array is accepted");
}
// fixed length float arrays: bracketed or bare
//@proof fixed_float bounded="requested lengths 0..3"
PROOF(fixed_float){
	start(); int open=vp_pick("open",2); int len=vp_pick("len",4), n=vp_pick("n",4); if(open) tokC('['); int e0=g_nt; for(int i=0;i<n;++i) tok(vp_pick("t",2)); if(open) tokC(']'); tokS(); finish();
	ByteStream bs; RibLexerImpl L; L.pushInput(bs.s(),"x"); bool threw=false;
	try{
		Ri::FloatArray a=L.getFloatArray(len);
		vp_assert(open ? n==len : n>=len,"a fixed length float array has exactly the requested number of elements"); vp_assert(a.size()==(size_t)len,"the array returned has the requested length");
		for(int i=0;i<len && i<n;++i) vp_assert(feq(a[i],asF(e0+i)),"array elements are returned in order");
		resume(L, open ? e0+n+1 : e0+len);
	} catch(XqParseError&){ threw=true; }
	if(threw) vp_assert(open ? n!=len : n<len,"a float array of the right length is accepted");
}
// parameter values: a single bare value or a bracketed array
PROOF(param){
	start(); int open=vp_pick("open",2); if(open) tokC('['); int e0=g_nt; tok(vp_pick("t",3)); if(open) tokC(']'); tokI(); finish(); char c=g_cls[e0];
	ByteStream bs; RibLexerImpl L; L.pushInput(bs.s(),"x"); int what=vp_pick("what",3); bool threw=false;
	try{
		if(what==0){ Ri::IntArray a=L.getIntParam(); vp_assert(c=='I' && a.size()==1 && a[0]==g_ival[e0],"an integer parameter value, bare or bracketed, is read as a one element array"); }
		if(what==1){ Ri::FloatArray a=L.getFloatParam(); vp_assert(c!='S' && a.size()==1 && feq(a[0],asF(e0)),"a float parameter value, bare or bracketed, is read as a one element array"); }
		if(what==2){ Ri::StringArray a=L.getStringParam(); vp_assert(c=='S' && a.size()==1 && (unsigned char)a[0][0]==g_sval[e0] && a[0][2]==0,"a string parameter value, bare or bracketed, is read as a one element array"); }
		resume(L, open ? e0+2 : e0+1);
	} catch(XqParseError&){ threw=true; }
	if(threw) vp_assert(what==0 ? c!='I' : what==1 ? c=='S' : c!='S',"a parameter value of the right type is accepted");
}
// values returned for one request stay intact until the next request is read
PROOF(stable){
	start(); tokC('['); tokI(); tokI(); tokC(']'); tokC('['); tokI(); tokC(']'); tokC('['); tokF(); tokC(']'); tokC('['); tokF(); tokF(); tokC(']'); tokC('['); tokS(); tokS(); tokC(']'); tokC('['); tokS(); tokC(']'); tokS(); tokS(); finish();
	ByteStream bs; RibLexerImpl L; L.pushInput(bs.s(),"x");
	Ri::IntArray a=L.getIntArray(), b=L.getIntParam(); Ri::FloatArray f=L.getFloatParam(), g=L.getFloatArray(); Ri::StringArray s=L.getStringArray(), u=L.getStringParam(); const char* x=L.getString(); const char* y=L.getString();
	vp_assert(a.size()==2 && a[0]==g_ival[1] && a[1]==g_ival[2] && b.size()==1 && b[0]==g_ival[5],"integer arrays of one request stay valid together");
	vp_assert(f.size()==1 && feq(f[0],g_fval[8]) && g.size()==2 && feq(g[0],g_fval[11]) && feq(g[1],g_fval[12]),"float arrays of one request stay valid together");
	vp_assert(s.size()==2 && (unsigned char)s[0][0]==g_sval[15] && (unsigned char)s[1][0]==g_sval[16] && s[1][2]==0 && u.size()==1 && (unsigned char)u[0][0]==g_sval[19],"string arrays of one request stay valid together");
	vp_assert((unsigned char)x[0]==g_sval[21] && (unsigned char)y[0]==g_sval[22],"strings of one request stay valid together");
}
// error recovery skips to the next request, no further
//@proof discard bounded="up to 3 tokens skipped"
PROOF(discard){
	start(); int n=vp_pick("n",4); static const int kinds[]={0,2,4,5,6}; for(int i=0;i<n;++i) tok(kinds[vp_pick("t",5)]); if(vp_pick("req",2)) tokR(); finish();
	ByteStream bs; RibLexerImpl L; L.pushInput(bs.s(),"x");
	L.discardUntilRequest(); resume(L,n);
}

// any number of arrays of one request are held in distinct buffers, whatever their sizes, also when the buffers are reused by a later request
//@proof distinct bounded="five arrays per request, element counts 0..2"
PROOF(distinct){
	start(); int kind=vp_pick("kind",3); int n[5]; n[0]=vp_pick("n0",3); n[1]=vp_pick("n1",3); n[2]=vp_pick("n2",3); n[3]=2; n[4]=1; int e0[5];
	tokC('['); if(kind==0) tokI(); else if(kind==1) tokF(); else tokS(); tokC(']'); tokR();
	for(int a=0;a<5;++a){ tokC('['); e0[a]=g_nt; for(int i=0;i<n[a];++i){ if(kind==0) tokI(); else if(kind==1) tokF(); else tokS(); } tokC(']'); } finish();
	ByteStream bs; RibLexerImpl L; L.pushInput(bs.s(),"x"); bool ok=true;
	if(kind==0){ L.getIntArray(); L.nextRequest(); Ri::IntArray v[5]; for(int a=0;a<5;++a) v[a]=L.getIntParam(); for(int a=0;a<5;++a){ ok=ok&&v[a].size()==(size_t)n[a]; for(int i=0;ok&&i<n[a];++i) ok=ok&(v[a][i]==g_ival[e0[a]+i]); } }
	if(kind==1){ L.getFloatArray(); L.nextRequest(); Ri::FloatArray v[5]; for(int a=0;a<5;++a) v[a]=L.getFloatParam(); for(int a=0;a<5;++a){ ok=ok&&v[a].size()==(size_t)n[a]; for(int i=0;ok&&i<n[a];++i) ok=ok&feq(v[a][i],g_fval[e0[a]+i]); } }
	if(kind==2){ L.getStringArray(); L.nextRequest(); Ri::StringArray v[5]; for(int a=0;a<5;++a) v[a]=L.getStringParam(); for(int a=0;a<5;++a){ ok=ok&&v[a].size()==(size_t)n[a]; for(int i=0;ok&&i<n[a];++i) ok=ok&((unsigned char)v[a][i][0]==g_sval[e0[a]+i])&(v[a][i][1]=='s')&(v[a][i][2]==0); } }
	vp_assert(ok,"all arrays of one request keep their own values until the next request");
}
