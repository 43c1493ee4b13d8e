// C01: binary RIB decoding (RISpec C.2) -- contracts on RibTokenizer::scanNext and its decode helpers.
//@flags -DAQSIS_RIUTIL_EXPORTS -I/repo/libs/riutil
//@default replace="^_ZNSi3getEv$=>vps_get;^_ZNSi4peekEv$=>vps_peek;^_ZNSi5ungetEv$=>vps_unget;^_ZNSi8readsomeEPcl$=>vps_readsome"
//@assume std::istream::get/peek/unget/readsome behave as documented (trusted stub in contracts/ribstream.h)
#include "contract.h"
#include "ribstream.h"
#include "libs/riutil/ribtokenizer.cpp"
#include "libs/riutil/ribinputbuffer.cpp"
using namespace Aqsis;

static void payload(int first, int n){ for(int i=0;i<n;++i) g_data[first+i]=vp_u8("b"); }
static uint32_t be(int at,int n){ uint32_t r=0; for(int i=0;i<n;++i) r=r*256u+g_data[at+i]; return r; }
// After the decoded token the stream must be positioned exactly at byte `at`, shown by an integer token placed there.
static void sentinelAt(int at){ g_data[at]=0200; g_data[at+1]=0x5a; g_len=at+2; }
static void checkSentinel(RibTokenizer& t){ const RibToken& k=t.get(); vp_assert(k.type()==RibToken::INTEGER && k.intVal()==0x5a,"token consumes exactly its encoded bytes"); }

PROOF(integer){
	int w=vp_pick("w",4); g_data[0]=0200+w; payload(1,w+1); sentinelAt(w+2);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	const RibToken& k=t.get(); vp_reach("integer token");
	vp_assert(k.type()==RibToken::INTEGER,"0200+w decodes to an integer token");
	vp_assert((uint32_t)k.intVal()==be(1,w+1),"integer value is the w+1 big-endian bytes");
	checkSentinel(t);
}
PROOF(fixed){
	int w=vp_pick("w",4), d=1+vp_pick("d",3); g_data[0]=0200+4*d+w; payload(1,w+1); sentinelAt(w+2);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	const RibToken& k=t.get(); vp_reach("fixed token");
	vp_assert(k.type()==RibToken::FLOAT,"0200+4d+w decodes to a float token");
	double exact = (double)be(1,w+1) / (double)(1<<(8*d));
	vp_assert(vp_bits(k.floatVal())==vp_bits((float)exact),"fixed point value is the integer scaled by 256^-d");
	checkSentinel(t);
}
PROOF(float32){
	g_data[0]=0244; payload(1,4); sentinelAt(5);
	uint32_t u=be(1,4); float f; memcpy(&f,&u,4); vp_assume(f==f);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	const RibToken& k=t.get();
	vp_assert(k.type()==RibToken::FLOAT && vp_bits(k.floatVal())==u,"0244 decodes the 4 IEEE bytes, MSB first");
	checkSentinel(t);
}
PROOF(float64){
	g_data[0]=0245; payload(1,8); sentinelAt(9);
	uint64_t u=(uint64_t)be(1,4)<<32 | be(5,4); double f; memcpy(&f,&u,8); vp_assume(f==f);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	const RibToken& k=t.get();
	vp_assert(k.type()==RibToken::FLOAT && vp_bits(k.floatVal())==vp_bits((float)f),"0245 decodes the 8 IEEE bytes, MSB first");
	checkSentinel(t);
}

static bool strIs(const RibToken& k, int at, int n){ if(k.stringVal().size()!=(size_t)n) return false; bool ok=true; for(int i=0;i<n;++i) ok = ok & ((unsigned char)k.stringVal()[i]==g_data[at+i]); return ok; }
PROOF(short_string){
	int w=vp_pick("w",16); g_data[0]=0220+w; payload(1,w); sentinelAt(w+1);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	const RibToken& k=t.get(); vp_reach("string");
	vp_assert(k.type()==RibToken::STRING && strIs(k,1,w),"0220+w decodes to the following w bytes verbatim");
	checkSentinel(t);
}
//@proof long_string bounded="string lengths 0..40 (all contents); length field forms l=0..3"
PROOF(long_string){
	int l=vp_pick("l",4); static const int lens[]={0,1,2,15,16,17,31,40}; int n=lens[vp_pick("n",8)];
	g_data[0]=0240+l; for(int i=0;i<l;++i) g_data[1+i]=0; g_data[1+l]=n; payload(2+l,n); sentinelAt(2+l+n);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	const RibToken& k=t.get(); vp_reach("string");
	vp_assert(k.type()==RibToken::STRING && strIs(k,2+l,n),"0240+l decodes to <length> bytes verbatim");
	checkSentinel(t);
}
//@proof float_array bounded="array lengths 0..5 (all contents); length field forms l=0..3"
PROOF(float_array){
	int l=vp_pick("l",4); int n=vp_pick("n",6);
	g_data[0]=0310+l; for(int i=0;i<l;++i) g_data[1+i]=0; g_data[1+l]=n; payload(2+l,4*n); sentinelAt(2+l+4*n);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	vp_assert(t.get().type()==RibToken::ARRAY_BEGIN,"float array starts with an array-begin token");
	for(int i=0;i<n;++i){ uint32_t u=be(2+l+4*i,4); float f; memcpy(&f,&u,4); vp_assume(f==f); const RibToken& k=t.get();
		vp_assert(k.type()==RibToken::FLOAT && vp_bits(k.floatVal())==u,"float array elements decode in order, MSB first"); }
	vp_assert(t.get().type()==RibToken::ARRAY_END,"float array ends with an array-end token after <length> elements");
	vp_reach("array end");
	checkSentinel(t);
}
// the length field of a float array or long string is the l+1 big-endian bytes (all values below 2^31)
PROOF(array_length){
	int l=vp_pick("l",4); g_data[0]=0310+l; payload(1,l+1); sentinelAt(l+2); uint32_t n=be(1,l+1); vp_assume(n<0x80000000u);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	vp_assert(t.get().type()==RibToken::ARRAY_BEGIN,"array begin"); 
	vp_assert(t.m_arrayElementsRemaining==(int)n,"array length is the l+1 big-endian bytes");
	// one step of the element loop, from an arbitrary remaining count
	int m=vp_i32("m"); vp_assume(m>=0); t.m_arrayElementsRemaining=m; g_data[l+2]=0x3f; 
	int p0=t.m_inBuf->m_bufPos; const RibToken& k=t.get();
	if(m==0) vp_assert(k.type()==RibToken::ARRAY_END && t.m_arrayElementsRemaining==-1 && t.m_inBuf->m_bufPos==p0,"array ends exactly when no elements remain");
	else vp_assert(k.type()==RibToken::FLOAT && t.m_arrayElementsRemaining==m-1,"each element decrements the remaining count");
}
PROOF(reserved){
	unsigned char c=vp_u8("c"); vp_assume((c>=0247&&c<=0307)||(c>=0321&&c<=0376)); g_data[0]=c; sentinelAt(1);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	vp_reach("reserved");
	vp_assert(t.get().type()==RibToken::ERROR,"reserved bytes give an error token");
	checkSentinel(t);
}
PROOF(eof){
	g_data[0]=0377; g_len=vp_pick("len",2);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	vp_assert(t.get().type()==RibToken::ENDOFFILE,"0377 or physical end of file gives an end-of-file token");
	t.popInput();
	vp_assert(t.get().type()==RibToken::ENDOFFILE,"no input gives an end-of-file token");
}
//@proof encoded_request bounded="codes 0,1,127,128,200,254,255 and their neighbours"
// encoded requests: two definitions, then a lookup of an arbitrary code
PROOF(encoded_request){
	static const unsigned char codes[]={0,1,127,128,200,254,255};
	unsigned char c1=codes[vp_pick("c1",7)], c2=c1+(vp_pick("c2",3)-1), c=c1+(vp_pick("c",4)-1);
	int n=0;
	g_data[n++]=0314; g_data[n++]=c1; g_data[n++]=0221; g_data[n++]='P';
	g_data[n++]=0314; g_data[n++]=c2; g_data[n++]='"'; g_data[n++]='Q'; g_data[n++]='r'; g_data[n++]='"';
	g_data[n++]=0246; g_data[n++]=c; sentinelAt(n);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	const RibToken& k=t.get();
	if(c==c2) vp_assert(k.type()==RibToken::REQUEST && k.stringVal()=="Qr","encoded request resolves to its latest definition");
	else if(c==c1) vp_assert(k.type()==RibToken::REQUEST && k.stringVal()=="P","encoded request resolves to its definition");
	else vp_assert(k.type()==RibToken::ERROR,"undefined encoded request is an error");
	checkSentinel(t);
}
PROOF(encoded_string){
	int w1=vp_pick("w1",2), w2=vp_pick("w2",2), w=vp_pick("w",2);
	int n=0;
	g_data[n++]=0315+w1; payload(n,w1+1); uint32_t c1=be(n,w1+1); n+=w1+1; g_data[n++]=0221; g_data[n++]='P';
	g_data[n++]=0315+w2; payload(n,w2+1); uint32_t c2=be(n,w2+1); n+=w2+1; g_data[n++]=0222; g_data[n++]='Q'; g_data[n++]='r';
	g_data[n++]=0317+w; payload(n,w+1); uint32_t c=be(n,w+1); n+=w+1; sentinelAt(n);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	const RibToken& k=t.get();
	if(c==c2) vp_assert(k.type()==RibToken::STRING && k.stringVal()=="Qr","encoded string resolves to its latest definition");
	else if(c==c1) vp_assert(k.type()==RibToken::STRING && k.stringVal()=="P","encoded string resolves to its definition");
	else vp_assert(k.type()==RibToken::ERROR,"undefined encoded string is an error");
	checkSentinel(t);
}
