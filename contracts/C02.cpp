// C02: ASCII RIB tokens -- contracts on RibTokenizer::get/peek/unget/pushInput/popInput and the read* scanners.
//@flags -DAQSIS_RIUTIL_EXPORTS -I/repo/libs/riutil
//@default replace="^_ZNSi3getEv$=>vps_get;^_ZNSi4peekEv$=>vps_peek;^_ZNSi5ungetEv$=>vps_unget;^_ZNSi8readsomeEPcl$=>vps_readsome"
//@assume std::istream::get/peek/unget/readsome behave as documented (trusted stub in contracts/ribstream.h)
#include "contract.h"
#include "ribstream.h"
#include "libs/riutil/ribtokenizer.cpp"
#include "libs/riutil/ribinputbuffer.cpp"
using namespace Aqsis;

static bool isDelim(unsigned char c){ return c==' '||c=='\t'||c=='\n'||c=='\r'||c=='#'||c=='"'||c=='['||c==']'; }
// a sentinel that is visible after any delimiter: delimiter, then "[": two closing brackets cannot be confused with the delimiter itself
static int sentinel(int n){ g_data[n++]=0200; g_data[n++]=0x5a; g_len=n; return n; }
static void checkSentinel(RibTokenizer& t){ const RibToken& k=t.get(); vp_assert(k.type()==RibToken::INTEGER && k.intVal()==0x5a,"the token consumes exactly its own characters"); }
static int digits(int n,int k){ for(int i=0;i<k;++i){ g_data[n]=(unsigned char)('0'+vp_range("digit",0,9)); ++n; } return n; }
static int signChar(int n,int& sign){ int s=vp_pick("sign",3); sign=1; if(s==1) g_data[n++]='+'; if(s==2){ g_data[n++]='-'; sign=-1; } return n; }

//@proof integer bounded="up to 9 digits (every value below 10^9)"
PROOF(integer){
	int sign; int n=signChar(0,sign); int nd=1+vp_pick("nd",9); int d0=n; n=digits(n,nd);
	int after=vp_pick("after",4); if(after==1) g_data[n++]=' '; if(after==2) g_data[n++]='\n'; if(after==3) g_data[n++]='\t'; sentinel(n);
	int v=0; for(int i=0;i<nd;++i){ v*=10; v+=g_data[d0+i]-'0'; }
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x"); const RibToken& k=t.get();
	vp_assert(k.type()==RibToken::INTEGER,"digits without point or exponent are an integer token");
	vp_assert(k.intVal()==sign*v,"an ASCII integer token has the decimal value written");
	checkSentinel(t);
}
// a number ends at any character that cannot continue it
PROOF(integer_end){
	g_data[0]='4'; g_data[1]='2'; unsigned char c=vp_u8("c"); vp_assume(!(c>='0'&&c<='9') && c!='.' && c!='e' && c!='E'); g_data[2]=c; g_data[3]='x'; g_len=4;
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x"); const RibToken& k=t.get();
	vp_assert(k.type()==RibToken::INTEGER && k.intVal()==42,"an integer ends before any character that cannot continue it");
	if(c>=0200) return;
	RibToken::Type ty=t.get().type();
	if(c=='[') vp_assert(ty==RibToken::ARRAY_BEGIN,"the next token starts at the terminating character");
	else if(c==']') vp_assert(ty==RibToken::ARRAY_END,"the next token starts at the terminating character");
	else if(c=='"') vp_assert(ty==RibToken::ERROR,"the next token starts at the terminating character");
	else if(c=='#') vp_assert(ty==RibToken::ENDOFFILE,"the next token starts at the terminating character");
	else if(c<0200 && c!='+' && c!='-') vp_assert(ty==RibToken::REQUEST,"the next token starts at the terminating character");
}
static double p10(int e){ double r=1; for(int i=0;i<e;++i) r*=10; for(int i=0;i>e;--i) r/=10; return r; }
static double readDigits(int at,int n){ double v=0; for(int i=0;i<n;++i) v=v*10+(g_data[at+i]-'0'); return v; }
// decimal reals: value within float accuracy of the decimal written (real arithmetic)
//@proof real mode=real bounded="0..4 digits before and after the point" obl_budget=40
PROOF(real){
	int sign; int n=signChar(0,sign); int ni=vp_pick("ni",4), nf=vp_pick("nf",4); 
	int i0=n; n=digits(n,ni); g_data[n++]='.'; int f0=n; n=digits(n,nf); g_data[n++]=' '; sentinel(n);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x"); const RibToken& k=t.get();
	if(ni+nf==0){ vp_assert(k.type()==RibToken::ERROR,"a point without digits is an error"); return; }
	double v=sign*(readDigits(i0,ni)+readDigits(f0,nf)/p10(nf));
	vp_assert(k.type()==RibToken::FLOAT,"digits with a point are a float token");
	double d=(double)k.floatVal()-v; double tol=3e-6*(sign*v)+1e-12;
	vp_assert(d<=tol && -d<=tol,"an ASCII real token has the decimal value written, to float accuracy");
	checkSentinel(t);
}
//@proof exponent mode=real bounded="exponents up to 2 digits; one mantissa digit each side" obl_budget=40
PROOF(exponent){
	int sign; int n=signChar(0,sign); int form=vp_pick("form",3); // 0: d, 1: d.d, 2: .d
	int i0=n; int ni=form<2, nf=form>0; n=digits(n,ni); if(form) g_data[n++]='.'; int f0=n; n=digits(n,nf);
	g_data[n++]= vp_pick("E",2)?'E':'e'; int es=vp_pick("esign",3); if(es==1) g_data[n++]='+'; if(es==2) g_data[n++]='-';
	int e=vp_pick("e",4); static const char* etxt[]={"0","3","07","12"}; static const int ev[]={0,3,7,12}; n=put(n,etxt[e]); sentinel(n);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x"); const RibToken& k=t.get();
	double v=sign*(readDigits(i0,ni)+readDigits(f0,nf)/p10(nf)); double sc=p10(es==2?-ev[e]:ev[e]);
	vp_assert(k.type()==RibToken::FLOAT,"a number with an exponent is a float token");
	double d=(double)k.floatVal()/sc-v; double tol=3e-6*(sign*v)+1e-12;
	vp_assert(d<=tol && -d<=tol,"the exponent scales by a power of ten");
	checkSentinel(t);
}
PROOF(bad_number){
	static const char* bad[]={"- ","+ ","-x","+]",".","-.","+.e1","1e","1e+","1.5e-","2E ","1ex","-"}; g_len=put(0,bad[vp_pick("i",13)]);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	vp_assert(t.get().type()==RibToken::ERROR,"a malformed number is an error token");
}
// specification of string scanning
static int specString(int at,unsigned char* out,bool& err){ int m=0; err=false; while(true){ unsigned char c=at<g_len?g_data[at]:0xff; ++at;
	if(c=='"') return m; if(c==0xff){ err=true; return m; }
	if(c=='\\'){ unsigned char e=at<g_len?g_data[at]:0xff; ++at; if(e==' ') out[m++]=' '; else { out[m++]='\\'; out[m++]=e; } }
	else if(c=='\r'){ if(at<g_len && g_data[at]=='\n') ++at; out[m++]='\n'; }
	else out[m++]=c; } }
//@proof string bounded="string bodies of up to 12 arbitrary non-special characters"
PROOF(string){
	int len=vp_pick("len",13); g_data[0]='"'; for(int i=0;i<len;++i){ unsigned char c=vp_u8("c"); vp_assume(c!='"'&&c!='\\'&&c!='\r'&&c!=0xff); g_data[1+i]=c; } g_data[1+len]='"'; sentinel(2+len);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x"); const RibToken& k=t.get();
	vp_assert(k.type()==RibToken::STRING && bytesAre(k.stringVal(),g_data+1,len),"a quoted string token is the characters between the quotes");
	checkSentinel(t);
}
#ifdef VP_THOROUGH
#define VP_SS 4
#define VP_TD 33
#else
#define VP_SS 3
#define VP_TD 12
#endif
//@proof string_special bounded="strings of up to 4 characters drawn from quote, backslash, space, carriage return, newline, letter and end of file"
PROOF(string_special){
	static const unsigned char alpha[]={'"','\\',' ','\r','\n','a',0xff}; int len=1+vp_pick("len",VP_SS); g_data[0]='"'; for(int i=0;i<len;++i) g_data[1+i]=alpha[vp_pick("c",7)]; g_len=1+len;
	unsigned char out[16]; bool err; int m=specString(1,out,err);
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x"); const RibToken& k=t.get();
	if(err) vp_assert(k.type()==RibToken::ERROR,"an unterminated string is an error token");
	else vp_assert(k.type()==RibToken::STRING && bytesAre(k.stringVal(),out,m),"escapes and line ends inside strings follow the documented rules");
}
//@proof request bounded="request names of up to 8 characters"
PROOF(request){
	int len=1+vp_pick("len",8); for(int i=0;i<len;++i){ unsigned char c=vp_u8("c"); vp_assume(c<0200 && !isDelim(c)); if(i==0) vp_assume(!(c>='0'&&c<='9')&&c!='+'&&c!='-'&&c!='.'); g_data[i]=c; } vp_assume(g_data[0]!=0x1f);
	unsigned char d=vp_u8("d"); vp_assume(isDelim(d)); g_data[len]=d; g_data[len+1]='"'; g_len=len+2;
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x"); const RibToken& k=t.get();
	vp_assert(k.type()==RibToken::REQUEST && bytesAre(k.stringVal(),g_data,len),"an unquoted word is a request token with exactly that name");
	RibToken::Type ty=t.get().type();
	if(d=='[') vp_assert(ty==RibToken::ARRAY_BEGIN,"the delimiter after a request starts the next token");
	else if(d==']') vp_assert(ty==RibToken::ARRAY_END,"the delimiter after a request starts the next token");
	else if(d=='"') vp_assert(ty==RibToken::STRING,"the delimiter after a request starts the next token");
	else if(d=='#') vp_assert(ty==RibToken::ENDOFFILE,"the delimiter after a request starts the next token");
	else vp_assert(ty==RibToken::ERROR,"whitespace separates tokens");
}
static std::string g_comment; static int g_ncomment=0;
static void onComment(const std::string& s){ g_comment=s; ++g_ncomment; }
// whitespace and comments never become tokens; the comment callback gets the comment text
//@proof skip bounded="up to 3 whitespace characters and a comment of up to 6 arbitrary characters"
PROOF(skip){
	int n=0; int nw=vp_pick("nw",3); static const unsigned char ws[]={' ','\t','\n','\r'}; for(int i=0;i<nw;++i){ unsigned char c=vp_u8("w"); vp_assume(c==' '||c=='\t'||c=='\n'||c=='\r'); g_data[n++]=c; }
	g_data[n++]='#'; int len=2*vp_pick("len",3); int c0=n; for(int i=0;i<len;++i){ unsigned char c=vp_u8("c"); vp_assume(c!='\n'&&c!='\r'&&c!=0xff); g_data[n++]=c; }
	int e=vp_pick("eol",3); if(e!=1) g_data[n++]=e?'\r':'\n'; if(e==2) g_data[n++]='\n'; if(e==1) g_data[n++]='\r'; sentinel(n);
	bool cb=vp_pick("cb",2); g_ncomment=0;
	ByteStream bs; RibTokenizer t; 
	if(cb) t.pushInput(bs.s(),"x",onComment); else t.pushInput(bs.s(),"x");
	checkSentinel(t);
	if(cb) vp_assert(g_ncomment==1 && bytesAre(g_comment,g_data+c0,len),"the comment callback receives the comment text once");
	vp_assert(t.get().type()==RibToken::ENDOFFILE,"end of input is an end-of-file token");
}
PROOF(brackets){
	g_len=put(0,"[[] ]");
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	vp_assert(t.get().type()==RibToken::ARRAY_BEGIN && t.get().type()==RibToken::ARRAY_BEGIN && t.get().type()==RibToken::ARRAY_END && t.get().type()==RibToken::ARRAY_END,"brackets are array tokens");
	vp_assert(t.get().type()==RibToken::ENDOFFILE && t.get().type()==RibToken::ENDOFFILE,"end of input is an end-of-file token");
}
// look-ahead: peek/unget never change the token sequence
PROOF(lookahead){
	int a=vp_u8("a"), b=vp_u8("b"); int n=0; g_data[n++]=0200; g_data[n++]=a; g_data[n++]=0221; g_data[n++]='s'; g_data[n++]=0200; g_data[n++]=b; g_len=n;
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x");
	for(int i=0;i<3;++i){
		int w=vp_pick("w",4); RibToken::Type ty=RibToken::ERROR; int v=0;
		if(w&1){ const RibToken& p=t.peek(); ty=p.type(); if(ty==RibToken::INTEGER) v=p.intVal(); vp_assert(ty==(i==1?RibToken::STRING:RibToken::INTEGER),"peek shows the next token"); }
		const RibToken& k=t.get(); 
		vp_assert(i==1 ? (k.type()==RibToken::STRING && k.stringVal()=="s") : (k.type()==RibToken::INTEGER && k.intVal()==(i?b:a)),"get returns the tokens in order");
		if(w&1) vp_assert(ty==k.type() && (i==1 || v==k.intVal()),"peek then get agree");
		if(w&2){ t.unget(); const RibToken& u=t.get(); vp_assert(i==1 ? (u.type()==RibToken::STRING && u.stringVal()=="s") : (u.type()==RibToken::INTEGER && u.intVal()==(i?b:a)),"unget makes the token available again"); }
	}
	vp_assert(t.peek().type()==RibToken::ENDOFFILE && t.get().type()==RibToken::ENDOFFILE,"then end of file");
}
// nested inputs: a pushed stream is read to its end, then the outer stream continues where it was, look-ahead included
PROOF(nested){
	int a=vp_u8("a"), b=vp_u8("b"), c=vp_u8("c"); 
	g_data[0]=0200; g_data[1]=a; g_data[2]=0200; g_data[3]=b; g_data[4]='['; g_len=5;
	g_src[1].data[0]=0200; g_src[1].data[1]=c; g_src[1].data[2]='#'; g_src[1].data[3]='q'; g_src[1].data[4]='\n'; g_src[1].len=5; g_ncomment=0;
	ByteStream s0(0), s1(1); RibTokenizer t; t.pushInput(s0.s(),"outer");
	vp_assert(t.get().intVal()==a,"outer token first");
	int how=vp_pick("how",3); if(how==1) vp_assert(t.peek().intVal()==b,"peek"); if(how==2) t.unget();
	t.pushInput(s1.s(),"inner",onComment);
	vp_assert(t.get().intVal()==c,"a pushed stream is read first");
	int rest=vp_pick("rest",2); if(rest){ vp_assert(t.peek().type()==RibToken::ENDOFFILE,"inner stream ends"); vp_assert(g_ncomment==1,"inner comment callback used"); }
	t.popInput();
	if(how==2) vp_assert(t.get().intVal()==a,"popping restores the token put back");
	vp_assert(t.get().intVal()==b,"popping resumes the outer stream at its next token");
	vp_assert(t.get().type()==RibToken::ARRAY_BEGIN,"and continues");
	t.popInput(); vp_assert(t.get().type()==RibToken::ENDOFFILE,"no input is end of file");
}
// any byte sequence is tokenised safely and reaches end of file
//@proof total bounded="two-byte sequences over one representative of every token class" budget=250 unwind=60
PROOF(total){
	static const unsigned char rep[]={' ','\r','#','0','-','.','"','\\','[',']','e','A',0,0200,0203,0207,0217,0220,0221,0222,0244,0245,0246,0247,0307,0314,0315,0316,0317,0320,0321,0376,0377};
	g_data[0]=rep[vp_pick("c",33)]; g_data[1]=rep[vp_pick("d",VP_TD)]; g_len=2;
	ByteStream bs; RibTokenizer t; t.pushInput(bs.s(),"x"); bool end=false;
	for(int i=0;i<=3 && !end;++i) end=t.get().type()==RibToken::ENDOFFILE;
	vp_assert(end,"tokenising reaches end of file");
}
