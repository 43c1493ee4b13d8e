// C03: RIB character input -- contracts on RibInputBuffer::get/unget/pos/bufferNextChars.
//@flags -DAQSIS_RIUTIL_EXPORTS -I/repo/libs/riutil
//@default replace="^_ZNSi3getEv$=>vps_get;^_ZNSi4peekEv$=>vps_peek;^_ZNSi5ungetEv$=>vps_unget;^_ZNSi8readsomeEPcl$=>vps_readsome" max_iter=100000
//@assume std::istream::get/peek/unget/readsome behave as documented (trusted stub in contracts/ribstream.h)
//@assume gzip-compressed input (boost::iostreams) is outside the contract
#include "contract.h"
#include "ribstream.h"
#include "libs/riutil/ribinputbuffer.cpp"
using namespace Aqsis;

// Specification of line/column counting: "\n", "\r" and "\r\n" each end one line.
struct Pos { int line,col; unsigned char prev; };
static void advance(Pos& p, unsigned char c){
	if(c=='\r' || (c=='\n' && p.prev!='\r')){ ++p.line; p.col=0; }
	else if(c=='\n') p.col=0;
	else ++p.col;
	p.prev=c;
}
static void fill(int n){ for(int i=0;i<n;++i) g_data[i]='a'+i%20; }

// characters arrive in order, whatever the read chunking, across the internal buffer boundary, then EOF forever
//@proof order bounded="streams of up to 620 bytes; chunkings of 0 (blocking), 1, 3, 100, 255, unlimited bytes per read"
PROOF(order){
	static const int lens[]={0,1,2,253,254,255,256,257,507,508,509,510,511,620}; static const int ch[]={0,1,2,4,101,256};
	int len=lens[vp_pick("len",14)]; g_chunk=ch[vp_pick("chunk",6)]; g_len=len;
	for(int i=0;i<len;++i) g_data[i]=(unsigned char)(1+(i*7)%253); if(len>1) g_data[len-1]=vp_u8("last");
	ByteStream bs; RibInputBuffer b(bs.s(),"n");
	bool ok=true; for(int i=0;i<len;++i) ok = ok & (b.get()==g_data[i]);
	vp_assert(ok,"every character of the stream is returned once, in order");
	vp_assert(b.get()==RibInputBuffer::eof && b.get()==RibInputBuffer::eof && b.get()==RibInputBuffer::eof,"end of input is reported forever");
}
// unget() at every position returns the same character again and restores the position
//@proof unget bounded="streams of up to 620 bytes"
PROOF(unget){
	static const int at[]={1,2,3,100,253,254,255,256,257,258,507,508,509,510,511,512}; int k=at[vp_pick("at",16)]; static const int ch[]={0,1,4,101,256}; g_chunk=ch[vp_pick("chunk",5)];
	fill(600); g_len=600; for(int i=k-1;i<k+3;++i) g_data[i]=vp_u8("b"); vp_assume(g_data[0]!=0x1f);
	ByteStream bs; RibInputBuffer b(bs.s(),"n");
	Pos p={1,0,0}; for(int i=0;i<k;++i){ b.get(); advance(p,g_data[i]); }
	SourcePos p0=b.pos(); unsigned char c=b.get(); advance(p,g_data[k]); SourcePos p1=b.pos();
	b.unget(); vp_assert(b.pos().line==p0.line && b.pos().col==p0.col,"unget restores the source position");
	vp_assert(b.get()==c && c==g_data[k],"unget makes the last character available again");
	vp_assert(b.pos().line==p1.line && b.pos().col==p1.col && p1.line==p.line && p1.col==p.col,"re-reading gives the same source position");
	vp_assert(b.get()==g_data[k+1],"the stream continues after the character put back"); advance(p,g_data[k+1]);
	vp_assert(b.pos().line==p.line && b.pos().col==p.col,"line and column count line ends once");
}
// line/column counting for arbitrary characters in a window anywhere in the stream
//@proof lines bounded="any 4 consecutive arbitrary characters at offsets around the buffer boundaries of a 600 byte stream"
PROOF(lines){
	static const int at[]={0,1,2,3,100,249,250,251,252,253,254,255,256,505,506,507,508,509,510,511,512}; int k=at[vp_pick("at",21)]; static const int ch[]={0,1,4,101,256}; g_chunk=ch[vp_pick("chunk",5)];
	fill(600); g_len=600; for(int i=k;i<k+4;++i) g_data[i]=vp_u8("b"); vp_assume(g_data[0]!=0x1f);
	ByteStream bs; RibInputBuffer b(bs.s(),"n");
	Pos p={1,0,0}; 
	for(int i=0;i<k+6;++i){ b.get(); advance(p,g_data[i]); if(i>=k) vp_assert(b.pos().line==p.line && b.pos().col==p.col,"line and column follow the characters read: \\n, \\r and \\r\\n each end one line"); }
	vp_reach("done");
}
#ifdef VP_PRIV
// Inductive step, unbounded: from any state satisfying the representation invariant
//   1 <= bufPos < bufEnd <= size, buffer[bufPos]=last char read, buffer[bufPos-1]=the one before it (when not just put back),
// get() returns the next character of the abstract stream, and re-establishes the invariant.
//@proof step native=0
PROOF(step){
	g_data[0]='x'; g_len=1; ByteStream bs; RibInputBuffer b(bs.s(),"n");
	const int N=RibInputBuffer::m_bufSize;
	// all buffer positions with characters left (symbolic), and refills from every buffer fill level
	int be,bp;
	if(vp_pick("refill",2)==0){ be=vp_range("be",3,N); bp=vp_range("bp",1,N-2); vp_assume(bp<=be-2); }
	else {
#ifdef VP_THOROUGH
		be=2+vp_pick("end",N-1);
#else
		static const int ends[]={2,3,4,5,100,200,N-4,N-3,N-2,N-1,N}; be=ends[vp_pick("end",11)];
#endif
		bp=be-1;
	}
	unsigned char old[N+16]; for(int i=0;i<N;++i){ old[i]=vp_u8("buf"); b.m_buffer[i]=old[i]; }
	b.m_bufPos=bp; b.m_bufEnd=be; 
	int line=vp_i32("line"), col=vp_i32("col"); vp_assume(line>=1 && line<1000000 && col>=0 && col<1000000); b.m_currPos=SourcePos(line,col);
	g_len=4; for(int i=0;i<4;++i) g_data[i]=vp_u8("d"); g_src[0].pos=0; g_chunk=vp_pick("chunk",4);
	unsigned char next = bp+1<be ? old[bp+1] : g_data[0]; 
	Pos p={line,col,old[bp]}; advance(p,next);
	unsigned char c=b.get();
	vp_assert(c==next,"get() returns the next character");
	vp_assert(b.m_currPos.line==p.line && b.m_currPos.col==p.col,"position advances by the line-ending rule");
	vp_assert(b.m_bufPos>=1 && b.m_bufPos<b.m_bufEnd && b.m_bufEnd<=N,"buffer indices stay in range");
	vp_assert(b.m_buffer[b.m_bufPos]==next && b.m_buffer[b.m_bufPos-1]==old[bp],"the last two characters read stay available for unget and line-ending detection");
	b.unget(); vp_assert(b.m_currPos.line==line && b.m_currPos.col==col,"unget restores the position");
	vp_assert(b.get()==next && b.m_currPos.line==p.line && b.m_currPos.col==p.col,"unget then get repeats");
}
#endif
