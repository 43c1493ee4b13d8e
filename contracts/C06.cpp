// C06: RI filters, inline archives, object instances and conditionals -- contracts on RenderUtilFilter, CachedRiStream/RiCache, TeeFilter, PassthroughFilter, OnOffFilter, FrameDropFilter.
//@flags -DAQSIS_RIUTIL_EXPORTS -I/repo/libs/riutil
//@assume requests recorded into an archive or object carry well formed argument arrays (data pointer covers the stated length)
#include "contract.h"
#define VP_BITFLOAT
#include "ri_common.h"
#include "libs/riutil/renderutil_filter.cpp"
#include "libs/riutil/tee_filter.cpp"
#include "libs/riutil/ricxx_filter.cpp"
#include "libs/riutil/ricxx_validate.cpp"
#include "libs/riutil/framedrop_filter.cpp"

static StubServices g_serv;
static bool special(int p){ return p==P_ArchiveBegin||p==P_ArchiveEnd||p==P_ReadArchive||p==P_ObjectBegin||p==P_ObjectEnd||p==P_ObjectInstance||p==P_IfBegin||p==P_ElseIf||p==P_Else||p==P_IfEnd; }
struct PlainPass : public PassthroughFilter {};
struct PlainOnOff : public OnOffFilter { PlainOnOff(bool a):OnOffFilter(a){} };
// every request goes through the pass-through filters once and unchanged; a switched-off filter drops every request
PROOF(forward){
	int p=vp_pick("proc",NPROC); int kind=vp_pick("filter",4); setArgs(p,2); symArgs(p,2); if(g_hasParams[p]) symParams(4);
	Rec r, b; Ri::Filter* f= kind==0 ? (Ri::Filter*)new PlainPass() : kind==1 ? (Ri::Filter*)new PlainOnOff(true) : kind==2 ? (Ri::Filter*)new PlainOnOff(false) : createRenderUtilFilter(); f->setNextFilter(r); f->setRendererServices(g_serv); g_serv.first=&b;
	if(kind==3 && special(p)){ delete f; return; }
	callProc(p,*f,g_args); Rec e; callProc(p,e,g_args);
	if(kind==2) vp_assert(r.calls==0,"a switched off filter passes nothing on"); else vp_assert(r.calls==1 && sameTrace(r.t,e.t),"a request passes through once and unchanged");
	vp_assert(b.calls==0,"a request is not sent round the filter chain again"); delete f;
}
// a tee sends every request to both sides unchanged; scope ending requests reach the main chain first, all others the branch first
PROOF(tee){
	int p=vp_pick("proc",NPROC); setArgs(p,2); symArgs(p,2); if(g_hasParams[p]) symParams(4);
	Rec r, b; Ri::Filter* f=createTeeFilter(b); f->setNextFilter(r); callProc(p,*f,g_args); Rec e; callProc(p,e,g_args);
	vp_assert(r.calls==1 && sameTrace(r.t,e.t) && b.calls==1 && sameTrace(b.t,e.t),"a tee passes a request once and unchanged to both sides"); delete f;
	Rec j; Ri::Filter* g=createTeeFilter(j); g->setNextFilter(j); callProc(p,*g,g_args); vp_assert(j.calls==2 && j.t.n==2*e.t.n,"both sides of a tee may be the same renderer"); delete g;
}
// a request recorded into an inline archive or an object is not executed, and is replayed with the argument values of the time of recording, as often as it is instanced
PROOF(record){
	int p=vp_pick("proc",NPROC); int obj=vp_pick("object",2); int cond=vp_pick("conditionals",2); setArgs(p,2); symArgs(p,2); if(g_hasParams[p]) symParams(4);
	if(p==P_ArchiveBegin||p==P_ArchiveEnd||(obj&&p==P_ObjectEnd)) return;
	Rec r, first; Ri::Filter* f= cond ? createRenderUtilFilter([](const char*){ return true; }) : createRenderUtilFilter(); f->setNextFilter(r); f->setRendererServices(g_serv); g_serv.first=&first;
	char nm[4]="ar"; if(obj) f->ObjectBegin(nm); else f->ArchiveBegin(nm,Ri::ParamList()); nm[0]='?';
	Rec e; callProc(p,e,g_args); callProc(p,*f,g_args); clobberArgs();
	if(obj) f->ObjectEnd(); else f->ArchiveEnd();
	vp_assert(r.calls==0 && first.calls==0,"recording executes nothing");
	for(int k=0;k<2;++k){ first.t.n=0; first.calls=0; if(obj) f->ObjectInstance("ar"); else f->ReadArchive("ar",0,Ri::ParamList());
		if(p==P_Procedural) vp_assert(first.calls==1 && first.t.n==e.t.n && first.t.v[1]==e.t.v[1],"an instance replays the recorded request");
		else vp_assert(first.calls==1 && sameTrace(first.t,e.t),"an instance replays the recorded request with the arguments of the time of recording"); }
	vp_assert(r.calls==0,"an instance is replayed through the whole filter chain"); delete f;
}
// archives and objects: order, nesting, redefinition and lookup by name
static void num(Ri::Renderer& r,int k){ r.FrameBegin(k); }
static void expectNum(Rec& e,int k){ e.FrameBegin(k); }
PROOF(archives){
	Rec r, first; Ri::Filter* f=createRenderUtilFilter(); f->setNextFilter(r); f->setRendererServices(g_serv); g_serv.first=&first; int a=vp_i32("a"), b=vp_i32("b"), c=vp_i32("c"), d=vp_i32("d"); Rec e;
	int mode=vp_pick("mode",8);
	#define READ(n) f->ReadArchive(n,vpArchiveCallback,Ri::ParamList())
	if(mode==0){ f->ArchiveBegin("x",Ri::ParamList()); num(*f,a); num(*f,b); f->ArchiveEnd(); num(*f,c); f->ArchiveBegin("y",Ri::ParamList()); num(*f,d); f->ArchiveEnd(); READ("y"); READ("x"); READ("y"); expectNum(e,d); expectNum(e,a); expectNum(e,b); expectNum(e,d); vp_assert(sameTrace(first.t,e.t),"archives are replayed by name, in recorded order"); vp_assert(r.calls==1,"requests outside archives pass through"); }
	if(mode==1){ f->ArchiveBegin("x",Ri::ParamList()); num(*f,a); f->ArchiveEnd(); f->ArchiveBegin("x",Ri::ParamList()); num(*f,b); f->ArchiveEnd(); READ("x"); expectNum(e,b); vp_assert(sameTrace(first.t,e.t),"a redefined archive replaces the old one"); }
	if(mode==2){ READ("x.rib"); e.ReadArchive("x.rib",vpArchiveCallback,Ri::ParamList()); vp_assert(first.calls==0 && sameTrace(r.t,e.t),"an unknown archive is left to the renderer"); f->ObjectInstance("x"); vp_assert(r.calls==1 && first.calls==0,"an unknown object is not instanced"); }
	if(mode==3){ f->ObjectBegin("x"); num(*f,a); f->ObjectEnd(); f->ArchiveBegin("x",Ri::ParamList()); num(*f,b); f->ArchiveEnd(); f->ObjectInstance("x"); READ("x"); expectNum(e,a); expectNum(e,b); vp_assert(sameTrace(first.t,e.t),"objects and archives have separate names"); }
	if(mode==4){ f->ArchiveBegin("x",Ri::ParamList()); f->ObjectBegin("o"); num(*f,a); f->ObjectEnd(); num(*f,b); f->ObjectInstance("o"); READ("z"); f->ArchiveEnd(); vp_assert(r.calls==0 && first.calls==0,"recording executes nothing"); READ("x"); e.ObjectBegin("o"); expectNum(e,a); e.ObjectEnd(); expectNum(e,b); e.ObjectInstance("o"); e.ReadArchive("z",vpArchiveCallback,Ri::ParamList()); vp_assert(sameTrace(first.t,e.t),"an object definition inside an archive is part of the archive"); }
	if(mode==5){ f->ArchiveBegin("x",Ri::ParamList()); num(*f,a); f->ArchiveBegin("y",Ri::ParamList()); num(*f,b); f->ArchiveEnd(); num(*f,c); f->ArchiveEnd(); num(*f,d); READ("x"); expectNum(e,a); e.ArchiveBegin("y",Ri::ParamList()); expectNum(e,b); e.ArchiveEnd(); expectNum(e,c); vp_assert(r.calls==1 && sameTrace(first.t,e.t),"an archive inside an archive is part of it"); }
	if(mode==6){ g_serv.first=f; f->ArchiveBegin("x",Ri::ParamList()); num(*f,a); f->ArchiveBegin("y",Ri::ParamList()); num(*f,b); f->ArchiveEnd(); READ("y"); f->ArchiveEnd(); READ("x"); READ("y"); expectNum(e,a); expectNum(e,b); expectNum(e,b); vp_assert(sameTrace(r.t,e.t),"replaying an archive defines the archives nested in it"); }
	if(mode==7){ g_serv.first=f; f->ArchiveBegin("x",Ri::ParamList()); num(*f,a); f->ArchiveBegin("x",Ri::ParamList()); num(*f,b); f->ArchiveEnd(); num(*f,c); f->ArchiveEnd(); READ("x"); READ("x"); expectNum(e,a); expectNum(e,c); expectNum(e,b); vp_assert(sameTrace(r.t,e.t),"an archive that redefines itself is replayed to its end and then replaced"); }
	delete f;
}
// conditionals: exactly the requests of the taken clauses are executed, whatever the nesting
static bool g_cond[8]; static int g_tests; static bool condTest(const char* s){ ++g_tests; return g_cond[s[0]-'0']; }
#ifdef VP_THOROUGH
enum { NOPS=6 };
#else
enum { NOPS=5 };
#endif
//@proof conditionals bounded="5 (thorough 6) conditional requests in any well nested order, a request after each; condition values arbitrary" max_cands=12
PROOF(conditionals){
	Rec r, first; Ri::Filter* f=createRenderUtilFilter(condTest); f->setNextFilter(r); f->setRendererServices(g_serv); g_serv.first=&first;
	struct L { bool parent, found, active, sawElse; } st[8]; int d=0; st[0].active=true; st[0].found=false; st[0].parent=true; st[0].sawElse=false; int expect=0; static const char* names[]={"0","1","2","3","4","5","6","7"};
	for(int k=0;k<NOPS;++k){
		int ops[4], n=0; if(k<NOPS-1) ops[n++]=0; if(d>0){ if(!st[d].sawElse){ ops[n++]=1; ops[n++]=2; } ops[n++]=3; } if(!n) break; int op=ops[n==1 ? 0 : vp_pick("op",n)];
		bool c=false; if(op<2){ c=vp_pick("c",2); g_cond[k]=c; }
		if(op==0){ f->IfBegin(names[k]); L n; n.parent=st[d].active; n.active=n.parent&&c; n.found=n.active; n.sawElse=false; st[++d]=n; }
		if(op==1){ f->ElseIf(names[k]); st[d].active=st[d].parent && !st[d].found && c; if(st[d].active) st[d].found=true; }
		if(op==2){ f->Else(); st[d].active=st[d].parent && !st[d].found; st[d].found=true; st[d].sawElse=true; }
		if(op==3){ f->IfEnd(); --d; }
		int before=r.calls; num(*f,k); vp_assert(r.calls==before+(st[d].active?1:0),"a request is executed exactly when every enclosing clause is the first true one of its conditional");
	}
	delete f;
}
// conditionals without a condition evaluator are left to the renderer; stray conditional requests do no harm
PROOF(cond_passthrough){
	int mode=vp_pick("mode",3); Rec r, e; Ri::Filter* f= mode==0 ? createRenderUtilFilter() : createRenderUtilFilter(condTest); f->setNextFilter(r); f->setRendererServices(g_serv);
	if(mode==0){ f->IfBegin("1"); f->ElseIf("2"); f->Else(); f->IfEnd(); e.IfBegin("1"); e.ElseIf("2"); e.Else(); e.IfEnd(); vp_assert(sameTrace(r.t,e.t),"conditionals are left to the renderer when no evaluator is given"); }
	if(mode==1){ g_cond[1]=vp_bool("c"); f->IfEnd(); f->ElseIf("1"); num(*f,3); vp_assert(r.calls==1,"stray conditional requests are ignored"); }
	if(mode==2){ f->Else(); num(*f,3); f->IfEnd(); num(*f,4); vp_assert(r.calls==2,"stray conditional requests are ignored"); }
	delete f;
}
// frame dropping: exactly the requests outside frames and inside wanted frames remain
PROOF(frames){
	int want[2]; want[0]=vp_range("f0",-1000,1000); want[1]=vp_range("f1",-1000,1000); Ri::Param q(Ri::TypeSpec(Ri::TypeSpec::Int),"frames",Ri::IntArray(want,2)); Ri::Filter* f=createFilter("framedrop",Ri::ParamList(&q,1)); Rec r; f->setNextFilter(r); f->setRendererServices(g_serv);
	int n=vp_range("n",-1000,1000), m=vp_range("m",-1000,1000); f->ShadingRate(1); vp_assert(r.calls==1,"requests outside frames remain");
	f->FrameBegin(n); f->ShadingRate(2); f->FrameEnd(); bool k=(n==want[0])|(n==want[1]); vp_assert(r.calls==1+(k?3:0),"exactly the wanted frames remain"); int c=r.calls;
	f->ShadingRate(1); vp_assert(r.calls==c+1,"requests after a dropped frame remain"); c=r.calls; f->FrameBegin(m); f->ShadingRate(2); f->FrameEnd(); bool l=(m==want[0])|(m==want[1]); vp_assert(r.calls==c+(l?3:0),"exactly the wanted frames remain"); delete f;
}
PROOF(frame_list){
	static const char* lists[]={"3","1,3,5","2-4","4-2","1,6-8,12","7-7",",5,","x","3-","1;2",""}; static const int ok[]={1,1,1,1,1,1,1,0,0,0,1};
	static const char* frames[]={"3","1 3 5","2 3 4","2 3 4","1 6 7 8 12","7","5","","","",""};
	int k=vp_pick("list",11); const char* s=lists[k]; Ri::Param q(Ri::TypeSpec(Ri::TypeSpec::String),"frames",Ri::StringArray(&s,1)); Ri::Filter* f=0; bool threw=false; try{ f=createFilter("framedrop",Ri::ParamList(&q,1)); }catch(XqValidation&){ threw=true; }
	vp_assert(threw==!ok[k],"a malformed frame list is rejected, a well formed one accepted"); if(threw) return; Rec r; f->setNextFilter(r);
	for(int n=0;n<14;++n){ bool in=false; const char* t=frames[k]; int v=0; bool any=false; for(;;++t){ if(*t>='0'&&*t<='9'){ v=v*10+(*t-'0'); any=true; } else { if(any&&v==n) in=true; v=0; any=false; if(!*t) break; } }
		int c=r.calls; f->FrameBegin(n); f->FrameEnd(); vp_assert(r.calls==c+(in?2:0),"frame ranges name exactly the frames between their ends"); }
	delete f;
}
