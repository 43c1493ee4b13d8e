// C05: RI request validation -- contracts on RiCxxValidate (every request method, pushScope/popScope/checkScope, checkArraySize, checkParamListArraySizes)
// and on the interpolation class count functions of ricxxutil.h.
//@flags -DAQSIS_RIUTIL_EXPORTS -I/repo/libs/riutil
//@assume the oracle tables (valid scopes, argument ranges) in contracts/ri_gen.h were generated once from the RI specification table ri.xml and are committed; message text is outside the contract
#include "contract.h"
#include "ri_common.h"
#include "libs/riutil/ricxx_validate.cpp"

static StubServices g_serv;
static int g_relax; static Ri::Param g_relaxParam;
static Ri::Filter* newFilter(Rec& r,bool relaxed=false){
	g_relax=relaxed; g_relaxParam=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Int),"relaxed_outer_scope",Ri::IntArray(&g_relax,1));
	Ri::Filter* f=createValidateFilter(relaxed?Ri::ParamList(&g_relaxParam,1):Ri::ParamList()); f->setNextFilter(r); f->setRendererServices(g_serv); return f; }
static const float g_times[2]={0,1};
static void enter(Ri::Renderer& r,int s){ switch(s){
	case S_Frame: r.FrameBegin(1); break; case S_World: r.WorldBegin(); break; case S_Attribute: r.AttributeBegin(); break; case S_Transform: r.TransformBegin(); break;
	case S_Solid: r.SolidBegin("union"); break; case S_Object: r.ObjectBegin("o"); break; case S_Motion: r.MotionBegin(Ri::FloatArray(g_times,2)); break; case S_Archive: r.ArchiveBegin("a",Ri::ParamList()); break; } }
static void leave(Ri::Renderer& r,int s){ switch(s){
	case S_Frame: r.FrameEnd(); break; case S_World: r.WorldEnd(); break; case S_Attribute: r.AttributeEnd(); break; case S_Transform: r.TransformEnd(); break;
	case S_Solid: r.SolidEnd(); break; case S_Object: r.ObjectEnd(); break; case S_Motion: r.MotionEnd(); break; case S_Archive: r.ArchiveEnd(); break; } }
static void reach(Ri::Renderer& r,int s){ if(s!=S_BeginEnd && s!=S_Frame && s!=S_World && s!=S_Archive && s!=S_Object) r.WorldBegin(); enter(r,s); }
static bool accept(int p,Ri::Renderer& f){ try { callProc(p,f,g_args); return true; } catch(XqValidation&){ return false; } }
static void addP(){ g_params[0]=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Vertex,Ri::TypeSpec::Point),"P",Ri::FloatArray(g_pf,48)); g_args.pl=Ri::ParamList(g_params,1); }
static bool needsP(int p){ return p==P_Polygon||p==P_GeneralPolygon||p==P_PointsPolygons||p==P_Points||p==P_Curves; }
// arguments for which every array and parameter rule is met, so that only scope and range rules decide
static void goodArrays(int p){ Args& A=g_args; if(needsP(p)) addP();
	if(p==P_NuPatch){ A.fa[0]=Ri::FloatArray(g_fabuf[0],12); A.fa[1]=Ri::FloatArray(g_fabuf[1],12); A.i[0]=4; A.i[1]=4; A.i[2]=4; A.i[3]=4; }
	if(p==P_TrimCurve) A.fa[0]=Ri::FloatArray(g_fabuf[0],8);
	if(p==P_SubdivisionMesh) A.sa[0]=Ri::StringArray(g_sabuf[0],1); }
static int homeScope(int p){ for(int s=0;s<NSCOPE;++s) if(g_scopes[p]>>s&1) return s; return S_BeginEnd; }
// a request is passed on, exactly once and with its arguments, in the scopes the RI allows it, and rejected without effect in all others
PROOF(scopes){
	int s=vp_pick("scope",NSCOPE+1); int part=vp_pick("part",4);
	for(int p=part;p<NPROC;p+=4){
		Rec r; Ri::Filter* f=newFilter(r,s==NSCOPE); if(s<NSCOPE) reach(*f,s); int before=r.calls; r.t.n=0;
		setArgs(p,2); goodArrays(p);
		bool ok=accept(p,*f); bool want= s==NSCOPE || (g_scopes[p]>>s&1);
		vp_assert(ok==want,"a request is accepted exactly in the scopes the RI allows");
		if(want){ Rec e; callProc(p,e,g_args); vp_assert(r.calls==before+1 && sameTrace(r.t,e.t),"an accepted request is passed on once with the same arguments"); }
		else vp_assert(r.calls==before,"a rejected request is not passed on");
		delete f;
	}
}
// range rules decide acceptance for arbitrary argument values; everything else is passed on bit for bit
PROOF(ranges){
	int p=vp_pick("proc",NPROC); Rec r; Ri::Filter* f=newFilter(r); reach(*f,homeScope(p)); int before=r.calls; r.t.n=0;
	setArgs(p,2); if(p!=P_NuPatch) symArgs(p,2); else for(int k=0;k<4;++k) g_args.f[k]=symf("f");
	if(g_n_ia[p]) for(int k=0;k<6;++k) for(int j=0;j<4;++j) g_iabuf[k][j]=1;
	goodArrays(p);
	if(p==P_Blobby) vp_assume(g_args.i[0]<=2);
	bool want=rangeOk(p,g_args); bool ok=accept(p,*f);
	vp_assert(ok==want,"a request is accepted exactly when its arguments are in the documented range");
	if(ok){ Rec e; callProc(p,e,g_args); vp_assert(r.calls==before+1 && sameTrace(r.t,e.t),"accepted arguments are passed on bit for bit"); } else vp_assert(r.calls==before,"a rejected request is not passed on");
	delete f;
}
// Begin/End blocks: after any well nested open sequence, a close is accepted exactly for the innermost block
static bool mayOpen(int inner,int s){ static const int beginOf[NSCOPE]={0,P_FrameBegin,P_WorldBegin,P_AttributeBegin,P_TransformBegin,P_SolidBegin,P_ObjectBegin,P_MotionBegin,P_ArchiveBegin}; return g_scopes[beginOf[s]]>>inner&1; }
//@proof nesting bounded="blocks nested up to 3 deep (4 in thorough); each depth is the same step"
PROOF(nesting){
	Rec r; Ri::Filter* f=newFilter(r); int st[6]; int d=0; st[0]=S_BeginEnd;
#ifdef VP_THOROUGH
	int depth=4;
#else
	int depth=3;
#endif
	for(int k=0;k<depth;++k){ int s=1+vp_pick("open",NSCOPE-2); bool can=mayOpen(st[d],s); bool ok=true; int before=r.calls; try{ enter(*f,s); }catch(XqValidation&){ ok=false; }
		vp_assert(ok==can && r.calls==before+(can?1:0),"a block may be opened exactly inside the blocks the RI allows"); if(can) st[++d]=s; else { delete f; return; } }
	while(d>0){
		for(int s=1;s<S_Archive;++s) if(s!=st[d]){ bool ok=true; int before=r.calls; try{ leave(*f,s); }catch(XqValidation&){ ok=false; } vp_assert(!ok && r.calls==before,"a block is closed only by its own end request"); }
		bool ok=true; int before=r.calls; try{ leave(*f,st[d]); }catch(XqValidation&){ ok=false; } vp_assert(ok && r.calls==before+1,"the innermost block can be closed and the enclosing block is current again"); --d;
	}
	delete f;
}
// inside an inline archive any partial block structure is recorded; ArchiveEnd restores the enclosing scope
PROOF(archive){
	Rec r; Ri::Filter* f=newFilter(r); int outer=vp_pick("outer",NSCOPE-1); bool ok=true; reach(*f,outer); 
	bool can=g_scopes[P_ArchiveBegin]>>outer&1; try{ enter(*f,S_Archive); }catch(XqValidation&){ ok=false; } vp_assert(ok==can,"an archive opens exactly where allowed"); if(!can){ delete f; return; }
	int a=1+vp_pick("first",NSCOPE-2), b=1+(a+vp_pick("second",2)*3)%(NSCOPE-2); int before=r.calls;
	int inner=vp_pick("inner",2); // an archive inside the archive
	try{ if(inner){ enter(*f,S_Archive); leave(*f,S_Archive); before+=2; } if(vp_pick("end",2)) leave(*f,a); else enter(*f,a); leave(*f,b); leave(*f,S_Archive); }catch(XqValidation&){ ok=false; }
	vp_assert(ok && r.calls==before+3,"a partial block structure inside an archive is recorded unchanged");
	for(int s=1;s<S_Archive;++s) if(s!=outer){ bool acc=true; int n=r.calls; try{ leave(*f,s); }catch(XqValidation&){ acc=false; } vp_assert(!acc && r.calls==n,"after the archive the enclosing scope is current again"); }
	if(outer!=S_BeginEnd){ try{ leave(*f,outer); }catch(XqValidation&){ ok=false; } vp_assert(ok,"after the archive the enclosing block can be closed"); }
	delete f;
}
// array argument lengths.  len==required is accepted, shorter is rejected (for arbitrary contents)
static int specSum(const int* a,int n,int from=0,int step=1){ int s=0; for(int i=from;i<n;i+=step) s+=a[i]; return s; }
static int specMax(const int* a,int n){ int m=a[0]; for(int i=1;i<n;++i) if(a[i]>m) m=a[i]; return m; }
static size_t symLen(const char* n){ return (size_t)vp_range(n,0,100000); }
//@proof arrays bounded="arrays whose elements are summed have up to 2 (nargs: 4) elements; all other lengths and all contents arbitrary"
PROOF(arrays){
	int which=vp_pick("which",6); Rec r; Ri::Filter* f=newFilter(r); g_traceOff=true; bool want=true; int p=0; Args& A=g_args; f->WorldBegin();
	for(int k=0;k<6;++k) for(int j=0;j<4;++j) g_iabuf[k][j]=vp_range("e",0,1000);
	if(which==0){ f->WorldEnd(); p=P_ColorSamples; setArgs(p,2); size_t a=symLen("a"),b=symLen("b"); A.fa[0]=Ri::FloatArray(g_fabuf[0],a); A.fa[1]=Ri::FloatArray(g_fabuf[1],b); want=b>=a; }
	else if(which==1){ p=P_PointsPolygons; int n=vp_pick("n",3); int m=vp_pick("m",3); A.ia[0]=Ri::IntArray(g_iabuf[0],n); A.ia[1]=Ri::IntArray(g_iabuf[1],m); size_t np=symLen("P");
		g_params[0]=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Vertex,Ri::TypeSpec::Point),"P",Ri::FloatArray(g_pf,np)); A.pl=Ri::ParamList(g_params,1); vp_assume(m>0);
		want= m>=specSum(g_iabuf[0],n) && (int)np>=(specMax(g_iabuf[1],m)+1)*3; }
	else if(which==2){ p=P_PointsGeneralPolygons; int l=vp_pick("l",3), n=vp_pick("n",3), m=vp_pick("m",3); A.ia[0]=Ri::IntArray(g_iabuf[0],l); A.ia[1]=Ri::IntArray(g_iabuf[1],n); A.ia[2]=Ri::IntArray(g_iabuf[2],m); A.pl=Ri::ParamList();
		want= n>=specSum(g_iabuf[0],l) && m>=specSum(g_iabuf[1],n); }
	else if(which==3){ p=P_NuPatch; setArgs(p,2); int nu=vp_range("nu",1,1000),uo=vp_range("uo",1,1000),nv=vp_range("nv",1,1000),vo=vp_range("vo",1,1000); A.i[0]=nu; A.i[1]=uo; A.i[2]=nv; A.i[3]=vo; size_t a=symLen("uk"),b=symLen("vk"); A.fa[0]=Ri::FloatArray(g_fabuf[0],a); A.fa[1]=Ri::FloatArray(g_fabuf[1],b);
		want=(int)a>=nu+uo && (int)b>=nv+vo; }
	else if(which==4){ p=P_TrimCurve; int nc=vp_pick("nc",3), no=vp_pick("no",3), nn=vp_pick("nn",3); setArgs(p,2); for(int k=0;k<6;++k) for(int j=0;j<4;++j) g_iabuf[k][j]=vp_range("e",0,1000); A.ia[0]=Ri::IntArray(g_iabuf[0],nc); A.ia[1]=Ri::IntArray(g_iabuf[1],no); A.ia[2]=Ri::IntArray(g_iabuf[2],nn); size_t L[6]; for(int k=0;k<6;++k){ L[k]=symLen("len"); A.fa[k]=Ri::FloatArray(g_fabuf[k],L[k]); }
		int so=specSum(g_iabuf[1],no), sn=specSum(g_iabuf[2],nn);
		want= no>=specSum(g_iabuf[0],nc) && (int)L[0]>=so+sn && (int)L[1]>=no && (int)L[2]>=no && nn>=no && (int)L[3]>=sn && (int)L[4]>=(int)L[3] && (int)L[5]>=(int)L[3]; }
	else { p=P_SubdivisionMesh; int n=vp_pick("n",3), m=vp_pick("m",3), t=vp_pick("t",3), na=vp_pick("na",5); vp_assume(m>0); A.s[0]="catmull-clark"; A.ia[0]=Ri::IntArray(g_iabuf[0],n); A.ia[1]=Ri::IntArray(g_iabuf[1],m); A.sa[0]=Ri::StringArray(g_sabuf[0],t); A.ia[2]=Ri::IntArray(g_iabuf[2],na); size_t li=symLen("li"), lf=symLen("lf"); A.ia[3]=Ri::IntArray(g_iabuf[3],li); A.fa[0]=Ri::FloatArray(g_fabuf[0],lf); A.pl=Ri::ParamList();
		want= m>=specSum(g_iabuf[0],n) && na>=2*t && (int)li>=specSum(g_iabuf[2],na,0,2) && (int)lf>=specSum(g_iabuf[2],na,1,2); }
	int before=r.calls; bool ok=accept(p,*f);
	vp_assert(ok==want,"a request is accepted exactly when its arrays have at least the lengths the RI requires"); vp_assert(r.calls==before+(want?1:0),"a request with short arrays is not passed on");
	g_traceOff=false; delete f;
}
// primitive variable sizes: class and type of the variable decide how many values a primitive needs
static int specStorage(Ri::TypeSpec::Type t,int arr){ int c=1; switch(t){ case Ri::TypeSpec::Point: case Ri::TypeSpec::Color: case Ri::TypeSpec::Vector: case Ri::TypeSpec::Normal: c=3; break; case Ri::TypeSpec::HPoint: c=4; break; case Ri::TypeSpec::Matrix: case Ri::TypeSpec::MPoint: c=16; break; default: break; } return c*arr; }
//@proof primvars bounded="NuPatch: 4 x 4..6 vertices, orders 2 and 1..4; all other counts and sizes arbitrary"
PROOF(primvars){
	static const int procs[]={P_Surface,P_Sphere,P_Torus,P_Patch,P_Blobby,P_NuPatch,P_GeneralPolygon,P_SubdivisionMesh,P_Polygon};
	static const Ri::TypeSpec::IClass ics[]={Ri::TypeSpec::Constant,Ri::TypeSpec::Uniform,Ri::TypeSpec::Varying,Ri::TypeSpec::Vertex,Ri::TypeSpec::FaceVarying,Ri::TypeSpec::FaceVertex};
	static const Ri::TypeSpec::Type tys[]={Ri::TypeSpec::Float,Ri::TypeSpec::Color,Ri::TypeSpec::HPoint,Ri::TypeSpec::Matrix,Ri::TypeSpec::String,Ri::TypeSpec::Int};
	int q=vp_pick("proc",9); int p=procs[q]; Ri::TypeSpec::IClass ic=ics[vp_pick("iclass",6)]; Ri::TypeSpec::Type ty=tys[p==P_Sphere||p==P_Surface?vp_pick("type",6):2*vp_pick("type",2)+q%2]; int arr= p==P_Blobby||p==P_GeneralPolygon||p==P_SubdivisionMesh ? 1+2*vp_pick("arr",2) : vp_range("array",1,50);
	Rec r; Ri::Filter* f=newFilter(r); g_traceOff=true; f->WorldBegin(); setArgs(p,2); goodArrays(p); Args& A=g_args; int nu=0,nv=0,var=1,uni=1,vert=0,fv=0;
	switch(p){
		case P_Sphere: case P_Torus: var=vert=fv=4; break;
		case P_Patch: A.s[0]=vp_pick("cubic",2)?"bicubic":"bilinear"; var=4; fv=4; vert=A.s[0][2]=='c'?16:4; break;
		case P_Blobby: var=vp_range("nleaf",0,1000); A.i[0]=var; vert=fv=var; break;
		case P_NuPatch: { nu=4; nv=4+vp_pick("nv",3); int vo=1+vp_pick("vo",4); A.i[0]=nu; A.i[1]=2; A.i[2]=nv; A.i[3]=vo; A.fa[0]=Ri::FloatArray(g_fabuf[0],6); A.fa[1]=Ri::FloatArray(g_fabuf[1],nv+vo); uni=(1+nu-2)*(1+nv-vo); var=(1+nu-2+1)*(1+nv-vo+1); vert=nu*nv; fv=var; } break;
		case P_GeneralPolygon: { for(int j=0;j<2;++j) g_iabuf[0][j]=vp_range("nv",0,1000); int s=g_iabuf[0][0]+g_iabuf[0][1]; var=vert=fv=s; A.ia[0]=Ri::IntArray(g_iabuf[0],2); } break;
		case P_SubdivisionMesh: { g_iabuf[0][0]=1; g_iabuf[0][1]=1; g_iabuf[1][0]=vp_range("v0",0,1000); g_iabuf[1][1]=vp_range("v1",0,1000); A.ia[0]=Ri::IntArray(g_iabuf[0],2); A.ia[1]=Ri::IntArray(g_iabuf[1],2); A.sa[0]=Ri::StringArray(g_sabuf[0],0); A.ia[2]=Ri::IntArray(g_iabuf[2],0); uni=2; var=vert=(g_iabuf[1][0]>g_iabuf[1][1]?g_iabuf[1][0]:g_iabuf[1][1])+1; fv=2; } break;
		case P_Polygon: var=vert=fv=16; break;
		default: var=vert=fv=1;
	}
	int fvert=fv; int cnt= ic==Ri::TypeSpec::Constant?1: ic==Ri::TypeSpec::Uniform?uni: ic==Ri::TypeSpec::Varying?var: ic==Ri::TypeSpec::Vertex?vert: ic==Ri::TypeSpec::FaceVarying?fv: fvert;
	size_t n=symLen("n"); Ri::TypeSpec spec(ic,ty,arr); int np=needsP(p)?1:0; if(np && p==P_GeneralPolygon) vp_assume(var*3<=48); 
	g_params[np]= ty==Ri::TypeSpec::String ? Ri::Param(spec,"q",Ri::StringArray(g_ps,n)) : ty==Ri::TypeSpec::Int ? Ri::Param(spec,"q",Ri::IntArray(g_pi,n)) : Ri::Param(spec,"q",Ri::FloatArray(g_pf,n));
	A.pl=Ri::ParamList(g_params,np+1);
	int before=r.calls; bool ok=accept(p,*f); int need=cnt*specStorage(ty,arr);
	vp_assert(ok==((int)n>=need),"a primitive variable is accepted exactly when it has at least the values its class and type require");
	vp_assert(r.calls==before+(ok?1:0),"a request with a short primitive variable is not passed on");
	g_traceOff=false; delete f;
}
// "P" or "Pw" is required where the RI requires it
PROOF(required_p){
	static const int procs[]={P_Polygon,P_GeneralPolygon,P_PointsPolygons,P_Points,P_Curves}; int p=procs[vp_pick("proc",5)];
	Rec r; Ri::Filter* f=newFilter(r); f->WorldBegin(); setArgs(p,2); g_args.s[0]="linear"; g_args.s[1]="nonperiodic"; int k=vp_pick("name",5); static const char* names[]={"P","Pw","N","p","Pz"};
	for(int j=0;j<2;++j){ g_params[j]=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform,Ri::TypeSpec::Float),"a",Ri::FloatArray(g_pf,4)); }
	bool hp=k==1; g_params[vp_pick("pos",2)]=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Vertex,hp?Ri::TypeSpec::HPoint:Ri::TypeSpec::Point),names[k],Ri::FloatArray(g_pf,48)); g_args.pl=Ri::ParamList(g_params,2);
	int before=r.calls; bool ok=accept(p,*f); vp_assert(ok==(k<2),"a primitive that needs vertex positions is rejected without P or Pw and accepted with either"); vp_assert(r.calls==before+(ok?1:0),"a rejected primitive is not passed on"); delete f;
}
// basis steps: bicubic patch meshes and cubic curves are sized with the step in force, which is saved and restored with attribute blocks
//@proof basis_state bounded="two curves; u step 1 or 3, v step 1..4"
PROOF(basis_state){
	Rec r; Ri::Filter* f=newFilter(r); g_traceOff=true; setArgs(P_Basis,2); int us=1+2*vp_pick("us",2), vs=1+vp_pick("vs",4); int mode=vp_pick("mode",3); f->WorldBegin(); bool in=false;
	if(mode==1) f->AttributeBegin(); if(mode==2) f->TransformBegin(); g_args.i[0]=us; g_args.i[1]=vs; callProc(P_Basis,*f,g_args);
	if(mode==1) f->AttributeEnd(); if(mode==2) f->TransformEnd(); if(mode==1) us=vs=3; // attribute blocks restore, transform blocks do not
	int what=vp_pick("what",2); int n=vp_range("n",0,10000); bool ok; int need;
	g_params[1]=Ri::Param(Ri::TypeSpec(vp_pick("uniform",2)?Ri::TypeSpec::Uniform:Ri::TypeSpec::Varying,Ri::TypeSpec::Float),"q",Ri::FloatArray(g_pf,n)); bool uni=g_params[1].spec().iclass==Ri::TypeSpec::Uniform;
	if(what==0){ int a=vp_range("a",4,100), b=vp_range("b",4,100); g_iabuf[0][0]=a; g_iabuf[0][1]=b; g_params[0]=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Vertex,Ri::TypeSpec::Point),"P",Ri::FloatArray(g_pf,(a+b)*3)); bool per=vp_pick("periodic",2);
		need= uni ? 2 : per ? a/vs+b/vs : ((a-4)/vs+1)+((b-4)/vs+1)+2;
		g_args.s[0]="cubic"; g_args.s[1]=per?"periodic":"nonperiodic"; g_args.ia[0]=Ri::IntArray(g_iabuf[0],2); g_args.pl=Ri::ParamList(g_params,2); ok=accept(P_Curves,*f); }
	else { int nu=vp_range("nu",4,30), nv=vp_range("nv",4,30); bool pu=vp_pick("pu",2), pv=vp_pick("pv",2); int npu=pu?nu/us:(nu-4)/us+1, npv=pv?nv/vs:(nv-4)/vs+1; need= uni ? npu*npv : (npu+(pu?0:1))*(npv+(pv?0:1));
		g_args.s[0]="bicubic"; g_args.s[1]=pu?"periodic":"nonperiodic"; g_args.s[2]=pv?"periodic":"nonperiodic"; g_args.i[0]=nu; g_args.i[1]=nv; g_args.pl=Ri::ParamList(g_params+1,1); ok=accept(P_PatchMesh,*f); }
	vp_assert(ok==(n>=need),"bicubic and cubic primitive variables are sized with the basis step in force"); g_traceOff=false; delete f;
}
