// generated by tools/gen_ri.py from ri.xml (RI specification table); committed, not regenerated by checks
enum { NPROC=108 };
static const char* const g_procName[NPROC]={"Declare","FrameBegin","FrameEnd","WorldBegin","WorldEnd","IfBegin","ElseIf","Else","IfEnd","Format","FrameAspectRatio","ScreenWindow","CropWindow","Projection","Clipping","ClippingPlane","DepthOfField","Shutter","PixelVariance","PixelSamples","PixelFilter","Exposure","Imager","Quantize","Display","Hider","ColorSamples","RelativeDetail","Option","AttributeBegin","AttributeEnd","Color","Opacity","TextureCoordinates","LightSource","AreaLightSource","Illuminate","Surface","Displacement","Atmosphere","Interior","Exterior","ShaderLayer","ConnectShaderLayers","ShadingRate","ShadingInterpolation","Matte","Bound","Detail","DetailRange","GeometricApproximation","Orientation","ReverseOrientation","Sides","Identity","Transform","ConcatTransform","Perspective","Translate","Rotate","Scale","Skew","CoordinateSystem","CoordSysTransform","TransformBegin","TransformEnd","Resource","ResourceBegin","ResourceEnd","Attribute","Polygon","GeneralPolygon","PointsPolygons","PointsGeneralPolygons","Basis","Patch","PatchMesh","NuPatch","TrimCurve","SubdivisionMesh","Sphere","Cone","Cylinder","Hyperboloid","Paraboloid","Disk","Torus","Points","Curves","Blobby","Procedural","Geometry","SolidBegin","SolidEnd","ObjectBegin","ObjectEnd","ObjectInstance","MotionBegin","MotionEnd","MakeTexture","MakeLatLongEnvironment","MakeCubeFaceEnvironment","MakeShadow","MakeOcclusion","ErrorHandler","ReadArchive","ArchiveBegin","ArchiveEnd"};
struct Rec : public Ri::Renderer {
	Trace t; int calls; Rec():calls(0){}
	virtual RtVoid Declare(RtConstString name, RtConstString declaration){ begin(0); t.put(name); t.put(declaration); }
	virtual RtVoid FrameBegin(RtInt number){ begin(1); t.put(number); }
	virtual RtVoid FrameEnd(){ begin(2); }
	virtual RtVoid WorldBegin(){ begin(3); }
	virtual RtVoid WorldEnd(){ begin(4); }
	virtual RtVoid IfBegin(RtConstString condition){ begin(5); t.put(condition); }
	virtual RtVoid ElseIf(RtConstString condition){ begin(6); t.put(condition); }
	virtual RtVoid Else(){ begin(7); }
	virtual RtVoid IfEnd(){ begin(8); }
	virtual RtVoid Format(RtInt xresolution, RtInt yresolution, RtFloat pixelaspectratio){ begin(9); t.put(xresolution); t.put(yresolution); t.put(pixelaspectratio); }
	virtual RtVoid FrameAspectRatio(RtFloat frameratio){ begin(10); t.put(frameratio); }
	virtual RtVoid ScreenWindow(RtFloat left, RtFloat right, RtFloat bottom, RtFloat top){ begin(11); t.put(left); t.put(right); t.put(bottom); t.put(top); }
	virtual RtVoid CropWindow(RtFloat xmin, RtFloat xmax, RtFloat ymin, RtFloat ymax){ begin(12); t.put(xmin); t.put(xmax); t.put(ymin); t.put(ymax); }
	virtual RtVoid Projection(RtConstToken name, const Ri::ParamList& pList){ begin(13); t.put(name); t.put(pList); }
	virtual RtVoid Clipping(RtFloat cnear, RtFloat cfar){ begin(14); t.put(cnear); t.put(cfar); }
	virtual RtVoid ClippingPlane(RtFloat x, RtFloat y, RtFloat z, RtFloat nx, RtFloat ny, RtFloat nz){ begin(15); t.put(x); t.put(y); t.put(z); t.put(nx); t.put(ny); t.put(nz); }
	virtual RtVoid DepthOfField(RtFloat fstop, RtFloat focallength, RtFloat focaldistance){ begin(16); t.put(fstop); t.put(focallength); t.put(focaldistance); }
	virtual RtVoid Shutter(RtFloat opentime, RtFloat closetime){ begin(17); t.put(opentime); t.put(closetime); }
	virtual RtVoid PixelVariance(RtFloat variance){ begin(18); t.put(variance); }
	virtual RtVoid PixelSamples(RtFloat xsamples, RtFloat ysamples){ begin(19); t.put(xsamples); t.put(ysamples); }
	virtual RtVoid PixelFilter(RtFilterFunc function, RtFloat xwidth, RtFloat ywidth){ begin(20); t.p((const void*)function); t.put(xwidth); t.put(ywidth); }
	virtual RtVoid Exposure(RtFloat gain, RtFloat gamma){ begin(21); t.put(gain); t.put(gamma); }
	virtual RtVoid Imager(RtConstToken name, const Ri::ParamList& pList){ begin(22); t.put(name); t.put(pList); }
	virtual RtVoid Quantize(RtConstToken type, RtInt one, RtInt min, RtInt max, RtFloat ditheramplitude){ begin(23); t.put(type); t.put(one); t.put(min); t.put(max); t.put(ditheramplitude); }
	virtual RtVoid Display(RtConstToken name, RtConstToken type, RtConstToken mode, const Ri::ParamList& pList){ begin(24); t.put(name); t.put(type); t.put(mode); t.put(pList); }
	virtual RtVoid Hider(RtConstToken name, const Ri::ParamList& pList){ begin(25); t.put(name); t.put(pList); }
	virtual RtVoid ColorSamples(const Ri::FloatArray& nRGB, const Ri::FloatArray& RGBn){ begin(26); t.put(nRGB); t.put(RGBn); }
	virtual RtVoid RelativeDetail(RtFloat relativedetail){ begin(27); t.put(relativedetail); }
	virtual RtVoid Option(RtConstToken name, const Ri::ParamList& pList){ begin(28); t.put(name); t.put(pList); }
	virtual RtVoid AttributeBegin(){ begin(29); }
	virtual RtVoid AttributeEnd(){ begin(30); }
	virtual RtVoid Color(RtConstColor Cq){ begin(31); t.fl(Cq,3); }
	virtual RtVoid Opacity(RtConstColor Os){ begin(32); t.fl(Os,3); }
	virtual RtVoid TextureCoordinates(RtFloat s1, RtFloat t1, RtFloat s2, RtFloat t2, RtFloat s3, RtFloat t3, RtFloat s4, RtFloat t4){ begin(33); t.put(s1); t.put(t1); t.put(s2); t.put(t2); t.put(s3); t.put(t3); t.put(s4); t.put(t4); }
	virtual RtVoid LightSource(RtConstToken shadername, RtConstToken name, const Ri::ParamList& pList){ begin(34); t.put(shadername); t.put(name); t.put(pList); }
	virtual RtVoid AreaLightSource(RtConstToken shadername, RtConstToken name, const Ri::ParamList& pList){ begin(35); t.put(shadername); t.put(name); t.put(pList); }
	virtual RtVoid Illuminate(RtConstToken name, RtBoolean onoff){ begin(36); t.put(name); t.put(onoff); }
	virtual RtVoid Surface(RtConstToken name, const Ri::ParamList& pList){ begin(37); t.put(name); t.put(pList); }
	virtual RtVoid Displacement(RtConstToken name, const Ri::ParamList& pList){ begin(38); t.put(name); t.put(pList); }
	virtual RtVoid Atmosphere(RtConstToken name, const Ri::ParamList& pList){ begin(39); t.put(name); t.put(pList); }
	virtual RtVoid Interior(RtConstToken name, const Ri::ParamList& pList){ begin(40); t.put(name); t.put(pList); }
	virtual RtVoid Exterior(RtConstToken name, const Ri::ParamList& pList){ begin(41); t.put(name); t.put(pList); }
	virtual RtVoid ShaderLayer(RtConstToken type, RtConstToken name, RtConstToken layername, const Ri::ParamList& pList){ begin(42); t.put(type); t.put(name); t.put(layername); t.put(pList); }
	virtual RtVoid ConnectShaderLayers(RtConstToken type, RtConstToken layer1, RtConstToken variable1, RtConstToken layer2, RtConstToken variable2){ begin(43); t.put(type); t.put(layer1); t.put(variable1); t.put(layer2); t.put(variable2); }
	virtual RtVoid ShadingRate(RtFloat size){ begin(44); t.put(size); }
	virtual RtVoid ShadingInterpolation(RtConstToken type){ begin(45); t.put(type); }
	virtual RtVoid Matte(RtBoolean onoff){ begin(46); t.put(onoff); }
	virtual RtVoid Bound(RtConstBound bound){ begin(47); t.fl(bound,6); }
	virtual RtVoid Detail(RtConstBound bound){ begin(48); t.fl(bound,6); }
	virtual RtVoid DetailRange(RtFloat offlow, RtFloat onlow, RtFloat onhigh, RtFloat offhigh){ begin(49); t.put(offlow); t.put(onlow); t.put(onhigh); t.put(offhigh); }
	virtual RtVoid GeometricApproximation(RtConstToken type, RtFloat value){ begin(50); t.put(type); t.put(value); }
	virtual RtVoid Orientation(RtConstToken orientation){ begin(51); t.put(orientation); }
	virtual RtVoid ReverseOrientation(){ begin(52); }
	virtual RtVoid Sides(RtInt nsides){ begin(53); t.put(nsides); }
	virtual RtVoid Identity(){ begin(54); }
	virtual RtVoid Transform(RtConstMatrix transform){ begin(55); t.fl(&transform[0][0],16); }
	virtual RtVoid ConcatTransform(RtConstMatrix transform){ begin(56); t.fl(&transform[0][0],16); }
	virtual RtVoid Perspective(RtFloat fov){ begin(57); t.put(fov); }
	virtual RtVoid Translate(RtFloat dx, RtFloat dy, RtFloat dz){ begin(58); t.put(dx); t.put(dy); t.put(dz); }
	virtual RtVoid Rotate(RtFloat angle, RtFloat dx, RtFloat dy, RtFloat dz){ begin(59); t.put(angle); t.put(dx); t.put(dy); t.put(dz); }
	virtual RtVoid Scale(RtFloat sx, RtFloat sy, RtFloat sz){ begin(60); t.put(sx); t.put(sy); t.put(sz); }
	virtual RtVoid Skew(RtFloat angle, RtFloat dx1, RtFloat dy1, RtFloat dz1, RtFloat dx2, RtFloat dy2, RtFloat dz2){ begin(61); t.put(angle); t.put(dx1); t.put(dy1); t.put(dz1); t.put(dx2); t.put(dy2); t.put(dz2); }
	virtual RtVoid CoordinateSystem(RtConstToken space){ begin(62); t.put(space); }
	virtual RtVoid CoordSysTransform(RtConstToken space){ begin(63); t.put(space); }
	virtual RtVoid TransformBegin(){ begin(64); }
	virtual RtVoid TransformEnd(){ begin(65); }
	virtual RtVoid Resource(RtConstToken handle, RtConstToken type, const Ri::ParamList& pList){ begin(66); t.put(handle); t.put(type); t.put(pList); }
	virtual RtVoid ResourceBegin(){ begin(67); }
	virtual RtVoid ResourceEnd(){ begin(68); }
	virtual RtVoid Attribute(RtConstToken name, const Ri::ParamList& pList){ begin(69); t.put(name); t.put(pList); }
	virtual RtVoid Polygon(const Ri::ParamList& pList){ begin(70); t.put(pList); }
	virtual RtVoid GeneralPolygon(const Ri::IntArray& nverts, const Ri::ParamList& pList){ begin(71); t.put(nverts); t.put(pList); }
	virtual RtVoid PointsPolygons(const Ri::IntArray& nverts, const Ri::IntArray& verts, const Ri::ParamList& pList){ begin(72); t.put(nverts); t.put(verts); t.put(pList); }
	virtual RtVoid PointsGeneralPolygons(const Ri::IntArray& nloops, const Ri::IntArray& nverts, const Ri::IntArray& verts, const Ri::ParamList& pList){ begin(73); t.put(nloops); t.put(nverts); t.put(verts); t.put(pList); }
	virtual RtVoid Basis(RtConstBasis ubasis, RtInt ustep, RtConstBasis vbasis, RtInt vstep){ begin(74); t.fl(&ubasis[0][0],16); t.put(ustep); t.fl(&vbasis[0][0],16); t.put(vstep); }
	virtual RtVoid Patch(RtConstToken type, const Ri::ParamList& pList){ begin(75); t.put(type); t.put(pList); }
	virtual RtVoid PatchMesh(RtConstToken type, RtInt nu, RtConstToken uwrap, RtInt nv, RtConstToken vwrap, const Ri::ParamList& pList){ begin(76); t.put(type); t.put(nu); t.put(uwrap); t.put(nv); t.put(vwrap); t.put(pList); }
	virtual RtVoid NuPatch(RtInt nu, RtInt uorder, const Ri::FloatArray& uknot, RtFloat umin, RtFloat umax, RtInt nv, RtInt vorder, const Ri::FloatArray& vknot, RtFloat vmin, RtFloat vmax, const Ri::ParamList& pList){ begin(77); t.put(nu); t.put(uorder); t.put(uknot); t.put(umin); t.put(umax); t.put(nv); t.put(vorder); t.put(vknot); t.put(vmin); t.put(vmax); t.put(pList); }
	virtual RtVoid TrimCurve(const Ri::IntArray& ncurves, const Ri::IntArray& order, const Ri::FloatArray& knot, const Ri::FloatArray& min, const Ri::FloatArray& max, const Ri::IntArray& n, const Ri::FloatArray& u, const Ri::FloatArray& v, const Ri::FloatArray& w){ begin(78); t.put(ncurves); t.put(order); t.put(knot); t.put(min); t.put(max); t.put(n); t.put(u); t.put(v); t.put(w); }
	virtual RtVoid SubdivisionMesh(RtConstToken scheme, const Ri::IntArray& nvertices, const Ri::IntArray& vertices, const Ri::TokenArray& tags, const Ri::IntArray& nargs, const Ri::IntArray& intargs, const Ri::FloatArray& floatargs, const Ri::ParamList& pList){ begin(79); t.put(scheme); t.put(nvertices); t.put(vertices); t.put(tags); t.put(nargs); t.put(intargs); t.put(floatargs); t.put(pList); }
	virtual RtVoid Sphere(RtFloat radius, RtFloat zmin, RtFloat zmax, RtFloat thetamax, const Ri::ParamList& pList){ begin(80); t.put(radius); t.put(zmin); t.put(zmax); t.put(thetamax); t.put(pList); }
	virtual RtVoid Cone(RtFloat height, RtFloat radius, RtFloat thetamax, const Ri::ParamList& pList){ begin(81); t.put(height); t.put(radius); t.put(thetamax); t.put(pList); }
	virtual RtVoid Cylinder(RtFloat radius, RtFloat zmin, RtFloat zmax, RtFloat thetamax, const Ri::ParamList& pList){ begin(82); t.put(radius); t.put(zmin); t.put(zmax); t.put(thetamax); t.put(pList); }
	virtual RtVoid Hyperboloid(RtConstPoint point1, RtConstPoint point2, RtFloat thetamax, const Ri::ParamList& pList){ begin(83); t.fl(point1,3); t.fl(point2,3); t.put(thetamax); t.put(pList); }
	virtual RtVoid Paraboloid(RtFloat rmax, RtFloat zmin, RtFloat zmax, RtFloat thetamax, const Ri::ParamList& pList){ begin(84); t.put(rmax); t.put(zmin); t.put(zmax); t.put(thetamax); t.put(pList); }
	virtual RtVoid Disk(RtFloat height, RtFloat radius, RtFloat thetamax, const Ri::ParamList& pList){ begin(85); t.put(height); t.put(radius); t.put(thetamax); t.put(pList); }
	virtual RtVoid Torus(RtFloat majorrad, RtFloat minorrad, RtFloat phimin, RtFloat phimax, RtFloat thetamax, const Ri::ParamList& pList){ begin(86); t.put(majorrad); t.put(minorrad); t.put(phimin); t.put(phimax); t.put(thetamax); t.put(pList); }
	virtual RtVoid Points(const Ri::ParamList& pList){ begin(87); t.put(pList); }
	virtual RtVoid Curves(RtConstToken type, const Ri::IntArray& nvertices, RtConstToken wrap, const Ri::ParamList& pList){ begin(88); t.put(type); t.put(nvertices); t.put(wrap); t.put(pList); }
	virtual RtVoid Blobby(RtInt nleaf, const Ri::IntArray& code, const Ri::FloatArray& floats, const Ri::TokenArray& strings, const Ri::ParamList& pList){ begin(89); t.put(nleaf); t.put(code); t.put(floats); t.put(strings); t.put(pList); }
	virtual RtVoid Procedural(RtPointer data, RtConstBound bound, RtProcSubdivFunc refineproc, RtProcFreeFunc freeproc){ begin(90); t.p((const void*)data); t.fl(bound,6); t.p((const void*)refineproc); t.p((const void*)freeproc); }
	virtual RtVoid Geometry(RtConstToken type, const Ri::ParamList& pList){ begin(91); t.put(type); t.put(pList); }
	virtual RtVoid SolidBegin(RtConstToken type){ begin(92); t.put(type); }
	virtual RtVoid SolidEnd(){ begin(93); }
	virtual RtVoid ObjectBegin(RtConstToken name){ begin(94); t.put(name); }
	virtual RtVoid ObjectEnd(){ begin(95); }
	virtual RtVoid ObjectInstance(RtConstToken name){ begin(96); t.put(name); }
	virtual RtVoid MotionBegin(const Ri::FloatArray& times){ begin(97); t.put(times); }
	virtual RtVoid MotionEnd(){ begin(98); }
	virtual RtVoid MakeTexture(RtConstString imagefile, RtConstString texturefile, RtConstToken swrap, RtConstToken twrap, RtFilterFunc filterfunc, RtFloat swidth, RtFloat twidth, const Ri::ParamList& pList){ begin(99); t.put(imagefile); t.put(texturefile); t.put(swrap); t.put(twrap); t.p((const void*)filterfunc); t.put(swidth); t.put(twidth); t.put(pList); }
	virtual RtVoid MakeLatLongEnvironment(RtConstString imagefile, RtConstString reflfile, RtFilterFunc filterfunc, RtFloat swidth, RtFloat twidth, const Ri::ParamList& pList){ begin(100); t.put(imagefile); t.put(reflfile); t.p((const void*)filterfunc); t.put(swidth); t.put(twidth); t.put(pList); }
	virtual RtVoid MakeCubeFaceEnvironment(RtConstString px, RtConstString nx, RtConstString py, RtConstString ny, RtConstString pz, RtConstString nz, RtConstString reflfile, RtFloat fov, RtFilterFunc filterfunc, RtFloat swidth, RtFloat twidth, const Ri::ParamList& pList){ begin(101); t.put(px); t.put(nx); t.put(py); t.put(ny); t.put(pz); t.put(nz); t.put(reflfile); t.put(fov); t.p((const void*)filterfunc); t.put(swidth); t.put(twidth); t.put(pList); }
	virtual RtVoid MakeShadow(RtConstString picfile, RtConstString shadowfile, const Ri::ParamList& pList){ begin(102); t.put(picfile); t.put(shadowfile); t.put(pList); }
	virtual RtVoid MakeOcclusion(const Ri::StringArray& picfiles, RtConstString shadowfile, const Ri::ParamList& pList){ begin(103); t.put(picfiles); t.put(shadowfile); t.put(pList); }
	virtual RtVoid ErrorHandler(RtErrorFunc handler){ begin(104); t.p((const void*)handler); }
	virtual RtVoid ReadArchive(RtConstToken name, RtArchiveCallback callback, const Ri::ParamList& pList){ begin(105); t.put(name); t.p((const void*)callback); t.put(pList); }
	virtual RtVoid ArchiveBegin(RtConstToken name, const Ri::ParamList& pList){ begin(106); t.put(name); t.put(pList); }
	virtual RtVoid ArchiveEnd(){ begin(107); }
	virtual RtVoid ArchiveRecord(RtConstToken type, const char* string){ begin(1000); t.put(type); t.put(string); }
	void begin(int p){ ++calls; t.i(1000000+p); }
};
static void callProc(int p, Ri::Renderer& r, Args& A){ switch(p){
	case 0: r.Declare(A.s[0], A.s[1]); return;
	case 1: r.FrameBegin(A.i[0]); return;
	case 2: r.FrameEnd(); return;
	case 3: r.WorldBegin(); return;
	case 4: r.WorldEnd(); return;
	case 5: r.IfBegin(A.s[0]); return;
	case 6: r.ElseIf(A.s[0]); return;
	case 7: r.Else(); return;
	case 8: r.IfEnd(); return;
	case 9: r.Format(A.i[0], A.i[1], A.f[0]); return;
	case 10: r.FrameAspectRatio(A.f[0]); return;
	case 11: r.ScreenWindow(A.f[0], A.f[1], A.f[2], A.f[3]); return;
	case 12: r.CropWindow(A.f[0], A.f[1], A.f[2], A.f[3]); return;
	case 13: r.Projection(A.s[0], A.pl); return;
	case 14: r.Clipping(A.f[0], A.f[1]); return;
	case 15: r.ClippingPlane(A.f[0], A.f[1], A.f[2], A.f[3], A.f[4], A.f[5]); return;
	case 16: r.DepthOfField(A.f[0], A.f[1], A.f[2]); return;
	case 17: r.Shutter(A.f[0], A.f[1]); return;
	case 18: r.PixelVariance(A.f[0]); return;
	case 19: r.PixelSamples(A.f[0], A.f[1]); return;
	case 20: r.PixelFilter(vpFilterFunc, A.f[0], A.f[1]); return;
	case 21: r.Exposure(A.f[0], A.f[1]); return;
	case 22: r.Imager(A.s[0], A.pl); return;
	case 23: r.Quantize(A.s[0], A.i[0], A.i[1], A.i[2], A.f[0]); return;
	case 24: r.Display(A.s[0], A.s[1], A.s[2], A.pl); return;
	case 25: r.Hider(A.s[0], A.pl); return;
	case 26: r.ColorSamples(A.fa[0], A.fa[1]); return;
	case 27: r.RelativeDetail(A.f[0]); return;
	case 28: r.Option(A.s[0], A.pl); return;
	case 29: r.AttributeBegin(); return;
	case 30: r.AttributeEnd(); return;
	case 31: r.Color(A.c[0]); return;
	case 32: r.Opacity(A.c[0]); return;
	case 33: r.TextureCoordinates(A.f[0], A.f[1], A.f[2], A.f[3], A.f[4], A.f[5], A.f[6], A.f[7]); return;
	case 34: r.LightSource(A.s[0], A.s[1], A.pl); return;
	case 35: r.AreaLightSource(A.s[0], A.s[1], A.pl); return;
	case 36: r.Illuminate(A.s[0], (RtBoolean)A.i[0]); return;
	case 37: r.Surface(A.s[0], A.pl); return;
	case 38: r.Displacement(A.s[0], A.pl); return;
	case 39: r.Atmosphere(A.s[0], A.pl); return;
	case 40: r.Interior(A.s[0], A.pl); return;
	case 41: r.Exterior(A.s[0], A.pl); return;
	case 42: r.ShaderLayer(A.s[0], A.s[1], A.s[2], A.pl); return;
	case 43: r.ConnectShaderLayers(A.s[0], A.s[1], A.s[2], A.s[3], A.s[4]); return;
	case 44: r.ShadingRate(A.f[0]); return;
	case 45: r.ShadingInterpolation(A.s[0]); return;
	case 46: r.Matte((RtBoolean)A.i[0]); return;
	case 47: r.Bound(A.b[0]); return;
	case 48: r.Detail(A.b[0]); return;
	case 49: r.DetailRange(A.f[0], A.f[1], A.f[2], A.f[3]); return;
	case 50: r.GeometricApproximation(A.s[0], A.f[0]); return;
	case 51: r.Orientation(A.s[0]); return;
	case 52: r.ReverseOrientation(); return;
	case 53: r.Sides(A.i[0]); return;
	case 54: r.Identity(); return;
	case 55: r.Transform(A.m[0]); return;
	case 56: r.ConcatTransform(A.m[0]); return;
	case 57: r.Perspective(A.f[0]); return;
	case 58: r.Translate(A.f[0], A.f[1], A.f[2]); return;
	case 59: r.Rotate(A.f[0], A.f[1], A.f[2], A.f[3]); return;
	case 60: r.Scale(A.f[0], A.f[1], A.f[2]); return;
	case 61: r.Skew(A.f[0], A.f[1], A.f[2], A.f[3], A.f[4], A.f[5], A.f[6]); return;
	case 62: r.CoordinateSystem(A.s[0]); return;
	case 63: r.CoordSysTransform(A.s[0]); return;
	case 64: r.TransformBegin(); return;
	case 65: r.TransformEnd(); return;
	case 66: r.Resource(A.s[0], A.s[1], A.pl); return;
	case 67: r.ResourceBegin(); return;
	case 68: r.ResourceEnd(); return;
	case 69: r.Attribute(A.s[0], A.pl); return;
	case 70: r.Polygon(A.pl); return;
	case 71: r.GeneralPolygon(A.ia[0], A.pl); return;
	case 72: r.PointsPolygons(A.ia[0], A.ia[1], A.pl); return;
	case 73: r.PointsGeneralPolygons(A.ia[0], A.ia[1], A.ia[2], A.pl); return;
	case 74: r.Basis(A.m[0], A.i[0], A.m[1], A.i[1]); return;
	case 75: r.Patch(A.s[0], A.pl); return;
	case 76: r.PatchMesh(A.s[0], A.i[0], A.s[1], A.i[1], A.s[2], A.pl); return;
	case 77: r.NuPatch(A.i[0], A.i[1], A.fa[0], A.f[0], A.f[1], A.i[2], A.i[3], A.fa[1], A.f[2], A.f[3], A.pl); return;
	case 78: r.TrimCurve(A.ia[0], A.ia[1], A.fa[0], A.fa[1], A.fa[2], A.ia[2], A.fa[3], A.fa[4], A.fa[5]); return;
	case 79: r.SubdivisionMesh(A.s[0], A.ia[0], A.ia[1], A.sa[0], A.ia[2], A.ia[3], A.fa[0], A.pl); return;
	case 80: r.Sphere(A.f[0], A.f[1], A.f[2], A.f[3], A.pl); return;
	case 81: r.Cone(A.f[0], A.f[1], A.f[2], A.pl); return;
	case 82: r.Cylinder(A.f[0], A.f[1], A.f[2], A.f[3], A.pl); return;
	case 83: r.Hyperboloid(A.c[0], A.c[1], A.f[0], A.pl); return;
	case 84: r.Paraboloid(A.f[0], A.f[1], A.f[2], A.f[3], A.pl); return;
	case 85: r.Disk(A.f[0], A.f[1], A.f[2], A.pl); return;
	case 86: r.Torus(A.f[0], A.f[1], A.f[2], A.f[3], A.f[4], A.pl); return;
	case 87: r.Points(A.pl); return;
	case 88: r.Curves(A.s[0], A.ia[0], A.s[1], A.pl); return;
	case 89: r.Blobby(A.i[0], A.ia[0], A.fa[0], A.sa[0], A.pl); return;
	case 90: r.Procedural((RtPointer)g_ptrTarget, A.b[0], vpSubdivFunc, vpFreeFunc); return;
	case 91: r.Geometry(A.s[0], A.pl); return;
	case 92: r.SolidBegin(A.s[0]); return;
	case 93: r.SolidEnd(); return;
	case 94: r.ObjectBegin(A.s[0]); return;
	case 95: r.ObjectEnd(); return;
	case 96: r.ObjectInstance(A.s[0]); return;
	case 97: r.MotionBegin(A.fa[0]); return;
	case 98: r.MotionEnd(); return;
	case 99: r.MakeTexture(A.s[0], A.s[1], A.s[2], A.s[3], vpFilterFunc, A.f[0], A.f[1], A.pl); return;
	case 100: r.MakeLatLongEnvironment(A.s[0], A.s[1], vpFilterFunc, A.f[0], A.f[1], A.pl); return;
	case 101: r.MakeCubeFaceEnvironment(A.s[0], A.s[1], A.s[2], A.s[3], A.s[4], A.s[5], A.s[6], A.f[0], vpFilterFunc, A.f[1], A.f[2], A.pl); return;
	case 102: r.MakeShadow(A.s[0], A.s[1], A.pl); return;
	case 103: r.MakeOcclusion(A.sa[0], A.s[0], A.pl); return;
	case 104: r.ErrorHandler(vpErrorFunc); return;
	case 105: r.ReadArchive(A.s[0], vpArchiveCallback, A.pl); return;
	case 106: r.ArchiveBegin(A.s[0], A.pl); return;
	case 107: r.ArchiveEnd(); return;
} }
static const unsigned char g_n_f[NPROC]={0,0,0,0,0,0,0,0,0,1,1,4,4,0,2,6,3,2,1,2,2,2,0,1,0,0,0,1,0,0,0,0,0,8,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,4,1,0,0,0,0,0,0,1,3,4,3,7,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,4,0,0,4,3,4,1,4,3,5,0,0,0,0,0,0,0,0,0,0,0,0,2,2,3,0,0,0,0,0,0};
static const unsigned char g_n_i[NPROC]={0,1,0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,3,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,2,4,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const unsigned char g_n_s[NPROC]={2,0,0,0,0,1,1,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,1,1,3,1,0,0,1,0,0,0,0,0,2,2,1,1,1,1,1,1,3,5,0,1,0,0,0,0,1,1,0,0,0,0,0,0,0,0,0,0,1,1,0,0,2,0,0,1,0,0,0,0,0,1,3,0,0,1,0,0,0,0,0,0,0,0,2,0,0,1,1,0,1,0,1,0,0,4,2,7,2,1,0,1,1,0};
static const unsigned char g_n_ia[NPROC]={0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,2,3,0,0,0,0,3,4,0,0,0,0,0,0,0,0,1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const unsigned char g_n_fa[NPROC]={0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,6,1,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0};
static const unsigned char g_n_sa[NPROC]={0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0};
static const unsigned char g_n_c[NPROC]={0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const unsigned char g_n_b[NPROC]={0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const unsigned char g_n_m[NPROC]={0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const bool g_hasParams[NPROC]={false,false,false,false,false,false,false,false,false,false,false,false,false,true,false,false,false,false,false,false,false,false,true,false,true,true,false,false,true,false,false,false,false,false,true,true,false,true,true,true,true,true,true,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,true,false,false,true,true,true,true,true,false,true,true,true,false,true,true,true,true,true,true,true,true,true,true,true,false,true,false,false,false,false,false,false,false,true,true,true,true,true,false,true,true,false};
enum Scope { S_BeginEnd, S_Frame, S_World, S_Attribute, S_Transform, S_Solid, S_Object, S_Motion, S_Archive, NSCOPE };
static const unsigned g_scopes[NPROC]={0x1ff,0x101,0x102,0x103,0x104,0x1ff,0x1ff,0x1ff,0x1ff,0x103,0x103,0x103,0x103,0x103,0x103,0x1ff,0x103,0x103,0x103,0x103,0x103,0x103,0x103,0x103,0x103,0x103,0x103,0x103,0x103,0x17c,0x108,0x1ff,0x1ff,0x1ff,0x1bf,0x1bf,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x1ff,0x17f,0x1ff,0x17f,0x110,0x1ff,0x1ff,0x1ff,0x1ff,0x1fc,0x1fc,0x1fc,0x1fc,0x1ff,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x1fc,0x17c,0x17c,0x17c,0x120,0x13f,0x140,0x17c,0x17f,0x180,0x103,0x103,0x103,0x103,0x103,0x1ff,0x1ff,0x1ff,0x1ff};
static bool rangeOk(int p, const Args& A){ switch(p){
	case 9: return (A.i[0] != 0) && (A.i[1] != 0) && (A.f[0] != 0);
	case 10: return (A.f[0] > 0);
	case 11: return (A.f[0] < A.f[1]) && (A.f[2] < A.f[3]);
	case 12: return (A.f[0] >= 0) && (A.f[0] < A.f[1]) && (A.f[1] <= 1) && (A.f[2] >= 0) && (A.f[2] < A.f[3]) && (A.f[3] <= 1);
	case 14: return (A.f[0] >= FLT_EPSILON) && (A.f[1] > A.f[0]);
	case 16: return (A.f[0] > 0) && (A.f[1] > 0) && (A.f[2] > 0);
	case 17: return (A.f[0] <= A.f[1]);
	case 18: return (A.f[0] >= 0);
	case 19: return (A.f[0] >= 1) && (A.f[1] >= 1);
	case 20: return (A.f[0] > 0) && (A.f[1] > 0);
	case 21: return (A.f[0] > 0) && (A.f[1] > 0);
	case 23: return (A.i[0] >= 0) && (A.i[1] <= A.i[2]) && (A.f[0] >= 0);
	case 27: return (A.f[0] >= 0);
	case 44: return (A.f[0] > 0);
	case 49: return (A.f[0] <= A.f[1]) && (A.f[1] <= A.f[2]) && (A.f[2] <= A.f[3]);
	case 50: return (A.f[0] >= 0);
	case 57: return (A.f[0] > 0);
	case 74: return (A.i[0] > 0) && (A.i[1] > 0);
	case 76: return (A.i[0] > 0) && (A.i[1] > 0);
	case 77: return (A.i[0] > 0) && (A.i[1] > 0) && (A.f[0] < A.f[1]) && (A.i[2] > 0) && (A.i[3] > 0) && (A.f[2] < A.f[3]);
	case 80: return (A.f[0] != 0) && (A.f[1] < A.f[2]) && (A.f[3] != 0);
	case 81: return (A.f[1] != 0) && (A.f[2] != 0);
	case 82: return (A.f[0] != 0) && (A.f[1] != A.f[2]) && (A.f[3] != 0);
	case 83: return (A.f[0] != 0);
	case 84: return (A.f[0] != 0) && (A.f[1] != A.f[2]) && (A.f[3] != 0);
	case 85: return (A.f[1] != 0) && (A.f[2] != 0);
	case 86: return (A.f[0] != 0) && (A.f[1] != 0) && (A.f[2] != A.f[3]) && (A.f[4] != 0);
	case 99: return (A.f[0] >= 1) && (A.f[1] >= 1);
	case 100: return (A.f[0] >= 1) && (A.f[1] >= 1);
	case 101: return (A.f[1] >= 1) && (A.f[2] >= 1);
	default: return true;
} }
enum { P_Declare=0 };
enum { P_FrameBegin=1 };
enum { P_FrameEnd=2 };
enum { P_WorldBegin=3 };
enum { P_WorldEnd=4 };
enum { P_IfBegin=5 };
enum { P_ElseIf=6 };
enum { P_Else=7 };
enum { P_IfEnd=8 };
enum { P_Format=9 };
enum { P_FrameAspectRatio=10 };
enum { P_ScreenWindow=11 };
enum { P_CropWindow=12 };
enum { P_Projection=13 };
enum { P_Clipping=14 };
enum { P_ClippingPlane=15 };
enum { P_DepthOfField=16 };
enum { P_Shutter=17 };
enum { P_PixelVariance=18 };
enum { P_PixelSamples=19 };
enum { P_PixelFilter=20 };
enum { P_Exposure=21 };
enum { P_Imager=22 };
enum { P_Quantize=23 };
enum { P_Display=24 };
enum { P_Hider=25 };
enum { P_ColorSamples=26 };
enum { P_RelativeDetail=27 };
enum { P_Option=28 };
enum { P_AttributeBegin=29 };
enum { P_AttributeEnd=30 };
enum { P_Color=31 };
enum { P_Opacity=32 };
enum { P_TextureCoordinates=33 };
enum { P_LightSource=34 };
enum { P_AreaLightSource=35 };
enum { P_Illuminate=36 };
enum { P_Surface=37 };
enum { P_Displacement=38 };
enum { P_Atmosphere=39 };
enum { P_Interior=40 };
enum { P_Exterior=41 };
enum { P_ShaderLayer=42 };
enum { P_ConnectShaderLayers=43 };
enum { P_ShadingRate=44 };
enum { P_ShadingInterpolation=45 };
enum { P_Matte=46 };
enum { P_Bound=47 };
enum { P_Detail=48 };
enum { P_DetailRange=49 };
enum { P_GeometricApproximation=50 };
enum { P_Orientation=51 };
enum { P_ReverseOrientation=52 };
enum { P_Sides=53 };
enum { P_Identity=54 };
enum { P_Transform=55 };
enum { P_ConcatTransform=56 };
enum { P_Perspective=57 };
enum { P_Translate=58 };
enum { P_Rotate=59 };
enum { P_Scale=60 };
enum { P_Skew=61 };
enum { P_CoordinateSystem=62 };
enum { P_CoordSysTransform=63 };
enum { P_TransformBegin=64 };
enum { P_TransformEnd=65 };
enum { P_Resource=66 };
enum { P_ResourceBegin=67 };
enum { P_ResourceEnd=68 };
enum { P_Attribute=69 };
enum { P_Polygon=70 };
enum { P_GeneralPolygon=71 };
enum { P_PointsPolygons=72 };
enum { P_PointsGeneralPolygons=73 };
enum { P_Basis=74 };
enum { P_Patch=75 };
enum { P_PatchMesh=76 };
enum { P_NuPatch=77 };
enum { P_TrimCurve=78 };
enum { P_SubdivisionMesh=79 };
enum { P_Sphere=80 };
enum { P_Cone=81 };
enum { P_Cylinder=82 };
enum { P_Hyperboloid=83 };
enum { P_Paraboloid=84 };
enum { P_Disk=85 };
enum { P_Torus=86 };
enum { P_Points=87 };
enum { P_Curves=88 };
enum { P_Blobby=89 };
enum { P_Procedural=90 };
enum { P_Geometry=91 };
enum { P_SolidBegin=92 };
enum { P_SolidEnd=93 };
enum { P_ObjectBegin=94 };
enum { P_ObjectEnd=95 };
enum { P_ObjectInstance=96 };
enum { P_MotionBegin=97 };
enum { P_MotionEnd=98 };
enum { P_MakeTexture=99 };
enum { P_MakeLatLongEnvironment=100 };
enum { P_MakeCubeFaceEnvironment=101 };
enum { P_MakeShadow=102 };
enum { P_MakeOcclusion=103 };
enum { P_ErrorHandler=104 };
enum { P_ReadArchive=105 };
enum { P_ArchiveBegin=106 };
enum { P_ArchiveEnd=107 };
static const bool g_hasRange[NPROC]={false,false,false,false,false,false,false,false,false,true,true,true,true,false,true,false,true,true,true,true,true,true,false,true,false,false,false,true,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,true,false,false,false,false,true,true,false,false,false,false,false,false,true,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,false,true,false,true,true,false,false,true,true,true,true,true,true,true,false,false,false,false,false,false,false,false,false,false,false,false,true,true,true,false,false,false,false,false,false};
template<class W> static void writeProc(int p, W& w, Args& A){ switch(p){
	case 0: w.R("Declare"); w.S(A.s[0]); w.S(A.s[1]); return;
	case 1: w.R("FrameBegin"); w.I(A.i[0]); return;
	case 2: w.R("FrameEnd");  return;
	case 3: w.R("WorldBegin");  return;
	case 4: w.R("WorldEnd");  return;
	case 5: w.R("IfBegin"); w.S(A.s[0]); return;
	case 6: w.R("ElseIf"); w.S(A.s[0]); return;
	case 7: w.R("Else");  return;
	case 8: w.R("IfEnd");  return;
	case 9: w.R("Format"); w.I(A.i[0]); w.I(A.i[1]); w.F(A.f[0]); return;
	case 10: w.R("FrameAspectRatio"); w.F(A.f[0]); return;
	case 11: w.R("ScreenWindow"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.close(); return;
	case 12: w.R("CropWindow"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.close(); return;
	case 13: w.R("Projection"); w.S(A.s[0]); w.P(A.pl); return;
	case 14: w.R("Clipping"); w.F(A.f[0]); w.F(A.f[1]); return;
	case 15: w.R("ClippingPlane"); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.F(A.f[4]); w.F(A.f[5]); return;
	case 16: w.R("DepthOfField"); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); return;
	case 17: w.R("Shutter"); w.F(A.f[0]); w.F(A.f[1]); return;
	case 18: w.R("PixelVariance"); w.F(A.f[0]); return;
	case 19: w.R("PixelSamples"); w.F(A.f[0]); w.F(A.f[1]); return;
	case 20: w.R("PixelFilter"); w.S("gaussian"); w.F(A.f[0]); w.F(A.f[1]); return;
	case 21: w.R("Exposure"); w.F(A.f[0]); w.F(A.f[1]); return;
	case 22: w.R("Imager"); w.S(A.s[0]); w.P(A.pl); return;
	case 23: w.R("Quantize"); w.S(A.s[0]); w.I(A.i[0]); w.I(A.i[1]); w.I(A.i[2]); w.F(A.f[0]); return;
	case 24: w.R("Display"); w.S(A.s[0]); w.S(A.s[1]); w.S(A.s[2]); w.P(A.pl); return;
	case 25: w.R("Hider"); w.S(A.s[0]); w.P(A.pl); return;
	case 26: w.R("ColorSamples"); w.FA(A.fa[0]); w.FA(A.fa[1]); return;
	case 27: w.R("RelativeDetail"); w.F(A.f[0]); return;
	case 28: w.R("Option"); w.S(A.s[0]); w.P(A.pl); return;
	case 29: w.R("AttributeBegin");  return;
	case 30: w.R("AttributeEnd");  return;
	case 31: w.R("Color"); w.fix(A.c[0],3); return;
	case 32: w.R("Opacity"); w.fix(A.c[0],3); return;
	case 33: w.R("TextureCoordinates"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.F(A.f[4]); w.F(A.f[5]); w.F(A.f[6]); w.F(A.f[7]); w.close(); return;
	case 34: w.R("LightSource"); w.S(A.s[0]); w.N(A.s[1]); w.P(A.pl); return;
	case 35: w.R("AreaLightSource"); w.S(A.s[0]); w.N(A.s[1]); w.P(A.pl); return;
	case 36: w.R("Illuminate"); w.N(A.s[0]); w.I((RtBoolean)A.i[0]); return;
	case 37: w.R("Surface"); w.S(A.s[0]); w.P(A.pl); return;
	case 38: w.R("Displacement"); w.S(A.s[0]); w.P(A.pl); return;
	case 39: w.R("Atmosphere"); w.S(A.s[0]); w.P(A.pl); return;
	case 40: w.R("Interior"); w.S(A.s[0]); w.P(A.pl); return;
	case 41: w.R("Exterior"); w.S(A.s[0]); w.P(A.pl); return;
	case 42: w.R("ShaderLayer"); w.S(A.s[0]); w.S(A.s[1]); w.S(A.s[2]); w.P(A.pl); return;
	case 43: w.R("ConnectShaderLayers"); w.S(A.s[0]); w.S(A.s[1]); w.S(A.s[2]); w.S(A.s[3]); w.S(A.s[4]); return;
	case 44: w.R("ShadingRate"); w.F(A.f[0]); return;
	case 45: w.R("ShadingInterpolation"); w.S(A.s[0]); return;
	case 46: w.R("Matte"); w.I((RtBoolean)A.i[0]); return;
	case 47: w.R("Bound"); w.fix(A.b[0],6); return;
	case 48: w.R("Detail"); w.fix(A.b[0],6); return;
	case 49: w.R("DetailRange"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.close(); return;
	case 50: w.R("GeometricApproximation"); w.S(A.s[0]); w.F(A.f[0]); return;
	case 51: w.R("Orientation"); w.S(A.s[0]); return;
	case 52: w.R("ReverseOrientation");  return;
	case 53: w.R("Sides"); w.I(A.i[0]); return;
	case 54: w.R("Identity");  return;
	case 55: w.R("Transform"); w.arr(&A.m[0][0][0],16); return;
	case 56: w.R("ConcatTransform"); w.arr(&A.m[0][0][0],16); return;
	case 57: w.R("Perspective"); w.F(A.f[0]); return;
	case 58: w.R("Translate"); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); return;
	case 59: w.R("Rotate"); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); return;
	case 60: w.R("Scale"); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); return;
	case 61: w.R("Skew"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.F(A.f[4]); w.F(A.f[5]); w.F(A.f[6]); w.close(); return;
	case 62: w.R("CoordinateSystem"); w.S(A.s[0]); return;
	case 63: w.R("CoordSysTransform"); w.S(A.s[0]); return;
	case 64: w.R("TransformBegin");  return;
	case 65: w.R("TransformEnd");  return;
	case 66: w.R("Resource"); w.S(A.s[0]); w.S(A.s[1]); w.P(A.pl); return;
	case 67: w.R("ResourceBegin");  return;
	case 68: w.R("ResourceEnd");  return;
	case 69: w.R("Attribute"); w.S(A.s[0]); w.P(A.pl); return;
	case 70: w.R("Polygon"); w.P(A.pl); return;
	case 71: w.R("GeneralPolygon"); w.IA(A.ia[0]); w.P(A.pl); return;
	case 72: w.R("PointsPolygons"); w.IA(A.ia[0]); w.IA(A.ia[1]); w.P(A.pl); return;
	case 73: w.R("PointsGeneralPolygons"); w.IA(A.ia[0]); w.IA(A.ia[1]); w.IA(A.ia[2]); w.P(A.pl); return;
	case 74: w.R("Basis"); w.basis(&A.m[0][0][0]); w.I(A.i[0]); w.basis(&A.m[1][0][0]); w.I(A.i[1]); return;
	case 75: w.R("Patch"); w.S(A.s[0]); w.P(A.pl); return;
	case 76: w.R("PatchMesh"); w.S(A.s[0]); w.I(A.i[0]); w.S(A.s[1]); w.I(A.i[1]); w.S(A.s[2]); w.P(A.pl); return;
	case 77: w.R("NuPatch"); w.I(A.i[0]); w.I(A.i[1]); w.FA(A.fa[0]); w.F(A.f[0]); w.F(A.f[1]); w.I(A.i[2]); w.I(A.i[3]); w.FA(A.fa[1]); w.F(A.f[2]); w.F(A.f[3]); w.P(A.pl); return;
	case 78: w.R("TrimCurve"); w.IA(A.ia[0]); w.IA(A.ia[1]); w.FA(A.fa[0]); w.FA(A.fa[1]); w.FA(A.fa[2]); w.IA(A.ia[2]); w.FA(A.fa[3]); w.FA(A.fa[4]); w.FA(A.fa[5]); return;
	case 79: w.R("SubdivisionMesh"); w.S(A.s[0]); w.IA(A.ia[0]); w.IA(A.ia[1]); w.SA(A.sa[0]); w.IA(A.ia[2]); w.IA(A.ia[3]); w.FA(A.fa[0]); w.P(A.pl); return;
	case 80: w.R("Sphere"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.close(); w.P(A.pl); return;
	case 81: w.R("Cone"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.close(); w.P(A.pl); return;
	case 82: w.R("Cylinder"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.close(); w.P(A.pl); return;
	case 83: w.R("Hyperboloid"); w.open(); w.fl(A.c[0],3); w.fl(A.c[1],3); w.F(A.f[0]); w.close(); w.P(A.pl); return;
	case 84: w.R("Paraboloid"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.close(); w.P(A.pl); return;
	case 85: w.R("Disk"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.close(); w.P(A.pl); return;
	case 86: w.R("Torus"); w.open(); w.F(A.f[0]); w.F(A.f[1]); w.F(A.f[2]); w.F(A.f[3]); w.F(A.f[4]); w.close(); w.P(A.pl); return;
	case 87: w.R("Points"); w.P(A.pl); return;
	case 88: w.R("Curves"); w.S(A.s[0]); w.IA(A.ia[0]); w.S(A.s[1]); w.P(A.pl); return;
	case 89: w.R("Blobby"); w.I(A.i[0]); w.IA(A.ia[0]); w.FA(A.fa[0]); w.SA(A.sa[0]); w.P(A.pl); return;
	case 90: w.R("Procedural"); w.proc(A); return;
	case 91: w.R("Geometry"); w.S(A.s[0]); w.P(A.pl); return;
	case 92: w.R("SolidBegin"); w.S(A.s[0]); return;
	case 93: w.R("SolidEnd");  return;
	case 94: w.R("ObjectBegin"); w.N(A.s[0]); return;
	case 95: w.R("ObjectEnd");  return;
	case 96: w.R("ObjectInstance"); w.N(A.s[0]); return;
	case 97: w.R("MotionBegin"); w.FA(A.fa[0]); return;
	case 98: w.R("MotionEnd");  return;
	case 99: w.R("MakeTexture"); w.S(A.s[0]); w.S(A.s[1]); w.S(A.s[2]); w.S(A.s[3]); w.S("gaussian"); w.F(A.f[0]); w.F(A.f[1]); w.P(A.pl); return;
	case 100: w.R("MakeLatLongEnvironment"); w.S(A.s[0]); w.S(A.s[1]); w.S("gaussian"); w.F(A.f[0]); w.F(A.f[1]); w.P(A.pl); return;
	case 101: w.R("MakeCubeFaceEnvironment"); w.S(A.s[0]); w.S(A.s[1]); w.S(A.s[2]); w.S(A.s[3]); w.S(A.s[4]); w.S(A.s[5]); w.S(A.s[6]); w.F(A.f[0]); w.S("gaussian"); w.F(A.f[1]); w.F(A.f[2]); w.P(A.pl); return;
	case 102: w.R("MakeShadow"); w.S(A.s[0]); w.S(A.s[1]); w.P(A.pl); return;
	case 103: w.R("MakeOcclusion"); w.SA(A.sa[0]); w.S(A.s[0]); w.P(A.pl); return;
	case 104: w.R("ErrorHandler"); w.S("print"); return;
	case 105: w.R("ReadArchive"); w.S(A.s[0]); w.P(A.pl); return;
	case 106: w.R("ArchiveBegin"); w.S(A.s[0]); w.P(A.pl); return;
	case 107: w.R("ArchiveEnd");  return;
} }
