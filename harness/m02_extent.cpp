/* M02: bounds and extents of the wall, in every history of installing and querying. */
#include "numericref.h"
using namespace std;
struct Ext { bool ok=false; double mn=0, mx=0; void add(double v) { if (!ok) { mn=mx=v; ok=true; } else { mn=min(mn,v); mx=max(mx,v); } } };
/* where does the closed contour meet the level? swap: radial level instead of vertical */
static Ext level(const vector<Pt>& w, double a, bool radial) { Ext e; size_t n=w.size(); for (size_t i=0;i<n;i++) { Pt p=w[i], q=w[(i+1)%n]; if (radial) { swap(p.r,p.z); swap(q.r,q.z); }
    if (p.z==a) e.add(p.r); if (q.z==a) e.add(q.r); if ((p.z<a&&q.z>a)||(p.z>a&&q.z<a)) e.add(p.r+(q.r-p.r)*((a-p.z)/(q.z-p.z))); } return e; }
static double unit=1; static bool eq(double a, double b) { return fabs(a-b)<=1e-9*(unit+fabs(b)); }
struct World { PlainField f; Pt ax; vector<Pt> w; vector<vector<double>> keep; World(double r, double z) : f(r,z), ax{r,z} {}
    void install(mc::Ctx& c, const vector<Pt>& nw, bool copy) { w=nw; (void)copy; keep.push_back({}); keep.push_back({}); auto &r=keep[keep.size()-2], &z=keep.back(); for (auto& p : w) { r.push_back(p.r); z.push_back(p.z); }
        bool threw=false; try { f.SetDomain(r.data(),z.data(),(unsigned)w.size()); } catch (SOFTLibException&) { threw=true; } c.step(); Ext e=level(w,ax.z,false); c.require(threw==!e.ok,"SetDomain %s, but the wall %s the level of the axis: %s axis (%g,%g)",threw?"refused the wall":"accepted the wall",e.ok?"meets":"does not meet",showPoly(w).c_str(),ax.r,ax.z); }
    bool inside() { double a=1e9,b=-1e9,d=1e9,e=-1e9; for (auto& p : w) { a=min(a,p.r); b=max(b,p.r); d=min(d,p.z); e=max(e,p.z); } return !w.empty() && a<=ax.r&&ax.r<=b&&d<=ax.z&&ax.z<=e; }
    void bounds(mc::Ctx& c) { if (!inside()) return; double a=1e9,b=-1e9,d=1e9,e=-1e9,g[4]={-9,-9,-9,-9}; for (auto& p : w) { a=min(a,p.r); b=max(b,p.r); d=min(d,p.z); e=max(e,p.z); } f.GetDomainBounds(g[0],g[1],g[2],g[3]); c.step(); c.require(g[0]==a&&g[1]==b&&g[2]==d&&g[3]==e,"%s axis (%g,%g): bounds R %g..%g Z %g..%g instead of R %g..%g Z %g..%g",showPoly(w).c_str(),ax.r,ax.z,g[0],g[1],g[2],g[3],a,b,d,e); }
    void radius(mc::Ctx& c, int which) { Ext e=level(w,ax.z,false); bool threw=false; double v=0; try { v= which==0? f.GetMaxRadius() : which==1? f.GetMinRadius() : which==2? f.FindMaxRadius() : f.FindMinRadius(); } catch (SOFTLibException&) { threw=true; } c.step(); static const char *N[]={"GetMaxRadius","GetMinRadius","FindMaxRadius","FindMinRadius"}; c.require(threw==!e.ok,"%s axis (%g,%g): %s %s",showPoly(w).c_str(),ax.r,ax.z,N[which],threw?"failed":"answered although the wall does not meet the level of the axis"); if (e.ok) c.require(eq(v,which%2?e.mn:e.mx),"%s axis (%g,%g): %s is %g instead of %g",showPoly(w).c_str(),ax.r,ax.z,N[which],v,which%2?e.mn:e.mx); }
    void height(mc::Ctx& c, double R) { Ext e=level(w,R,true); bool threw=false; double a=-99,b=-99; try { f.FindMaxZ(R,a,b); } catch (SOFTLibException&) { threw=true; } c.step(); c.require(threw==!e.ok,"%s: FindMaxZ(%g) %s",showPoly(w).c_str(),R,threw?"failed":"answered although the wall is nowhere at this radius"); if (e.ok) c.require(eq(a,e.mn)&&eq(b,e.mx),"%s: FindMaxZ(%g) is %g..%g instead of %g..%g",showPoly(w).c_str(),R,a,b,e.mn,e.mx); }
    void other(mc::Ctx& c, bool mn) { double r[4]={0.25,7,7,0.25}, z[4]={-9,-9,9,9}; double v= mn? f.FindMinRadius(4,r,z) : f.FindMaxRadius(4,r,z); c.step(); c.require(eq(v,mn?0.25:7),"Find%sRadius of another contour is %g",mn?"Min":"Max",v); }
    void same(mc::Ctx& c) { c.require(f.GetNDomain()==w.size(),"number of wall points"); for (size_t i=0;i<w.size();i++) c.require(f.GetRDomain()[i]==w[i].r&&f.GetZDomain()[i]==w[i].z,"wall point %zu is not the installed one",i); }
};
static const vector<double> RS={0.5,1,1.25,1.5,2,2.75,3,3.5,4,4.5};
static void all(mc::Ctx& c, World& o, int order) { if (order) { for (double R : RS) o.height(c,R); for (int k=3;k>=0;k--) o.radius(c,k); o.bounds(c); } else { o.bounds(c); for (int k=0;k<4;k++) o.radius(c,k); for (double R : RS) o.height(c,R); } o.same(c); }
static void lattice(mc::Ctx& c, int n, int nr, int nz) { vector<Pt> g,w; for (int r=1;r<=nr;r++) for (int z=-1;z<nz-1;z++) g.push_back({(double)r,(double)z}); static const vector<Pt> A={{2,0},{1.5,0.25},{2.5,-0.5},{2,1}}; Pt ax=c.pickOf(A); for (int i=0;i<n;i++) w.push_back(c.pickOf(g)); c.noteL([&]{ return showPoly(w)+mc::fmt(" axis (%g,%g)",ax.r,ax.z); });
    for (int order=0;order<2;order++) { World o(ax.r,ax.z); o.install(c,w,false); all(c,o,order); } c.state(mc::hstr(showPoly(w))); }
static void pts2(mc::Ctx& c) { lattice(c,2,4,4); } static void tri(mc::Ctx& c) { lattice(c,3,4,4); } static void quad(mc::Ctx& c) { if (c.thorough) lattice(c,4,4,4); else lattice(c,4,3,3); } static void pent(mc::Ctx& c) { if (c.thorough) lattice(c,5,3,3); else lattice(c,5,3,2); }
static const vector<vector<Pt>>& walls() { static const vector<vector<Pt>> W={
    {{1,-1},{3,-1},{3,1},{1,1}}, {{1.5,-2},{4,-2},{4,2},{1.5,2},{1.5,-2}}, {{2,1},{1,0},{2,-1},{3,0}}, {{3,2},{2.5,-3},{0.5,-0.5}}, {{1,1},{3,1},{2,3}} /* above the axis */, {{1,-1},{4,-1},{4,-0.5},{1.5,-0.25},{4,0.25},{4,1},{1,1}} /* concave */, {{1,0},{2,-1},{3,0},{2,0.5}}, {} }; return W; }
static void histories(mc::Ctx& c) { Pt ax=c.flip()? Pt{1.75,0.125} : Pt{2,0}; World o(ax.r,ax.z); int D=c.thorough?6:5; 
    for (int d=0;d<D;d++) { int nw=(int)walls().size(), op=c.pick(nw+8); if (op<nw) { c.noteL([&]{ return "install "+showPoly(walls()[op]); }); o.install(c,walls()[op],false); }
        else if (op==nw) { c.note("GetDomainBounds"); o.bounds(c); } else if (op<nw+5) { c.noteL([&]{ return mc::fmt("radius query %d",op-nw-1); }); o.radius(c,op-nw-1); } else if (op==nw+5) { c.note("FindMaxZ"); o.height(c,2.25); } else { c.note("radius of another contour"); o.other(c,op==nw+7); }
        c.state(mc::mix(mc::hstr(showPoly(o.w)),mc::mix(op,mc::hdbl(ax.r)))); }
    all(c,o,0); }
/* the caller's own contour */
static void contour(mc::Ctx& c) { vector<Pt> g,w; for (int r=1;r<=3;r++) for (int z=-1;z<=1;z++) g.push_back({(double)r,(double)z}); for (int i=0;i<3;i++) w.push_back(c.pickOf(g)); double lv=c.pickOf(vector<double>{-1,-0.5,0,0.75,1,1.5}); vector<double> r,z; for (auto& p : w) { r.push_back(p.r); z.push_back(p.z); } PlainField f(2,lv); 
    Ext e=level(w,lv,false), h=level(w,1.75,true); double a,b; bool threw=false; try { f.FindMaxMin(3,r.data(),z.data(),lv,a,b); } catch (SOFTLibException&) { threw=true; } c.step(); c.require(threw==!e.ok && (threw || (eq(a,e.mn)&&eq(b,e.mx))),"FindMaxMin of %s at %g",showPoly(w).c_str(),lv);
    threw=false; try { f.FindMaxZ(3,r.data(),z.data(),1.75,a,b); } catch (SOFTLibException&) { threw=true; } c.require(threw==!h.ok && (threw || (eq(a,h.mn)&&eq(b,h.mx))),"FindMaxZ of %s at 1.75",showPoly(w).c_str());
    for (int k=0;k<2;k++) { threw=false; try { a= k? f.FindMinRadius(3,r.data(),z.data()) : f.FindMaxRadius(3,r.data(),z.data()); } catch (SOFTLibException&) { threw=true; } c.step(); c.require(threw==!e.ok && (threw || eq(a,k?e.mn:e.mx)),"Find%sRadius of %s at level %g",k?"Min":"Max",showPoly(w).c_str(),lv); } c.state(mc::hstr(showPoly(w))); }
/* walls of many points */
static void many(mc::Ctx& c) {
    static const vector<int> NS={5,6,7,8,9,10,15,16,17,31,32,33,63,64,65,99,100,101,127,128,129,199,200,255,256,257,400,511,512,513,1000,5000,70000}; int n= c.pickOf(NS), shape=c.pick(3); bool closed=c.flip(), rev=c.flip(); double off=c.pick(4)*1.57; double sc=c.pickOf(vector<double>{1,1.0/4096,4096.0,0x1p-30}); vector<Pt> w; struct U { U(double s) { unit=s; } ~U() { unit=1; } } us(sc);
    for (int i=0;i<n;i++) { double a=2*M_PI*i/n+off+0.01, q= shape==0? 1 : shape==1? (i%2? 0.6 : 1.1) : 0.7+0.4*i/n; w.push_back({sc*(2.1+q*cos(a)),sc*(0.3+1.3*q*sin(a))}); } if (rev) reverse(w.begin(),w.end()); if (closed) w.push_back(w[0]);
    c.note(mc::fmt("%d points, shape %d",n,shape)); World o(2*sc,0.25*sc); o.install(c,w,false); o.bounds(c); for (int k=0;k<4;k++) o.radius(c,k); for (double R : {0.5,1.2,1.5,2.0,2.125,2.75,2.9,3.0,3.4}) o.height(c,R*sc); o.same(c); c.state(mc::mix(n*10+shape,closed));
}
/* gridded fields: at the level of the axis the separatrix is asked if there is one, otherwise the wall; the bounds are those of the wall if there is one */
static void gridded(mc::Ctx& c) {
    static const vector<vector<Pt>> W={ {}, {{1,-1},{3,-1},{3,1},{1,1}}, {{0.5,0},{2,-2},{3.5,0},{2,2},{0.5,0}}, {{1,-1.5},{3.5,-1.5},{3.5,-0.5},{2.25,-0.125},{3.25,0.5},{1,1.5}} }, S={ {}, {{1.25,0.125},{2,-0.75},{2.75,0.125},{2,0.75}}, {{1.5,-0.5},{2.5,-0.5},{2.75,0.5},{1.125,0.5}}, {{0.25,-3},{5,-3},{5,3},{0.25,3}} }; auto w=c.pickOf(W), sp=c.pickOf(S); bool clone=c.flip(); if (w.empty()&&sp.empty()) { Grid g; g.R={0,1,2,4}; g.Z={-2,-1,0,2}; g.fill([](double,double,size_t,size_t){ return V4{1,2,3,4}; }); bool threw=false; try { unique_ptr<MagneticFieldNumeric2D> f(g.make()); } catch (SOFTLibException&) { threw=true; } c.require(threw,"a gridded field with neither wall nor separatrix is accepted"); return; }
    Grid g; g.R={0,1,2,4}; g.Z={-2,-1,0,2}; g.fill([](double,double,size_t,size_t){ return V4{1,2,3,4}; }); g.ra=2; g.za=0.0625; for (auto& p : w) { g.rw.push_back(p.r); g.zw.push_back(p.z); } for (auto& p : sp) { g.rs.push_back(p.r); g.zs.push_back(p.z); } unique_ptr<MagneticFieldNumeric2D> f(g.make()); if (clone) f.reset(f->Clone()); c.noteL([&]{ return showPoly(w)+" separatrix "+showPoly(sp); });
    vector<Pt> dom= w.empty()? sp : w; Ext e=level(sp.empty()?w:sp,g.za,false), wl=level(dom,g.za,false); double B[4]={1e9,-1e9,1e9,-1e9}; for (auto& p : dom) { B[0]=min(B[0],p.r); B[1]=max(B[1],p.r); B[2]=min(B[2],p.z); B[3]=max(B[3],p.z); } MagneticField2D *b=f.get(); vector<double> nr={0.75,3.25,3.25,0.75}, nz={-1.25,-1.25,1.25,1.25}; bool replaced=false;
    int D=c.thorough?6:4; for (int d=0;d<D;d++) { int op=c.pick(9); c.noteL([&]{ return mc::fmt("query %d",op); }); c.step(); double mx=e.mx, mn=e.mn; if (replaced && sp.empty()) { mn=0.75; mx=3.25; } double r[4]={0.25,7,7,0.25}, z[4]={-9,-9,9,9}, q[4];
        switch (op) { case 0: c.require(eq(b->GetMaxRadius(),mx),"GetMaxRadius is %g instead of %g",b->GetMaxRadius(),mx); break; case 1: c.require(eq(b->GetMinRadius(),mn),"GetMinRadius is %g instead of %g",b->GetMinRadius(),mn); break; case 2: c.require(eq(b->FindMaxRadius(),mx),"FindMaxRadius is %g instead of %g",b->FindMaxRadius(),mx); break; case 3: c.require(eq(b->FindMinRadius(),mn),"FindMinRadius is %g instead of %g",b->FindMinRadius(),mn); break;
        case 4: b->GetDomainBounds(q[0],q[1],q[2],q[3]); c.require(q[0]==B[0]&&q[1]==B[1]&&q[2]==B[2]&&q[3]==B[3],"bounds R %g..%g Z %g..%g instead of R %g..%g Z %g..%g",q[0],q[1],q[2],q[3],B[0],B[1],B[2],B[3]); break;
        case 5: c.require(eq(b->FindMaxRadius(4,r,z),7),"FindMaxRadius of another contour"); break; case 6: c.require(eq(b->FindMinRadius(4,r,z),0.25),"FindMinRadius of another contour"); break; case 7: { vector<Pt> D2= replaced? vector<Pt>{{0.75,-1.25},{3.25,-1.25},{3.25,1.25},{0.75,1.25}} : dom; Ext h=level(D2,2.125,true); b->FindMaxZ(2.125,q[0],q[1]); c.require(eq(q[0],h.mn)&&eq(q[1],h.mx),"FindMaxZ is %g..%g instead of %g..%g",q[0],q[1],h.mn,h.mx); break; }
        default: b->SetDomain(nr.data(),nz.data(),4); replaced=true; B[0]=0.75; B[1]=3.25; B[2]=-1.25; B[3]=1.25; } c.state(mc::mix(mc::hstr(showPoly(w)+showPoly(sp)),op*2+replaced)); }
    (void)wl; }
/* gridded fields whose wall and separatrix have many points (and start anywhere) */
static void manygridded(mc::Ctx& c) {
    static const vector<int> NS={3,5,8,9,16,17,21,32,33,64,65,100,101,128,129,256,257,1000}; int nw=c.pickOf(NS), ns=c.pickOf(NS); double off=c.pick(4)*1.57; bool closed=c.flip(), rev=c.flip(), clone=c.flip(); int has=1+c.pick(3); auto ring=[&](int n, double a, double b) { vector<Pt> v; for (int i=0;i<n;i++) { double t=2*M_PI*i/n+off; v.push_back({2+a*cos(t),0.05+b*sin(t)}); } if (rev) reverse(v.begin(),v.end()); if (closed) v.push_back(v[0]); return v; };
    vector<Pt> w,sp; if (has&1) w=ring(nw,1.5,1.25); if (has&2) sp=ring(ns,0.75,0.5); if (has==1 && ns!=NS[0]) return; if (has==2 && nw!=NS[0]) return; Grid g; g.R={0,1,2,4}; g.Z={-2,-1,0,2}; g.fill([](double,double,size_t,size_t){ return V4{1,2,3,4}; }); g.ra=2; g.za=0.0625; for (auto& p : w) { g.rw.push_back(p.r); g.zw.push_back(p.z); } for (auto& p : sp) { g.rs.push_back(p.r); g.zs.push_back(p.z); } unique_ptr<MagneticFieldNumeric2D> f(g.make()); if (clone) f.reset(f->Clone()); c.note(mc::fmt("wall %zu, separatrix %zu points",w.size(),sp.size()));
    Ext e=level(sp.empty()?w:sp,g.za,false); vector<Pt> dom= w.empty()? sp : w; double B[4]={1e9,-1e9,1e9,-1e9},q[4]; for (auto& p : dom) { B[0]=min(B[0],p.r); B[1]=max(B[1],p.r); B[2]=min(B[2],p.z); B[3]=max(B[3],p.z); } MagneticField2D *b=f.get(); c.step();
    c.require(eq(b->GetMaxRadius(),e.mx)&&eq(b->FindMaxRadius(),e.mx),"maximum radius is %g instead of %g",b->GetMaxRadius(),e.mx); c.require(eq(b->GetMinRadius(),e.mn)&&eq(b->FindMinRadius(),e.mn),"minimum radius is %g instead of %g",b->GetMinRadius(),e.mn); f->GetDomainBounds(q[0],q[1],q[2],q[3]); c.require(q[0]==B[0]&&q[1]==B[1]&&q[2]==B[2]&&q[3]==B[3],"bounds R %g..%g Z %g..%g instead of R %g..%g Z %g..%g",q[0],q[1],q[2],q[3],B[0],B[1],B[2],B[3]); c.state(mc::mix(nw*2000+ns,has)); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "M02", {
        {"two", pts2, 2, "all 2-point walls on a 4x4 lattice x 4 axis positions x 2 query orders"},
        {"triangles", tri, 2, "all triangles on a 4x4 lattice x 4 axis positions x 2 query orders x 10 radii"},
        {"quads", quad, 2, "all quadrilaterals on a 3x3 (thorough 4x4) lattice"},
        {"pentagons", pent, 3, "all 5-point walls on a 3x2 (thorough 3x3) lattice"},
        {"many", many, 2, "walls of 33 sizes from 5 to 70000 points x 3 shapes x open/closed x direction x 4 starting angles x 4 scales"},
        {"histories", histories, 3, "all sequences of 5 (thorough 6) install/query operations over 8 walls (closed, open, concave, not meeting the axis level, empty) and questions about another contour, then all queries"},
        {"gridded", gridded, 3, "gridded fields with 4 walls x 4 separatrices (or none) and their clones: all sequences of 4 (thorough 6) extent queries, queries about other contours and new walls"},
        {"many-gridded", manygridded, 2, "gridded fields (and clones) whose wall and/or separatrix has 18 sizes from 3 to 1000 points x 4 starting angles x open/closed x direction"},
        {"contour", contour, 2, "the same questions asked about a contour of the caller"},
    });
}
