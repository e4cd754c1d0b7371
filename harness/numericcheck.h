#pragma once
/* comparison of a gridded field with the data it should hold */
#include "numericref.h"
using namespace std;
typedef unique_ptr<MagneticFieldNumeric2D> F;
static const vector<array<double,3>>& pts() { static const vector<array<double,3>> P={{1,0,-1},{1.2,1.1,0.4},{-1.3,0.6,0.1},{0,-2,0.6},{0.2,0.1,7},{2,3,-0.3},{1.6,-0.3,1.2}}; return P; }
static bool eq(double a, double b) { return fabs(a-b)<=1e-12*max(1.0,fabs(b)); }
/* f must be the field described by g */
static void check(mc::Ctx& c, MagneticFieldNumeric2D *f, const Grid& g, const char *what) {
    c.step(); MagneticField2D *b=f; c.require(b->GetName()==g.name,"%s: name %s",what,mc::show(b->GetName()).c_str()); c.require(b->GetDescription()==g.desc,"%s: description %s",what,mc::show(b->GetDescription()).c_str()); c.require(f->GetMagneticAxisR()==g.ra&&f->GetMagneticAxisZ()==g.za&&b->GetMagneticAxis()[0]==g.ra&&b->GetMagneticAxis()[1]==g.za,"%s: magnetic axis (%g,%g)",what,f->GetMagneticAxisR(),f->GetMagneticAxisZ()); c.require(f->HasMagneticFlux()==!g.Psi.empty(),"%s: magnetic flux %s",what,g.Psi.empty()?"appeared":"lost");
    const auto &dr= g.rw.empty()? g.rs : g.rw, &dz= g.rw.empty()? g.zs : g.zw; c.require(f->GetNDomain()==dr.size(),"%s: %u wall points instead of %zu",what,f->GetNDomain(),dr.size()); for (size_t i=0;i<dr.size();i++) c.require(f->GetRDomain()[i]==dr[i]&&f->GetZDomain()[i]==dz[i],"%s: wall point %zu is (%g,%g) instead of (%g,%g)",what,i,f->GetRDomain()[i],f->GetZDomain()[i],dr[i],dz[i]); c.require(f->GetNSeparatrix()==g.rs.size(),"%s: %u separatrix points instead of %zu",what,f->GetNSeparatrix(),g.rs.size()); for (size_t i=0;i<g.rs.size();i++) c.require(f->GetRSeparatrix()[i]==g.rs[i]&&f->GetZSeparatrix()[i]==g.zs[i],"%s: separatrix point %zu",what,i);
    vector<Pt> e; const auto &er= g.rs.empty()? g.rw : g.rs, &ez= g.rs.empty()? g.zw : g.zs; double mn=1e9,mx=-1e9; for (size_t i=0;i<er.size();i++) { size_t k=(i+1)%er.size(); if ((ez[i]-g.za)*(ez[k]-g.za)<0) { double r=er[i]+(er[k]-er[i])*((g.za-ez[i])/(ez[k]-ez[i])); mn=min(mn,r); mx=max(mx,r); } } c.require(fabs(f->GetMaxRadius()-mx)<1e-9&&fabs(f->GetMinRadius()-mn)<1e-9,"%s: radii %g..%g instead of %g..%g",what,f->GetMinRadius(),f->GetMaxRadius(),mn,mx); c.require(fabs(f->FindMaxRadius()-mx)<1e-9&&fabs(f->FindMinRadius()-mn)<1e-9,"%s: radii found are %g..%g instead of %g..%g",what,f->FindMinRadius(),f->FindMaxRadius(),mn,mx);
    for (size_t i=0;i<g.nr();i++) for (size_t j=0;j<g.nz();j++) { size_t k=i+j*g.nr(); double *B=f->Eval(0,g.R[i],g.Z[j]); c.require(eq(B[1],g.Br[k])&&eq(B[0],-g.Bp[k])&&eq(B[2],g.Bz[k]),"%s: field at node (%zu,%zu) is (%.12g,%.12g,%.12g) instead of (%.12g,%.12g,%.12g)",what,i,j,B[1],-B[0],B[2],g.Br[k],g.Bp[k],g.Bz[k]); if (!g.Psi.empty()) c.require(eq(f->EvalFlux(g.R[i],0,g.Z[j]),g.Psi[k]),"%s: flux at node (%zu,%zu)",what,i,j); }
}
static void alike(mc::Ctx& c, MagneticFieldNumeric2D *f, MagneticFieldNumeric2D *o, const char *what) { for (auto& p : pts()) { double *B=f->Eval(p[0],p[1],p[2]), *E=o->Eval(p[0],p[1],p[2]); c.step(); for (int k=0;k<3;k++) c.require(eq(B[k],E[k]),"%s: field at (%g,%g,%g) differs: %.17g and %.17g",what,p[0],p[1],p[2],B[k],E[k]); auto &d=f->EvalDerivatives(p[0],p[1],p[2]), &e=o->EvalDerivatives(p[0],p[1],p[2]); c.require(eq(d.Babs,e.Babs)&&eq(d.gradB[0],e.gradB[0])&&eq(d.gradB[2],e.gradB[2])&&eq(d.curlB[1],e.curlB[1])&&eq(d.curlB[2],e.curlB[2]),"%s: derivatives at (%g,%g,%g) differ",what,p[0],p[1],p[2]); if (o->HasMagneticFlux()) c.require(eq(f->EvalFlux(p[0],p[1],p[2]),o->EvalFlux(p[0],p[1],p[2])),"%s: flux differs",what); c.require(f->CrossesDomain(p[0],p[1],p[2])==o->CrossesDomain(p[0],p[1],p[2]),"%s: wall test differs",what); } }
