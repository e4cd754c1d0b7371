/* Reference model of gridded distribution functions: bilinear interpolation written from the definition. */
#pragma once
#include "mc.h"
#include <array>
#include <memory>
#include <softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/SOFTLibException.h>
typedef std::vector<double> V;
typedef NumericMomentumSpaceDistributionFunction NMS;
typedef NumericDistributionFunction NDF;
inline bool near(double g, double e, double sc, double tol=1e-12) { return std::isfinite(g) && fabs(g-e)<=tol*(fabs(e)+sc); }
struct Ms { V p, xi, f; bool lg=false, flip=false;      // f[j*np+i] at p[i], xi[j]
    size_t np() const { return p.size(); } size_t nx() const { return xi.size(); }
    static int cell(const V& g, double x) { int i=0; while (i+2<(int)g.size()&&x>=g[i+1]) i++; return i; }
    bool inside(double P, double X) const { if (flip) X=-X; return P>=p.front()&&P<=p.back()&&X>=xi.front()&&X<=xi.back(); }
    /* bilinear value; zero outside */
    double at(double P, double X) const { if (!inside(P,X)) return 0; if (flip) X=-X; int i=cell(p,P), j=cell(xi,X); double t=(P-p[i])/(p[i+1]-p[i]), u=(X-xi[j])/(xi[j+1]-xi[j]); double w[4]={(1-t)*(1-u),t*(1-u),(1-t)*u,t*u}, v[4]={f[j*np()+i],f[j*np()+i+1],f[(j+1)*np()+i],f[(j+1)*np()+i+1]}; double s=0; for (int k=0;k<4;k++) { if (!lg) s+=w[k]*v[k]; else { if (v[k]<=0) return 0; s+=w[k]*log(v[k]); } } return lg? exp(s) : s; }
    double scale() const { double s=0; for (double x : f) s=std::max(s,fabs(x)); return s; }
    /* with a logarithm of zero in the cell the value is between 0 and the largest corner */
    bool clean(double P, double X) const { if (!lg||!inside(P,X)) return true; if (flip) X=-X; int i=cell(p,P), j=cell(xi,X); for (int a=0;a<2;a++) for (int b=0;b<2;b++) if (f[(j+b)*np()+i+a]<=0) return false; return true; } };
inline double val(int i, int j, int k=0) { return 0.5+((i*7+j*13+k*29)%17)*0.25+0.03125*i; }
inline V lattice(double a, double b, int n) { static const double S[]={0,0.3,0.45,0.7,0.8,1}; V v; for (int i=0;i<n;i++) v.push_back(i==0?a:i==n-1?b:a+(b-a)*(n<=6? S[i] : double(i)/(n-1))); return v; }
