/* Reference model of Legendre-decomposed distribution functions. */
#pragma once
#include "distref.h"
#include <cmath>
#include <gsl/gsl_interp.h>
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/GOCODEDistributionFunction.h>
using namespace std;
typedef CODEDistributionFunction CODE; typedef GOCODEDistributionFunction GOCODE;
static const gsl_interp_type *ITP[7]; static const char *ITN[7]={"linear","polynomial","cspline","periodic cspline","akima","periodic akima","steffen"};
static int IT(int k) { static const int e[]={CODE::INTERPOLATION_LINEAR,CODE::INTERPOLATION_POLYNOMIAL,CODE::INTERPOLATION_CSPLINE,CODE::INTERPOLATION_CSPLINE_PERIODIC,CODE::INTERPOLATION_AKIMA,CODE::INTERPOLATION_AKIMA_PERIODIC,CODE::INTERPOLATION_STEFFEN}; const gsl_interp_type *t[]={gsl_interp_linear,gsl_interp_polynomial,gsl_interp_cspline,gsl_interp_cspline_periodic,gsl_interp_akima,gsl_interp_akima_periodic,gsl_interp_steffen}; for (int i=0;i<7;i++) ITP[i]=t[i]; return e[k]; }
/* reference: every mode interpolated on its own, then summed with alternating signs */
struct Ref { int itp=0, nl=1; V p, f; double scale=0;
    double mode(int k, double P) const { const double *y=&f[k*p.size()]; if (itp==0) { int i=Ms::cell(p,P); double t=(P-p[i])/(p[i+1]-p[i]); return (1-t)*y[i]+t*y[i+1]; } gsl_interp *g=gsl_interp_alloc(ITP[itp],p.size()); gsl_interp_init(g,p.data(),y,p.size()); double v=gsl_interp_eval(g,p.data(),y,P,nullptr); gsl_interp_free(g); return v; }
    double raw(double P, double X) const { double s=0; for (int k=0;k<nl;k++) s+=(k%2?-1:1)*mode(k,P)*std::legendre(k,fabs(X))*((k%2&&X<0)?-1:1); return s; }
    double at(double P, double X) const { if (P<p.front()||P>p.back()) return 0; return max(0.0,raw(P,X)); }
    double node(int i, double X) const { double s=0; for (int k=0;k<nl;k++) s+=(k%2?-1:1)*f[k*p.size()+i]*std::legendre(k,fabs(X))*((k%2&&X<0)?-1:1); return s; }
    double S() const { double s=0; for (double v : f) s=max(s,fabs(v)); return s*nl; } };
