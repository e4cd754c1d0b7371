/* G01: images decode to the matrix, transposed, in the colours of the map. */
#include "mc.h"
#include <softlib/ImageGenerator/ImageGenerator.h>
#include <softlib/ImageGenerator/ImageGeneratorPPM.h>
#include <softlib/ImageGenerator/ImageGeneratorPNG.h>
#include <png.h>
#include <fstream>
#include <memory>
using namespace std;
typedef ImageColormap::scolor_t Col; typedef vector<Col> Map;
static const Map GERI={{0,0,0},{38,38,128},{76,38,191},{153,51,128},{255,64,38},{230,128,0},{230,191,26},{230,230,128},{255,255,255}}, GRAY={{0,0,0},{255,255,255}}, C3={{200,10,0},{0,255,17},{5,100,250}}, C1={{1,2,3}}, C4={{255,0,0},{255,0,0},{0,0,255},{10,20,30}};
struct Img { unsigned w=0,h=0; vector<array<unsigned,3>> px; };
static bool readPPM(const string& p, Img& o) { ifstream f(p); string sig; unsigned mx; if (!(f>>sig>>o.w>>o.h>>mx)||sig!="P3"||mx!=255) return false; for (size_t i=0;i<(size_t)o.w*o.h;i++) { array<unsigned,3> a; for (auto& x : a) { long v; if (!(f>>v)||v<0||v>255) return false; x=v; } o.px.push_back(a); } string rest; return !(f>>rest); }
static bool readPNG(const string& p, Img& o) { png_image im; memset(&im,0,sizeof im); im.version=PNG_IMAGE_VERSION; if (!png_image_begin_read_from_file(&im,p.c_str())) return false; im.format=PNG_FORMAT_RGB; vector<png_byte> b(PNG_IMAGE_SIZE(im)); if (!png_image_finish_read(&im,nullptr,b.data(),0,nullptr)) return false; o.w=im.width; o.h=im.height; for (size_t i=0;i<(size_t)o.w*o.h;i++) o.px.push_back({b[3*i],b[3*i+1],b[3*i+2]}); return true; }
/* exact colour: position in the range, clamped; linear between the map's colours */
static bool colourOK(const Map& m, double lo, double hi, double v, const array<unsigned,3>& got, string& why) {
    if (v!=v) return true; if (m.size()==1) return got[0]==m[0].red&&got[1]==m[0].green&&got[2]==m[0].blue; // not a number: any colour
    long double t=((long double)v-lo)/((long double)hi-lo)*(m.size()-1); size_t n=m.size();
    for (int k=0;k<3;k++) { auto comp=[&](size_t i){ return (long double)(k==0?m[i].red:k==1?m[i].green:m[i].blue); }; long double w; bool node=false;
        if (t>=n-1) { w=comp(n-1); node=true; } else if (t<=0) { w=comp(0); node=true; } else { size_t l=(size_t)t; long double f=t-l; w=(1-f)*comp(l)+f*comp(l+1); node= fabsl(f)<1e-12||fabsl(f-1)<1e-12; }
        long double d=fabsl((long double)got[k]-w); if (node && (v<=lo||v>=hi) ? d!=0 : d>=1.0L+1e-9L) { why=mc::fmt("component %d is %u, expected %.3Lf",k,got[k],w); return false; } }
    return true;
}
static void decodeAndCheck(mc::Ctx& c, int type, const string& p, const vector<double>& a, unsigned nr, unsigned nc, const Map& m, double lo, double hi) {
    Img im; c.step(); c.require(type==0? readPNG(p,im) : readPPM(p,im),"the %s file cannot be decoded",type==0?"PNG":"PPM"); c.require(im.w==nr&&im.h==nc,"image is %ux%u for a matrix with %u rows and %u columns",im.w,im.h,nr,nc);
    for (unsigned i=0;i<nr;i++) for (unsigned j=0;j<nc;j++) { string why; c.require(colourOK(m,lo,hi,a[i*nc+j],im.px[j*im.w+i],why),"element (%u,%u)=%g of %ux%u: %s",i,j,a[i*nc+j],nr,nc,why.c_str()); }
}
static const ImageGenerator::image_type TY[2]={ImageGenerator::IMAGE_TYPE_PNG,ImageGenerator::IMAGE_TYPE_PPM};
/* which way of naming the colour map */
static void save(mc::Ctx& c, int type, int way, const string& p, const vector<double>& a, unsigned nr, unsigned nc, Map& m, double& lo, double& hi) {
    lo=0; hi=1; switch (way) {
        case 0: m=GERI; ImageGenerator::gen(TY[type],p,a.data(),nr,nc,ImageGenerator::COLORMAP_GERIMAP); break;
        case 1: m=GRAY; ImageGenerator::gen(TY[type],p,a.data(),nr,nc,ImageGenerator::COLORMAP_GRAY); break;
        case 2: m=GERI; ImageGenerator::gen(TY[type],p,a.data(),nr,nc); break;
        case 3: { m=C3; lo=-2; hi=6; ImageColormap cm(m.data(),m.size(),lo,hi); ImageGenerator::gen(TY[type],p,a.data(),nr,nc,&cm); break; }
        default: { m=C4; lo=0.25; hi=0.75; ImageColormap cm(m.data(),m.size(),lo,hi); unique_ptr<ImageGenerator> g(ImageGenerator::GetImageGenerator(TY[type])); g->SaveImage(p,a.data(),nr,nc,&cm); break; } }
}
static const vector<double> VAL={0,1,0.5,-0.25,1.5,0.3,6,-2};
static void small(mc::Ctx& c) { // all matrices up to 2x2/1x4, 4x1 over an alphabet
    static const vector<pair<int,int>> SZ={{1,1},{1,2},{2,1},{2,2},{1,3},{3,1}}; int type=c.pick(2), way=c.pick(5); auto z=c.pickOf(SZ); unsigned nr=z.first,nc=z.second; vector<double> a; unsigned q=c.thorough? 8 : (nr*nc>3? 5 : 8); for (unsigned i=0;i<nr*nc;i++) a.push_back(VAL[c.pick(q)]);
    c.noteL([&]{ string s=mc::fmt("%s way %d %ux%u:",type?"PPM":"PNG",way,nr,nc); for (double x : a) s+=mc::fmt(" %g",x); return s; }); string p=c.scratch+(type?"/i.ppm":"/i.png"); Map m; double lo,hi; save(c,type,way,p,a,nr,nc,m,lo,hi); decodeAndCheck(c,type,p,a,nr,nc,m,lo,hi); mc::u64 h=type*5+way; for (double x : a) h=mc::mix(h,mc::hdbl(x)); c.state(mc::mix(h,nr));
}
static void placement(mc::Ctx& c) { // one element differs: every size, every position; and all elements different
    int type=c.pick(2); unsigned S=c.thorough?17:9, nr=1+c.pick(S), nc=1+c.pick(S), at=c.pick(nr*nc+1), way=c.pick(2)*3; vector<double> a(nr*nc,0.2); if (at==nr*nc) for (unsigned i=0;i<nr*nc;i++) a[i]=(double)((i*37+11)%(nr*nc+1))/(nr*nc); else a[at]=0.9;
    c.note(mc::fmt("%s %ux%u, element %u",type?"PPM":"PNG",nr,nc,at)); string p=c.scratch+(type?"/p.ppm":"/p.png"); Map m; double lo,hi; save(c,type,way,p,a,nr,nc,m,lo,hi); decodeAndCheck(c,type,p,a,nr,nc,m,lo,hi); c.state(mc::mix(mc::mix(nr,nc),at));
}
static void sizes(mc::Ctx& c) { int type=c.pick(2); static const vector<pair<int,int>> SZ={{1,300},{300,1},{64,65},{129,7},{256,256},{257,256},{300,310},{3,1000},{1,4097},{5000,2},{2,70000},{70001,1},{70000,3}}; auto z=c.pickOf(SZ); unsigned nr=z.first,nc=z.second; vector<double> a(nr*nc); for (unsigned i=0;i<nr*nc;i++) a[i]=(double)((i*7919u+13)%1009)/1008; Map m; double lo,hi; string p=c.scratch+"/big"; save(c,type,0,p,a,nr,nc,m,lo,hi); decodeAndCheck(c,type,p,a,nr,nc,m,lo,hi); c.state(nr*2000+nc); }
/* the colour map itself: dense values */
static void maps(mc::Ctx& c) {
    static const vector<Map> MS={GERI,GRAY,C3,C1,C4}; const Map& m=c.pickOf(MS); static const vector<pair<double,double>> R={{0,1},{-1,1},{2,3},{-5,-1},{1e-3,1e3},{1,1e9},{-0.5,0}}; auto r=c.pickOf(R); ImageColormap cm(m.data(),m.size(),r.first,r.second);
    int N=c.thorough?4000:512; vector<double> v; double w=r.second-r.first; for (int i=-N/8;i<=N+N/8;i++) v.push_back(r.first+w*i/N); for (double x : {1e9,1e12,1e19,1e300,HUGE_VAL}) { v.push_back(x); v.push_back(-x); } for (unsigned k=0;k<m.size();k++) { double x=r.first+w*k/max<size_t>(1,m.size()-1); v.push_back(x); v.push_back(nextafter(x,1e300)); v.push_back(nextafter(x,-1e300)); }
    for (double x : v) { Col g=cm.Eval(x); c.step(); string why; c.require(colourOK(m,r.first,r.second,x,{g.red,g.green,g.blue},why),"map of %zu colours on [%g,%g] at %.17g: %s",m.size(),r.first,r.second,x,why.c_str()); Col g2=cm.Eval(x); c.require(g2.red==g.red&&g2.green==g.green&&g2.blue==g.blue,"not repeatable"); }
    { Map copy=m; ImageColormap d(copy.data(),copy.size(),0,1); for (auto& x : copy) x={9,9,9}; Col g=d.Eval(0); c.require(g.red==m[0].red&&g.green==m[0].green&&g.blue==m[0].blue,"the map refers to the caller's colours"); } Col g=cm.Eval(NAN); c.require(g.red<=255&&g.green<=255&&g.blue<=255,"colour of a NaN"); c.state(mc::mix(m.size(),mc::hdbl(r.second)));
}
static void errors(mc::Ctx& c) { int k=c.pick(5); bool t=false; double a[1]={0.5}; string dir=c.scratch+"/none/x"; try { switch (k) { case 0: ImageGenerator::gen(TY[0],dir,a,1,1,ImageGenerator::COLORMAP_GRAY); break; case 1: ImageGenerator::gen(TY[1],dir,a,1,1,ImageGenerator::COLORMAP_GRAY); break; case 2: ImageGenerator::gen((ImageGenerator::image_type)7,c.scratch+"/y",a,1,1); break; case 3: ImageGenerator::gen(TY[0],c.scratch+"/y",a,1,1,(ImageGenerator::colormap_type)9); break; case 4: ImageGenerator::gen(TY[1],c.scratch+"/y",a,1,1,(ImageGenerator::colormap_type)9); break; } } catch (SOFTLibException&) { t=true; } c.step(); c.state(k); c.require(t,"case %d does not raise an exception",k); }
static void overwrite(mc::Ctx& c) { // a second, smaller or larger image replaces the first entirely
    int type=c.pick(2); static const vector<pair<int,int>> SZ={{1,1},{2,3},{5,4},{30,20}}; string p=c.scratch+"/o"; for (int i=0;i<3;i++) { auto z=c.pickOf(SZ); unsigned nr=z.first,nc=z.second; vector<double> a(nr*nc); for (unsigned k=0;k<nr*nc;k++) a[k]=((k*5+i*3)%11)/10.0; Map m; double lo,hi; save(c,type,i%2,p,a,nr,nc,m,lo,hi); decodeAndCheck(c,type,p,a,nr,nc,m,lo,hi); c.state(mc::mix(nr,i)); } }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "G01", {
        {"small", small, 4, "all matrices of 1..4 elements over 5-8 values (below, on, inside, above the range), 5 ways of giving the colour map, PNG and PPM"},
        {"placement", placement, 3, "all sizes up to 9x9 (thorough 17x17), one differing element at every position and all different, 2 maps, PNG and PPM"},
        {"sizes", sizes, 2, "13 large and elongated sizes, up to 210000 elements"},
        {"maps", maps, 2, "5 maps x 7 value ranges x >600 values including every node, its neighbours, far and infinite values"},
        {"overwrite", overwrite, 2, "all sequences of 3 images of 4 sizes written to the same file"},
        {"errors", errors, 1, "unwritable files, unknown formats and colour maps"},
    });
}
