/* C03: configuration trees under all short histories of add / lookup / merge / copy / destroy. */
#include <array>
#include <memory>
#include "scriptref.h"
#include <softlib/SOFTLibException.h>
using namespace std;

struct MSet { vector<string> v; bool touched=false; };
struct MB { size_t type=0; string name, sec; vector<pair<string,MSet>> set; vector<shared_ptr<MB>> sub;
    MSet *find(const string& n) { for (auto& s : set) if (s.first==n) return &s.second; return nullptr; }
    MB *findb(size_t t, const string& n) { for (auto& b : sub) if (b->type==t && b->name==n) return b.get(); return nullptr; }
    shared_ptr<MB> clone() const { auto r=make_shared<MB>(); r->type=type; r->name=name; r->sec=sec; for (auto& s : set) { MSet m; m.v=s.second.v; r->set.push_back({s.first,m}); } for (auto& b : sub) r->sub.push_back(b->clone()); return r; }
    void add(const string& n, const vector<string>& v) { if (auto *m=find(n)) m->v=v; else { MSet s; s.v=v; set.push_back({n,s}); } }
    void merge(const MB& o, bool allow, vector<string>& unk) {
        for (auto& s : o.set) { if (auto *m=find(s.first)) m->v=s.second.v; else if (allow) { MSet q; q.v=s.second.v; set.push_back({s.first,q}); } else unk.push_back(s.first); }
        for (auto& b : o.sub) { if (auto *t=findb(b->type,b->name)) t->merge(*b,allow,unk); else if (allow) sub.push_back(b->clone()); else unk.push_back(b->name); }
    }
    string dump() const { string s=mc::fmt("%zu:",type)+name+"("+sec+"){"; for (auto& x : set) { s+=x.first+(x.second.touched?"!":"")+"="; for (auto& v : x.second.v) s+=v+","; s+=";"; } for (auto& b : sub) s+=b->dump(); return s+"}"; }
};
static const vector<string> NAMES={"x","y"};
static bool nearNames=false;
static void compare(mc::Ctx& c, ConfigBlock *r, MB& m, const char *which) {
    c.require(r->GetType()==m.type && r->GetName()==m.name && r->GetSecondaryType()==(m.sec.empty()?m.name:m.sec), "%s: block identity is %zu/%s/%s, expected %zu/%s/%s", which, (size_t)r->GetType(), r->GetName().c_str(), r->GetSecondaryType().c_str(), m.type, m.name.c_str(), m.sec.c_str());
    c.require(r->HasType(m.type) && !r->HasType(m.type+1) && r->HasTypeAndName(m.type,m.name) && !r->HasTypeAndName(m.type,m.name+"q"), "%s: type/name queries wrong", which);
    auto ss=r->GetAllSettings(); c.require(ss.size()==m.set.size(), "%s: block '%s' has %zu settings, expected %zu (%s)", which, m.name.c_str(), ss.size(), m.set.size(), m.dump().c_str());
    bool unt=false; size_t nu=0;
    for (Setting *s : ss) { MSet *q=m.find(s->GetName()); c.require(q, "%s: unexpected setting '%s'", which, s->GetName().c_str());
        c.require(s->GetTextVector()==q->v, "%s: setting '%s' has a wrong value", which, s->GetName().c_str());
        c.require(s->Touched()==q->touched, "%s: setting '%s' is %s", which, s->GetName().c_str(), s->Touched()?"marked touched though it was never looked up":"not marked touched though it was looked up");
        if (!q->touched) { unt=true; nu++; } }
    c.require(r->HasUntouchedSettings()==unt && r->GetUntouchedSettings().size()==nu, "%s: untouched settings misreported", which);
    for (auto& n : NAMES) c.require(r->HasSetting(n)==(m.find(n)!=nullptr), "%s: HasSetting(%s) wrong", which, n.c_str());
    // names are compared in full: every prefix of a name, a longer name and another case are other names
    auto near=[](const string& n) { set<string> v={n+n,n+"q","q"+n,n+" "}; for (size_t k=0;k<n.size();k++) { v.insert(n.substr(0,k)); v.insert(n.substr(k+1)); } string u=n; for (char& ch : u) ch=isupper((unsigned char)ch)?tolower(ch):toupper(ch); v.insert(u); return v; };
    if (nearNames) for (auto& x : m.set) for (auto& n : near(x.first)) c.require(r->HasSetting(n)==(m.find(n)!=nullptr), "%s: HasSetting(%s) wrong", which, n.c_str());
    if (nearNames) for (auto& b : m.sub) for (auto& n : near(b->name)) { c.require(r->HasSubBlock(b->type,n)==(m.findb(b->type,n)!=nullptr) && (r->GetConfigBlock(b->type,n)!=nullptr)==(m.findb(b->type,n)!=nullptr), "%s: a sub-block named '%s' is found", which, n.c_str()); }
    auto bs=r->GetAllSubBlocks(); c.require(bs.size()==m.sub.size(), "%s: %zu sub-blocks, expected %zu", which, bs.size(), m.sub.size());
    c.require(r->HasSubBlocks()==!m.sub.empty(), "%s: HasSubBlocks wrong", which);
    for (ConfigBlock *b : bs) { MB *q=m.findb(b->GetType(),b->GetName()); c.require(q, "%s: unexpected sub-block", which);
        c.require(b->HasParent() && b->GetParent()==r, "%s: sub-block '%s' does not have its containing block as parent", which, b->GetName().c_str());
        c.require(*b==*b && r->HasSubBlock(q->type,q->name) && r->GetConfigBlock(q->type,q->name)==b, "%s: sub-block lookup wrong", which);
        compare(c,b,*q,which); }
    for (size_t t=1;t<=2;t++) { size_t k=0; for (auto& b : m.sub) if (b->type==t) k++;
        c.require(r->HasSubBlocks(t)==(k>0) && r->GetAllSubBlocksOfType(t).size()==k, "%s: sub-blocks by type wrong", which);
        for (auto& n : {"n","m"}) { c.require(r->HasSubBlock(t,n)==(m.findb(t,n)!=nullptr), "%s: HasSubBlock wrong", which); c.require((r->GetConfigBlock(t,n)!=nullptr)==(m.findb(t,n)!=nullptr), "%s: GetConfigBlock wrong", which); } }
}
struct World { vector<ConfigBlock*> r; vector<shared_ptr<MB>> m; ~World() { for (auto *x : r) delete x; } };
static shared_ptr<MB> mroot() { auto b=make_shared<MB>(); b->name="<root>"; return b; }

static void history(mc::Ctx& c) {
    World W; for (int i=0;i<2;i++) { W.r.push_back(new ConfigBlock(0,"<root>")); W.m.push_back(mroot()); }
    int depth=c.thorough?5:4;
    // starting points: empty, or two overlapping trees
    int start=c.pick(2);
    if (start) {
        auto mk=[&](int t, const string& sx, bool blk1) { W.r[t]->AddSetting(new SettingScript("x",sx)); W.m[t]->add("x",{sx});
            ConfigBlock *b=W.r[t]->AddSubBlock(blk1?1:2,"n",blk1?"s":""); auto mb=make_shared<MB>(); mb->type=blk1?1:2; mb->name="n"; mb->sec=blk1?"s":""; W.m[t]->sub.push_back(mb);
            b->AddSetting(new SettingScript("y","0")); mb->add("y",{"0"}); };
        mk(0,"p",true); mk(1,"q",false); ConfigBlock *b=W.r[1]->AddSubBlock(1,"n"); auto mb=make_shared<MB>(); mb->type=1; mb->name="n"; W.m[1]->sub.push_back(mb); b->AddSetting(new SettingScript("x",vector<string>{"7","8"})); mb->add("x",{"7","8"});
    }
    for (int d=0; d<depth; d++) {
        int op=c.pick(start?14:12); int nt=(int)W.r.size();
        auto blockOf=[&](int t, bool sub, MB *&mm)->ConfigBlock* { mm=W.m[t].get(); ConfigBlock *b=W.r[t]; if (sub) { if (mm->sub.empty()) return nullptr; MB *s=mm->sub[0].get(); b=b->GetConfigBlock(s->type,s->name); mm=s; } return b; };
        string n; MB *mm;
        switch (op) {
            case 0: case 1: case 2: { int t= op==2; ConfigBlock *b=blockOf(t,op==1,mm); n="add x=1 to "+to_string(t); if (b) { b->AddSetting(new SettingScript("x","1")); mm->add("x",{"1"}); } } break;
            case 3: { int t=c.pick(2); ConfigBlock *b=blockOf(t,t==1,mm); n="add y=2,3"; if (b) { Setting *s=b->AddSetting(new SettingScript("y",vector<string>{"2","3"})); mm->add("y",{"2","3"}); c.require(s->GetName()=="y"&&s->GetNumberOfValues()==2,"AddSetting returned a wrong setting"); } } break;
            case 4: { int t=c.pick(2); n="add block 1 n(s)"; ConfigBlock *b=W.r[t]->AddSubBlock(1,"n","s"); MB *q=W.m[t]->findb(1,"n"); if (!q) { auto nb=make_shared<MB>(); nb->type=1; nb->name="n"; nb->sec="s"; W.m[t]->sub.push_back(nb); } c.require(b==W.r[t]->GetConfigBlock(1,"n"),"AddSubBlock returned a wrong block"); } break;
            case 5: { int t=c.pick(2); n="add block 2 n"; W.r[t]->AddSubBlock(2,"n"); if (!W.m[t]->findb(2,"n")) { auto nb=make_shared<MB>(); nb->type=2; nb->name="n"; W.m[t]->sub.push_back(nb); } } break;
            case 6: { int t=c.pick(nt); bool sub=c.flip(); ConfigBlock *b=blockOf(t,sub,mm); n="lookup x in "+to_string(t)+(sub?"/sub":""); if (b) { Setting *s= t==0? b->GetSetting(string("x")) : b->GetSetting("x"); MSet *q=mm->find("x"); c.require((s!=nullptr)==(q!=nullptr),"lookup of x wrong"); if (q) { q->touched=true; c.require(s->GetTextVector()==q->v,"looked-up value wrong"); } } } break;
            case 7: { int t=c.pick(2); n="[y] in "+to_string(t); MSet *q=W.m[t]->find("y"); bool threw=false; string v; try { v=(*W.r[t])["y"]; } catch (SOFTLibException&) { threw=true; } c.require(threw==(q==nullptr),"[] on a %s setting", q?"present":"missing"); if (q) { q->touched=true; c.require(v==q->v[0],"[] returned %s",v.c_str()); } } break;
            case 8: case 9: case 10: { int t= op==9?1:0, s= op==8?1:op==9?0:(nt>2?2:0); bool allow=c.flip(); n=mc::fmt("merge %d <- %d %s",t,s,allow?"allowNew":"strict"); vector<string> unk; auto src=W.m[s]->clone(); W.m[t]->merge(*src,allow,unk); vector<string> *u=W.r[t]->Merge(W.r[s],allow); multiset<string> a(unk.begin(),unk.end()), b; if (u) b.insert(u->begin(),u->end());
                c.require(allow? u==nullptr : (u!=nullptr)==!unk.empty(), "merge result list is %s", u?"present":"absent"); c.require(a==b,"merge reported wrong names"); delete u; } break;
            case 11: { n="copy 0"; ConfigBlock *cp=new ConfigBlock(W.r[0]); auto mcp=W.m[0]->clone(); if (nt>2) { delete W.r[2]; W.r[2]=cp; W.m[2]=mcp; } else { W.r.push_back(cp); W.m.push_back(mcp); } } break;
            case 12: { n="destroy 1 and start it anew"; delete W.r[1]; W.r[1]=new ConfigBlock(0,"<root>"); W.m[1]=mroot(); } break;
            case 13: { int t=c.pick(2); n="attach a prebuilt block (type 1, n) to "+to_string(t); auto *nb=new ConfigBlock(1,"n"); nb->AddSetting(new SettingScript("y","5")); bool had=W.m[t]->findb(1,"n"); ConfigBlock *ret=W.r[t]->AddSubBlock(nb); if (!had) { auto q=make_shared<MB>(); q->type=1; q->name="n"; q->add("y",{"5"}); W.m[t]->sub.push_back(q); } c.require(ret==W.r[t]->GetConfigBlock(1,"n"),"AddSubBlock returned a wrong block"); if (had) delete nb; } break;
        }
        c.step(); c.note(n);
        mc::u64 h=1; for (size_t t=0;t<W.r.size();t++) { compare(c,W.r[t],*W.m[t],t==0?"tree 0":t==1?"tree 1":"copy"); h=mc::mix(h,mc::hstr(W.m[t]->dump())); }
        c.state(h);
    }
}
/* trees with many settings, many sub-blocks and many levels; names that are prefixes of one another */
static void wide(mc::Ctx& c) {
    static vector<string> SN={"x","xx","X","xy","y","yx","long_name_1","long_name_10","long_name_","z9"}, BN={"n","nn","N","na","a","an","block_1","block_10"};
    if (SN.size()==10) { for (int i=0;i<30;i++) SN.push_back("s"+to_string(i)); for (int i=0;i<16;i++) BN.push_back("b"+to_string(i)); }
    struct Shape { int set, sub, dep, ns; };
    auto build=[&](int set, int sub, int dep, int shift, int nval, ConfigBlock *b, MB& m, auto&& self) -> void {
        for (int i=0;i<set;i++) { const string& n=SN[(i+shift)%SN.size()]; vector<string> v; for (int k=0;k<nval;k++) v.push_back(to_string(100*shift+10*dep+i+k)); b->AddSetting(new SettingScript(n,v)); m.add(n,v); }
        if (dep==0) return;
        for (int i=0;i<sub;i++) { size_t t=1+(i+shift)%2; const string& n=BN[(i+shift)%BN.size()]; string sec= i%3==1? "sec" : ""; ConfigBlock *q=b->AddSubBlock(t,n,sec); auto mb=make_shared<MB>(); mb->type=t; mb->name=n; mb->sec=sec; m.sub.push_back(mb); self(set,sub,dep-1,shift,nval,q,*mb,self); } };
    static const vector<int> NS={0,1,2,3,4,7,10,18,33}; static const vector<array<int,2>> SD={{0,0},{1,1},{2,1},{3,1},{4,1},{5,1},{8,1},{17,1},{1,3},{1,6},{1,12},{2,2},{3,2},{4,2},{2,3}};
    int set=c.pickOf(NS), set2=c.thorough? c.pickOf(NS) : c.pick(2)*4; auto sd=c.pickOf(SD); static const vector<array<int,2>> SQ={{0,0},{2,1},{8,1},{1,6},{3,2},{4,2}}; auto sd2= c.thorough? c.pickOf(SD) : c.pickOf(SQ); nearNames=false; int shift=c.pick(c.thorough?4:2), nval=c.pick(c.thorough?2:1)*4+1; bool allow=c.flip(); int touch=c.pick(2);
    ConfigBlock *a=new ConfigBlock(0,"<root>"), *b=new ConfigBlock(0,"<root>"); auto ma=mroot(), mb=mroot(); build(set,sd[0],sd[1],0,nval,a,*ma,build); build(set2,sd2[0],sd2[1],shift,nval+shift,b,*mb,build);
    c.note(mc::fmt("a: %d settings, %d sub-blocks, %d levels; b: %d, %d, %d, names shifted by %d; %s",set,sd[0],sd[1],set2,sd2[0],sd2[1],shift,allow?"allowNew":"strict"));
    nearNames=true; compare(c,a,*ma,"a"); nearNames=false; compare(c,b,*mb,"b");
    if (touch) for (auto& s : ma->set) { a->GetSetting(s.first); s.second.touched=true; if (touch) break; }
    ConfigBlock *cp=new ConfigBlock(a); auto mcp=ma->clone(); compare(c,cp,*mcp,"copy");
    vector<string> unk; ma->merge(*mb,allow,unk); vector<string> *u=a->Merge(b,allow); c.step(); multiset<string> x(unk.begin(),unk.end()), y; if (u) y.insert(u->begin(),u->end()); c.require((u!=nullptr)==!unk.empty() && x==y,"merge reports %zu unknown names, not %zu",y.size(),x.size()); delete u;
    compare(c,a,*ma,"a after merge"); compare(c,b,*mb,"b after merge"); compare(c,cp,*mcp,"copy after merge");
    delete b; compare(c,a,*ma,"a after destroying b"); ConfigBlock *cp2=new ConfigBlock(a); delete a; compare(c,cp2,*ma->clone(),"copy of the merged tree after destroying it"); compare(c,cp,*mcp,"copy after destroying a"); delete cp; delete cp2;
    c.state(mc::hstr(ma->dump(),allow));
}
/* blocks of hundreds of settings and sub-blocks, chains of hundreds of levels, settings of hundreds of values, hundreds of block types */
static void many(mc::Ctx& c) {
    int kind=c.pick(4), n=c.pickOf(vector<int>{63,64,65,127,128,129,255,256,257,300,600}), n2=c.pickOf(vector<int>{1,2,255,256,300}); bool allow=c.flip(); nearNames=false;
    c.note(mc::fmt("%d and %d %s; %s",n,n2,kind==0?"settings":kind==1?"sub-blocks":kind==2?"levels":"values and types",allow?"allowNew":"strict"));
    auto build=[&](ConfigBlock *b, MB& m, int k, int shift) { for (int i=0;i<k;i++) { string nm="n"+to_string(i+shift); vector<string> v={to_string(i+7*shift)}; if (kind==0) { b->AddSetting(new SettingScript(nm,v)); m.add(nm,v); } else if (kind==3) { if (i) continue; v.clear(); for (int q=0;q<k;q++) v.push_back(to_string(q+shift)); b->AddSetting(new SettingScript("v",v)); m.add("v",v); } else { size_t t=1+i%2; string q= kind==2? "l" : nm; ConfigBlock *x=b->AddSubBlock(t,q); auto mb=make_shared<MB>(); mb->type=t; mb->name=q; m.sub.push_back(mb); x->AddSetting(new SettingScript("s",v)); mb->add("s",v); if (kind==2) { ConfigBlock *y=b; MB *my=&m; y=x; my=mb.get(); for (int j=1;j<k;j++) { vector<string> w={to_string(j+shift)}; y=y->AddSubBlock(1+j%2,"l"); auto mm=make_shared<MB>(); mm->type=1+j%2; mm->name="l"; my->sub.push_back(mm); my=mm.get(); y->AddSetting(new SettingScript("s",w)); my->add("s",w); } break; } } } };
    ConfigBlock *a=new ConfigBlock(0,"<root>"), *b=new ConfigBlock(0,"<root>"); auto ma=mroot(), mb=mroot(); build(a,*ma,n,0); build(b,*mb,n2,n/2); compare(c,a,*ma,"a"); compare(c,b,*mb,"b");
    if (kind==0) for (int i : {n-1,n/2,0}) { string nm="n"+to_string(i); Setting *s=a->GetSetting(nm); c.require(s&&s->GetTextVector()==ma->find(nm)->v,"setting %d of %d",i,n); ma->find(nm)->touched=true; }
    ConfigBlock *cp=new ConfigBlock(a); auto mcp=ma->clone(); compare(c,cp,*mcp,"copy");
    vector<string> unk; ma->merge(*mb,allow,unk); vector<string> *u=a->Merge(b,allow); c.step(); multiset<string> x(unk.begin(),unk.end()), y; if (u) y.insert(u->begin(),u->end()); c.require((u!=nullptr)==!unk.empty() && x==y,"merge reports %zu unknown names, not %zu",y.size(),x.size()); delete u;
    compare(c,a,*ma,"a after merge"); compare(c,b,*mb,"b after merge"); delete b; compare(c,cp,*mcp,"copy after merge"); delete a; compare(c,cp,*mcp,"copy after destroying a"); delete cp;
    if (kind==3&&n2==1&&allow) { ConfigurationScript s; for (int i=1;i<=n;i++) c.require(s.RegisterBlockType("T"+to_string(i))==(confblock_t)i,"id of type %d",i); for (int i=1;i<=n;i++) c.require(s.IsBlockType("T"+to_string(i))&&s.StringToBlockType("T"+to_string(i))==(confblock_t)i,"type %d of %d",i,n); c.require(s.GetBlockTypes().size()==(size_t)n+1&&!s.IsBlockType("T"+to_string(n+1)),"%d types",n); s.FromString("T"+to_string(n)+" q { x = 1; } T1 q { x = 2; }"); c.require(!s.HasError()&&s.GetRootBlock()->GetAllSubBlocks().size()==2&&s.GetRootBlock()->GetConfigBlock(n,"q")&&(*s.GetRootBlock()->GetConfigBlock(n,"q"))["x"]=="1"&&(*s.GetRootBlock()->GetConfigBlock(1,"q"))["x"]=="2","blocks of type %d and 1",n); }
    c.state(mc::mix(kind*2+allow,mc::mix(n,n2))); }
/* settings without any value, also as the source and the target of additions and merges */
static void valueless(mc::Ctx& c) {
    auto mk=[&](int k) { vector<string> v; for (int i=0;i<k;i++) v.push_back(to_string(10*k+i)); return v; };
    ConfigBlock *a=new ConfigBlock(0,"<root>"), *b=new ConfigBlock(0,"<root>"); auto ma=mroot(), mb=mroot();
    int n[5]; for (int& x : n) x=c.pick(4)-1; // number of values, or no such setting: a.x, b.x, b.y, a/n.x, b/n.x
    auto put=[&](ConfigBlock *r, MB& m, const char *s, int k) { if (k>=0) { r->AddSetting(new SettingScript(s,mk(k))); m.add(s,mk(k)); } };
    put(a,*ma,"x",n[0]); put(b,*mb,"x",n[1]); put(b,*mb,"y",n[2]); for (int t=0;t<2;t++) { ConfigBlock *q=(t?b:a)->AddSubBlock(1,"n"); auto m=make_shared<MB>(); m->type=1; m->name="n"; (t?mb:ma)->sub.push_back(m); put(q,*m,"x",n[3+t]); }
    int again=c.pick(4)-1, allow=c.pick(2); put(a,*ma,"x",again); c.note(mc::fmt("values: %d %d %d %d %d, again %d, %s",n[0],n[1],n[2],n[3],n[4],again,allow?"allowNew":"strict")); compare(c,a,*ma,"a"); compare(c,b,*mb,"b");
    ConfigBlock *cp=new ConfigBlock(a); auto mcp=ma->clone(); vector<string> unk; ma->merge(*mb,allow,unk); vector<string> *u=a->Merge(b,allow); c.step(); c.require((u?u->size():0)==unk.size(),"merge reports %zu names, not %zu",u?u->size():0,unk.size()); delete u;
    compare(c,a,*ma,"a after merge"); compare(c,b,*mb,"b after merge"); compare(c,cp,*mcp,"copy"); delete a; delete b; compare(c,cp,*mcp,"copy after destruction"); delete cp; c.state(mc::hstr(ma->dump(),allow));
}
/* whole configurations: copy construction and merge through the Configuration interface, with parsed text */
static void configs(mc::Ctx& c) {
    static const vector<string> T={"","x=1;","x=2;y=3;","B n{x=1;}","B n(s){y=4 5;}x=9;","B n{Dd n{x=1;}}","Dd n{y=1;}B n{}"};
    static const vector<string> TY={"/root","B","Dd"};
    ConfigurationScript a, b; for (auto *p : {&a,&b}) { p->RegisterBlockType("B"); p->RegisterBlockType("Dd"); }
    const string& ta=c.pickOf(T), &tb=c.pickOf(T); a.FromString(ta); b.FromString(tb);
    ref::Blk ra, rb; ref::parse(ta,TY,ra); ref::parse(tb,TY,rb);
    int nt=c.pick(3)*2; for (int i=0;i<nt;i++) { a.RegisterBlockType("more"+to_string(i)); b.RegisterBlockType("more"+to_string(i)); } int err=c.pick(2); if (err) { a.SetErrorFlag(); c.require(a.HasError(),"the error flag is not set"); }
    bool allow=c.flip(); int when=c.pick(3);  // copy a before merge, after merge, copy b
    auto conv=[&](const ref::Blk& x){ function<shared_ptr<MB>(const ref::Blk&,bool)> f=[&](const ref::Blk& y, bool root){ auto m=make_shared<MB>(); m->type= root?0:(y.type=="B"?1:2); m->name=root?"<root>":y.name; m->sec=root?"<root>":y.sec; for (auto& s : y.set) m->add(s.first,s.second); for (auto& s : y.sub) m->sub.push_back(f(s.second,false)); return m; }; return f(x,true); };
    auto ma=conv(ra), mb=conv(rb);
    c.note("a="+mc::show(ta)+" b="+mc::show(tb)+(allow?" allowNew":" strict")+" when="+to_string(when));
    ConfigurationScript *cp=nullptr; shared_ptr<MB> mcp;
    if (when==0) { cp=new ConfigurationScript(a); mcp=ma->clone(); }
    vector<string> unk; ma->merge(*mb,allow,unk); vector<string> *u=a.Merge(b,allow); c.step();
    multiset<string> x(unk.begin(),unk.end()), y; if (u) y.insert(u->begin(),u->end()); c.require(x==y && (u==nullptr)==unk.empty(),"merge reported wrong names"); delete u;
    if (when==1) { cp=new ConfigurationScript(a); mcp=ma->clone(); }
    if (when==2) { cp=new ConfigurationScript((const Configuration&)b); mcp=mb->clone(); }
    compare(c,a.GetRootBlock(),*ma,"a"); compare(c,b.GetRootBlock(),*mb,"b"); compare(c,cp->GetRootBlock(),*mcp,"copy");
    c.require(cp->IsBlockType("B") && cp->StringToBlockType("Dd")==2 && cp->GetBlockTypes()==a.GetBlockTypes() && cp->GetBlockTypes().size()==(size_t)3+nt,"copied configuration lost its block types"); c.require(cp->HasError()==(err&&when!=2) && a.HasError()==(err!=0) && !b.HasError(),"the error flag of the %s is %d",when==2?"copy of b":"copy",(int)cp->HasError()); c.require(cp->GetFilename()==(when==2?b:a).GetFilename(),"copied configuration has another file name"); c.require(cp->RegisterBlockType("late")==(confblock_t)(3+nt) && !a.IsBlockType("late") && !b.IsBlockType("late"),"registering a type with the copy affects the original");
    // mutate the copy, destroy the source, look again
    cp->GetRootBlock()->AddSetting(new SettingScript("x","new")); mcp->add("x",{"new"});
    delete b.GetRootBlock(); compare(c,a.GetRootBlock(),*ma,"a after destroying b"); compare(c,cp->GetRootBlock(),*mcp,"copy after destroying b");
    delete a.GetRootBlock(); compare(c,cp->GetRootBlock(),*mcp,"copy after destroying a"); delete cp->GetRootBlock(); delete cp;
    c.state(mc::hstr(ma->dump())+when);
}
static void registry(mc::Ctx& c) {
    static const vector<string> N1={"B","Dd","x",""}, N2={string(70,'t'),string(69,'t')+"u",string(300,'t'),"T"+string(69,'t')}; const vector<string>& N= c.flip()? N2 : N1;
    ConfigurationScript s; vector<string> m={"/root"}; int d=c.thorough?5:4; { auto e=mroot(); compare(c,s.GetRootBlock(),*e,"root of a new configuration"); c.require(!s.HasError() && !s.GetRootBlock()->HasParent() && s.GetFilename().empty(),"a new configuration is not empty"); }
    for (int i=0;i<d;i++) {
        const string& n=c.pickOf(N); bool dup=false; for (auto& q : m) if (q==n) dup=true;
        bool threw=false; confblock_t id=0; try { id=s.RegisterBlockType(n); } catch (SOFTLibException&) { threw=true; }
        c.step(); c.note("register "+mc::show(n));
        c.require(threw==dup,"registering %s: %s", mc::show(n).c_str(), dup?"duplicate accepted":"refused"); if (!dup) { c.require(id==m.size(),"wrong id"); m.push_back(n); }
        for (auto& q : N) { size_t k=0; for (;k<m.size();k++) if (m[k]==q) break; bool known=k<m.size(); c.require(s.IsBlockType(q)==known,"IsBlockType(%s)",q.c_str()); if (known) c.require(s.StringToBlockType(q)==k,"StringToBlockType(%s)",q.c_str()); }
        c.require(s.GetBlockTypes()==m,"block type list wrong"); mc::u64 h=3; for (auto& q : m) h=mc::hstr(q,h); c.state(h);
    }
}
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr);
    return mc::run(argc, argv, "C03", {
        {"history", history, 3, "every sequence of 4 (thorough 5) operations out of 12-14 (with argument choices) from 2 starting worlds of two trees and a copy; full comparison of all trees after every step"},
        {"wide", wide, 3, "all pairs (quick: second tree from 2x6 of the 9x15) of trees of 0-33 settings per block and 15 sub-block shapes (up to 17 sub-blocks, up to 12 levels), overlapping or shifted names that are prefixes of one another, x merge mode x marking; copies, merges and destruction"},
        {"many", many, 3, "2 blocks of up to 600 settings, sub-blocks, levels or values (11 x 5 counts around 64, 128 and 256), copied and merged in both modes; up to 600 registered block types"},
        {"valueless", valueless, 2, "settings of 0-2 values or absent, in two trees and their sub-blocks, added again, copied and merged in both modes (8192 combinations)"},
        {"configs", configs, 2, "all pairs of 7 parsed configurations x merge mode x copy time x number of registered types x error flag, with mutation and destruction of each party"},
        {"registry", registry, 1, "all sequences of 4 (thorough 5) registrations of 4 short or 4 long names"},
    });
}
