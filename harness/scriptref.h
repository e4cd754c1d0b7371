/* Reference semantics of the configuration script language, written from the
 * grammar in property C01 and independent of the implementation. */
#pragma once
#include <map>
#include <string>
#include <vector>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include "mc.h"

namespace ref {
struct Blk {
    std::string type, name, sec;
    std::map<std::string, std::vector<std::string>> set;
    std::map<std::pair<std::string,std::string>, Blk> sub;
    std::string dump(const std::string& ind="") const {
        std::string s;
        for (auto& k : set) { s+=ind+mc::show(k.first)+"="; for (auto& v : k.second) s+=mc::show(v)+","; s+=";"; }
        for (auto& b : sub) s+=ind+b.second.type+" "+mc::show(b.second.name)+"("+mc::show(b.second.sec)+"){"+b.second.dump(ind)+"}";
        return s;
    }
};
enum Verdict { OK, BAD, UNSPEC };
struct Tok { enum K { WORD, QUOTED, SYM, END } k; std::string s; };

struct Parser {
    std::vector<std::string> types; std::vector<Tok> t; size_t p=0; bool unspec=false;
    bool isType(const std::string& s) { for (auto& x : types) if (x==s) return true; return false; }
    /// false: lexically invalid
    bool lex(const std::string& x) {
        std::string w; size_t i=0, n=x.size();
        auto flush=[&]{ if (!w.empty()) { t.push_back({Tok::WORD,w}); w.clear(); } };
        while (i<n) {
            char c=x[i];
            if (c=='#') { flush(); while (i<n && x[i]!='\n') i++; continue; }
            if (c==' '||c=='\t'||c=='\n'||c==',') { flush(); i++; continue; }
            if (c=='"') { flush(); size_t j=i+1; while (j<n && x[j]!='"') j++; if (j>=n) return false; t.push_back({Tok::QUOTED,x.substr(i+1,j-i-1)}); i=j+1; continue; }
            if (strchr("=(){};",c)) { flush(); t.push_back({Tok::SYM,std::string(1,c)}); i++; continue; }
            w+=c; i++;
        }
        flush(); t.push_back({Tok::END,""}); return true;
    }
    bool word() { return t[p].k==Tok::WORD || t[p].k==Tok::QUOTED; }
    bool sym(const char *s) { return t[p].k==Tok::SYM && t[p].s==s; }
    /// statements until END or '}'
    bool stmts(Blk& b, bool root) {
        for (;;) {
            if (t[p].k==Tok::END) return root;
            if (sym("}")) { if (root) return false; p++; return true; }
            if (!word()) return false;
            if (t[p].k==Tok::QUOTED && (t[p].s.empty() || isType(t[p].s))) unspec=true;
            std::string w=t[p].s; 
            if (isType(w)) {
                p++; if (!word()) return false;
                if (t[p].k==Tok::QUOTED && t[p].s.empty()) unspec=true;
                std::string nm=t[p].s, sec; p++;
                if (sym("(")) {
                    p++; if (!word()) return false;
                    if (isType(t[p].s) || (t[p].k==Tok::QUOTED && t[p].s.empty())) unspec=true;
                    sec=t[p].s; p++; if (!sym(")")) return false; p++;
                }
                if (!sym("{")) return false; p++;
                auto key=std::make_pair(w,nm); auto it=b.sub.find(key);
                if (it==b.sub.end()) { Blk nb; nb.type=w; nb.name=nm; nb.sec=sec.empty()?nm:sec; it=b.sub.emplace(key,nb).first; }
                if (!stmts(it->second,false)) return false;
            } else {
                p++; if (!sym("=")) return false; p++;
                std::vector<std::string> v; while (word()) { v.push_back(t[p].s); p++; }
                if (v.empty() || !sym(";")) return false; p++;
                b.set[w]=v;
            }
        }
    }
};
inline Verdict parse(const std::string& text, const std::vector<std::string>& types, Blk& out) {
    Parser P; P.types=types; out=Blk(); 
    if (!P.lex(text)) return BAD;
    bool ok=P.stmts(out,true);
    if (P.unspec) return UNSPEC;
    return ok?OK:BAD;
}

/// read the implementation's tree through its public interface
inline Blk snapshot(ConfigBlock *cb, const std::vector<std::string>& types, mc::Ctx *c=nullptr) {
    Blk b; b.type = cb->GetType()<types.size()? types[cb->GetType()] : mc::fmt("#%zu",(size_t)cb->GetType()); b.name=cb->GetName(); b.sec=cb->GetSecondaryType();
    for (Setting *s : cb->GetAllSettings()) {
        if (c) c->require(b.set.find(s->GetName())==b.set.end(), "setting %s listed twice", s->GetName().c_str());
        b.set[s->GetName()]=s->GetTextVector();
    }
    for (ConfigBlock *x : cb->GetAllSubBlocks()) {
        Blk y=snapshot(x,types,c); auto key=std::make_pair(y.type,y.name);
        if (c) { c->require(b.sub.find(key)==b.sub.end(), "block %s %s listed twice", y.type.c_str(), y.name.c_str());
                 c->require(x->GetParent()==cb, "sub-block '%s' does not have its containing block as parent", y.name.c_str()); }
        b.sub.emplace(key,y);
    }
    return b;
}
inline bool same(const Blk& a, const Blk& b) { return a.dump()==b.dump(); }
} // namespace ref
