// P23: XML documents keep their content through editing, printing, parsing, streams and files, and damaged ones do no harm.
#include "sim.h"
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <sstream>
#include <memory>
#include <tinyxml.h>
namespace {
enum K { DOC, EL, TX, CD, CM, UN, DE };
struct N { int k; std::string v; std::vector<std::pair<std::string, std::string>> at; std::vector<N> ch; int row, col; N() : k(EL), row(0), col(0) {} N(int kk, const std::string& s) : k(kk), v(s), row(0), col(0) {} };
enum Enc { UNKNOWN, UTF8, LEGACY };
// ---- words
const char* const NAMES[] = {"a", "pattern", "Edge", "_x", "n1", "ns:tag", "a-b", "a.b", "DataFlow", "x_1"};
std::string letter(Enc e) { static const char* const U[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9d\x84\x9e", "\xef\xbc\xa1", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbd", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"}; static const char* const S[] = {"a", "b", "Z", "0", "7", "-", ".", ":", "&", "<", ">", "\"", "'", ";", "/", "=", "!", "]", "?", "%", "x"}; uint32_t r = sim::wl(26); if (r < 21) return S[r]; if (r == 21) return " "; if (e == UTF8) return U[sim::wl(10)]; return std::string(1, (char)(e == LEGACY || e == UNKNOWN ? 0xa1 + sim::wl(0x40) : 'q')); }
std::string word(Enc e, int max, bool controls) { std::string s; int n = sim::wl(max + 1); for (int i = 0; i < n; i++) { std::string l = letter(e); if (controls && sim::wl(20) == 1) l = sim::wl(2) ? "\n" : "\t"; if (!s.empty() && s.back() == '&' && l[0] == '#') l = "."; s += l; } return s; }
std::string name() { std::string s = NAMES[sim::wl(10)]; if (sim::wl(4) == 1) s += sim::fmt("%d", (int)sim::wl(10)); return s; }
bool blank(const std::string& s) { for (char c : s) if (!isspace((unsigned char)c)) return false; return true; }
// plain spaces are condensed and trimmed; other white space is written as a reference and kept
std::string condensed(const std::string& s) { std::string r; bool sp = false; for (char c : s) { if (c == ' ') { sp = true; continue; } if (sp && !r.empty()) r += ' '; sp = false; r += c; } return r; }
std::string text(Enc e, bool controls) { for (int i = 0; i < 3; i++) { std::string s = condensed(word(e, 10, controls)); if (!blank(s)) return s; } return "t"; }
std::string raw(Enc e, const char* not1) { std::string s = word(e, 10, false), r; for (char c : s) { r += c; while (r.find(not1) != std::string::npos) r.pop_back(); } return r; }
std::string comment(Enc e) { std::string s = raw(e, "--"); while (!s.empty() && s.back() == '-') s.pop_back(); if (!s.empty() && (s[0] == '-' || s[0] == '>')) s = " " + s; if (sim::wl(4) == 1) s += "\nmore"; return s; }
std::string cdata(Enc e) { std::string s = raw(e, "]]>"); if (sim::wl(4) == 1) s += "\n <more>"; return s; }
N element(Enc e, int depth, int& budget, bool controls) {
    N n(EL, name()); int na = sim::wl(4); for (int i = 0; i < na; i++) { std::string a = name(); bool dup = false; for (auto& x : n.at) dup |= x.first == a; if (!dup) n.at.push_back({a, word(e, 8, controls)}); }
    int nc = depth > 5 ? 0 : sim::wl(5); for (int i = 0; i < nc && budget > 0; i++) { budget--; bool t = !n.ch.empty() && n.ch.back().k == TX; switch (sim::wl(8)) { case 0: case 1: case 2: case 3: n.ch.push_back(element(e, depth + 1, budget, controls)); break; case 4: case 5: if (!t) n.ch.push_back(N(TX, text(e, controls))); break; case 6: n.ch.push_back(N(sim::wl(2) ? CD : CM, "")); n.ch.back().v = n.ch.back().k == CD ? cdata(e) : comment(e); break; default: n.ch.push_back(N(UN, sim::wl(2) ? "?style x=1?" : "!ENTITY y")); } }
    return n;
}
struct Doc { N n; Enc e; bool bom; };
Doc draw(int budget, bool controls) {
    Doc d; d.n.k = DOC; d.bom = false; d.e = (Enc)sim::wl(3);
    if (d.e == UTF8 || d.e == LEGACY || sim::wl(2)) { N c(DE, ""); c.at.push_back({"version", "1.0"}); c.at.push_back({"encoding", d.e == UTF8 ? (sim::wl(2) ? "UTF-8" : "") : d.e == LEGACY ? "ISO-8859-1" : "UTF-8"}); c.at.push_back({"standalone", sim::wl(2) ? "" : "yes"}); d.n.ch.push_back(c); if (d.e == UNKNOWN) d.e = UTF8; }
    if (sim::wl(4) == 1) d.n.ch.push_back(N(UN, "!DOCTYPE pattern")); if (sim::wl(3) == 1) d.n.ch.push_back(N(CM, comment(d.e))); d.n.ch.push_back(element(d.e, 0, budget, controls)); if (sim::wl(3) == 1) d.n.ch.push_back(N(CM, comment(d.e))); return d;
}
// ---- to the library's objects
TiXmlNode* make(const N& n) {
    switch (n.k) {
    case TX: return new TiXmlText(n.v.c_str()); case CD: { TiXmlText* t = new TiXmlText(n.v); t->SetCDATA(true); return t; } case CM: { TiXmlComment* c = new TiXmlComment(); c->SetValue(n.v); return c; } case UN: { TiXmlUnknown* u = new TiXmlUnknown(); u->SetValue(n.v.c_str()); return u; }
    case DE: return new TiXmlDeclaration(n.at[0].second, n.at[1].second, n.at[2].second);
    default: { TiXmlElement* e = new TiXmlElement(n.v); for (auto& a : n.at) e->SetAttribute(a.first.c_str(), a.second.c_str()); for (auto& c : n.ch) e->LinkEndChild(make(c)); return e; }
    }
}
void fill(TiXmlDocument& d, const N& n) { for (auto& c : n.ch) d.LinkEndChild(make(c)); }
const char* kname(int k) { static const char* const T[] = {"document", "element", "text", "cdata", "comment", "unknown", "declaration"}; return T[k]; }
int kind(const TiXmlNode* t) { if (t->ToElement()) return EL; if (t->ToText()) return t->ToText()->CDATA() ? CD : TX; if (t->ToComment()) return CM; if (t->ToUnknown()) return UN; if (t->ToDeclaration()) return DE; return DOC; }
std::string show(const std::string& s) { std::string r; for (unsigned char c : s) if (c < 32 || c > 126) r += sim::fmt("\\x%02x", c); else r += c; return r; }
void compare(const N& n, const TiXmlNode* t, const char* when, bool where) {
    SIM_CHECK(kind(t) == n.k, "content", "%s: %s '%s' is a %s", when, kname(n.k), show(n.v).c_str(), kname(kind(t)));
    if (n.k != DOC && n.k != DE) SIM_CHECK(t->ValueStr() == n.v, "content", "%s: %s '%s' became '%s'", when, kname(n.k), show(n.v).c_str(), show(t->ValueStr()).c_str());
    if (where && n.row && n.k != DE) SIM_CHECK(t->Row() == n.row && t->Column() == n.col, "position", "%s: %s '%s' is at %d:%d, reported %d:%d", when, kname(n.k), show(n.v).c_str(), n.row, n.col, t->Row(), t->Column());
    if (n.k == DE) { const TiXmlDeclaration* d = t->ToDeclaration(); SIM_CHECK(n.at[0].second == d->Version() && n.at[1].second == d->Encoding() && n.at[2].second == d->Standalone(), "content", "%s: the declaration became '%s' '%s' '%s'", when, d->Version(), d->Encoding(), d->Standalone()); }
    if (n.k == EL) {
        const TiXmlElement* e = t->ToElement(); const TiXmlAttribute* a = e->FirstAttribute(); const TiXmlAttribute* last = 0;
        for (auto& x : n.at) { SIM_CHECK(a, "content", "%s: attribute %s of %s is lost", when, x.first.c_str(), n.v.c_str()); SIM_CHECK(x.first == a->Name() && x.second == a->Value(), "content", "%s: attribute %s='%s' became %s='%s'", when, x.first.c_str(), show(x.second).c_str(), show(a->Name()).c_str(), show(a->Value()).c_str()); SIM_CHECK(a->Previous() == last, "links", "%s: the attribute before %s is wrong", when, a->Name()); SIM_CHECK(e->Attribute(x.first.c_str()) && x.second == e->Attribute(x.first.c_str()), "content", "%s: asking for attribute %s gives something else", when, x.first.c_str()); last = a; a = a->Next(); }
        SIM_CHECK(!a, "content", "%s: %s has an additional attribute %s", when, n.v.c_str(), a ? show(a->Name()).c_str() : ""); SIM_CHECK(e->LastAttribute() == last, "links", "%s: the last attribute of %s is wrong", when, n.v.c_str()); SIM_CHECK(!e->Attribute("no-such"), "content", "an attribute that is not there");
        const char* txt = e->GetText(); bool has = !n.ch.empty() && (n.ch[0].k == TX || n.ch[0].k == CD); SIM_CHECK(has == !!txt && (!has || n.ch[0].v == txt), "content", "%s: text of %s is wrong", when, n.v.c_str());
    }
    const TiXmlNode* c = t->FirstChild(); const TiXmlNode* last = 0;
    for (auto& x : n.ch) { SIM_CHECK(c, "content", "%s: %s '%s' in '%s' is lost", when, kname(x.k), show(x.v).c_str(), n.v.c_str()); SIM_CHECK(c->Parent() == t, "links", "%s: the parent of '%s' is wrong", when, show(x.v).c_str()); SIM_CHECK(c->PreviousSibling() == last, "links", "%s: the node before '%s' is wrong", when, show(x.v).c_str()); compare(x, c, when, where); last = c; c = c->NextSibling(); }
    SIM_CHECK(!c, "content", "%s: '%s' contains an additional %s '%s'", when, n.v.c_str(), c ? kname(kind(c)) : "", c ? show(c->ValueStr()).c_str() : ""); SIM_CHECK(t->LastChild() == last, "links", "%s: the last child of '%s' is wrong", when, n.v.c_str());
}
// children by name, forwards and backwards, elements and handles
void navigate(const N& n, TiXmlNode* t) {
    std::string who = name(); std::vector<size_t> all, els; for (size_t i = 0; i < n.ch.size(); i++) if (n.ch[i].v == who && n.ch[i].k != DE) { all.push_back(i); if (n.ch[i].k == EL) els.push_back(i); }
    std::vector<TiXmlNode*> c; for (TiXmlNode* x = t->FirstChild(); x; x = x->NextSibling()) c.push_back(x); size_t i = 0; for (TiXmlNode* x = 0; (x = t->IterateChildren(who.c_str(), x)); i++) SIM_CHECK(i < all.size() && x == c[all[i]], "navigate", "iterating children named %s gives a wrong node", who.c_str()); SIM_CHECK(i == all.size(), "navigate", "iterating children named %s gives %zu of %zu", who.c_str(), i, all.size());
    i = all.size(); for (TiXmlNode* x = t->LastChild(who.c_str()); x; x = x->PreviousSibling(who.c_str())) { SIM_CHECK(i-- > 0 && x == c[all[i]], "navigate", "going back over %s gives a wrong node", who.c_str()); } SIM_CHECK(i == 0, "navigate", "going back over %s misses some", who.c_str());
    i = 0; for (TiXmlElement* x = t->FirstChildElement(who.c_str()); x; x = x->NextSiblingElement(who.c_str()), i++) SIM_CHECK(i < els.size() && x == c[els[i]], "navigate", "elements named %s: wrong one", who.c_str()); SIM_CHECK(i == els.size(), "navigate", "elements named %s: %zu of %zu", who.c_str(), i, els.size());
    TiXmlHandle h(t); int k = sim::wl(3); TiXmlElement* g = h.ChildElement(who.c_str(), k).ToElement(); SIM_CHECK(g == (k < (int)els.size() ? c[els[k]] : 0), "navigate", "handle: element %d named %s is wrong", k, who.c_str()); TiXmlNode* m = h.Child(k).ToNode(); SIM_CHECK(m == (k < (int)c.size() ? c[k] : 0), "navigate", "handle: child %d is wrong", k); SIM_CHECK(!h.ChildElement("no-such", 0).FirstChild().Child(2).ToNode(), "navigate", "a handle found what is not there");
    size_t j = 0; for (auto& x : n.ch) { if (x.k == EL) navigate(x, c[j]); j++; }
}
// ---- our own reader of what the library prints
struct Bad { std::string why; };
struct Reader {
    const std::string& s; size_t p; explicit Reader(const std::string& t) : s(t), p(0) {}
    bool at(const char* t) { return s.compare(p, strlen(t), t) == 0; } void need(const char* t) { if (!at(t)) throw Bad{sim::fmt("'%s' expected at %zu", t, p)}; p += strlen(t); } void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
    std::string until(const char* t) { size_t q = s.find(t, p); if (q == std::string::npos) throw Bad{sim::fmt("no '%s' after %zu", t, p)}; std::string r = s.substr(p, q - p); p = q + strlen(t); return r; }
    std::string nm() { size_t q = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr("_-.:", s[p]))) p++; if (p == q) throw Bad{sim::fmt("no name at %zu", p)}; return s.substr(q, p - q); }
    std::string dec(const std::string& t, bool condense) { std::string r; bool sp = false; for (size_t i = 0; i < t.size();) { unsigned char c = t[i]; if (condense && isspace(c)) { sp = true; i++; continue; } if (sp && !r.empty()) r += ' '; sp = false; if (c == '<') throw Bad{"raw '<'"}; if (c != '&') { r += c; i++; continue; } size_t q = t.find(';', i); if (q == std::string::npos) throw Bad{"'&' that starts no reference"}; std::string e = t.substr(i + 1, q - i - 1); i = q + 1; if (e == "amp") r += '&'; else if (e == "lt") r += '<'; else if (e == "gt") r += '>'; else if (e == "quot") r += '"'; else if (e == "apos") r += '\''; else if (e.size() > 2 && e[0] == '#' && e[1] == 'x') r += (char)strtol(e.c_str() + 2, 0, 16); else throw Bad{"unknown reference " + e}; } return r; }
    void attrs(N& n) { for (;;) { ws(); if (p >= s.size()) throw Bad{"open tag"}; if (s[p] == '>' || s[p] == '/' || s[p] == '?') return; std::string a = nm(); need("="); char q = s[p]; if (q != '"' && q != '\'') throw Bad{"unquoted attribute"}; p++; for (auto& x : n.at) if (x.first == a) throw Bad{"attribute twice"}; n.at.push_back({a, dec(until(q == '"' ? "\"" : "'"), false)}); } }
    N node() {
        if (at("<?xml ")) { p += 5; N n(DE, ""); N a; attrs(a); need("?>"); for (const char* w : {"version", "encoding", "standalone"}) { std::string v; for (auto& x : a.at) if (x.first == w) v = x.second; n.at.push_back({w, v}); } return n; }
        if (at("<!--")) { p += 4; return N(CM, until("-->")); } if (at("<![CDATA[")) { p += 9; return N(CD, until("]]>")); } if (at("<!") || at("<?")) { p += 1; return N(UN, until(">")); }
        need("<"); N n(EL, nm()); attrs(n); if (at("/>")) { p += 2; return n; } need(">");
        for (;;) { size_t q = s.find('<', p); if (q == std::string::npos) throw Bad{"no end of " + n.v}; std::string t = dec(s.substr(p, q - p), true); if (!t.empty()) n.ch.push_back(N(TX, t)); p = q; if (at("</")) { p += 2; need((n.v + ">").c_str()); return n; } n.ch.push_back(node()); }
    }
    N doc() { N d(DOC, ""); if (at("\xef\xbb\xbf")) p += 3; for (;;) { ws(); if (p >= s.size()) return d; d.ch.push_back(node()); } }
};
bool equal(const N& a, const N& b, std::string& why) { if (a.k != b.k || a.v != b.v || a.at != b.at || a.ch.size() != b.ch.size()) { why = sim::fmt("%s '%s' with %zu attributes and %zu children printed as %s '%s' with %zu and %zu", kname(a.k), show(a.v).c_str(), a.at.size(), a.ch.size(), kname(b.k), show(b.v).c_str(), b.at.size(), b.ch.size()); return false; } for (size_t i = 0; i < a.ch.size(); i++) if (!equal(a.ch[i], b.ch[i], why)) return false; return true; }
void printed(const N& n, const std::string& s, const char* how) { N r; std::string why; try { r = Reader(s).doc(); } catch (const Bad& b) { sim::fail("printed", "%s is no proper document (%s): %s", how, b.why.c_str(), show(s).substr(0, 300).c_str()); } SIM_CHECK(equal(n, r, why), "printed", "%s differs: %s", how, why.c_str()); }
// ---- our own writer, in many styles, knowing the positions
struct Writer {
    std::string s; std::string nl; Enc enc; bool stream; int tab; int r, c; size_t rootbegin, rootend, firsttag; bool tabs;
    void put(const std::string& t) { for (size_t i = 0; i < t.size(); i++) { unsigned char b = t[i]; if (b == '\r') { r++; c = 0; if (i + 1 < t.size() && t[i + 1] == '\n') { s += '\r'; i++; b = '\n'; } } else if (b == '\n') { r++; c = 0; } else if (b == '\t') c = (c / tab + 1) * tab; else if (enc != UTF8 || (b & 0xc0) != 0x80) c++; s += (char)b; } }
    std::string sp(bool need) { std::string t; int n = need + sim::wl(3); for (int i = 0; i < n; i++) { uint32_t k = sim::wl(6); t += k == 1 ? nl : k == 2 && tabs ? "\t" : " "; } return t; }
    std::string enc1(unsigned char ch, char quote) { switch (ch) { case '&': return sim::wl(2) ? "&amp;" : "&#38;"; case '<': return sim::wl(2) ? "&lt;" : "&#x3C;"; case '>': return quote && !stream && sim::wl(2) ? ">" : "&gt;"; case '"': return quote == '"' || sim::wl(2) ? "&quot;" : "\""; case '\'': return quote == '\'' || sim::wl(2) ? "&apos;" : "'"; case '\n': return "&#x0A;"; case '\t': return sim::wl(2) ? "&#9;" : "&#x9;"; } if (ch < 128 && ch > 32 && sim::wl(12) == 1) return sim::fmt(sim::wl(2) ? "&#%d;" : sim::wl(2) ? "&#x%x;" : "&#x%04X;", ch); return std::string(1, (char)ch); }
    std::string enctext(const std::string& v, char quote) { std::string t; for (size_t i = 0; i < v.size(); i++) { if (!quote && v[i] == ' ') { t += sp(true); continue; } if (enc == UTF8 && (unsigned char)v[i] >= 0xc0 && sim::wl(3) == 1) { unsigned char b = v[i]; int k = b >= 0xf0 ? 3 : b >= 0xe0 ? 2 : 1; uint32_t u = b & (0x3f >> k); for (int j = 1; j <= k; j++) u = u << 6 | (v[i + j] & 0x3f); t += sim::fmt(sim::wl(2) ? "&#%u;" : "&#x%X;", u); i += k; continue; } t += enc1((unsigned char)v[i], quote); } return t; }
    void node(N& n) {
        n.row = r + 1; n.col = c + 1;
        switch (n.k) {
        case TX: put(enctext(n.v, 0)); return;
        case CD: put("<![CDATA[" + n.v + "]]>"); return; case CM: put("<!--" + n.v + "-->"); return; case UN: put("<" + n.v + ">"); return;
        case DE: put(sim::wl(4) == 1 ? "<?XML" : "<?xml"); for (auto& a : n.at) if (!a.second.empty()) { bool dq = sim::wl(2); put(sp(true) + a.first + "=" + (dq ? "\"" : "'") + a.second + (dq ? "\"" : "'")); } put(" ?>"); return;
        }
        put("<" + n.v); for (auto& a : n.at) { bool dq = sim::wl(2); char q = dq ? '"' : '\''; put(sp(true) + a.first); if (sim::wl(5) == 1) put(sp(false)); put("="); if (sim::wl(5) == 1) put(sp(false)); put(q + enctext(a.second, q) + q); }
        if (n.ch.empty() && sim::wl(3)) { put(sp(false) + "/>"); return; } put(sp(false) + ">"); bool text = true; for (auto& x : n.ch) { put(sp(false)); node(x); text = x.k == TX; } if (!n.ch.empty() && sim::wl(2)) put(sp(false)); (void)text; put("</" + n.v + ">");
    }
    void doc(Doc& d) { r = c = 0; if (d.bom) s += "\xef\xbb\xbf"; if (d.n.ch[0].k != DE && sim::wl(4) == 1) put(sp(true)); for (size_t i = 0; i < d.n.ch.size(); i++) { if (i && !(d.n.ch[0].k == DE && i == 0)) put(sp(false)); bool root = d.n.ch[i].k == EL; if (root) rootbegin = s.size(); if (!i) firsttag = s.size(); node(d.n.ch[i]); if (root) rootend = s.size(); } put(sp(false)); }
};
std::string write(Doc& d, bool file, bool stream, Writer& w) { w.nl = sim::wl(3) == 1 ? "\r\n" : "\n"; if (file && sim::wl(4) == 1) w.nl = "\r"; w.enc = d.e; w.stream = stream; w.tab = 4; w.tabs = true; w.doc(d); return w.s; }
void nopos(N& n) { n.row = 0; for (auto& c : n.ch) nopos(c); }
void describe(const char* what, const Doc& d, const std::string& s) { sim::sample(sim::fmt("%s: %zu top nodes, encoding %d, %zu bytes: %s", what, d.n.ch.size(), (int)d.e, s.size(), show(s).substr(0, 120).c_str())); }
std::string print(TiXmlDocument& d, int how) {
    if (how == 0) { TiXmlPrinter* p = new TiXmlPrinter; d.Accept(p); std::string r; { sim::Rt q; r = p->CStr(); } delete p; return r; }
    if (how == 1) { TiXmlPrinter* p = new TiXmlPrinter; p->SetIndent("\t"); p->SetLineBreak("\r\n"); d.Accept(p); std::string r; { sim::Rt q; r = p->CStr(); } delete p; return r; }
    if (how == 2) { std::ostringstream* o; { o = new std::ostringstream; } *o << d; std::string r; { sim::Rt q; r = o->str(); } delete o; return r; }
    if (how == 3) { std::string* o = new std::string("x"); *o << d; std::string r; { sim::Rt q; r = o->substr(1); } delete o; return r; }
    std::string f = sim::fmt("/sim/print%d.xml", sim::self()); bool ok = d.SaveFile(f.c_str()); SIM_CHECK(ok, "save", "saving failed without a fault"); sim::Rt q; return simos::content(f);
}
void parse(TiXmlDocument& d, const std::string& s, int how, TiXmlEncoding e = TIXML_DEFAULT_ENCODING) {
    if (how == 0) { char* b = new char[s.size() + 1]; memcpy(b, s.c_str(), s.size() + 1); d.Parse(b, 0, e); memset(b, 'Z', s.size()); delete[] b; return; }
    if (how == 1) { std::string f = sim::fmt("/sim/load%d.xml", sim::self()); simos::put(f, s); d.LoadFile(f, e); return; }
    std::istringstream* in = new std::istringstream(s); *in >> d; delete in;
}
}
SCENARIO(roundtrip, 4) {
    Doc* d; { sim::Rt r; d = new Doc(draw(25, true)); } uint64_t before = sim::live_blocks(); { TiXmlDocument* t = new TiXmlDocument; fill(*t, d->n); { sim::Rt r; compare(d->n, t, "built", false); } int how = sim::wl(5); std::string s = print(*t, how); { sim::Rt r; describe("roundtrip", *d, s); printed(d->n, s, how == 4 ? "the saved file" : how >= 2 ? "the streamed text" : "the printed text"); sim::mix(sim::fnv(s)); }
        TiXmlDocument* u = new TiXmlDocument; int via = sim::wl(2); { sim::Rt r; } parse(*u, s, via); SIM_CHECK(!u->Error(), "reparse", "the printed text is refused: %s (%s)", u->ErrorDesc(), show(s).substr(0, 300).c_str()); { sim::Rt r; compare(d->n, u, "printed and parsed", false); sim::probe("roundtrip"); navigate(d->n, u); } delete u; delete t; }
    { sim::Rt r; uint64_t now = sim::live_blocks(); SIM_CHECK(now <= before, "leak", "%llu blocks leaked", (unsigned long long)(now - before)); } sim::heap_check(); sim::nontrivial();
}
SCENARIO(foreign, 4) {
    Doc* d; Writer* w; std::string s; int how = sim::wl(3); { sim::Rt r; d = new Doc(draw(25, true)); d->bom = how != 2 && d->e == UTF8 && sim::wl(3) == 1; w = new Writer; s = write(*d, how == 1, how == 2, *w); describe("foreign", *d, s); sim::mix(sim::fnv(s)); }
    uint64_t before = sim::live_blocks(); { TiXmlDocument* t = new TiXmlDocument; if (sim::wl(3) == 1) { Doc o; { sim::Rt r; int b = 5; o.n.k = DOC; o.n.ch.push_back(element(UNKNOWN, 0, b, false)); } fill(*t, o.n); t->Clear(); }
        parse(*t, s, how); SIM_CHECK(!t->Error(), "refused", "a proper document is refused: %s at %d:%d (%s)", t->ErrorDesc(), t->ErrorRow(), t->ErrorCol(), show(s).substr(0, 400).c_str());
        { sim::Rt r; if (how == 2) { while (d->n.ch.back().k != EL) d->n.ch.pop_back(); } bool pos = how == 1 || (how == 0 && w->nl != "\r"); compare(d->n, t, how == 1 ? "loaded" : how == 2 ? "streamed" : "parsed", pos); sim::probe("foreign-style"); if (d->bom) sim::probe("byte-order-mark"); }
        if (how == 1 && sim::wl(2)) { if (sim::wl(3) == 1) { TiXmlDocument* u = new TiXmlDocument; if (sim::wl(2)) { delete u; u = new TiXmlDocument(*t); } else *u = *t; delete t; t = u; } std::string again = print(*t, 4); sim::Rt r; nopos(d->n); printed(d->n, again, "the file saved again"); if (d->bom) SIM_CHECK(again.compare(0, 3, "\xef\xbb\xbf") == 0, "printed", "the byte order mark got lost"); } delete t; }
    { sim::Rt r; uint64_t now = sim::live_blocks(); SIM_CHECK(now <= before, "leak", "%llu blocks leaked", (unsigned long long)(now - before)); } sim::heap_check(); sim::nontrivial();
}
namespace {
TiXmlNode* nth(TiXmlNode* t, size_t i) { TiXmlNode* c = t->FirstChild(); while (i--) c = c->NextSibling(); return c; }
// a random container: the document or any element
void walk(N* n, TiXmlNode* t, std::vector<std::pair<N*, TiXmlNode*>>& v) { if (n->k == EL || n->k == DOC) v.push_back({n, t}); TiXmlNode* c = t->FirstChild(); for (auto& x : n->ch) { walk(&x, c, v); c = c->NextSibling(); } }
N piece(Enc e) { int b = 3; switch (sim::wl(5)) { case 0: return N(TX, text(e, true)); case 1: return N(CM, comment(e)); case 2: return N(CD, cdata(e)); default: return element(e, 4, b, true); } }
}
SCENARIO(edits, 4) {
    Doc* d; { sim::Rt r; d = new Doc(draw(15, true)); describe("edits", *d, ""); } uint64_t before = sim::live_blocks(); { TiXmlDocument* t = new TiXmlDocument("name"); fill(*t, d->n); int steps = 3 + sim::wl(20);
        for (int i = 0; i < steps; i++) {
            std::vector<std::pair<N*, TiXmlNode*>>* v; N* n; TiXmlNode* p; N* a; int op = sim::wl(14); size_t k = 0; { sim::Rt r; v = new std::vector<std::pair<N*, TiXmlNode*>>; walk(&d->n, t, *v); auto x = (*v)[sim::wl(v->size())]; n = x.first; p = x.second; a = new N(piece(d->e)); if (!n->ch.empty()) k = sim::wl(n->ch.size()); delete v; }
            const char* what = ""; bool kids = !n->ch.empty();
            switch (op) {
            case 0: what = "append"; p->LinkEndChild(make(*a)); { sim::Rt r; n->ch.push_back(*a); } break;
            case 1: { what = "append copy"; TiXmlNode* x = make(*a); TiXmlNode* y = p->InsertEndChild(*x); delete x; SIM_CHECK(y && y == p->LastChild(), "links", "the appended node is not the last"); sim::Rt r; n->ch.push_back(*a); break; }
            case 2: if (kids) { what = "insert before"; TiXmlNode* x = make(*a); TiXmlNode* y = p->InsertBeforeChild(nth(p, k), *x); delete x; SIM_CHECK(y && y == nth(p, k), "links", "the inserted node is elsewhere"); sim::Rt r; n->ch.insert(n->ch.begin() + k, *a); } break;
            case 3: if (kids) { what = "insert after"; TiXmlNode* x = make(*a); TiXmlNode* y = p->InsertAfterChild(nth(p, k), *x); delete x; SIM_CHECK(y && y == nth(p, k + 1), "links", "the inserted node is elsewhere"); sim::Rt r; n->ch.insert(n->ch.begin() + k + 1, *a); } break;
            case 4: if (kids) { what = "replace"; TiXmlNode* x = make(*a); TiXmlNode* y = p->ReplaceChild(nth(p, k), *x); delete x; SIM_CHECK(y && y == nth(p, k), "links", "the replacing node is elsewhere"); sim::Rt r; n->ch[k] = *a; } break;
            case 5: if (kids) { what = "remove"; SIM_CHECK(p->RemoveChild(nth(p, k)), "refused", "removing failed"); sim::Rt r; n->ch.erase(n->ch.begin() + k); } break;
            case 6: if (n->k == EL) { what = "set attribute"; std::string an, av; { sim::Rt r; an = name(); av = word(d->e, 8, true); } TiXmlElement* e = p->ToElement(); uint32_t f = sim::wl(3); int iv = (int)sim::wl(2000) - 1000; if (f == 0) e->SetAttribute(an.c_str(), av.c_str()); else if (f == 1) e->SetAttribute(an, av); else { e->SetAttribute(an.c_str(), iv); av = sim::fmt("%d", iv); int got = 0; SIM_CHECK(e->QueryIntAttribute(an.c_str(), &got) == TIXML_SUCCESS && got == iv, "content", "attribute %s=%d reads as %d", an.c_str(), iv, got); double dg = 0; SIM_CHECK(e->QueryDoubleAttribute(an.c_str(), &dg) == TIXML_SUCCESS && dg == iv, "content", "attribute reads as %g", dg); int vg = 0; SIM_CHECK(e->QueryValueAttribute(an, &vg) == TIXML_SUCCESS && vg == iv, "content", "attribute reads as %d", vg); } sim::Rt r; bool f2 = false; for (auto& x : n->at) if (x.first == an) { x.second = av; f2 = true; } if (!f2) n->at.push_back({an, av}); } break;
            case 7: if (n->k == EL) { what = "remove attribute"; std::string an; { sim::Rt r; an = n->at.empty() || sim::wl(3) == 1 ? name() : n->at[sim::wl(n->at.size())].first; } p->ToElement()->RemoveAttribute(an.c_str()); sim::Rt r; for (size_t j = 0; j < n->at.size(); j++) if (n->at[j].first == an) { n->at.erase(n->at.begin() + j); break; } } break;
            case 8: if (n->k == EL) { what = "rename"; std::string s; { sim::Rt r; s = name(); } p->SetValue(s); sim::Rt r; n->v = s; } break;
            case 9: if (sim::wl(3) == 1) { what = "clear"; p->Clear(); sim::Rt r; n->ch.clear(); } break;
            case 10: { what = "copy document"; TiXmlDocument* u = sim::wl(2) ? new TiXmlDocument(*t) : (TiXmlDocument*)((TiXmlNode*)t)->Clone(); delete t; t = u; SIM_CHECK(!t->Error() && t->ValueStr() == "name", "content", "the copy of the document has another name or an error"); break; }
            case 11: { what = "assign document"; TiXmlDocument* u = new TiXmlDocument; if (sim::wl(2)) fill(*u, d->n); *u = *t; delete t; t = u; break; }
            case 12: if (n->k == EL) { what = "copy element"; TiXmlElement* e = p->ToElement(); TiXmlElement* c = new TiXmlElement("other"); c->SetAttribute("old", "1"); c->LinkEndChild(new TiXmlText("old")); *c = *e; { sim::Rt r; compare(*n, c, "copied element", false); } delete c; } break;
            default: { what = "refusals"; SIM_CHECK(!p->InsertBeforeChild(0, *t->FirstChild()) || !t->FirstChild(), "accepted", "insertion before nothing"); TiXmlElement* x = new TiXmlElement("x"); TiXmlElement* y = new TiXmlElement("y"); SIM_CHECK(!p->InsertBeforeChild(x, *y) && !p->InsertAfterChild(x, *y), "accepted", "insertion next to a node that is elsewhere"); TiXmlDocument* u = new TiXmlDocument; SIM_CHECK(!p->InsertEndChild(*u) && t->Error() && t->ErrorId() == TiXmlBase::TIXML_ERROR_DOCUMENT_TOP_ONLY, "accepted", "a document inside a document"); t->ClearError(); delete u; delete x; delete y; }
            }
            { sim::Rt r; sim::ev("%s", what); delete a; compare(d->n, t, *what ? what : "nothing done", false); if (*what) sim::probe("edit"); }
            if (sim::wl(6) == 1) { sim::Rt r; navigate(d->n, t); }
        }
        delete t; }
    { sim::Rt r; uint64_t now = sim::live_blocks(); SIM_CHECK(now <= before, "leak", "%llu blocks leaked", (unsigned long long)(now - before)); } sim::heap_check(); sim::nontrivial();
}
SCENARIO(files, 4) {
    Doc* d; { sim::Rt r; d = new Doc(draw(sim::wl(3) == 1 ? 400 : 20, true)); if (sim::wl(3) == 1) { N big(CD, std::string(3000 + sim::wl(9000), 'x')); for (auto& c : d->n.ch) if (c.k == EL) c.ch.push_back(big); } describe("files", *d, ""); }
    TiXmlDocument* t = new TiXmlDocument("/sim/doc.xml"); fill(*t, d->n); SIM_CHECK(t->SaveFile("/sim/good.xml"), "save", "saving failed without a fault"); std::string good; { sim::Rt r; good = simos::content("/sim/good.xml"); printed(d->n, good, "the saved file"); if (sim::wl(2)) simos::put("/sim/doc.xml", "old"); }
    { sim::Rt r; simos::Faults& f = simos::faults(); switch (sim::wl(5)) { case 0: f.capacity = sim::draw(sim::FA, good.size() * 2 + 10) + good.size(); break; case 1: f.write_eio = 300; break; case 2: f.write_short = 500; f.write_enospc = sim::wl(2) * 200; break; case 3: f.open_fail = 400; f.close_fail = 300; f.close_loses = sim::wl(2); break; default: f.write_eintr = 300; f.close_fail = 200; f.close_loses = true; } }
    uint64_t f0 = simos::total_faults(); bool ok = sim::wl(2) ? t->SaveFile() : t->SaveFile("/sim/doc.xml"); uint64_t fired = simos::total_faults() - f0; simos::faults_off();
    { sim::Rt r; std::string c = simos::exists("/sim/doc.xml") ? simos::content("/sim/doc.xml") : "(none)"; if (ok) { SIM_CHECK(c == good, "silent-loss", "saving succeeded but the file has %zu of %zu bytes", c.size(), good.size()); sim::probe("saved"); } else { SIM_CHECK(fired > 0, "save", "saving failed without a fault"); sim::probe("save-failure-reported"); } SIM_CHECK(simos::open_fds().empty(), "descriptor-leak", "the file is left open"); }
    delete t; TiXmlDocument* u = new TiXmlDocument; if (sim::wl(2)) u->LinkEndChild(new TiXmlElement("old"));
    { sim::Rt r; simos::Faults& f = simos::faults(); switch (sim::wl(4)) { case 0: f.read_eio = 400; break; case 1: f.read_short = 500; f.read_eintr = sim::wl(2) * 200; break; case 2: f.open_fail = 400; f.close_fail = 300; break; default: f.seek_fail = 300; } }
    f0 = simos::total_faults(); bool in = sim::wl(2) ? u->LoadFile("/sim/good.xml") : (u->SetValue("/sim/good.xml"), u->LoadFile()); fired = simos::total_faults() - f0; simos::faults_off(); { sim::Rt r; SIM_CHECK(simos::open_fds().empty(), "descriptor-leak", "the file is left open"); SIM_CHECK(in == !u->Error(), "error", "loading returned %d, but the error state is %d", in, u->Error()); if (in) { compare(d->n, u, "loaded", false); sim::probe("loaded"); } else { SIM_CHECK(fired > 0, "refused", "loading failed without a fault: %s", u->ErrorDesc()); sim::probe("load-failure-reported"); } }
    SIM_CHECK(u->LoadFile("/sim/good.xml"), "refused", "loading failed after an earlier failure: %s", u->ErrorDesc()); { sim::Rt r; compare(d->n, u, "loaded after a failure", false); } SIM_CHECK(!u->LoadFile("/sim/none.xml") && u->Error() && u->ErrorId() == TiXmlBase::TIXML_ERROR_OPENING_FILE, "error", "loading a file that is not there"); delete u; sim::heap_check(); sim::nontrivial();
}
namespace {
void consistent(const TiXmlNode* t, int depth) { const TiXmlNode* last = 0; SIM_CHECK(depth < 3000, "links", "endless tree"); if (t->ToElement()) { int n = 0; for (const TiXmlAttribute* a = t->ToElement()->FirstAttribute(); a; a = a->Next()) { SIM_CHECK(++n < 100000, "links", "endless attributes"); sim::mix(sim::fnv(a->Value())); } } for (const TiXmlNode* c = t->FirstChild(); c; c = c->NextSibling()) { SIM_CHECK(c->Parent() == t && c->PreviousSibling() == last, "links", "a damaged document left wrong links"); consistent(c, depth + 1); last = c; } SIM_CHECK(t->LastChild() == last, "links", "a damaged document left a wrong last child"); }
}
SCENARIO(damage, 5) {
    Doc* d; Writer* w; std::string s; int how = sim::wl(3); bool cut = sim::wl(3) == 1; size_t at = 0; { sim::Rt r; d = new Doc(draw(15, true)); d->bom = how != 2 && d->e == UTF8 && sim::wl(4) == 1; w = new Writer; s = write(*d, how == 1, how == 2, *w);
        if (cut) { at = w->rootbegin + 1 + sim::draw(sim::FA, w->rootend - w->rootbegin - 1); s.resize(at); sim::fault("cut-off"); }
        else { static const char* const SP[] = {"<", ">", "/", "!", "-", "--", "-->", "<!--", "<![CDATA[", "]]>", "&", "&#", "&#x", ";", "\"", "'", "=", " ", "\n", "\r", "\t", "\xef", "\xef\xbb", "\xef\xbb\xbf", "\xc3", "\xf0", "\xe2\x82", "</", "/>", "<?xml", "?>", "x", "&#x110000;", "&#99999999999;", "a=\"1\" a=\"2\""}; int k = 1 + sim::draw(sim::FA, 4); for (int i = 0; i < k; i++) { size_t p = sim::draw(sim::FA, s.size() + 1); switch (sim::draw(sim::FA, 6)) { case 0: s.resize(p); sim::fault("cut-off"); break; case 1: { size_t q = p + sim::draw(sim::FA, 12); if (q > s.size()) q = s.size(); s.erase(p, q - p); sim::fault("bytes-lost"); break; } case 2: s.insert(p, SP[sim::draw(sim::FA, 35)]); sim::fault("bytes-inserted"); break; case 3: if (p < s.size()) { s[p] = (char)(sim::draw(sim::FA, 8) ? sim::draw(sim::FA, 256) : 0); sim::fault("byte-changed"); } break; case 4: { size_t q = sim::draw(sim::FA, s.size() + 1); s.insert(p, s.substr(q, 20)); sim::fault("bytes-repeated"); break; } default: s.insert(p, 1, (char)SP[sim::draw(sim::FA, 35)][0]); sim::fault("bytes-inserted"); } } if (sim::draw(sim::FA, 8) == 1) { s += SP[21 + sim::draw(sim::FA, 6)]; sim::fault("bytes-inserted"); } } describe("damage", *d, s); sim::mix(sim::fnv(s)); }
    uint64_t before = sim::live_blocks(); sim::step_budget(3000000); { TiXmlDocument* t = new TiXmlDocument; parse(*t, s, how, sim::wl(4) == 1 ? TIXML_ENCODING_UTF8 : TIXML_DEFAULT_ENCODING);
        { sim::Rt r; consistent(t, 0); if (cut) { SIM_CHECK(t->Error(), "unnoticed", "a document cut off inside its root element (byte %zu of %zu) is taken as complete: %s", at, w->rootend, show(s).substr(0, 400).c_str()); sim::probe("cut-off-noticed"); } else sim::probe(t->Error() ? "damage-noticed" : "damage-tolerated"); }
        std::string p = print(*t, sim::wl(5)); TiXmlDocument* u = new TiXmlDocument(*t); { sim::Rt r; sim::mix(sim::fnv(p)); consistent(u, 0); } delete u;
        Doc g; { sim::Rt r; g = draw(5, false); } t->Clear(); t->ClearError(); Writer v; std::string gs; { sim::Rt r; gs = write(g, false, false, v); } parse(*t, gs, 0); SIM_CHECK(!t->Error(), "refused", "after a damaged document a proper one is refused: %s", t->ErrorDesc()); { sim::Rt r; nopos(g.n); compare(g.n, t, "parsed after a damaged document", false); } delete t; }
    { sim::Rt r; uint64_t now = sim::live_blocks(); SIM_CHECK(now <= before, "leak", "%llu blocks leaked", (unsigned long long)(now - before)); } sim::heap_check(); sim::nontrivial();
}
SCENARIO(memory, 2) {
    Doc* d; Writer* w; std::string s; int how = sim::wl(5); { sim::Rt r; d = new Doc(draw(12, true)); w = new Writer; s = write(*d, how == 1, how == 2, *w); if (how == 2) while (d->n.ch.back().k != EL) d->n.ch.pop_back(); nopos(d->n); describe("memory", *d, s); } TiXmlDocument* t = new TiXmlDocument; if (how >= 3) fill(*t, d->n);
    bool oom = false; sim::fail_alloc(1 + sim::draw(sim::FA, 80), sim::wl(2)); try { if (how < 3) parse(*t, s, how); else if (how == 3) { TiXmlDocument* u = new TiXmlDocument(*t); delete u; } else print(*t, sim::wl(4)); } catch (const std::bad_alloc&) { oom = true; } bool fired = sim::alloc_fault_fired(); sim::fail_alloc(0, false);
    { sim::Rt r; if (fired) sim::fault("out-of-memory"); SIM_CHECK(!oom || fired, "error", "out of memory without a failure"); consistent(t, 0); if (oom) sim::probe("out-of-memory"); else if (how < 3 && !fired) compare(d->n, t, "parsed", false); }
    if (how < 3) { t->Clear(); t->ClearError(); parse(*t, s, how); SIM_CHECK(!t->Error(), "refused", "after running out of memory a proper document is refused: %s", t->ErrorDesc()); } { sim::Rt r; compare(d->n, t, "after running out of memory", false); } delete t; sim::heap_check(); sim::nontrivial();
}
SCENARIO(parallel, 2) {
    int n = 2 + sim::wl(2); std::vector<Doc>* ds; { sim::Rt r; ds = new std::vector<Doc>; for (int i = 0; i < n; i++) ds->push_back(draw(8, true)); } sim::sched_random();
    for (int i = 0; i < n; i++) sim::spawn([ds, i]() { Doc& d = (*ds)[i]; TiXmlDocument* t = new TiXmlDocument; fill(*t, d.n); std::string s = print(*t, i % 4); { sim::Rt r; printed(d.n, s, "text printed beside other documents"); } delete t; t = new TiXmlDocument; parse(*t, s, 0); { sim::Rt r; SIM_CHECK(!t->Error(), "refused", "beside other documents a proper one is refused: %s", t->ErrorDesc()); compare(d.n, t, "beside other documents", false); sim::probe("documents-in-parallel"); } delete t; }, "document");
    sim::join_all(); sim::heap_check(); sim::nontrivial();
}
