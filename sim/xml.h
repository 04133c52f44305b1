// A small XML reader, independent of the one under test.
#pragma once
#include <string>
#include <vector>
#include <map>
struct XNode {
    std::string name; std::vector<std::pair<std::string, std::string>> attr; std::vector<XNode> kids;
    bool has(const std::string& k) const { for (auto& a : attr) if (a.first == k) return true; return false; }
    std::string at(const std::string& k) const { for (auto& a : attr) if (a.first == k) return a.second; return ""; }
    const XNode* child(const std::string& k) const { for (auto& n : kids) if (n.name == k) return &n; return nullptr; }
};
struct XReader {
    const std::string& s; size_t i = 0; XReader(const std::string& t) : s(t) {}
    [[noreturn]] void bad(const std::string& m) { throw std::string(m + " at byte " + std::to_string(i)); }
    void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
    bool starts(const char* p) { return s.compare(i, strlen(p), p) == 0; }
    void misc() { for (;;) { ws(); if (starts("<?")) { i = s.find("?>", i); if (i == s.npos) { i = s.size(); bad("unfinished declaration"); } i += 2; } else if (starts("<!--")) { i = s.find("-->", i); if (i == s.npos) { i = s.size(); bad("unfinished comment"); } i += 3; } else return; } }
    std::string word() { size_t b = i; while (i < s.size() && !isspace((unsigned char)s[i]) && s[i] != '=' && s[i] != '>' && s[i] != '/' && s[i] != '<' && s[i] != '"') i++; if (b == i) bad("name expected"); return s.substr(b, i - b); }
    std::string text(const std::string& v) {
        std::string o; for (size_t k = 0; k < v.size(); k++) { if (v[k] != '&') { if (v[k] == '<') bad("'<' inside an attribute"); o += v[k]; continue; } size_t e = v.find(';', k); if (e == v.npos) bad("bad entity"); std::string n = v.substr(k + 1, e - k - 1); k = e;
            if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
            else if (n[0] == '#') { long u = n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : strtol(n.c_str() + 1, 0, 10); if (u < 0x80) o += (char)u; else if (u < 0x800) { o += (char)(0xC0 | u >> 6); o += (char)(0x80 | (u & 63)); } else { o += (char)(0xE0 | u >> 12); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); } } else bad("unknown entity"); }
        return o;
    }
    XNode element() {
        if (i >= s.size() || s[i] != '<') bad("element expected"); i++; XNode n; n.name = word();
        for (;;) { ws(); if (starts("/>")) { i += 2; return n; } if (i < s.size() && s[i] == '>') { i++; break; } std::string k = word(); ws(); if (i >= s.size() || s[i] != '=') bad("'=' expected"); i++; ws(); char q = i < s.size() ? s[i] : 0; if (q != '"' && q != '\'') bad("quote expected"); size_t b = ++i; while (i < s.size() && s[i] != q) i++; if (i >= s.size()) bad("unfinished attribute"); if (n.has(k)) bad("attribute given twice"); n.attr.push_back({k, text(s.substr(b, i - b))}); i++; }
        for (;;) { size_t b = i; while (i < s.size() && s[i] != '<') i++; (void)b; if (i >= s.size()) bad("element " + n.name + " is not closed"); if (starts("<!--")) { misc(); continue; } if (starts("</")) { i += 2; std::string w = word(); if (w != n.name) bad("element " + n.name + " closed by " + w); ws(); if (i >= s.size() || s[i] != '>') bad("'>' expected"); i++; return n; } n.kids.push_back(element()); }
    }
};
static inline XNode xmlParse(const std::string& t) { XReader r(t); r.misc(); XNode n = r.element(); r.misc(); if (r.i < t.size()) r.bad("text after the document"); return n; }
