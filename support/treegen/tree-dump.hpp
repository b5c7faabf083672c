// Offline substitute: text and JSON dumpers with the layout of tree-gen's generated dumpers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace tree::dump {
inline std::string trimmed(std::string s) {
    auto p = s.find_last_not_of(" \n\r\t\v\f");
    return p == std::string::npos ? std::string() : s.substr(0, p + 1);
}
class Text {
    std::ostream& out; int indent;
    void ind(int extra = 0) { for (int k = 0; k < indent + extra; ++k) out << "  "; }
public:
    Text(std::ostream& o, int i, const char* cls) : out(o), indent(i) { ind(); out << cls << "("; }
    template <class L> void location(const L& l) { out << " # " << l; }
    void open() { out << "\n"; ++indent; }
    void close() { --indent; ind(); out << ")\n"; }
    void empty() { out << ")\n"; }
    template <class P> void prim(const char* name, const char* type, const P& p) {
        std::ostringstream ss; ss << p;
        auto s = ss.str();
        auto pos = s.find_last_not_of(" \n\r\t");
        s = pos == std::string::npos ? std::string() : s.substr(0, pos + 1);
        ind();
        if (s.find('\n') == std::string::npos) { out << name << ": " << s << "\n"; return; }
        out << name << ": " << type << "<<\n";
        ind(1);
        for (char ch : s) { if (ch == '\n') { out << "\n"; ind(1); } else out << ch; }
        out << "\n";
        ind(); out << ">>\n";
    }
    template <class E> void one(const char* name, const E& e, bool required) {
        ind(); out << name << ": ";
        if (e.empty()) { out << (required ? "!MISSING\n" : "-\n"); return; }
        out << "<\n"; e->dump_to(out, indent + 1); ind(); out << ">\n";
    }
    template <class E> void link(const char* name, const E& e, bool required) {
        ind(); out << name << " --> ";
        if (e.empty()) { out << (required ? "!MISSING\n" : "-\n"); return; }
        out << "<\n"; e->dump_to(out, indent + 1); ind(); out << ">\n";
    }
    template <class E> void any(const char* name, const E& e, bool required) {
        ind(); out << name << ": ";
        if (e.empty()) { out << (required ? "!MISSING\n" : "[]\n"); return; }
        out << "[\n";
        for (auto& x : e) { if (x.empty()) { ind(1); out << "!NULL\n"; } else x->dump_to(out, indent + 1); }
        ind(); out << "]\n";
    }
};
inline std::string json_escape(const std::string& s) {
    std::string r;
    static const char* hex = "0123456789abcdef";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
        else if (ch == '\n') r += "\\n";
        else if (ch < 0x20) { r += "\\u00"; r += hex[ch >> 4]; r += hex[ch & 15]; }
        else r += static_cast<char>(ch);
    }
    return r;
}
class Json {
    std::ostream& out; bool first = true;
    void key(const char* n) { if (!first) out << ","; first = false; out << "\"" << n << "\":"; }
public:
    Json(std::ostream& o, const char* cls) : out(o) { out << "{\"" << cls << "\":{"; }
    void close() { out << "}}"; }
    template <class P> void prim(const char* name, const P& p) { std::ostringstream ss; ss << p; key(name); out << "\"" << json_escape(ss.str()) << "\""; }
    template <class E> void one(const char* name, const E& e, bool required) {
        key(name);
        if (e.empty()) { out << (required ? "\"!MISSING\"" : "\"-\""); return; }
        e->dump_json_to(out);
    }
    template <class E> void any(const char* name, const E& e) {
        key(name); out << "[";
        bool f = true;
        for (auto& x : e) { if (!f) out << ","; f = false; if (x.empty()) out << "\"!NULL\""; else x->dump_json_to(out); }
        out << "]";
    }
};

// Verification dump: every field with its exact value, the source location of every node, links by name.
inline void full_str(std::ostream& o, const std::string& s) {
    static const char* hex = "0123456789abcdef";
    o << '"';
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') o << '\\' << static_cast<char>(ch);
        else if (ch < 0x20 || ch >= 0x7f) o << "\\u00" << hex[ch >> 4] << hex[ch & 15];
        else o << static_cast<char>(ch);
    }
    o << '"';
}
inline void full_val(std::ostream& o, const std::string& v) { full_str(o, v); }
inline void full_val(std::ostream& o, bool v) { o << (v ? "true" : "false"); }
inline void full_val(std::ostream& o, std::int64_t v) { o << "{\"i\":\"" << v << "\"}"; }
inline void full_val(std::ostream& o, double v) {
    std::uint64_t n; std::memcpy(&n, &v, 8);
    char b[32]; std::snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(n));
    o << "{\"f\":\"" << b << "\"}";
}
template <class T> void full_val(std::ostream& o, const std::vector<T>& v) {
    o << "["; bool f = true;
    for (const auto& x : v) { if (!f) o << ","; f = false; full_val(o, x); }
    o << "]";
}
template <class P> void full_val(std::ostream& o, const P& p) {
    if constexpr (std::is_base_of_v<std::vector<std::int64_t>, P>) full_val(o, static_cast<const std::vector<std::int64_t>&>(p));
    else { std::ostringstream ss; ss << p; full_str(o, ss.str()); }
}
class Full {
    std::ostream& out;
    void key(const char* n) { out << ",\"" << n << "\":"; }
public:
    Full(std::ostream& o, const char* cls) : out(o) { out << "{\"@\":\"" << cls << "\""; }
    void close() { out << "}"; }
    template <class N> void location(const N& n) {
        if (auto l = n.template get_annotation_ptr<cqasm::annotations::SourceLocation>()) {
            out << ",\"loc\":[" << l->range.first.line << "," << l->range.first.column << "," << l->range.last.line << "," << l->range.last.column << "]";
            if (l->file_name) { out << ",\"file\":"; full_str(out, *l->file_name); }
        }
    }
    template <class P> void prim(const char* name, const P& p) { key(name); full_val(out, p); }
    template <class E> void one(const char* name, const E& e) { key(name); if (e.empty()) out << "null"; else e->dump_full_to(out); }
    template <class E> void link(const char* name, const E& e) { key(name); if (e.empty()) out << "null"; else { out << "{\"link\":"; full_str(out, e->name); out << "}"; } }
    template <class E> void any(const char* name, const E& e) {
        key(name); out << "[";
        bool f = true;
        for (auto& x : e) { if (!f) out << ","; f = false; if (x.empty()) out << "null"; else x->dump_full_to(out); }
        out << "]";
    }
};
}  // namespace tree::dump
