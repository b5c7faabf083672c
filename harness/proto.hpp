// Line protocol shared by the drivers: "cmd n len1 .. lenn\n" + bytes, one JSON line back per request.
#pragma once
#include <unistd.h>

#include <cstdio>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

using Args = std::vector<std::string>;

// Bytes as a JSON string; every byte >= 0x7f is written \u00XX, so the reader gets bytes back with latin-1.
inline std::string js(const std::string& s) {
    static const char* hex = "0123456789abcdef";
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
        else if (ch < 0x20 || ch >= 0x7f) { o += "\\u00"; o += hex[ch >> 4]; o += hex[ch & 15]; }
        else o += static_cast<char>(ch);
    }
    return o + "\"";
}
inline std::string jb(bool b) { return b ? "true" : "false"; }
inline std::string jarr(const std::vector<std::string>& v) {
    std::string o = "[";
    for (std::size_t k = 0; k < v.size(); ++k) o += (k ? "," : "") + v[k];
    return o + "]";
}
inline std::string hexs(const std::string& s) {
    static const char* hex = "0123456789abcdef";
    std::string o = "\"";
    for (unsigned char ch : s) { o += hex[ch >> 4]; o += hex[ch & 15]; }
    return o + "\"";
}

// exception kind, stable names for the standard hierarchy
template <class ErrT>
std::string exc_json(const std::exception& e) {
    std::string k = "std::exception";
    if (dynamic_cast<const ErrT*>(&e)) k = "Error";
    else if (dynamic_cast<const std::out_of_range*>(&e)) k = "out_of_range";
    else if (dynamic_cast<const std::invalid_argument*>(&e)) k = "invalid_argument";
    else if (dynamic_cast<const std::logic_error*>(&e)) k = "logic_error";
    else if (dynamic_cast<const std::runtime_error*>(&e)) k = "runtime_error";
    return "{\"exc\":" + js(k) + ",\"msg\":" + js(e.what()) + "}";
}

template <class ErrT>
int serve(const std::map<std::string, std::function<std::string(const Args&)>>& cmds) {
    std::ios::sync_with_stdio(false);
    // the library may print diagnostics on stdout: keep the protocol on a private stream
    std::FILE* out = fdopen(dup(1), "w");
    if (!std::freopen("/dev/null", "w", stdout)) return 3;
    std::string head;
    while (std::getline(std::cin, head)) {
        std::istringstream hs(head);
        std::string cmd; std::size_t n = 0;
        hs >> cmd >> n;
        Args a(n);
        std::vector<std::size_t> len(n);
        for (auto& l : len) hs >> l;
        for (std::size_t k = 0; k < n; ++k) {
            a[k].resize(len[k]);
            std::cin.read(a[k].data(), static_cast<std::streamsize>(len[k]));
        }
        std::cin.ignore(1);
        std::string r;
        auto it = cmds.find(cmd);
        if (it == cmds.end()) r = "{\"badcmd\":" + js(cmd) + "}";
        else {
            try { r = it->second(a); }
            catch (const std::exception& e) { r = exc_json<ErrT>(e); }
            catch (...) { r = "{\"exc\":\"unknown\",\"msg\":\"\"}"; }
        }
        std::fwrite(r.data(), 1, r.size(), out);
        std::fputc('\n', out);
        std::fflush(out);
    }
    return 0;
}
