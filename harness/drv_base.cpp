// Driver for the parts of libqasm below the language: utils, annotations, error, version,
// string builder, instruction set, generic overload resolution.
#include <unistd.h>

#include <cstdlib>
#include <memory>
#include <optional>
#include <stdexcept>

// Every part can be built alone (-DW_LOC, -DW_ERR, ...), so that a check depends on no more than it needs.
#if defined(W_LOC) || defined(W_ERR)
#include "libqasm/annotations.hpp"
using cqasm::annotations::SourceLocation;
#endif
#if defined(W_ERR) || defined(W_ISET)
#include "libqasm/error.hpp"
using cqasm::error::Error;
#else
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };
#endif
#ifdef W_OVL
#include "libqasm/overload.hpp"
#endif
#ifdef W_SB
#include "libqasm/string_builder.hpp"
#endif
#ifdef W_UTIL
#include "libqasm/utils.hpp"
#endif
#ifdef W_ISET
#include "libqasm/v3x/instruction_set.hpp"
#endif
#ifdef W_VER
#include "libqasm/version.hpp"
#endif
#include "proto.hpp"

#if defined(W_LOC) || defined(W_ERR)
static std::uint32_t u32(const std::string& s) { return static_cast<std::uint32_t>(std::stoul(s)); }

static std::string idx(const SourceLocation::Index& i) { return "[" + std::to_string(i.line) + "," + std::to_string(i.column) + "]"; }
static std::string show(const SourceLocation& l) {
    std::ostringstream ss; ss << l;
    return "{\"file\":" + (l.file_name ? js(*l.file_name) : std::string("null")) + ",\"first\":" + idx(l.range.first) + ",\"last\":" + idx(l.range.last) +
        ",\"str\":" + js(ss.str()) + ",\"fmt\":" + js(fmt::format("{}", l)) + "}";
}
static std::optional<std::string> optfile(const std::string& has, const std::string& f) {
    return has == "1" ? std::optional<std::string>{ f } : std::nullopt;
}

#endif

#ifdef W_LOC
// loc: has file l1 c1 l2 c2 (l c)*  -> state after construction and after every expansion
static std::string cmd_loc(const Args& a) {
    SourceLocation::Range r{ { u32(a[2]), u32(a[3]) }, { u32(a[4]), u32(a[5]) } };
    SourceLocation loc{ optfile(a[0], a[1]), r };
    std::vector<std::string> out{ show(loc) };
    for (std::size_t k = 6; k + 1 < a.size(); k += 2) {
        SourceLocation before{ loc };
        loc.expand_to_include({ u32(a[k]), u32(a[k + 1]) });
        if (show(before) != out.back()) throw std::runtime_error("a copy changed");  // copies have a range of their own
        SourceLocation copy; copy = loc;
        loc = std::move(copy);
        out.push_back(show(loc));
    }
    return jarr(out);
}
// loccmp: two locations -> relations
static std::string cmd_loccmp(const Args& a) {
    SourceLocation x{ optfile(a[0], a[1]), SourceLocation::Range{ { u32(a[2]), u32(a[3]) }, { u32(a[4]), u32(a[5]) } } };
    SourceLocation y{ optfile(a[6], a[7]), SourceLocation::Range{ { u32(a[8]), u32(a[9]) }, { u32(a[10]), u32(a[11]) } } };
    auto c = x <=> y;
    auto rc = x.range <=> y.range;
    auto ic = x.range.first <=> y.range.first;
    auto sg = [](auto v) { return std::to_string(v < 0 ? -1 : v > 0 ? 1 : 0); };
    return "{\"eq\":" + jb(x == y) + ",\"ne\":" + jb(x != y) + ",\"cmp\":" + sg(c) + ",\"rcmp\":" + sg(rc) + ",\"icmp\":" + sg(ic) +
        ",\"lt\":" + jb(x < y) + ",\"ge\":" + jb(x >= y) + ",\"req\":" + jb(x.range == y.range) + "}";
}
static std::string cmd_locdef(const Args&) {
    SourceLocation l; SourceLocation::Range r; (void)r;
    return show(l);
}

#endif

#ifdef W_ERR
struct Node : public cqasm::tree::Annotatable {};

static std::string show_err(const Error& e) {
    std::ostringstream ss; ss << e;
    const std::runtime_error& base = e;
    std::string w1 = e.what(), w2 = base.what();
    return "{\"what\":" + js(w1) + ",\"what2\":" + js(w2) + ",\"str\":" + js(ss.str()) + ",\"fmt\":" + js(fmt::format("{}", e)) + ",\"json\":" + js(e.to_json()) + "}";
}
// err: kind msg has file l1 c1 l2 c2  then groups of 7: (has_loc has file l1 c1 l2 c2) context calls
//   kind: plain | node | nodenoloc | ptr | nullptr | range | derived
namespace cqasm::vf { CQASM_ANALYSIS_ERROR(DerivedError); }
static std::string cmd_err(const Args& a) {
    auto mk = [&](std::size_t k) { return SourceLocation{ optfile(a[k], a[k + 1]), SourceLocation::Range{ { u32(a[k + 2]), u32(a[k + 3]) }, { u32(a[k + 4]), u32(a[k + 5]) } } }; };
    std::unique_ptr<Error> e;
    const auto& kind = a[0];
    const auto& msg = a[1];
    auto base = mk(2);
    Node n;
    if (kind == "plain") e = std::make_unique<Error>(msg);
    else if (kind == "node") { n.set_annotation<SourceLocation>(base); e = std::make_unique<Error>(msg, &n); }
    else if (kind == "nodenoloc") e = std::make_unique<Error>(msg, &n);
    else if (kind == "ptr") e = std::make_unique<Error>(msg, std::make_shared<SourceLocation>(base));
    else if (kind == "nullptr") e = std::make_unique<Error>(msg, std::shared_ptr<SourceLocation>{});
    else if (kind == "range") e = std::make_unique<Error>(msg, optfile(a[2], a[3]), base.range);
    else if (kind == "derivednode") { n.set_annotation<SourceLocation>(base); std::string m = msg; e = std::make_unique<cqasm::vf::DerivedError>(std::move(m), &n); }
    else { std::string m = msg; e = std::make_unique<cqasm::vf::DerivedError>(std::move(m)); }
    // what later becomes of the node does not move the error
    if (auto p = n.get_annotation_ptr<SourceLocation>()) { p->expand_to_include({ 4000000001u, 9u }); p->file_name = "moved"; }
    n.set_annotation<SourceLocation>(SourceLocation{ "other", SourceLocation::Range{ { 77, 77 }, { 78, 78 } } });
    std::vector<std::string> out{ show_err(*e) };
    for (std::size_t k = 8; k + 6 < a.size(); k += 7) {
        if (a[k] == "copy") {
            Error kept{ "nothing" };
            kept = *e;
            Error c{ *e };
            Node far;
            far.set_annotation<SourceLocation>(SourceLocation{ "far", SourceLocation::Range{ { 4000000000u, 1 }, { 4000000000u, 2 } } });
            c.context(far);  // a copy lives its own life
            auto now = show_err(*e);
            try { throw kept; }
            catch (const std::runtime_error& caught) { e = std::make_unique<Error>(dynamic_cast<const Error&>(caught)); }
            if (show_err(*e) != now) throw std::runtime_error("a copy differs: " + now);
        }
        else {
            Node m;
            if (a[k] == "1") m.set_annotation<SourceLocation>(mk(k + 1));
            e->context(m);
            // a later change of the node must not move the error
            if (auto p = m.get_annotation_ptr<SourceLocation>()) p->expand_to_include({ 4000000000u, 7u });
        }
        out.push_back(show_err(*e));
    }
    return jarr(out);
}

#endif

#ifdef W_VER
static std::string show_ver(const cqasm::version::Version& v) {
    std::string o = "{\"items\":[";
    for (std::size_t k = 0; k < v.size(); ++k) o += (k ? ",\"" : "\"") + std::to_string(v[k]) + "\"";
    std::ostringstream ss; ss << v;
    return o + "],\"str\":" + js(ss.str()) + ",\"fmt\":" + js(fmt::format("{}", v)) + "}";
}
static std::string cmd_ver(const Args& a) {
    auto r = show_ver(cqasm::version::Version{ a[0] });
    if (a[0].find('\0') == std::string::npos && r != show_ver(cqasm::version::Version{ a[0].c_str() })) throw std::runtime_error("the constructors differ");
    return r;
}
static std::string cmd_vercmp(const Args& a) {
    using V = cqasm::version::Version;
    auto mk = [](const std::string& s) {  // items given literally, so comparison is tested apart from parsing
        V v; std::istringstream ss(s); std::int64_t x; while (ss >> x) v.push_back(x); return v; };
    V x = mk(a[0]), y = mk(a[1]);
    auto c = x <=> y;
    return "{\"eq\":" + jb(x == y) + ",\"ne\":" + jb(x != y) + ",\"lt\":" + jb(x < y) + ",\"le\":" + jb(x <= y) + ",\"gt\":" + jb(x > y) + ",\"ge\":" + jb(x >= y) +
        ",\"cmp\":" + std::to_string(c < 0 ? -1 : c > 0 ? 1 : 0) + ",\"sx\":" + js(fmt::format("{}", x)) + ",\"sy\":" + js(fmt::format("{}", y)) + "}";
}

#endif

#ifdef W_UTIL
static std::string cmd_util(const Args& a) {
    using namespace cqasm::utils;
    if (a[0] == "lower") return js(to_lowercase(a[1]));
    if (a[0] == "equal") return jb(equal_case_insensitive(a[1], a[2]));
    if (a[0] == "url") return js(url_encode(a[1]));
    if (a[0] == "json") return js(json_encode(a[1]));
    if (a[0] == "rtq") return js(remove_triple_quotes(a[1]));
    return "null";
}

#endif

#ifdef W_SB
static std::string cmd_sb(const Args& a) {
    cqasm::syntactic::StringBuilder b;
    std::vector<std::string> out;
    for (std::size_t k = 0; k + 1 < a.size(); k += 2) {
        if (a[k] == "s") b.push_string(a[k + 1]); else b.push_escape(a[k + 1]);
        out.push_back(js(b.stream.str()));
    }
    return jarr(out);
}

#endif

#ifdef W_ISET
static std::string cmd_iset(const Args& a) {
    auto& s = cqasm::v3x::instruction::InstructionSet::get_instance();
    auto opt = [](auto f) -> std::string {
        try { auto r = f(); return r ? js(*r) : "null"; }
        catch (const Error& e) { return "{\"err\":" + js(e.what()) + "}"; }
        catch (const std::exception& e) { return "{\"exc\":" + js(e.what()) + "}"; }
    };
    const auto& n = a[0];
    std::string o = "{";
#define P(f) o += "\"" #f "\":" + jb(s.f(n)) + ",";
    P(is_single_qubit_named_gate) P(is_two_qubit_named_gate) P(is_named_gate) P(is_single_qubit_gate_composition) P(is_two_qubit_gate_composition)
    P(is_gate_composition) P(is_single_qubit_gate) P(is_two_qubit_gate) P(is_gate) P(is_measure) P(is_reset) P(is_init) P(is_barrier) P(is_wait) P(is_non_gate)
    P(is_inv_gate_modifier) P(is_pow_gate_modifier) P(is_ctrl_gate_modifier) P(is_single_qubit_gate_modifier) P(is_two_qubit_gate_modifier) P(is_gate_modifier)
#undef P
    o += "\"named_gate_params\":" + opt([&] { return s.get_named_gate_param_types(n); });
    o += ",\"non_gate_params\":" + opt([&] { return s.get_non_gate_param_types(n); });
    o += ",\"modifier_params\":" + opt([&] { return s.get_gate_modifier_param_types(n); });
    o += ",\"instruction_params\":" + opt([&] { return s.get_instruction_param_types(n); });
    o += ",\"by_count\":[";
    for (std::size_t k = 0; k < 7; ++k) o += (k ? "," : "") + opt([&] { return s.get_non_gate_param_types_with_param_count(n, k); });
    return o + "]}";
}
static std::string cmd_isetmaps(const Args&) {
    auto& s = cqasm::v3x::instruction::InstructionSet::get_instance();
    auto os = [](const std::optional<std::string>& x) { return x ? js(*x) : std::string("null"); };
    std::vector<std::string> g, n, m, l1, l2, l3;
    for (const auto& [k, v] : s.get_named_gate_map()) g.push_back("[" + js(k) + "," + os(v.first) + "," + os(v.second) + "]");
    for (const auto& [k, v] : s.get_non_gate_map()) n.push_back("[" + js(k) + "," + os(v.first) + "," + os(v.second) + "]");
    for (const auto& [k, v] : s.get_gate_modifier_map()) m.push_back("[" + js(k) + "," + os(v) + "]");
    for (const auto& k : s.get_single_qubit_named_gate_list()) l1.push_back(js(k));
    for (const auto& k : s.get_two_qubit_named_gate_list()) l2.push_back(js(k));
    for (const auto& k : s.get_non_gate_list()) l3.push_back(js(k));
    return "{\"gates\":" + jarr(g) + ",\"nongates\":" + jarr(n) + ",\"modifiers\":" + jarr(m) + ",\"one\":" + jarr(l1) + ",\"two\":" + jarr(l2) + ",\"non\":" + jarr(l3) +
        ",\"same\":" + jb(&s == &cqasm::v3x::instruction::InstructionSet::get_instance()) + "}";
}

#endif

#ifdef W_OVL
// generic overload resolution over a toy type lattice: types are chars, a value is (type char, id);
// promote(v, t) succeeds iff t == type or (type, t) is one of the given promotion pairs
namespace toy {
struct Ty : public cqasm::tree::Base {
    char c;
    explicit Ty(char c) : c(c) {}
    void find_reachable(::tree::base::PointerMap&) const override {}
    void check_complete(const ::tree::base::PointerMap&) const override {}
};
struct Va : public cqasm::tree::Base {
    char c; int id;
    Va(char c, int id) : c(c), id(id) {}
    void find_reachable(::tree::base::PointerMap&) const override {}
    void check_complete(const ::tree::base::PointerMap&) const override {}
};
static std::vector<std::pair<char, char>> promotions;
inline cqasm::tree::One<Va> promote(const cqasm::tree::One<Va>& v, const cqasm::tree::One<Ty>& t) {
    if (v->c == t->c) return v;
    for (auto& p : promotions) if (p.first == v->c && p.second == t->c) return cqasm::tree::make<Va>(t->c, v->id);
    return {};
}
}  // namespace toy
struct ToyResolver : public cqasm::overload::OverloadedNameResolver<int, toy::Ty, toy::Va> {};
// ovl: promotions("abbc" pairs) then ops: "add" name types tag | "res" name argtypes
static std::string cmd_ovl(const Args& a) {
    toy::promotions.clear();
    for (std::size_t k = 0; k + 1 < a[0].size(); k += 2) toy::promotions.emplace_back(a[0][k], a[0][k + 1]);
    ToyResolver r;
    std::vector<std::string> out;
    for (std::size_t k = 1; k < a.size();) {
        if (a[k] == "add") {
            cqasm::tree::Any<toy::Ty> ts;
            for (char c : a[k + 2]) ts.add(cqasm::tree::make<toy::Ty>(c));
            r.add_overload(a[k + 1], std::stoi(a[k + 3]), ts);
            k += 4;
        } else {
            cqasm::tree::Any<toy::Va> vs;
            int id = 0;
            for (char c : a[k + 2]) vs.add(cqasm::tree::make<toy::Va>(c, id++));
            auto untouched = [&] {  // the arguments stay what they were
                bool ok = vs.size() == a[k + 2].size();
                for (std::size_t i = 0; ok && i < vs.size(); ++i) ok = vs.at(i)->c == a[k + 2][i] && vs.at(i)->id == static_cast<int>(i);
                if (!ok) throw std::runtime_error("the arguments changed");
            };
            try {
                auto [tag, pv] = r.resolve(a[k + 1], vs);
                std::string ts; bool ordered = true; int i = 0;
                for (const auto& v : pv) { ts += v->c; ordered = ordered && v->id == i++; }
                out.push_back("[" + std::to_string(tag) + "," + js(ts) + "," + jb(ordered) + "]");
            } catch (const cqasm::overload::NameResolutionFailure&) { out.push_back("\"noname\""); }
            catch (const cqasm::overload::OverloadResolutionFailure&) { out.push_back("\"nooverload\""); }
            untouched();
            k += 3;
        }
    }
    return jarr(out);
}

#endif

int main() {
    return serve<Error>({
#ifdef W_LOC
        { "loc", cmd_loc }, { "loccmp", cmd_loccmp }, { "locdef", cmd_locdef },
#endif
#ifdef W_ERR
        { "err", cmd_err },
#endif
#ifdef W_VER
        { "ver", cmd_ver }, { "vercmp", cmd_vercmp },
#endif
#ifdef W_UTIL
        { "util", cmd_util },
#endif
#ifdef W_SB
        { "sb", cmd_sb },
#endif
#ifdef W_ISET
        { "iset", cmd_iset }, { "isetmaps", cmd_isetmaps },
#endif
#ifdef W_OVL
        { "ovl", cmd_ovl },
#endif
    });
}
