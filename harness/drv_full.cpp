// Driver for the language: parsing, analysis, results, serialization, sessions, values.
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <optional>

// Parts: parse and analyze always; -DW_API, -DW_SER, -DW_SESSION, -DW_VAL, -DW_SIG, -DW_THREADS add more.
#ifdef W_API
#include "emscripten_wrapper.hpp"
#endif
#ifdef W_THREADS
#include <condition_variable>
#include <mutex>
#include <thread>
#include "libqasm/v3x/instruction_set.hpp"
#endif
#include "libqasm/error.hpp"
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/core_function.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/semantic.hpp"
#include "libqasm/v3x/syntactic.hpp"
#include "libqasm/v3x/values.hpp"
#include "proto.hpp"

using cqasm::error::Error;
namespace v3x = cqasm::v3x;
namespace tree_ = cqasm::tree;
using v3x::analyzer::Analyzer;

static std::optional<std::string> optfile(const std::string& has, const std::string& f) { return has == "1" ? std::optional<std::string>{ f } : std::nullopt; }

template <class T> static std::string full(const T& n) {
    if (n.empty()) return "null";
    std::ostringstream ss; n->dump_full_to(ss);
    return ss.str();
}
template <class E> static std::string errs(const E& es) {
    std::vector<std::string> o;
    for (const auto& e : es) o.push_back("{\"what\":" + js(e.what()) + ",\"json\":" + js(e.to_json()) + "}");
    return jarr(o);
}
static std::string parse_json(const v3x::parser::ParseResult& r) {
    return "\"perr\":" + errs(r.errors) + ",\"ast\":" + (r.errors.empty() ? full(r.root) : (r.root.empty() ? "null" : "\"nonempty\""));
}
static std::string sem_json(const v3x::analyzer::AnalysisResult& r) {
    std::string wf = "null";
    if (r.errors.empty() && !r.root.empty()) wf = jb(r.root.is_well_formed());
    return "\"aerr\":" + errs(r.errors) + ",\"hasroot\":" + jb(!r.root.empty()) + ",\"wf\":" + wf + ",\"sem\":" + (r.errors.empty() ? full(r.root) : "null") +
           ",\"kept\":" + (!r.errors.empty() && !r.root.empty() ? full(r.root) : "null");
}

// parse: src has file
static std::string cmd_parse(const Args& a) { return "{" + parse_json(v3x::parser::parse_string(a[0], optfile(a[1], a[2]))) + "}"; }
// analyze: src has file -> parse and semantic results through the main C++ entry points
static std::string cmd_analyze(const Args& a) {
    auto p = v3x::parser::parse_string(a[0], optfile(a[1], a[2]));
    std::string o = "{" + parse_json(p);
    auto an = v3x::default_analyzer();
    return o + "," + sem_json(an.analyze(p)) + "}";
}
#ifdef W_API
static std::string strs(const std::vector<std::string>& v) {
    std::vector<std::string> o;
    for (const auto& s : v) o.push_back(js(s));
    return jarr(o);
}
#endif
template <class F> static std::string guard(F f) {
    try { return f(); }
    catch (const v3x::analyzer::AnalysisFailed& e) { return "{\"exc\":\"AnalysisFailed\",\"msg\":" + js(e.what()) + "}"; }
    catch (const std::exception& e) { return exc_json<Error>(e); }
}
#ifdef W_API
// api: src file("" allowed) path -> every public surface, raw
static std::string cmd_api(const Args& a) {
    const auto& src = a[0]; const auto& file = a[1]; const auto& path = a[2];
    { std::ofstream f(path, std::ios::binary); f << src; }
    std::optional<std::string> fo = file.empty() ? std::nullopt : std::optional<std::string>{ file };
    std::string o = "{";
    auto add = [&](const char* k, const std::string& v) { o += (o.size() > 1 ? ",\"" : "\"") + std::string(k) + "\":" + v; };
    auto analysis = [](const v3x::analyzer::AnalysisResult& r) { return "{" + sem_json(r) + ",\"strs\":" + strs(r.to_strings()) + ",\"js\":" + js(r.to_json()) + "}"; };
    auto parsing = [](const v3x::parser::ParseResult& r) { return "{" + parse_json(r) + ",\"strs\":" + strs(r.to_strings()) + ",\"js\":" + js(r.to_json()) + "}"; };
    add("parse_string", guard([&] { return parsing(v3x::parser::parse_string(src, fo)); }));
    add("parse_file", guard([&] { return parsing(v3x::parser::parse_file(path, fo)); }));
    add("analyze_parsed", guard([&] { auto an = v3x::default_analyzer(); return analysis(an.analyze(v3x::parser::parse_string(src, fo))); }));
    add("analyze_string", guard([&] { auto an = v3x::default_analyzer(); return analysis(an.analyze_string(src, fo)); }));
    add("analyze_file", guard([&] { auto an = v3x::default_analyzer(); return analysis(an.analyze_file(path)); }));
    add("analyze_ast", guard([&]() -> std::string {
        auto p = v3x::parser::parse_string(src, fo);
        if (!p.errors.empty()) return "null";
        auto an = v3x::default_analyzer();
        return analysis(an.analyze(*p.root->as_program()));
    }));
    add("v3x_parse_string", guard([&] { return strs(V3xAnalyzer::parse_string(src, file)); }));
    add("v3x_parse_string_json", guard([&] { return js(V3xAnalyzer::parse_string_to_json(src, file)); }));
    add("v3x_parse_file", guard([&] { return strs(V3xAnalyzer::parse_file(path)); }));
    add("v3x_parse_file_json", guard([&] { return js(V3xAnalyzer::parse_file_to_json(path)); }));
    add("v3x_analyze_string", guard([&] { return strs(V3xAnalyzer{}.analyze_string(src, file)); }));
    add("v3x_analyze_string_json", guard([&] { return js(V3xAnalyzer{}.analyze_string_to_json(src, file)); }));
    add("v3x_analyze_file", guard([&] { return strs(V3xAnalyzer{}.analyze_file(path)); }));
    add("v3x_analyze_file_json", guard([&] { return js(V3xAnalyzer{}.analyze_file_to_json(path)); }));
    add("free_analyze_string", guard([&] { return full(v3x::analyze_string(src, fo)); }));
    add("free_analyze_file", guard([&] { return full(v3x::analyze_file(path)); }));
    add("em_parse", guard([&] { return js(EmscriptenWrapper{}.parse_string_to_json(src, file)); }));
    add("em_analyze", guard([&] { return js(EmscriptenWrapper{}.analyze_string_to_json(src, file)); }));
    add("em_version", guard([&] { return js(EmscriptenWrapper{}.get_version()); }));
    add("unwrap", guard([&]() -> std::string {
        auto an = v3x::default_analyzer();
        auto r = an.analyze(v3x::parser::parse_string(src, fo));
        std::ostringstream ss;
        try { return "{\"root\":" + full(r.unwrap(ss)) + ",\"out\":" + js(ss.str()) + "}"; }
        catch (const v3x::analyzer::AnalysisFailed& e) { return "{\"failed\":" + js(e.what()) + ",\"out\":" + js(ss.str()) + "}"; }
    }));
    ::unlink(path.c_str());
    add("missing_file", guard([&] { return parsing(v3x::parser::parse_file(path, fo)); }));
    add("missing_file_analyze", guard([&] { auto an = v3x::default_analyzer(); return analysis(an.analyze_file(path)); }));
    return o + "}";
}
#endif
#ifdef W_SER
// ser: src -> serialized forms and what comes back
template <class R> static std::string roundtrip(const R& root) {
    auto bytes = ::tree::base::serialize(root);
    using T = std::remove_reference_t<decltype(*root)>;
    auto back = ::tree::base::deserialize<T>(bytes);
    std::ostringstream s1, s2;
    root->dump(s1); back->dump(s2);
    std::string b2 = ::tree::base::serialize(back);
    return "{\"hex\":" + hexs(bytes) + ",\"hex2\":" + hexs(b2) + ",\"equals\":" + jb(root->equals(*back)) + ",\"full\":" + full(root) + ",\"full2\":" + full(back) + ",\"dumpeq\":" + jb(s1.str() == s2.str()) + ",\"wf\":" + jb(back.is_well_formed()) + "}";
}
static std::string cmd_ser(const Args& a) {
    auto p = v3x::parser::parse_string(a[0], optfile(a[1], a[2]));
    if (!p.errors.empty()) return "{\"perr\":" + errs(p.errors) + "}";
    auto prog = p.root;
    std::string o = "{\"ast\":" + guard([&] { return roundtrip(prog); });
    auto an = v3x::default_analyzer();
    auto r = an.analyze(p);
    if (!r.errors.empty()) return o + ",\"aerr\":" + errs(r.errors) + "}";
    return o + ",\"sem\":" + guard([&] { return roundtrip(r.root); }) + "}";
}

#endif

#if defined(W_SESSION) || defined(W_VAL) || defined(W_SIG)
// toy instruction/function/argument construction for sessions
static v3x::values::Value const_arg(const std::string& s) {  // b0 b1 i<n> f<x> q b q<n> (qubit array) w<n> (bit array)
    using namespace v3x;
    auto var = [](const char* n, types::Type t) {
        static std::vector<tree_::One<semantic::Variable>> keep;
        auto v = tree_::make<semantic::Variable>(std::string{ n }, t);
        keep.push_back(v);
        return values::Value{ tree_::make<values::VariableRef>(v) };
    };
    switch (s[0]) {
        case 'b': return tree_::make<values::ConstBool>(s[1] == '1');
        case 'i': return tree_::make<values::ConstInt>(static_cast<std::int64_t>(std::stoll(s.substr(1))));
        case 'f': return tree_::make<values::ConstFloat>(std::strtod(s.c_str() + 1, nullptr));
        case 'Q': return var("vq", tree_::make<types::Qubit>(1));
        case 'B': return var("vb", tree_::make<types::Bit>(1));
        case 'V': return var("vqa", tree_::make<types::QubitArray>(std::stoll(s.substr(1))));
        case 'W': return var("vba", tree_::make<types::BitArray>(std::stoll(s.substr(1))));
        case 'o': return var("vbool", tree_::make<types::Bool>(1));   // dynamic values of arithmetic type
        case 'n': return var("vint", tree_::make<types::Int>(1));
        case 'l': return var("vfloat", tree_::make<types::Float>(1));
        case 'X': case 'Y': {  // X<size>:i,j,k  index into a qubit array (Y: bit array)
            auto colon = s.find(':');
            auto n = static_cast<std::int64_t>(std::stoll(s.substr(1, colon - 1)));
            static std::vector<tree_::One<semantic::Variable>> keep;
            types::Type t = s[0] == 'X' ? types::Type{ tree_::make<types::QubitArray>(n) } : types::Type{ tree_::make<types::BitArray>(n) };
            auto v = tree_::make<semantic::Variable>(std::string{ s[0] == 'X' ? "vqi" : "vbi" }, t);
            keep.push_back(v);
            tree_::Many<values::ConstInt> ix;
            std::istringstream ss(s.substr(colon + 1)); std::string w;
            while (std::getline(ss, w, ',')) ix.add(tree_::make<values::ConstInt>(static_cast<std::int64_t>(std::stoll(w))));
            return tree_::make<values::IndexRef>(v, ix);
        }
    }
    throw std::logic_error("bad argument spec " + s);
}
#endif
#ifdef W_SESSION
static v3x::values::Values const_args(const std::string& list) {
    v3x::values::Values vs;
    std::istringstream ss(list); std::string w;
    while (ss >> w) vs.add(const_arg(w));
    return vs;
}
static std::string vals(const v3x::values::Values& vs) {
    std::vector<std::string> o;
    for (const auto& v : vs) o.push_back(full(v));
    return jarr(o);
}
// session: ops on a set of analyzers, every result recorded in order
static std::string cmd_session(const Args& a) {
    std::map<std::string, std::unique_ptr<Analyzer>> as;
    std::map<std::string, std::unique_ptr<V3xAnalyzer>> vs;
    std::vector<std::string> out;
    std::vector<v3x::analyzer::AnalysisResult> kept;
    for (std::size_t k = 0; k < a.size();) {
        std::string op = a[k], id = a[k + 1];
        std::size_t used = 2;
        auto arg = [&](std::size_t i) -> const std::string& { used = std::max(used, i + 3); return a.at(k + 2 + i); };
        std::string r;
        try {
            if (op == "new") { as[id] = std::make_unique<Analyzer>(v3x::primitives::Version{ arg(0) }); r = "\"ok\""; }
            else if (op == "default") { as[id] = std::make_unique<Analyzer>(v3x::default_analyzer(arg(0))); r = "\"ok\""; }
            else if (op == "newv3x") { vs[id] = std::make_unique<V3xAnalyzer>(arg(0), arg(1) == "1"); r = "\"ok\""; }
            else if (op == "v3xreg") { (void)arg(2); vs.at(id)->register_instruction(arg(0), optfile(arg(1), arg(2))); r = "\"ok\""; }
            else if (op == "v3xan") { r = js(vs.at(id)->analyze_string_to_json(arg(0), "")); }
            else if (op == "copy") { as[arg(0)] = std::make_unique<Analyzer>(*as.at(id)); r = "\"ok\""; }
            else if (op == "assign") { *as.at(arg(0)) = *as.at(id); r = "\"ok\""; }
            else if (op == "move") { auto to = std::make_unique<Analyzer>(std::move(*as.at(id))); as.erase(id); as[arg(0)] = std::move(to); r = "\"ok\""; }
            else {
                auto& an = *as.at(id);
                if (op == "consts") { an.register_default_constants(); r = "\"ok\""; }
                else if (op == "fns") { an.register_default_functions(); r = "\"ok\""; }
                else if (op == "insts") { an.register_default_instructions(); r = "\"ok\""; }
                else if (op == "push") { an.push_scope(); r = "\"ok\""; }
                else if (op == "pop") { an.pop_scope(); r = "\"ok\""; }
                else if (op == "regvar") { (void)arg(1); an.register_variable(arg(0), const_arg(arg(1))); r = "\"ok\""; }
                else if (op == "resvar") { r = full(an.resolve_variable(arg(0))); }
                else if (op == "regfn") {
                    auto tag = static_cast<std::int64_t>(std::stoll(arg(2)));
                    auto fn = [tag](const v3x::values::Values& vs2) -> v3x::values::Value {
                        if (tag < 0) return {};
                        (void)vs2;
                        return tree_::make<v3x::values::ConstInt>(tag);
                    };
                    if (tag % 2 == 0) an.register_consteval_core_function(arg(0), v3x::types::from_spec(arg(1)), fn);
                    else an.register_consteval_core_function(arg(0), arg(1), fn);
                    r = "\"ok\"";
                }
                else if (op == "resfn") { (void)arg(1); r = full(an.resolve_function(arg(0), const_args(arg(1)))); }
                else if (op == "regins") { (void)arg(2); if (arg(0).size() % 2 == 0) an.register_instruction(v3x::instruction::Instruction{ arg(0), optfile(arg(1), arg(2)) });
                    else an.register_instruction(arg(0), optfile(arg(1), arg(2)));
                    r = "\"ok\""; }
                else if (op == "resins") {
                    (void)arg(1);
                    auto ins = an.resolve_instruction(arg(0), const_args(arg(1)));
                    r = full(ins);
                }
                else if (op == "resgate") {
                    (void)arg(1);
                    auto gate = tree_::make<v3x::semantic::Gate>();
                    gate->name = arg(0);
                    r = full(an.resolve_instruction(arg(0), gate, const_args(arg(1))));
                }
                else if (op == "addasm") {
                    (void)arg(1);
                    auto st = tree_::make<v3x::semantic::AsmDeclaration>();
                    st->backend_name = arg(0);
                    st->backend_code = arg(1);
                    an.add_statement_to_current_scope(st);
                    r = "\"ok\"";
                }
                else if (op == "analyze") {
                    auto p = v3x::parser::parse_string(arg(0), std::nullopt);
                    kept.push_back(an.analyze(p));
                    r = "{" + sem_json(kept.back()) + "}";
                }
                else r = "\"badop\"";
            }
        } catch (const std::exception& e) { r = exc_json<Error>(e); }
        out.push_back(r);
        k += used;
    }
    // results handed out earlier, as they look at the end of the session
    std::vector<std::string> fin;
    for (const auto& res : kept) fin.push_back("{" + sem_json(res) + "}");
    return "{\"steps\":" + jarr(out) + ",\"kept\":" + jarr(fin) + "}";
}
#endif
#ifdef W_VAL
// val: value-spec type-spec -> promotion, types, sizes
static std::string cmd_val(const Args& a) {
    auto v = const_arg(a[0]);
    auto t = v3x::types::from_spec(a[1][0]);
    cqasm::annotations::SourceLocation loc{ std::string{ "f" }, { { 3, 4 }, { 5, 6 } } };
    v->set_annotation(loc);
    auto before = full(v);
    auto p = v3x::values::promote(v, t);
    auto ty = v3x::values::type_of(v);
    std::ostringstream ss; ss << ty;
    std::ostringstream st; st << t;
    std::string el = guard([&] { std::ostringstream se; se << v3x::values::element_type_of(ty); return js(se.str()); });
    std::string ck = guard([&] { v3x::values::check_const(v); return std::string{ "true" }; });
    return "{\"promote\":" + full(p) + ",\"check\":" + jb(v3x::values::check_promote(ty, t)) + ",\"type\":" + js(ss.str()) + ",\"typeclass\":" + full(ty) + ",\"to\":" + js(st.str()) +
        ",\"size\":" + std::to_string(v3x::values::size_of(v)) + ",\"tsize\":" + std::to_string(v3x::types::size_of(ty)) + ",\"elem\":" + el + ",\"const\":" + ck +
        ",\"typecheck\":" + jb(v3x::types::type_check(t, ty)) + ",\"intact\":" + jb(before == full(v)) + "}";
}
// spec: type spec string -> types or exception
static std::string cmd_spec(const Args& a) {
    auto ts = v3x::types::from_spec(a[0]);
    std::ostringstream ss; ss << ts;
    return js(ss.str());
}
// insobj: equality and printing of instructions
static std::string cmd_insobj(const Args& a) {
    v3x::instruction::Instruction x{ a[0], optfile(a[1], a[2]) }, y{ a[3], optfile(a[4], a[5]) };
    std::ostringstream ss; ss << x;
    return "{\"str\":" + js(ss.str()) + ",\"eq\":" + jb(x == y) + ",\"ne\":" + jb(x != y) + "}";
}
#endif
#ifdef W_SIG
// sig: family, then two descriptors, each: there name letters sizes ret retsize
static void resize(const v3x::types::Type& t, const std::string& size) {
    if (size != "-") t->as_type_base()->size = static_cast<std::int64_t>(std::stoll(size));
}
template <class T> static tree_::Maybe<T> descriptor(const Args& a, std::size_t at) {
    if (a[at] == "0") return {};
    tree_::Maybe<T> r;
    v3x::types::Types* ts = nullptr;
    if constexpr (std::is_same_v<T, v3x::instruction::Instruction>) {
        auto p = tree_::make<T>(a[at + 1], a[at + 2].empty() && a[at + 1].size() % 2 ? std::nullopt : std::optional<std::string>{ a[at + 2] });
        ts = &p->operand_types; r = p;
    } else {
        auto p = tree_::make<T>(a[at + 1], a[at + 2], a[at + 4][0]);
        resize(p->return_type, a[at + 5]);
        ts = &p->param_types; r = p;
    }
    std::istringstream ss(a[at + 3]); std::string w;
    for (const auto& t : *ts) if (ss >> w) resize(t, w);
    return r;
}
template <class V> static std::string bytes_of(const V& v) {
    auto m = std::make_shared<::tree::cbor::Value>();
    m->kind = ::tree::cbor::Kind::Map;
    ::tree::cbor::MapWriter w{ m };
    v3x::primitives::serialize(v, w);
    std::string o;
    ::tree::cbor::encode(o, *m);
    return o;
}
template <class V> static V from_bytes(const std::string& s) { return v3x::primitives::deserialize<V>(::tree::cbor::Reader{ s }.as_map()); }
template <class V> static std::string shown(const V& v) { std::ostringstream ss; ss << v; return ss.str(); }
template <class T> static std::string sig(const Args& a) {
    auto x = descriptor<T>(a, 1), y = descriptor<T>(a, 7);
    auto wire = bytes_of(x);
    auto back = from_bytes<tree_::Maybe<T>>(wire);
    std::string o = "{\"ref\":" + js(shown(x)) + ",\"wire\":" + hexs(wire) + ",\"back\":" + js(shown(back)) + ",\"again\":" + hexs(bytes_of(back));
    if (!x.empty()) o += ",\"str\":" + js(shown(*x)) + ",\"self\":" + jb(*x == *x && !(*x != *x));
    if (!x.empty() && !back.empty()) o += ",\"arrives\":" + jb(*x == *back && *back == *x && !(*x != *back));
    if (!x.empty() && !y.empty()) o += ",\"eq\":" + jb(*x == *y) + ",\"ne\":" + jb(*x != *y) + ",\"qe\":" + jb(*y == *x);
    if (!x.empty()) { auto c = *x; o += ",\"copy\":" + jb(c == *x && shown(c) == shown(*x)); }
    return o + "}";
}
static std::string cmd_sig(const Args& a) { return a[0] == "ins" ? sig<v3x::instruction::Instruction>(a) : sig<v3x::function::CoreFunction>(a); }
// prim: kind parts... -> wire, what comes back, the initial value
static std::string bits(double x) { std::uint64_t n; std::memcpy(&n, &x, 8); char b[17]; std::snprintf(b, 17, "%016llx", static_cast<unsigned long long>(n)); return b; }
static double unbits(const std::string& s) { std::uint64_t n = std::stoull(s, nullptr, 16); double x; std::memcpy(&x, &n, 8); return x; }
template <class V, class F> static std::string prim(const V& v, F out) {
    auto wire = bytes_of(v);
    auto back = from_bytes<V>(wire);
    return "{\"wire\":" + hexs(wire) + ",\"back\":" + out(back) + ",\"again\":" + hexs(bytes_of(back)) + ",\"init\":" + out(v3x::primitives::initialize<V>()) + "}";
}
static std::string cmd_prim(const Args& a) {
    using namespace v3x::primitives;
    const auto& k = a[0];
    auto list = [](std::vector<std::string> v) { for (auto& x : v) x = js(x); return jarr(v); };
    if (k == "str") return prim<Str>(a[1], [&](const Str& s) { return list({ s }); });
    if (k == "bool") return prim<Bool>(a[1] == "true", [&](const Bool& b) { return list({ b ? "true" : "false" }); });
    if (k == "int") return prim<Int>(static_cast<Int>(std::stoll(a[1])), [&](const Int& i) { return list({ std::to_string(i) }); });
    if (k == "float") return prim<Float>(unbits(a[1]), [&](const Float& f) { return list({ bits(f) }); });
    if (k == "complex") return prim<Complex>({ unbits(a[1]), unbits(a[2]) }, [&](const Complex& c) { return list({ bits(c.real()), bits(c.imag()) }); });
    if (k == "axis") {
        Axis x{ unbits(a[1]), unbits(a[2]), unbits(a[3]) }, same = x, other = x;
        other.z = x.z == 7 ? 8 : 7;
        auto r = prim<Axis>(x, [&](const Axis& v) { return list({ bits(v.x), bits(v.y), bits(v.z) }); });
        r.pop_back();
        return r + ",\"str\":" + js(shown(x)) + ",\"eq\":" + jb(x == same) + ",\"ne\":" + jb(x != other) + "}";
    }
    Version v{ "" };
    v.clear();
    for (std::size_t i = 1; i < a.size(); ++i) v.push_back(static_cast<Version::value_type>(std::stoll(a[i])));
    return prim<Version>(v, [&](const Version& w) { std::vector<std::string> o; for (auto i : w) o.push_back(js(std::to_string(i))); return jarr(o); });
}
// show: what the stream operators write for lists and for nothing
static std::string cmd_show(const Args& a) {
    v3x::types::Types ts;
    std::vector<std::string> one, vs1;
    for (char c : a[0]) { auto t = v3x::types::from_spec(c); ts.add(t); one.push_back(js(shown(t))); }
    v3x::values::Values vs;
    for (std::size_t i = 1; i < a.size(); ++i) { auto v = const_arg(a[i]); vs.add(v); vs1.push_back(js(shown(v))); }
    return "{\"types\":" + js(shown(ts)) + ",\"each\":" + jarr(one) + ",\"values\":" + js(shown(vs)) + ",\"eachv\":" + jarr(vs1) + ",\"notype\":" + js(shown(v3x::types::Type{})) + ",\"novalue\":" + js(shown(v3x::values::Value{})) + "}";
}
#endif
#ifdef W_THREADS
// threads: count repeat directory, then events: "begin" thread how text, "return" thread -> one answer per return.
// Calls that began and did not return yet run at the same time; consecutive "begin"s are let go together.
struct Shared {
    std::map<std::string, v3x::parser::ParseResult> parsed;
    std::map<std::string, v3x::analyzer::AnalysisResult> analyzed;
};
static std::string forms(const v3x::parser::ParseResult& p, const v3x::analyzer::AnalysisResult& r) {
    std::string o = p.to_json() + r.to_json();
    for (const auto& s : r.to_strings()) o += s;
    if (r.errors.empty()) {
        auto bytes = ::tree::base::serialize(r.root);
        o += bytes + full(::tree::base::deserialize<v3x::semantic::Program>(bytes));
    }
    return o;
}
static std::string thread_call(const Shared& shared, const std::string& how, const std::string& src, const std::string& path) {
    return guard([&]() -> std::string {
        std::optional<v3x::parser::ParseResult> p;
        if (how == "file") p = v3x::parser::parse_file(path, std::nullopt);
        else if (how == "own") p = v3x::parser::parse_string(src, std::nullopt);
        // what() keeps its text in the error: every thread reads errors of its own, of shared trees
        const auto parsed = p ? *p : shared.parsed.at(src);
        std::string o = "{" + parse_json(parsed) + ",";
        if (how == "read") { const auto r = shared.analyzed.at(src); return o + sem_json(r) + ",\"forms\":" + js(forms(parsed, r)) + "}"; }
        auto an = v3x::default_analyzer();
        auto r = how == "own" ? an.analyze_string(src, std::nullopt) : an.analyze(parsed);
        const auto& table = v3x::instruction::InstructionSet::get_instance();
        std::string asked;
        for (const char* name : { "CNOT", "Rx", "wait", "pow" })
            asked += std::string{ jb(table.is_gate(name)) } + jb(table.is_non_gate(name)) + jb(table.is_gate_modifier(name)) + table.get_instruction_param_types(name).value_or("-");
        return o + sem_json(r) + ",\"forms\":" + js(forms(parsed, r)) + ",\"asked\":" + js(asked) + "}";
    });
}
static std::string cmd_threads(const Args& a) {
    auto count = std::stoul(a[0]), repeat = std::stoul(a[1]);
    struct Call { std::size_t t; std::string how, src, path; bool go = false, over = false; std::vector<std::string> answers; };
    struct Ev { bool begin; std::size_t call; };
    std::vector<Call> calls;
    std::vector<Ev> evs;
    std::vector<std::vector<std::size_t>> todo(count);
    Shared shared;
    for (std::size_t k = 3; k < a.size();) {
        auto t = std::stoul(a[k + 1]) - 1;
        if (a[k] == "begin") {
            Call c{ t, a[k + 2], a[k + 3], a[2] + "/t" + std::to_string(calls.size()) };
            if (c.how == "file") { std::ofstream f(c.path, std::ios::binary); f << c.src; }
            if (c.how == "shared" || c.how == "read") shared.parsed.emplace(c.src, v3x::parser::parse_string(c.src, std::nullopt));
            if (c.how == "read") { auto an = v3x::default_analyzer(); shared.analyzed.emplace(c.src, an.analyze(shared.parsed.at(c.src))); }
            todo[t].push_back(calls.size()); evs.push_back({ true, calls.size() }); calls.push_back(c);
            k += 4;
        } else {
            std::size_t call = 0;
            for (std::size_t i = 0; i < calls.size(); ++i) if (calls[i].t == t) call = i;
            evs.push_back({ false, call });
            k += 2;
        }
    }
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::thread> threads;
    for (std::size_t t = 0; t < count; ++t) threads.emplace_back([&, t] {
        for (auto i : todo[t]) {
            auto& c = calls[i];
            { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return c.go; }); }
            for (std::size_t r = 0; r < repeat; ++r) {
                auto s = thread_call(shared, c.how, c.src, c.path);
                if (c.answers.empty() || c.answers.back() != s) c.answers.push_back(s);
            }
            { std::lock_guard<std::mutex> l(m); c.over = true; }
            cv.notify_all();
        }
    });
    std::vector<std::string> out;
    for (std::size_t e = 0; e < evs.size();) {
        if (evs[e].begin) {
            { std::lock_guard<std::mutex> l(m); for (; e < evs.size() && evs[e].begin; ++e) calls[evs[e].call].go = true; }
            cv.notify_all();
        } else {
            auto& c = calls[evs[e++].call];
            { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return c.over; }); }
            out.push_back(jarr(c.answers));
        }
    }
    for (auto& t : threads) t.join();
    for (auto& c : calls) if (c.how == "file") ::unlink(c.path.c_str());
    return "{\"answers\":" + jarr(out) + "}";
}
#endif
int main() {
    return serve<Error>({
        { "parse", cmd_parse }, { "analyze", cmd_analyze },
#ifdef W_API
        { "api", cmd_api },
#endif
#ifdef W_SER
        { "ser", cmd_ser },
#endif
#ifdef W_SESSION
        { "session", cmd_session },
#endif
#ifdef W_VAL
        { "val", cmd_val }, { "spec", cmd_spec }, { "insobj", cmd_insobj },
#endif
#ifdef W_SIG
        { "sig", cmd_sig }, { "prim", cmd_prim }, { "show", cmd_show },
#endif
#ifdef W_THREADS
        { "threads", cmd_threads },
#endif
    });
}
