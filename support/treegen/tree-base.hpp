// Offline substitute for tree-gen's support library (tree-base / tree-cbor).
// Written for the verification harness: the real tree-gen cannot be fetched in the sandbox.
// It implements the documented behaviour of tree-gen 1.0.9 edge classes that libqasm relies on.
#pragma once
#include <any>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

namespace tree {
using signed_size_t = std::make_signed<std::size_t>::type;

//------------------------------------------------------------------ cbor
namespace cbor {
struct Value;
using ValueP = std::shared_ptr<Value>;
enum class Kind { Null, Bool, Int, Float, Str, Bin, Arr, Map };
struct Value {
    Kind kind = Kind::Null;
    bool b = false;
    std::int64_t i = 0;
    double f = 0;
    std::string s;
    std::vector<ValueP> arr;
    std::vector<std::pair<std::string, ValueP>> map;
};

inline void put_head(std::string& o, int major, std::uint64_t n) {
    auto m = static_cast<unsigned char>(major << 5);
    auto be = [&](int bytes) { for (int k = bytes - 1; k >= 0; --k) o.push_back(static_cast<char>((n >> (8 * k)) & 0xff)); };
    if (n < 24) o.push_back(static_cast<char>(m | n));
    else if (n < 0x100) { o.push_back(static_cast<char>(m | 24)); be(1); }
    else if (n < 0x10000) { o.push_back(static_cast<char>(m | 25)); be(2); }
    else if (n < 0x100000000ull) { o.push_back(static_cast<char>(m | 26)); be(4); }
    else { o.push_back(static_cast<char>(m | 27)); be(8); }
}
inline void encode(std::string& o, const Value& v) {
    switch (v.kind) {
        case Kind::Null: o.push_back(static_cast<char>(0xf6)); break;
        case Kind::Bool: o.push_back(static_cast<char>(v.b ? 0xf5 : 0xf4)); break;
        case Kind::Int:
            if (v.i >= 0) put_head(o, 0, static_cast<std::uint64_t>(v.i));
            else put_head(o, 1, static_cast<std::uint64_t>(-1 - v.i));
            break;
        case Kind::Float: {
            o.push_back(static_cast<char>(0xfb));
            std::uint64_t n; std::memcpy(&n, &v.f, 8);
            for (int k = 7; k >= 0; --k) o.push_back(static_cast<char>((n >> (8 * k)) & 0xff));
            break;
        }
        case Kind::Str: put_head(o, 3, v.s.size()); o += v.s; break;
        case Kind::Bin: put_head(o, 2, v.s.size()); o += v.s; break;
        case Kind::Arr: put_head(o, 4, v.arr.size()); for (auto& e : v.arr) encode(o, *e); break;
        case Kind::Map:
            put_head(o, 5, v.map.size());
            for (auto& [k, e] : v.map) { put_head(o, 3, k.size()); o += k; encode(o, *e); }
            break;
    }
}
inline ValueP decode(const std::string& s, std::size_t& p) {
    auto need = [&](std::size_t n) { if (p + n > s.size()) throw std::runtime_error("invalid CBOR: past end of slice"); };
    need(1);
    auto h = static_cast<unsigned char>(s[p++]);
    int major = h >> 5; int info = h & 31;
    std::uint64_t n = 0;
    auto be = [&](int bytes) { need(bytes); for (int k = 0; k < bytes; ++k) n = (n << 8) | static_cast<unsigned char>(s[p++]); };
    if (info < 24) n = info; else if (info == 24) be(1); else if (info == 25) be(2); else if (info == 26) be(4); else if (info == 27) be(8);
    else throw std::runtime_error("invalid CBOR: illegal additional info");
    auto v = std::make_shared<Value>();
    switch (major) {
        case 0: v->kind = Kind::Int; v->i = static_cast<std::int64_t>(n); break;
        case 1: v->kind = Kind::Int; v->i = -1 - static_cast<std::int64_t>(n); break;
        case 2: case 3: need(n); v->kind = major == 2 ? Kind::Bin : Kind::Str; v->s = s.substr(p, n); p += n; break;
        case 4: v->kind = Kind::Arr; for (std::uint64_t k = 0; k < n; ++k) v->arr.push_back(decode(s, p)); break;
        case 5:
            v->kind = Kind::Map;
            for (std::uint64_t k = 0; k < n; ++k) { auto key = decode(s, p); v->map.emplace_back(key->s, decode(s, p)); }
            break;
        case 7:
            if (h == 0xf4 || h == 0xf5) { v->kind = Kind::Bool; v->b = h == 0xf5; }
            else if (h == 0xf6) v->kind = Kind::Null;
            else if (h == 0xfb) { v->kind = Kind::Float; std::memcpy(&v->f, &n, 8); }
            else throw std::runtime_error("invalid CBOR: simple value");
            break;
        default: throw std::runtime_error("invalid CBOR: major type");
    }
    return v;
}

class MapWriter;
class ArrayWriter;
template <class Self>
class StructureWriter {
protected:
    ValueP v;
    ValueP mk(Kind k) { auto r = std::make_shared<Value>(); r->kind = k; return r; }
public:
    explicit StructureWriter(ValueP v) : v(std::move(v)) {}
    void close() {}
    ValueP raw() const { return v; }
};
class ArrayWriter : public StructureWriter<ArrayWriter> {
    void add(ValueP e) { v->arr.push_back(std::move(e)); }
public:
    using StructureWriter::StructureWriter;
    void append_null() { add(mk(Kind::Null)); }
    void append_bool(bool x) { auto e = mk(Kind::Bool); e->b = x; add(e); }
    void append_int(std::int64_t x) { auto e = mk(Kind::Int); e->i = x; add(e); }
    void append_float(double x) { auto e = mk(Kind::Float); e->f = x; add(e); }
    void append_string(const std::string& x) { auto e = mk(Kind::Str); e->s = x; add(e); }
    void append_binary(const std::string& x) { auto e = mk(Kind::Bin); e->s = x; add(e); }
    ArrayWriter append_array() { auto e = mk(Kind::Arr); add(e); return ArrayWriter(e); }
    inline MapWriter append_map();
};
class MapWriter : public StructureWriter<MapWriter> {
    void add(const std::string& k, ValueP e) { v->map.emplace_back(k, std::move(e)); }
public:
    using StructureWriter::StructureWriter;
    void append_null(const std::string& k) { add(k, mk(Kind::Null)); }
    void append_bool(const std::string& k, bool x) { auto e = mk(Kind::Bool); e->b = x; add(k, e); }
    void append_int(const std::string& k, std::int64_t x) { auto e = mk(Kind::Int); e->i = x; add(k, e); }
    void append_float(const std::string& k, double x) { auto e = mk(Kind::Float); e->f = x; add(k, e); }
    void append_string(const std::string& k, const std::string& x) { auto e = mk(Kind::Str); e->s = x; add(k, e); }
    void append_binary(const std::string& k, const std::string& x) { auto e = mk(Kind::Bin); e->s = x; add(k, e); }
    ArrayWriter append_array(const std::string& k) { auto e = mk(Kind::Arr); add(k, e); return ArrayWriter(e); }
    MapWriter append_map(const std::string& k) { auto e = mk(Kind::Map); add(k, e); return MapWriter(e); }
};
inline MapWriter ArrayWriter::append_map() { auto e = mk(Kind::Map); add(e); return MapWriter(e); }

class Reader;
class MapReader;
class ArrayReader;
class Reader {
    ValueP v;
    void chk(Kind k, const char* what) const { if (v->kind != k) throw std::runtime_error(std::string("unexpected CBOR structure: expected ") + what); }
public:
    Reader() = default;
    explicit Reader(ValueP v) : v(std::move(v)) {}
    explicit Reader(const std::string& s) { std::size_t p = 0; v = decode(s, p); }
    bool is_null() const { return v->kind == Kind::Null; }
    bool as_bool() const { chk(Kind::Bool, "boolean"); return v->b; }
    std::int64_t as_int() const { chk(Kind::Int, "integer"); return v->i; }
    double as_float() const { chk(Kind::Float, "float"); return v->f; }
    std::string as_string() const { chk(Kind::Str, "string"); return v->s; }
    std::string as_binary() const { chk(Kind::Bin, "binary"); return v->s; }
    inline ArrayReader as_array() const;
    inline MapReader as_map() const;
};
class ArrayReader : public std::vector<Reader> {};
class MapReader : public std::map<std::string, Reader> {};
inline ArrayReader Reader::as_array() const { chk(Kind::Arr, "array"); ArrayReader a; for (auto& e : v->arr) a.emplace_back(e); return a; }
inline MapReader Reader::as_map() const { chk(Kind::Map, "map"); MapReader m; for (auto& [k, e] : v->map) m.emplace(k, Reader(e)); return m; }
}  // namespace cbor

//------------------------------------------------------------------ base
namespace base {

class NotWellFormed : public std::runtime_error {
public:
    explicit NotWellFormed(const std::string& m) : std::runtime_error(m) {}
};

class PointerMap {
    std::unordered_map<const void*, std::size_t> map;
    bool enable_exceptions;
public:
    explicit PointerMap(bool e = false) : enable_exceptions(e) {}
    std::size_t add_raw(const void* p, const char* name) {
        auto it = map.find(p);
        if (it != map.end()) {
            if (enable_exceptions) throw NotWellFormed(std::string("duplicate node of type ") + name + " found in tree");
            return it->second;
        }
        auto id = map.size();
        map.emplace(p, id);
        return id;
    }
    std::size_t get_raw(const void* p, const char* name) const {
        auto it = map.find(p);
        if (it == map.end()) {
            if (enable_exceptions) throw NotWellFormed(std::string("link to node of type ") + name + " not found in tree");
            return static_cast<std::size_t>(-1);
        }
        return it->second;
    }
};

class LinkSetter {
public:
    virtual ~LinkSetter() = default;
};

class IdentifierMap {
    std::unordered_map<std::size_t, std::shared_ptr<void>> nodes;
    std::vector<std::pair<std::function<void(const std::shared_ptr<void>&)>, std::size_t>> links;
public:
    void register_node(std::size_t id, const std::shared_ptr<void>& p) { nodes.emplace(id, p); }
    void register_link(std::function<void(const std::shared_ptr<void>&)> f, std::size_t id) { links.emplace_back(std::move(f), id); }
    void restore_links() {
        for (auto& [f, id] : links) {
            auto it = nodes.find(id);
            if (it == nodes.end()) throw std::runtime_error("deserialization: dangling link");
            f(it->second);
        }
    }
};

class Completable {
public:
    virtual ~Completable() = default;
    virtual void find_reachable(PointerMap& /* map */) const {}
    virtual void check_complete(const PointerMap& /* map */) const {}
    virtual void check_well_formed() const {
        PointerMap map{ true };
        find_reachable(map);
        check_complete(map);
    }
    virtual bool is_well_formed() const {
        try { check_well_formed(); return true; } catch (NotWellFormed&) { return false; }
    }
};

class Base : public Completable {
public:
};

template <class T> class One;

template <class T>
class Maybe : public Completable {
protected:
    std::shared_ptr<T> val;
public:
    Maybe() = default;
    template <class S>
    explicit Maybe(const std::shared_ptr<S>& v) : val(std::static_pointer_cast<T>(v)) {}
    template <class S>
    explicit Maybe(std::shared_ptr<S>&& v) : val(std::static_pointer_cast<T>(std::move(v))) {}
    Maybe(const Maybe& o) : val(o.val) {}
    Maybe(Maybe&& o) noexcept : val(std::move(o.val)) {}
    template <class S>
    Maybe(const Maybe<S>& o) : val(std::static_pointer_cast<T>(o.get_ptr())) {}
    Maybe& operator=(const Maybe& o) { val = o.val; return *this; }
    Maybe& operator=(Maybe&& o) noexcept { val = std::move(o.val); return *this; }
    template <class S> Maybe& operator=(const Maybe<S>& o) { val = std::static_pointer_cast<T>(o.get_ptr()); return *this; }
    template <class S> Maybe& operator=(const std::shared_ptr<S>& v) { val = std::static_pointer_cast<T>(v); return *this; }
    template <class S = T> void set(const std::shared_ptr<S>& v) { val = std::static_pointer_cast<T>(v); }
    template <class S, class... A> S& emplace(A... a) { auto p = std::make_shared<S>(a...); val = std::static_pointer_cast<T>(p); return *p; }
    void reset() { val.reset(); }
    bool empty() const { return !val; }
    std::size_t size() const { return val ? 1 : 0; }
    T& deref() const { if (!val) throw std::out_of_range("dereferencing empty Maybe/One object"); return *val; }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }
    const std::shared_ptr<T>& get_ptr() const { return val; }
    std::shared_ptr<T>& get_ptr() { return val; }
    template <class S> One<S> as() const { One<S> r; r.set(std::dynamic_pointer_cast<S>(val)); return r; }
    bool equals(const Maybe& rhs) const {
        if (!val || !rhs.val) return !val && !rhs.val;
        return val->equals(*rhs.val);
    }
    bool operator==(const Maybe& rhs) const {
        if (!val || !rhs.val) return !val && !rhs.val;
        return *val == *rhs.val;
    }
    bool operator!=(const Maybe& rhs) const { return !(*this == rhs); }
    One<T> copy() const { One<T> r; if (val) r.set(val->copy().get_ptr()); return r; }
    One<T> clone() const { One<T> r; if (val) r.set(val->clone().get_ptr()); return r; }
    void find_reachable(PointerMap& map) const override {
        if (val) { map.add_raw(static_cast<const void*>(dynamic_cast<const Base*>(val.get())), typeid(T).name()); val->find_reachable(map); }
    }
    void check_complete(const PointerMap& map) const override { if (val) val->check_complete(map); }
    template <class V> void visit(V& visitor) { if (val) val->visit(visitor); }
    virtual const char* edge_tag() const { return "?"; }
    void serialize(cbor::MapWriter& map, const PointerMap& ids) const {
        map.append_string("@T", edge_tag());
        if (val) {
            map.append_int("@i", static_cast<std::int64_t>(ids.get_raw(dynamic_cast<const Base*>(val.get()), "")));
            val->serialize(map, ids);
        } else {
            map.append_null("@t");
        }
    }
    void deserialize_into(const cbor::MapReader& map, IdentifierMap& ids) {
        if (map.at("@T").as_string() != edge_tag()) throw std::runtime_error("Schema validation failed: unexpected edge type");
        if (map.at("@t").is_null()) { val.reset(); return; }
        val = std::dynamic_pointer_cast<T>(T::deserialize(map, ids));
        if (!val) throw std::runtime_error("Schema validation failed: unexpected node type");
        ids.register_node(static_cast<std::size_t>(map.at("@i").as_int()), std::static_pointer_cast<void>(val));
    }
};

template <class T>
class One : public Maybe<T> {
public:
    One() = default;
    template <class S> explicit One(const std::shared_ptr<S>& v) : Maybe<T>(v) {}
    template <class S> explicit One(std::shared_ptr<S>&& v) : Maybe<T>(std::move(v)) {}
    One(const One& o) : Maybe<T>(o) {}
    One(One&& o) noexcept : Maybe<T>(std::move(o)) {}
    template <class S> One(const Maybe<S>& o) : Maybe<T>(o) {}
    One& operator=(const One& o) { this->val = o.val; return *this; }
    One& operator=(One&& o) noexcept { this->val = std::move(o.val); return *this; }
    template <class S> One& operator=(const Maybe<S>& o) { this->val = std::static_pointer_cast<T>(o.get_ptr()); return *this; }
    void check_complete(const PointerMap& map) const override {
        if (!this->val) throw NotWellFormed(std::string("'One' edge of type ") + typeid(T).name() + " is empty");
        this->val->check_complete(map);
    }
    const char* edge_tag() const override { return "1"; }
};

template <class T>
class Any : public Completable {
protected:
    std::vector<One<T>> vec;
public:
    Any() = default;
    Any(std::initializer_list<One<T>> l) : vec(l) {}
    explicit Any(std::vector<One<T>>&& v) : vec(std::move(v)) {}
    explicit Any(const std::vector<One<T>>& v) : vec(v) {}
    Any(const Any&) = default;
    Any(Any&&) noexcept = default;
    Any& operator=(const Any&) = default;
    Any& operator=(Any&&) noexcept = default;
    template <class S> Any& add(const Maybe<S>& o, signed_size_t pos = -1) {
        if (o.empty()) return *this;
        One<T> v(std::static_pointer_cast<T>(o.get_ptr()));
        if (pos < 0 || static_cast<std::size_t>(pos) >= vec.size()) vec.push_back(v); else vec.insert(vec.begin() + pos, v);
        return *this;
    }
    template <class S> Any& add_raw(S* o, signed_size_t pos = -1) { return add(One<S>(std::shared_ptr<S>(o)), pos); }
    template <class S, class... A> Any& emplace(A... a) { vec.push_back(One<T>(std::make_shared<S>(a...))); return *this; }
    Any& extend(const Any& o) { for (auto& e : o.vec) vec.push_back(e); return *this; }
    template <class S> Any& extend(const Any<S>& o) { for (auto& e : o) vec.push_back(One<T>(e)); return *this; }
    void remove(signed_size_t pos = -1) {
        if (vec.empty()) return;
        if (pos < 0 || static_cast<std::size_t>(pos) >= vec.size()) vec.pop_back(); else vec.erase(vec.begin() + pos);
    }
    void reset() { vec.clear(); }
    bool empty() const { return vec.empty(); }
    std::size_t size() const { return vec.size(); }
    One<T>& at(std::size_t i) { return vec.at(i); }
    const One<T>& at(std::size_t i) const { return vec.at(i); }
    One<T>& operator[](std::size_t i) { return vec.at(i); }
    const One<T>& operator[](std::size_t i) const { return vec.at(i); }
    One<T>& front() { return vec.front(); }
    const One<T>& front() const { return vec.front(); }
    One<T>& back() { return vec.back(); }
    const One<T>& back() const { return vec.back(); }
    auto begin() { return vec.begin(); }
    auto begin() const { return vec.begin(); }
    auto end() { return vec.end(); }
    auto end() const { return vec.end(); }
    const std::vector<One<T>>& get_vec() const { return vec; }
    std::vector<One<T>>& get_vec() { return vec; }
    bool equals(const Any& rhs) const {
        if (vec.size() != rhs.vec.size()) return false;
        for (std::size_t i = 0; i < vec.size(); ++i) if (!vec[i].equals(rhs.vec[i])) return false;
        return true;
    }
    bool operator==(const Any& rhs) const { return vec == rhs.vec; }
    bool operator!=(const Any& rhs) const { return !(*this == rhs); }
    Any copy() const { Any r; for (auto& e : vec) r.vec.push_back(e.copy()); return r; }
    Any clone() const { Any r; for (auto& e : vec) r.vec.push_back(e.clone()); return r; }
    void find_reachable(PointerMap& map) const override { for (auto& e : vec) e.find_reachable(map); }
    void check_complete(const PointerMap& map) const override { for (auto& e : vec) e.check_complete(map); }
    template <class V> void visit(V& visitor) { for (auto& e : vec) if (!e.empty()) e->visit(visitor); }
    virtual const char* edge_tag() const { return "*"; }
    void serialize(cbor::MapWriter& map, const PointerMap& ids) const {
        map.append_string("@T", edge_tag());
        auto ar = map.append_array("@d");
        for (auto& e : vec) { auto sm = ar.append_map(); e.serialize(sm, ids); sm.close(); }
        ar.close();
    }
    void deserialize_into(const cbor::MapReader& map, IdentifierMap& ids) {
        if (map.at("@T").as_string() != edge_tag()) throw std::runtime_error("Schema validation failed: unexpected edge type");
        vec.clear();
        for (auto& e : map.at("@d").as_array()) { One<T> o; o.deserialize_into(e.as_map(), ids); vec.push_back(o); }
    }
};

template <class T>
class Many : public Any<T> {
public:
    Many() = default;
    Many(std::initializer_list<One<T>> l) : Any<T>(l) {}
    explicit Many(const std::vector<One<T>>& v) : Any<T>(v) {}
    Many(const Any<T>& a) : Any<T>(a) {}
    Many copy() const { Many r; for (auto& e : this->vec) r.vec.push_back(e.copy()); return r; }
    Many clone() const { Many r; for (auto& e : this->vec) r.vec.push_back(e.clone()); return r; }
    void check_complete(const PointerMap& map) const override {
        if (this->vec.empty()) throw NotWellFormed(std::string("'Many' edge of type ") + typeid(T).name() + " is empty");
        Any<T>::check_complete(map);
    }
    const char* edge_tag() const override { return "+"; }
};

template <class T>
class OptLink : public Completable {
protected:
    std::weak_ptr<T> val;
public:
    OptLink() = default;
    template <class S> OptLink(const Maybe<S>& o) : val(std::static_pointer_cast<T>(o.get_ptr())) {}
    template <class S> OptLink& operator=(const Maybe<S>& o) { val = std::static_pointer_cast<T>(o.get_ptr()); return *this; }
    OptLink(const OptLink&) = default;
    OptLink& operator=(const OptLink&) = default;
    void reset() { val.reset(); }
    bool empty() const { return val.expired(); }
    T& deref() const { auto p = val.lock(); if (!p) throw std::out_of_range("dereferencing empty or expired (Opt)Link object"); return *p; }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }
    std::shared_ptr<T> get_ptr() const { return val.lock(); }
    bool links_to(const T& o) const { return val.lock().get() == &o; }
    bool equals(const OptLink& rhs) const { return get_ptr() == rhs.get_ptr(); }
    bool operator==(const OptLink& rhs) const { return get_ptr() == rhs.get_ptr(); }
    bool operator!=(const OptLink& rhs) const { return !(*this == rhs); }
    void check_complete(const PointerMap& map) const override {
        if (auto p = val.lock()) map.get_raw(dynamic_cast<const Base*>(p.get()), typeid(T).name());
    }
    virtual const char* edge_tag() const { return "@"; }
    void serialize(cbor::MapWriter& map, const PointerMap& ids) const {
        map.append_string("@T", edge_tag());
        if (auto p = val.lock()) map.append_int("@l", static_cast<std::int64_t>(ids.get_raw(dynamic_cast<const Base*>(p.get()), "")));
        else map.append_null("@l");
    }
    void deserialize_into(const cbor::MapReader& map, IdentifierMap& ids) {
        if (map.at("@T").as_string() != edge_tag()) throw std::runtime_error("Schema validation failed: unexpected edge type");
        if (map.at("@l").is_null()) { val.reset(); return; }
        ids.register_link([this](const std::shared_ptr<void>& p) { val = std::static_pointer_cast<T>(p); },
            static_cast<std::size_t>(map.at("@l").as_int()));
    }
};
template <class T>
class Link : public OptLink<T> {
public:
    Link() = default;
    template <class S> Link(const Maybe<S>& o) : OptLink<T>(o) {}
    template <class S> Link& operator=(const Maybe<S>& o) { OptLink<T>::operator=(o); return *this; }
    Link(const Link&) = default;
    Link& operator=(const Link&) = default;
    void check_complete(const PointerMap& map) const override {
        if (this->empty()) throw NotWellFormed(std::string("'Link' edge of type ") + typeid(T).name() + " is empty");
        OptLink<T>::check_complete(map);
    }
    const char* edge_tag() const override { return "$"; }
};

template <class T>
One<T> make(auto... args) { return One<T>(std::make_shared<T>(args...)); }

template <class T>
std::string serialize(const Maybe<T>& tree) {
    tree.check_well_formed();
    PointerMap ids{ true };
    tree.find_reachable(ids);
    auto v = std::make_shared<cbor::Value>();
    v->kind = cbor::Kind::Map;
    cbor::MapWriter w{ v };
    // The root edge is always written as a Maybe edge.
    Maybe<T> root{ tree.get_ptr() };
    root.serialize(w, ids);
    std::string out;
    cbor::encode(out, *v);
    return out;
}

template <class T>
One<T> deserialize(const std::string& data) {
    cbor::Reader reader{ data };
    IdentifierMap ids;
    Maybe<T> tree;
    tree.deserialize_into(reader.as_map(), ids);
    ids.restore_links();
    One<T> r{ tree.get_ptr() };
    r.check_well_formed();
    return r;
}

}  // namespace base
}  // namespace tree
