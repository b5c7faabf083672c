#!/usr/bin/env python3
"""Offline substitute for the tree-gen 1.0.9 executable.

Reads a libqasm *.tree file and writes the C++ header and source that tree-gen would
generate (same class names, constructors, visitors, dumps, serialisation).
Usage: treegen.py IN.tree OUT.hpp OUT.cpp
"""
import re
import sys


def camel(s):
    return ''.join(p[:1].upper() + p[1:] for p in s.split('_'))


class Field:
    def __init__(self, name, kind, typ, ext):
        self.name, self.kind, self.typ, self.ext = name, kind, typ, ext


class Node:
    def __init__(self, name, parent):
        self.name, self.parent = name, parent
        self.cls = camel(name)
        self.fields, self.kids = [], []

    def all_fields(self):
        return self.fields + (self.parent.all_fields() if self.parent else [])


class Spec:
    pass


def parse(path):
    text = open(path).read()
    sp = Spec()
    sp.includes, sp.src_includes, sp.ns, sp.roots = [], [], [], []
    sp.tree_ns = 'tree::base'
    sp.init = sp.ser = sp.des = sp.loc = None
    body = []
    for line in text.split('\n'):
        s = line.strip()
        if s.startswith('#') or s.startswith('//') or not s:
            continue
        s = re.sub(r'\s#.*$', '', s)
        w = s.split()
        if w[0] in ('include', 'src_include', 'header'):
            v = s[len(w[0]):].strip()
            if w[0] == 'include':
                sp.includes.append(v)
            elif w[0] == 'src_include':
                sp.src_includes.append(v)
            else:
                sp.header = v
        elif w[0] == 'source' or w[0] == 'import' and not body:
            pass
        elif w[0] == 'tree_namespace':
            sp.tree_ns = w[1]
        elif w[0] == 'initialize_function':
            sp.init = w[1]
        elif w[0] == 'serdes_functions':
            sp.ser, sp.des = w[1], w[2]
        elif w[0] == 'location':
            sp.loc = w[1]
        elif w[0] == 'namespace':
            sp.ns.append(w[1])
        else:
            body.append(s)
    toks = re.findall(r'[A-Za-z_][A-Za-z0-9_:]*|[{};:<>]', re.sub(r'(\w)::', r'\1::', ' '.join(body)))
    # a field name is tokenised as 'name:' glued only when followed by '::'; split plain ':'
    flat = []
    for t in toks:
        m = re.match(r'^([A-Za-z_]\w*):$', t)
        flat += [m.group(1), ':'] if m else [t]
    sp.nodes = []
    i = 0

    def node(parent):
        nonlocal i
        n = Node(flat[i], parent)
        sp.nodes.append(n)
        i += 1
        assert flat[i] == '{', flat[i - 2:i + 3]
        i += 1
        while flat[i] != '}':
            if flat[i + 1] == ':':
                name = flat[i]
                i += 2
                ext = False
                if flat[i] == 'external':
                    ext = True
                    i += 1
                if flat[i + 1] == '<':
                    kind, typ = flat[i], flat[i + 2]
                    assert kind in ('Maybe', 'One', 'Any', 'Many', 'Link', 'OptLink'), kind
                    assert flat[i + 3] == '>' and flat[i + 4] == ';', flat[i:i + 6]
                    i += 5
                else:
                    kind, typ = 'Prim', flat[i]
                    assert flat[i + 1] == ';', flat[i:i + 4]
                    i += 2
                n.fields.append(Field(name, kind, typ, ext))
            else:
                n.kids.append(node(n))
        i += 1
        return n

    while i < len(flat):
        sp.roots.append(node(None))
    return sp


def gen(sp, hpp, cpp):
    H, C = [], []
    ns = '::'.join(sp.ns)
    h, c = H.append, C.append
    leaves = [n for n in sp.nodes if not n.kids]

    def ftype(f):
        if f.kind == 'Prim':
            return f.typ
        t = f.typ if f.ext else camel(f.typ)
        return f'{f.kind}<{t}>'

    h('#pragma once')
    h('#include <iostream>\n#include <memory>\n#include <string>\n#include <vector>\n#include <fmt/format.h>\n#include <fmt/ostream.h>')
    for x in sp.includes:
        h(f'#include {x}')
    h(f'namespace {ns} {{')
    for a in ('Base', 'Annotatable'):
        h(f'using {a} = {sp.tree_ns}::{a};')
    for a in ('Maybe', 'One', 'Any', 'Many', 'Link', 'OptLink'):
        h(f'template <class T> using {a} = {sp.tree_ns}::{a}<T>;')
    h('class Node;')
    for n in sp.nodes:
        h(f'class {n.cls};')
    h('class VisitorBase;\ntemplate <typename T = void> class Visitor;\nclass RecursiveVisitor;\nclass Dumper;\nclass JsonDumper;')
    h('enum class NodeType { ' + ', '.join(n.cls for n in leaves) + ' };')
    h('''class Node : public Annotatable, public Base {
public:
    Node() = default;
    Node(const Node&) = default;
    Node& operator=(const Node&) = default;
    virtual ~Node() = default;
    virtual NodeType type() const = 0;
    virtual One<Node> copy() const = 0;
    virtual One<Node> clone() const = 0;
    virtual bool equals(const Node& rhs) const = 0;
    virtual bool operator==(const Node& rhs) const = 0;
    bool operator!=(const Node& rhs) const { return !(*this == rhs); }
    virtual void visit_internal(VisitorBase& visitor, void* retval = nullptr) = 0;
    template <typename T> T visit(Visitor<T>& visitor);
    void dump(std::ostream& out = std::cout, int indent = 0) ;
    void dump_raw_pointers(std::ostream& out = std::cout, int indent = 0) { dump(out, indent); }
    void dump_json(std::ostream& out = std::cout, bool include_pointers = false);
    virtual void dump_to(std::ostream& out, int indent) const = 0;
    virtual void dump_json_to(std::ostream& out) const = 0;
    virtual void dump_full_to(std::ostream& out) const = 0;''')
    for n in sp.nodes:
        h(f'    virtual {n.cls}* as_{n.name}() {{ return nullptr; }}')
        h(f'    virtual const {n.cls}* as_{n.name}() const {{ return nullptr; }}')
    h(f'''    virtual void serialize({'::tree::cbor'}::MapWriter& map, const ::tree::base::PointerMap& ids) const = 0;
    static std::shared_ptr<Node> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);
}};''')
    for n in sp.nodes:
        base = n.parent.cls if n.parent else 'Node'
        af = n.all_fields()
        h(f'class {n.cls} : public {base} {{\npublic:')
        for f in n.fields:
            h(f'    {ftype(f)} {f.name};')
        if af:
            args = ', '.join(f'const {ftype(f)}& {f.name} = {sp.init}<{ftype(f)}>()' for f in af)
            h(f'    {n.cls}({args});')
        else:
            h(f'    {n.cls}() = default;')
        h('    void find_reachable(::tree::base::PointerMap& map) const override;')
        h('    void check_complete(const ::tree::base::PointerMap& map) const override;')
        h(f'    {n.cls}* as_{n.name}() override {{ return this; }}')
        h(f'    const {n.cls}* as_{n.name}() const override {{ return this; }}')
        if not n.kids:
            h(f'    NodeType type() const override {{ return NodeType::{n.cls}; }}')
            h('    One<Node> copy() const override;\n    One<Node> clone() const override;')
            h('    bool equals(const Node& rhs) const override;\n    bool operator==(const Node& rhs) const override;')
            h('    void visit_internal(VisitorBase& visitor, void* retval = nullptr) override;')
            h('    void dump_to(std::ostream& out, int indent) const override;\n    void dump_json_to(std::ostream& out) const override;\n    void dump_full_to(std::ostream& out) const override;')
            h('    void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const override;')
            h(f'    static std::shared_ptr<{n.cls}> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);')
        else:
            h('    using Node::copy; using Node::clone;')
        h('};')
    # visitors
    h('class VisitorBase {\npublic:\n    virtual ~VisitorBase() = default;\nprotected:\n    friend class Node;')
    for n in leaves:
        h(f'    friend class {n.cls};')
    h('    virtual void raw_visit_node(Node& node, void* retval) = 0;')
    for n in sp.nodes:
        h(f'    virtual void raw_visit_{n.name}({n.cls}& node, void* retval) = 0;')
    h('};')
    for void in (False, True):
        T = 'void' if void else 'T'
        h('template <>\nclass Visitor<void> : public VisitorBase {' if void else 'template <typename T>\nclass Visitor : public VisitorBase {')
        h('protected:\n    friend class Node;')
        for nm, cl in [('node', 'Node')] + [(n.name, n.cls) for n in sp.nodes]:
            if void:
                h(f'    void raw_visit_{nm}({cl}& node, void*) override {{ this->visit_{nm}(node); }}')
            else:
                h(f'    void raw_visit_{nm}({cl}& node, void* retval) override {{ if (retval == nullptr) this->visit_{nm}(node); else *static_cast<T*>(retval) = this->visit_{nm}(node); }}')
        h('public:')
        h(f'    virtual {T} visit_node(Node& node) = 0;')
        for n in sp.nodes:
            p = n.parent.name if n.parent else 'node'
            if void:
                h(f'    virtual void visit_{n.name}({n.cls}& node) {{ visit_{p}(node); }}')
            else:
                h(f'    virtual T visit_{n.name}({n.cls}& node) {{ return visit_{p}(node); }}')
        h('};')
    h('template <typename T> T Node::visit(Visitor<T>& visitor) { T r; this->visit_internal(visitor, &r); return r; }')
    h('template <> inline void Node::visit(Visitor<void>& visitor) { this->visit_internal(visitor); }')
    h('std::ostream& operator<<(std::ostream& os, const Node& object);')
    h(f'}}  // namespace {ns}')
    for n in ['Node'] + [n.cls for n in sp.nodes]:
        h(f'template <> struct fmt::formatter<{ns}::{n}> : fmt::ostream_formatter {{}};')

    c(f'#include {sp.header}')
    for x in sp.src_includes:
        c(f'#include {x}')
    c('#include "libqasm/annotations.hpp"\n#include "tree-dump.hpp"')
    c(f'namespace {ns} {{')
    c('namespace td = ::tree::dump;')
    c('''std::ostream& operator<<(std::ostream& os, const Node& object) { const_cast<Node&>(object).dump(os); return os; }
void Node::dump(std::ostream& out, int indent) { dump_to(out, indent); }
void Node::dump_json(std::ostream& out, bool) { dump_json_to(out); }''')
    for n in sp.nodes:
        af = n.all_fields()
        if af:
            args = ', '.join(f'const {ftype(f)}& {f.name}' for f in af)
            inits = []
            if n.parent and n.parent.all_fields():
                inits.append(n.parent.cls + '(' + ', '.join(f.name for f in n.parent.all_fields()) + ')')
            inits += [f'{f.name}({f.name})' for f in n.fields]
            c(f'{n.cls}::{n.cls}({args}) : {", ".join(inits)} {{}}')
        owned = [f for f in af if f.kind in ('Maybe', 'One', 'Any', 'Many')]
        edges = [f for f in af if f.kind != 'Prim']
        c(f'void {n.cls}::find_reachable(::tree::base::PointerMap& map) const {{ (void)map; ' + ' '.join(f'{f.name}.find_reachable(map);' for f in owned) + ' }')
        c(f'void {n.cls}::check_complete(const ::tree::base::PointerMap& map) const {{ (void)map; ' + ' '.join(
            f'{f.name}.check_complete(map);' for f in edges) + ' }')
        if n.kids:
            continue
        c(f'One<Node> {n.cls}::copy() const {{ return One<Node>(std::make_shared<{n.cls}>(*this)); }}')
        cl = ' '.join(f'r->{f.name} = this->{f.name}.clone();' for f in owned)
        c(f'One<Node> {n.cls}::clone() const {{ auto r = std::make_shared<{n.cls}>(*this); {cl} return One<Node>(r); }}')
        for op, meth in (('equals', True), ('operator==', False)):
            cmp_ = []
            for f in af:
                if f.kind == 'Prim' or not meth:
                    cmp_.append(f'if (!(this->{f.name} == r.{f.name})) return false;')
                else:
                    cmp_.append(f'if (!this->{f.name}.equals(r.{f.name})) return false;')
            c(f'bool {n.cls}::{op}(const Node& rhs) const {{ if (rhs.type() != NodeType::{n.cls}) return false; auto& r = dynamic_cast<const {n.cls}&>(rhs); (void)r; {" ".join(cmp_)} return true; }}')
        c(f'void {n.cls}::visit_internal(VisitorBase& visitor, void* retval) {{ visitor.raw_visit_{n.name}(*this, retval); }}')
        # dump
        b = [f'td::Text t(out, indent, "{n.cls}");']
        if sp.loc:
            b.append(f'if (auto loc = this->get_annotation_ptr<{sp.loc}>()) t.location(*loc);')
        if af:
            b.append('t.open();')
            for f in af:
                k = {'Prim': 'prim', 'Maybe': 'one', 'One': 'one', 'Any': 'any', 'Many': 'any', 'Link': 'link', 'OptLink': 'link'}[f.kind]
                if f.kind == 'Prim':
                    b.append(f't.prim("{f.name}", "{f.typ}", this->{f.name});')
                elif k == 'one' or k == 'link':
                    b.append(f't.{k}("{f.name}", this->{f.name}, {"true" if f.kind in ("One", "Link") else "false"});')
                else:
                    b.append(f't.any("{f.name}", this->{f.name}, {"true" if f.kind == "Many" else "false"});')
            b.append('t.close();')
        else:
            b.append('t.empty();')
        c(f'void {n.cls}::dump_to(std::ostream& out, int indent) const {{ {" ".join(b)} }}')
        b = [f'td::Json t(out, "{n.cls}");']
        for f in af:
            k = {'Prim': 'prim', 'Maybe': 'one', 'One': 'one', 'Any': 'any', 'Many': 'any', 'Link': 'one', 'OptLink': 'one'}[f.kind]
            if k == 'prim':
                b.append(f't.prim("{f.name}", this->{f.name});')
            elif k == 'one':
                b.append(f't.one("{f.name}", this->{f.name}, {"true" if f.kind in ("One", "Link") else "false"});')
            else:
                b.append(f't.any("{f.name}", this->{f.name});')
        if sp.loc:
            b.append(f'if (auto loc = this->get_annotation_ptr<{sp.loc}>()) t.prim("source_location", *loc);')
        b.append('t.close();')
        c(f'void {n.cls}::dump_json_to(std::ostream& out) const {{ {" ".join(b)} }}')
        # full dump (verification only): exact values, source locations, links by name
        b = [f'td::Full t(out, "{n.cls}");', 't.location(*this);']
        for f in af:
            if f.kind == 'Prim':
                b.append(f't.prim("{f.name}", this->{f.name});')
            elif f.kind in ('Any', 'Many'):
                b.append(f't.any("{f.name}", this->{f.name});')
            elif f.kind in ('Link', 'OptLink'):
                b.append(f't.link("{f.name}", this->{f.name});')
            else:
                b.append(f't.one("{f.name}", this->{f.name});')
        b.append('t.close();')
        c(f'void {n.cls}::dump_full_to(std::ostream& out) const {{ {" ".join(b)} }}')
        # serdes
        b = ['(void)ids;', f'map.append_string("@t", "{n.cls}");']
        for f in af:
            if f.kind == 'Prim':
                b.append(f'{{ auto sm = map.append_map("{f.name}"); {sp.ser}<{f.typ}>(this->{f.name}, sm); sm.close(); }}')
            else:
                b.append(f'{{ auto sm = map.append_map("{f.name}"); this->{f.name}.serialize(sm, ids); sm.close(); }}')
        c(f'void {n.cls}::serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const {{ {" ".join(b)} }}')
        b = [f'if (map.at("@t").as_string() != "{n.cls}") throw std::runtime_error("Schema validation failed: unexpected node type");',
             f'auto node = std::make_shared<{n.cls}>(); (void)ids;']
        for f in af:
            if f.kind == 'Prim':
                b.append(f'node->{f.name} = {sp.des}<{f.typ}>(map.at("{f.name}").as_map());')
            else:
                b.append(f'node->{f.name}.deserialize_into(map.at("{f.name}").as_map(), ids);')
        b.append('return node;')
        c(f'std::shared_ptr<{n.cls}> {n.cls}::deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) {{ {" ".join(b)} }}')
    c('std::shared_ptr<Node> Node::deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) { auto type = map.at("@t").as_string();')
    for n in leaves:
        c(f'    if (type == "{n.cls}") return {n.cls}::deserialize(map, ids);')
    c('    throw std::runtime_error("Schema validation failed: unexpected node type " + type); }')
    c(f'}}  // namespace {ns}')
    for p, o in ((hpp, H), (cpp, C)):
        open(p, 'w').write('\n'.join(o) + '\n')


if __name__ == '__main__':
    gen(parse(sys.argv[1]), sys.argv[2], sys.argv[3])
