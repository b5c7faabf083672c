#!/usr/bin/env python3
"""Offline substitute for the ANTLR 4 tool (C++ target), for the grammar features libqasm uses.

Usage: antlrgen.py LEXER.g4 PARSER.g4 OUTDIR
Writes CqasmLexer.h, CqasmParser.h, CqasmParserVisitor.h, CqasmTables.cpp (names follow the grammars).
"""
import os
import re
import sys


# ------------------------------------------------------------------ .g4 tokeniser
def tokenize(text):
    toks, i = [], 0
    while i < len(text):
        c = text[i]
        if c.isspace():
            i += 1
        elif text.startswith('//', i):
            i = text.find('\n', i)
            i = len(text) if i < 0 else i
        elif text.startswith('/*', i):
            i = text.index('*/', i) + 2
        elif c == "'":
            j, v = i + 1, ''
            while text[j] != "'":
                if text[j] == '\\':
                    j += 1
                    v += {'n': '\n', 'r': '\r', 't': '\t', 'f': '\f', 'b': '\b'}.get(text[j], text[j])
                else:
                    v += text[j]
                j += 1
            toks.append(('lit', v, text[i:j + 1]))
            i = j + 1
        elif c == '[':
            j, items = i + 1, []
            while text[j] != ']':
                if text[j] == '\\':
                    j += 1
                    items.append({'n': '\n', 'r': '\r', 't': '\t', 'f': '\f', 'b': '\b'}.get(text[j], text[j]))
                elif text[j] == '-' and items and text[j + 1] != ']':
                    items.append(None)
                else:
                    items.append(text[j])
                j += 1
            rng, k = [], 0
            while k < len(items):
                if k + 2 < len(items) and items[k + 1] is None:
                    rng.append((ord(items[k]), ord(items[k + 2])))
                    k += 3
                else:
                    rng.append((ord(items[k] or '-'), ord(items[k] or '-')))
                    k += 1
            toks.append(('set', rng, None))
            i = j + 1
        elif c == '{':
            d, j = 0, i
            while True:
                d += {'{': 1, '}': -1}.get(text[j], 0)
                j += 1
                if d == 0:
                    break
            toks.append(('brace', text[i + 1:j - 1], None))
            i = j
        elif text.startswith('->', i):
            toks.append(('op', '->', None))
            i += 2
        elif text.startswith('..', i):
            toks.append(('op', '..', None))
            i += 2
        elif c.isalpha() or c == '_':
            m = re.compile(r'[A-Za-z_]\w*').match(text, i)
            toks.append(('id', m.group(0), None))
            i = m.end()
        elif c == '#':
            toks.append(('op', '#', None))
            i += 1
        else:
            toks.append(('op', c, None))
            i += 1
    return toks


# AST: ('alt', [alts]) alts = list of (seq, label, assoc); items:
# ('tok',name) ('rule',name) ('lit',s) ('set',ranges,neg) ('any',) ('block',alts) with suffix wrappers
# ('opt',x,greedy) ('star',x,greedy) ('plus',x,greedy)
class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', None, None)

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def isop(self, v, k=0):
        p = self.peek(k)
        return p[0] == 'op' and p[1] == v

    def expect(self, v):
        t = self.next()
        assert t[0] == 'op' and t[1] == v, (t, v, self.t[self.i - 6:self.i + 3])

    def alts(self):
        r = [self.alt()]
        while self.isop('|'):
            self.next()
            r.append(self.alt())
        return r

    def alt(self):
        seq, label, assoc, cmds = [], None, 'left', []
        while True:
            if self.isop('<'):
                self.next()
                opt = ''
                while not self.isop('>'):
                    opt += str(self.next()[1])
                self.next()
                if opt == 'assoc=right':
                    assoc = 'right'
                continue
            if self.isop('#'):
                self.next()
                label = self.next()[1]
                continue
            if self.isop('->'):
                self.next()
                while True:
                    n = self.next()[1]
                    a = None
                    if self.isop('('):
                        self.next()
                        a = self.next()[1]
                        self.expect(')')
                    cmds.append((n, a))
                    if not self.isop(','):
                        break
                    self.next()
                continue
            e = self.elem()
            if e is None:
                break
            seq.append(e)
        return (seq, label, assoc, cmds)

    def elem(self):
        t = self.peek()
        neg = False
        if self.isop('~'):
            self.next()
            neg = True
            t = self.peek()
        if t[0] == 'id':
            if self.isop('=', 1):
                self.next()
                self.next()
                return self.elem()
            self.next()
            e = ('tok' if t[1][0].isupper() else 'rule', t[1])
        elif t[0] == 'lit':
            self.next()
            if self.isop('..'):
                self.next()
                e = ('set', [(ord(t[1]), ord(self.next()[1]))], neg)
            else:
                e = ('lit', t[1], t[2])
        elif t[0] == 'set':
            self.next()
            e = ('set', t[1], neg)
        elif self.isop('.'):
            self.next()
            e = ('any',)
        elif self.isop('('):
            self.next()
            e = ('block', self.alts())
            self.expect(')')
        else:
            return None
        if neg and e[0] == 'lit':
            e = ('set', [(ord(e[1]), ord(e[1]))], True)
        if neg and e[0] == 'block':
            rs = []
            for s in e[1]:
                x = s[0][0]
                rs += [(ord(x[1]), ord(x[1]))] if x[0] == 'lit' else x[1]
            e = ('set', rs, True)
        for op, k in (('?', 'opt'), ('*', 'star'), ('+', 'plus')):
            if self.isop(op):
                self.next()
                greedy = True
                if self.isop('?'):
                    self.next()
                    greedy = False
                return (k, e, greedy)
        return e


def parse_grammar(path):
    p = P(tokenize(open(path).read()))
    kind = 'combined'
    if p.peek()[1] in ('lexer', 'parser'):
        kind = p.next()[1]
    assert p.next()[1] == 'grammar'
    name = p.next()[1]
    p.expect(';')
    modes, rules, mode, frag = ['DEFAULT_MODE'], [], 0, False
    while p.peek()[0] != 'eof':
        t = p.next()
        if t[1] == 'options' or t[1] == 'tokens' or t[1] == 'channels':
            p.next()
            continue
        if t[1] == 'mode':
            modes.append(p.next()[1])
            mode = len(modes) - 1
            p.expect(';')
            continue
        if t[1] == 'fragment':
            frag = True
            continue
        assert t[0] == 'id', t
        p.expect(':')
        rules.append((t[1], p.alts(), mode, frag))
        frag = False
        p.expect(';')
    return kind, name, modes, rules


# ------------------------------------------------------------------ lexer tables
class LexGen:
    def __init__(self, g):
        _, self.name, self.modes, self.rules = g
        self.byname = {r[0]: r for r in self.rules}
        self.states = []
        self.types = {}
        for r in self.rules:
            if not r[3]:
                self.types[r[0]] = len(self.types) + 1
        self.mode_rules = [[] for _ in self.modes]
        for r in self.rules:
            if r[3]:
                continue
            acc = self.new(('acc',))
            skip, push, pop = False, -1, False
            for a in r[1]:
                for n, arg in a[3]:
                    if n == 'skip':
                        skip = True
                    elif n == 'pushMode':
                        push = self.modes.index(arg)
                    elif n == 'popMode':
                        pop = True
                    else:
                        raise SystemExit(f'unsupported lexer command {n}')
            self.mode_rules[r[2]].append((self.types[r[0]], self.alts(r[1], acc), skip, push, pop))
        self.lit = {}
        for r in self.rules:
            if not r[3] and len(r[1]) == 1 and len(r[1][0][0]) == 1 and r[1][0][0][0][0] == 'lit':
                self.lit[r[0]] = r[1][0][0][0][2]

    def new(self, s):
        self.states.append(s)
        return len(self.states) - 1

    def alts(self, alts, nxt, ng=False):
        if len(alts) == 1:
            return self.seq(alts[0][0], nxt)
        return self.new(('eps', [self.seq(a[0], nxt) for a in alts], ng))

    def seq(self, seq, nxt):
        for e in reversed(seq):
            nxt = self.elem(e, nxt)
        return nxt

    def elem(self, e, nxt):
        k = e[0]
        if k == 'lit':
            for c in reversed(e[1]):
                nxt = self.new(('set', [(ord(c), ord(c))], nxt))
            return nxt
        if k == 'set':
            rs = sorted(e[1])
            if e[2]:
                out, lo = [], 0
                for a, b in rs:
                    if lo <= a - 1:
                        out.append((lo, a - 1))
                    lo = max(lo, b + 1)
                out.append((lo, 0x10FFFF))
                rs = out
            return self.new(('set', rs, nxt))
        if k == 'any':
            return self.new(('set', [(0, 0x10FFFF)], nxt))
        if k == 'tok':
            return self.alts(self.byname[e[1]][1], nxt)
        if k == 'block':
            return self.alts(e[1], nxt)
        if k == 'opt':
            b = self.elem(e[1], nxt)
            return self.new(('eps', [b, nxt] if e[2] else [nxt, b], not e[2]))
        if k in ('star', 'plus'):
            loop = self.new(None)
            b = self.elem(e[1], loop)
            self.states[loop] = ('eps', [b, nxt] if e[2] else [nxt, b], not e[2])
            return loop if k == 'star' else b
        raise SystemExit(f'unsupported lexer element {e}')


# ------------------------------------------------------------------ parser tables
BASIC, BLOCK, LOOP, LOOPBACK, STOP = range(5)


class ParGen:
    def __init__(self, g, types):
        _, self.name, _, self.rules = g
        self.types = dict(types)
        self.types['EOF'] = -1
        self.ridx = {r[0]: i for i, r in enumerate(self.rules)}
        self.st = []       # [type, [trans]]
        self.start, self.stop, self.info, self.ctx = [], [], [], []
        self.ctxdef = []   # (class, rule, elements-of-that-alt)
        for r in self.rules:
            self.start.append(self.new(BASIC))
            self.stop.append(self.new(STOP))
        for i, r in enumerate(self.rules):
            self.info.append(self.rule(i, r))
        # global follow edges from rule stops
        for s in list(self.st):
            for tr in s[1]:
                if tr[0] == 'rule':
                    self.st[self.stop[tr[2]]][1].append(('eps', tr[1]))
        self.analyse()

    def new(self, typ):
        self.st.append([typ, []])
        return len(self.st) - 1

    def eps(self, a, b):
        self.st[a][1].append(('eps', b))

    def context(self, rule, alts):
        """context class per alternative (labels) or one for the rule"""
        name = rule[0]
        if alts[0][1]:
            ids, by = [], {}
            for a in alts:
                if a[1] not in by:
                    by[a[1]] = len(self.ctxdef)
                    self.ctxdef.append([a[1], name, [], True])
                self.ctxdef[by[a[1]]][2].append(a[0])
                ids.append(by[a[1]])
            return ids
        self.ctxdef.append([name, name, [a[0] for a in alts], False])
        return [len(self.ctxdef) - 1] * len(alts)

    @staticmethod
    def tokset(alts):
        """token alternatives that ANTLR collapses into one set match"""
        out = []
        for a in alts:
            if len(a[0]) != 1 or a[1]:
                return None
            e = a[0][0]
            if e[0] == 'block':
                sub = ParGen.tokset(e[1])
                if sub is None:
                    return None
                out += sub
            elif e[0] == 'tok' and e[1] != 'EOF':
                out.append(e[1])
            else:
                return None
        return out

    def seq(self, seq, cur, prec_last=None, rule=None):
        """compile a sequence from state cur; returns (elems, end state)"""
        elems = []
        last = None
        if prec_last is not None:
            for k, e in enumerate(seq):
                if e == ('rule', rule):
                    last = k
        for k, e in enumerate(seq):
            el, cur = self.elem(e, cur, prec_last if k == last else 0)
            elems.append(el)
        return elems, cur

    def elem(self, e, cur, prec=0):
        k = e[0]
        if k == 'tok':
            end = self.new(BASIC)
            self.st[cur][1].append(('set', end, [self.types[e[1]]]))
            return dict(kind=0, state=cur, set=[self.types[e[1]]]), end
        if k == 'rule':
            end = self.new(BASIC)
            self.st[cur][1].append(('rule', end, self.ridx[e[1]]))
            return dict(kind=1, state=cur, rule=self.ridx[e[1]], prec=prec), end
        if k == 'block':
            ts = self.tokset(e[1])
            if ts is not None and len(ts) > 0:
                end = self.new(BASIC)
                s = [self.types[x] for x in ts]
                self.st[cur][1].append(('set', end, s))
                return dict(kind=0, state=cur, set=s), end
            d = self.new(BLOCK)
            self.eps(cur, d)
            end = self.new(BASIC)
            return dict(kind=2, state=d, alts=self.branch(e[1], d, end)), end
        alts = e[1][1] if e[1][0] == 'block' and not (self.tokset(e[1][1])) else [([e[1]], None, 'left', [])]
        if k == 'opt':
            d = self.new(BLOCK)
            self.eps(cur, d)
            end = self.new(BASIC)
            a = self.branch(alts, d, end)
            self.eps(d, end)
            return dict(kind=3, state=d, alts=a), end
        if k == 'star':
            d = self.new(LOOP)
            self.eps(cur, d)
            back = self.new(LOOPBACK)
            end = self.new(BASIC)
            a = self.branch(alts, d, back)
            self.eps(back, d)
            self.eps(d, end)
            return dict(kind=4, state=d, state2=back, alts=a), end
        if k == 'plus':
            assert len(alts) == 1
            b = self.new(BLOCK)
            self.eps(cur, b)
            back = self.new(LOOPBACK)
            end = self.new(BASIC)
            inner = self.new(BASIC)
            self.eps(b, inner)
            el, x = self.seq(alts[0][0], inner)
            self.eps(x, back)
            self.eps(back, b)
            self.eps(back, end)
            return dict(kind=5, state=back, state2=b, alts=[el]), end
        raise SystemExit(f'unsupported parser element {e}')

    def branch(self, alts, d, end):
        out = []
        for a in alts:
            s = self.new(BASIC)
            self.eps(d, s)
            el, x = self.seq(a[0], s)
            self.eps(x, end)
            out.append(el)
        return out

    def rule(self, i, r):
        name, alts = r[0], r[1]
        start, stop = self.start[i], self.stop[i]
        info = dict(rec=False, loop=0, ops=[])
        if any(a[0] and a[0][0] == ('rule', name) for a in alts):
            ids = self.context(r, alts)
            n = len(alts)
            prim, ops = [], []
            for k, a in enumerate(alts):
                p = n - k
                if a[0][0] == ('rule', name):
                    nxt = (p if a[2] == 'right' else p + 1) if a[0][-1] == ('rule', name) else 0
                    ops.append((a, p, nxt, ids[k]))
                else:
                    # prefix operator: the trailing operand binds at the alternative's own precedence
                    prim.append((a, p if a[0][-1] == ('rule', name) and len(a[0]) > 1 else None, ids[k]))
            d = self.new(BLOCK)
            self.eps(start, d)
            loop = self.new(LOOP)
            balts = []
            for a, p, _ in prim:
                s = self.new(BASIC)
                self.eps(d, s)
                el, x = self.seq(a[0], s, p, name)
                self.eps(x, loop)
                balts.append(el)
            for a, p, nxt, cid in ops:
                s = self.new(BASIC)
                self.eps(loop, s)
                el, x = self.seq(a[0][1:], s, nxt, name)
                self.eps(x, loop)
                assert el[0]['kind'] == 0
                info['ops'].append((el[0]['set'], p, el, cid))
            self.eps(loop, stop)
            info.update(rec=True, loop=loop, block=dict(kind=2, state=d, alts=balts), ctx=[x[2] for x in prim])
            return info
        info['ctx'] = self.context(r, alts)
        if len(alts) == 1 or self.tokset(alts):
            s = self.new(BASIC)
            self.eps(start, s)
            src = alts[0][0] if len(alts) == 1 else [('block', alts)]
            el, x = self.seq(src, s)
            self.eps(x, stop)
            info['block'] = dict(kind=2, state=s, alts=[el])
            info['ctx'] = info['ctx'][:1]
            return info
        d = self.new(BLOCK)
        self.eps(start, d)
        info['block'] = dict(kind=2, state=d, alts=self.branch(alts, d, stop))
        return info

    # LL(1) decision analysis (ANTLR: LL1Analyzer.getDecisionLookahead, precedence predicates hide a decision)
    def analyse(self):
        preds = {info['loop'] for info in self.info if info['rec']}

        def look(s):
            out, hit, busy = set(), [False], set()

            def go(x, stack, called):
                if (x, stack) in busy:
                    return
                busy.add((x, stack))
                if x in preds:
                    hit[0] = True
                if self.st[x][0] == STOP and stack:
                    go(stack[-1], stack[:-1], called)
                    return
                for tr in self.st[x][1]:
                    if tr[0] == 'eps':
                        go(tr[1], stack, called)
                    elif tr[0] == 'set':
                        out.update(tr[2])
                    elif tr[2] not in called:
                        go(self.start[tr[2]], stack + (tr[1],), called | {tr[2]})
            go(s, (), frozenset())
            return None if hit[0] or not out else out

        def visit(e):
            if e['kind'] >= 2:
                for a in e['alts']:
                    for x in a:
                        visit(x)
                if e['kind'] == 2 and len(e['alts']) == 1:
                    return
                ls = [look(tr[1]) for tr in self.st[e['state']][1]]
                ok = all(x is not None for x in ls) and sum(map(len, ls)) == len(set().union(*[x or set() for x in ls]))
                e['ll1'] = ok
                if ok:
                    e['look'] = [sorted(x) for x in ls[:len(e['alts'])]]
        for info in self.info:
            visit(info['block'])
            for o in info['ops']:
                for x in o[2]:
                    visit(x)


def cap(s):
    return s[:1].upper() + s[1:]


def emit(lex, par, out):
    L, S = lex.name, par.name
    os.makedirs(out, exist_ok=True)
    enum = ', '.join(f'{n} = {v}' for n, v in lex.types.items())
    with open(f'{out}/{L}.h', 'w') as f:
        f.write(f'''#pragma once
#include "antlr4-runtime.h"
class {L} : public antlr4::Lexer {{
public:
    enum {{ {enum} }};
    explicit {L}(antlr4::ANTLRInputStream* input);
    static const antlr4::LexTables& tables();
}};
''')

    def count(seq, mult=1, acc=None):
        for e in seq:
            k = e[0]
            if k in ('tok', 'rule'):
                acc[e] = acc.get(e, 0) + mult
            elif k == 'block':
                best = {}
                for a in e[1]:
                    one = {}
                    count(a[0], mult, one)
                    for x, n in one.items():
                        best[x] = max(best.get(x, 0), n)
                for x, n in best.items():
                    acc[x] = acc.get(x, 0) + n
            elif k == 'opt':
                count([e[1]], mult, acc)
            elif k in ('star', 'plus'):
                count([e[1]], 2, acc)
        return acc

    labelled = {}
    for d in par.ctxdef:
        if d[3]:
            labelled.setdefault(d[1], []).append(d)
    H = ['#pragma once', '#include "antlr4-runtime.h"', f'class {S}Visitor;',
         f'class {S} : public antlr4::Parser {{', 'public:', f'    enum {{ {enum} }};',
         '    enum { ' + ', '.join(f'Rule{cap(r[0])} = {i}' for i, r in enumerate(par.rules)) + ' };',
         f'    explicit {S}(antlr4::CommonTokenStream* input);']
    for r in par.rules:
        H.append(f'    class {cap(r[0])}Context;')
    for r in par.rules:
        if r[0] in labelled:
            H.append(f'    class {cap(r[0])}Context : public antlr4::ParserRuleContext {{ public: }};')
    for name, rule, seqs, lab in par.ctxdef:
        base = f'{cap(rule)}Context' if lab else 'antlr4::ParserRuleContext'
        H.append(f'    class {cap(name)}Context : public {base} {{\n    public:')
        tot = {}
        for s in seqs:
            one = count(s, 1, {})
            for x, n in one.items():
                tot[x] = max(tot.get(x, 0), n)
        for (k, n), c in tot.items():
            if k == 'tok':
                tv = 'antlr4::Token::EOF' if n == 'EOF' else str(lex.types[n])
                if c > 1:
                    H.append(f'        std::vector<antlr4::tree::TerminalNode*> {n}() {{ return getTokens({tv}); }}')
                    H.append(f'        antlr4::tree::TerminalNode* {n}(size_t i) {{ return getToken({tv}, i); }}')
                elif n != 'EOF':
                    H.append(f'        antlr4::tree::TerminalNode* {n}() {{ return getToken({tv}, 0); }}')
            else:
                t = f'{cap(n)}Context'
                if c > 1:
                    H.append(f'        std::vector<{t}*> {n}();\n        {t}* {n}(size_t i);')
                else:
                    H.append(f'        {t}* {n}();')
        H.append('        std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;\n    };')
    for i, r in enumerate(par.rules):
        H.append(f'    {cap(r[0])}Context* {r[0]}() {{ return dynamic_cast<{cap(r[0])}Context*>(parseRule({i})); }}')
    H.append('protected:\n    std::unique_ptr<antlr4::ParserRuleContext> makeContext(int id) override;\n};')
    open(f'{out}/{S}.h', 'w').write('\n'.join(H) + '\n')
    V = ['#pragma once', f'#include "{S}.h"', f'class {S}Visitor : public antlr4::tree::ParseTreeVisitor {{', 'public:']
    for name, *_ in par.ctxdef:
        V.append(f'    virtual std::any visit{cap(name)}({S}::{cap(name)}Context* context) = 0;')
    V.append('};')
    open(f'{out}/{S}Visitor.h', 'w').write('\n'.join(V) + '\n')

    C = [f'#include "{L}.h"', f'#include "{S}.h"', f'#include "{S}Visitor.h"', 'using namespace antlr4;']
    for name, rule, seqs, lab in par.ctxdef:
        cl = f'{S}::{cap(name)}Context'
        tot = {}
        for s in seqs:
            one = count(s, 1, {})
            for x, n in one.items():
                tot[x] = max(tot.get(x, 0), n)
        for (k, n), c in tot.items():
            if k == 'rule':
                t = f'{S}::{cap(n)}Context'
                if c > 1:
                    C.append(f'std::vector<{t}*> {cl}::{n}() {{ return getRuleContexts<{t}>(); }}')
                    C.append(f'{t}* {cl}::{n}(size_t i) {{ return getRuleContext<{t}>(i); }}')
                else:
                    C.append(f'{t}* {cl}::{n}() {{ return getRuleContext<{t}>(0); }}')
        C.append(f'std::any {cl}::accept(tree::ParseTreeVisitor* visitor) {{ if (auto* v = dynamic_cast<{S}Visitor*>(visitor)) return v->visit{cap(name)}(this); return {{}}; }}')
    C.append(f'std::unique_ptr<ParserRuleContext> {S}::makeContext(int id) {{ switch (id) {{')
    for i, d in enumerate(par.ctxdef):
        C.append(f'    case {i}: return std::make_unique<{cap(d[0])}Context>();')
    C.append('    default: throw RuntimeException("context"); } }')

    def cl(v):
        return '{' + ', '.join(map(str, v)) + '}'

    def b(x):
        return 'true' if x else 'false'

    rows = []
    for s in lex.states:
        if s[0] == 'acc':
            rows.append('{2, false, {}, {}, 0}')
        elif s[0] == 'eps':
            rows.append(f'{{0, {b(s[2])}, {cl(s[1])}, {{}}, 0}}')
        else:
            rows.append('{1, false, {}, {' + ', '.join(f'{{{x}, {y}}}' for x, y in s[1]) + f'}}, {s[2]}}}')
    C.append(f'const LexTables& {L}::tables() {{ static const LexTables t = [] {{ LexTables t;')
    for r in rows:
        C.append(f'    t.states.push_back(LexState{r});')
    C.append('    t.modes.resize(%d);' % len(lex.mode_rules))
    for m, rs in enumerate(lex.mode_rules):
        for ty, st, sk, pu, po in rs:
            C.append(f'    t.modes[{m}].push_back(LexRule{{{ty}, {st}, {b(sk)}, {pu}, {b(po)}}});')

    def cstr(s):
        return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
    C.append('    t.literalNames = {"", ' + ', '.join(cstr(lex.lit.get(n, '')) for n in lex.types) + '};')
    C.append('    t.symbolicNames = {"", ' + ', '.join(cstr(n) for n in lex.types) + '};')
    C.append('    return t; }(); return t; }')
    C.append(f'{L}::{L}(ANTLRInputStream* input) : Lexer(input, tables()) {{}}')

    def el(e):
        alts = '{' + ', '.join('{' + ', '.join(el(x) for x in a) + '}' for a in e.get('alts', [])) + '}'
        return (f'Elem{{{e["kind"]}, {e["state"]}, {e.get("state2", 0)}, {cl(e.get("set", []))}, {e.get("rule", 0)}, {e.get("prec", 0)}, '
                f'{b(e.get("ll1"))}, {{{", ".join(cl(x) for x in e.get("look", []))}}}, {alts}}}')
    C.append(f'static const ParserTables& parserTables() {{ static const ParserTables t = [] {{ ParserTables t; t.vocab = &{L}::tables();')
    for ty, trs in par.st:
        x = []
        for tr in trs:
            if tr[0] == 'eps':
                x.append(f'Trans{{0, {tr[1]}, {{}}, 0}}')
            elif tr[0] == 'set':
                x.append(f'Trans{{1, {tr[1]}, {cl(tr[2])}, 0}}')
            else:
                x.append(f'Trans{{2, {tr[1]}, {{}}, {tr[2]}}}')
        C.append(f'    t.states.push_back(AtnState{{{ty}, {{{", ".join(x)}}}}});')
    C.append(f'    t.ruleStart = {cl(par.start)}; t.ruleStop = {cl(par.stop)};')
    for info in par.info:
        C.append(f'    {{ RuleInfo r; r.block = {el(info["block"])}; r.altCtx = {cl(info["ctx"])}; r.recursive = {b(info["rec"])}; r.loopState = {info["loop"]};')
        for first, p, seq, cid in info['ops']:
            C.append(f'      r.ops.push_back(RuleInfo::Op{{{cl(first)}, {p}, {{{", ".join(el(x) for x in seq)}}}, {cid}}});')
        C.append('      t.rules.push_back(r); }')
    C.append('    return t; }(); return t; }')
    C.append(f'{S}::{S}(CommonTokenStream* input) : Parser(input, parserTables()) {{}}')
    open(f'{out}/CqasmTables.cpp', 'w').write('\n'.join(C) + '\n')


if __name__ == '__main__':
    lexg = LexGen(parse_grammar(sys.argv[1]))
    parg = ParGen(parse_grammar(sys.argv[2]), lexg.types)
    emit(lexg, parg, sys.argv[3])
