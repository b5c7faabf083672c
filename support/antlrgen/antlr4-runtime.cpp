#include "antlr4-runtime.h"

#include <algorithm>
#include <map>
#include <set>

namespace antlr4 {

void ANTLRInputStream::load(std::string_view s) {
    data.clear();
    p = 0;
    if (s.size() >= 3 && s.substr(0, 3) == "\xEF\xBB\xBF") s.remove_prefix(3);
    for (std::size_t i = 0; i < s.size();) {
        auto c = static_cast<unsigned char>(s[i]);
        std::size_t n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
        if (n == 0 || i + n > s.size()) throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
        char32_t cp = n == 1 ? c : n == 2 ? c & 0x1f : n == 3 ? c & 0x0f : c & 0x07;
        for (std::size_t k = 1; k < n; ++k) {
            auto d = static_cast<unsigned char>(s[i + k]);
            if ((d & 0xc0) != 0x80) throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
            cp = (cp << 6) | (d & 0x3f);
        }
        static const char32_t least[] = { 0, 0, 0x80, 0x800, 0x10000 };
        if (cp < least[n] || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) {
            throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
        }
        data.push_back(cp);
        i += n;
    }
}
static void put_utf8(std::string& o, char32_t c) {
    if (c < 0x80) o += static_cast<char>(c);
    else if (c < 0x800) { o += static_cast<char>(0xc0 | (c >> 6)); o += static_cast<char>(0x80 | (c & 0x3f)); }
    else if (c < 0x10000) { o += static_cast<char>(0xe0 | (c >> 12)); o += static_cast<char>(0x80 | ((c >> 6) & 0x3f)); o += static_cast<char>(0x80 | (c & 0x3f)); }
    else { o += static_cast<char>(0xf0 | (c >> 18)); o += static_cast<char>(0x80 | ((c >> 12) & 0x3f)); o += static_cast<char>(0x80 | ((c >> 6) & 0x3f)); o += static_cast<char>(0x80 | (c & 0x3f)); }
}
std::string ANTLRInputStream::getText(std::size_t start, std::size_t stop) const {
    std::string o;
    for (std::size_t i = start; i <= stop && i < data.size(); ++i) put_utf8(o, data[i]);
    return o;
}
void ANTLRFileStream::loadFromFile(const std::string& name) {
    std::ifstream f(name, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    load(ss.str());
}

static std::string escapeWs(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else r += c; }
    return r;
}

//------------------------------------------------------------------ lexer
namespace {
struct LexCfg { int state; int alt; bool ng; };
struct LexSet {
    std::vector<LexCfg> v;
    std::set<std::tuple<int, int, bool>> seen;
    void add(const LexCfg& c) { if (seen.insert({ c.state, c.alt, c.ng }).second) v.push_back(c); }
};
bool lexClosure(const LexTables& t, LexCfg c, LexSet& out, bool reached, std::set<std::pair<int, bool>>& busy) {
    const auto& s = t.states[static_cast<std::size_t>(c.state)];
    if (s.nonGreedy) c.ng = true;
    if (s.kind == 2) { out.add(c); return true; }
    if (s.kind == 1) { if (!reached || !c.ng) out.add(c); return reached; }
    if (!busy.insert({ c.state, c.ng }).second) return reached;
    for (int e : s.eps) reached = lexClosure(t, { e, c.alt, c.ng }, out, reached, busy);
    busy.erase({ c.state, c.ng });
    return reached;
}
}  // namespace

std::unique_ptr<Token> Lexer::nextToken() {
    for (;;) {
        auto start = input->index();
        auto sline = line, scol = col;
        const auto& rules = tables.modes[static_cast<std::size_t>(mode)];
        LexSet cur;
        for (std::size_t i = 0; i < rules.size(); ++i) {
            std::set<std::pair<int, bool>> busy;
            lexClosure(tables, { rules[i].start, static_cast<int>(i), false }, cur, false, busy);
        }
        int acc = -1;
        std::size_t accIndex = 0, accLine = 0, accCol = 0;
        while (true) {
            int c = input->LA(1);
            LexSet next;
            int skipAlt = -1;
            if (c >= 0) {
                for (const auto& cfg : cur.v) {
                    const auto& s = tables.states[static_cast<std::size_t>(cfg.state)];
                    bool altReached = cfg.alt == skipAlt;
                    if (altReached && cfg.ng) continue;
                    if (s.kind != 1) continue;
                    for (auto [a, b] : s.set) {
                        if (c >= a && c <= b) {
                            std::set<std::pair<int, bool>> busy;
                            if (lexClosure(tables, { s.target, cfg.alt, cfg.ng }, next, altReached, busy)) skipAlt = cfg.alt;
                            break;
                        }
                    }
                }
            }
            if (next.v.empty()) break;
            input->consume();
            if (c == '\n') { ++line; col = 0; } else { ++col; }
            for (const auto& cfg : next.v) {
                if (tables.states[static_cast<std::size_t>(cfg.state)].kind == 2) {
                    acc = cfg.alt; accIndex = input->index(); accLine = line; accCol = col;
                    break;
                }
            }
            cur = std::move(next);
        }
        if (acc < 0) {
            if (input->LA(1) < 0 && input->index() == start) {
                auto tok = std::make_unique<Token>();
                tok->type = Token::EOF; tok->line = line; tok->col = col; tok->start = start; tok->stop = start - 1; tok->text = "<EOF>";
                return tok;
            }
            auto text = input->getText(start, input->index());
            for (auto* l : listeners) l->syntaxError(this, nullptr, sline, scol, "token recognition error at: '" + escapeWs(text) + "'", nullptr);
            if (input->LA(1) >= 0) { input->consume(); }
            continue;
        }
        input->seek(accIndex); line = accLine; col = accCol;
        const auto& r = rules[static_cast<std::size_t>(acc)];
        if (r.pushMode >= 0) { modeStack.push_back(mode); mode = r.pushMode; }
        if (r.popMode) { if (modeStack.empty()) throw RuntimeException("empty mode stack"); mode = modeStack.back(); modeStack.pop_back(); }
        if (r.skip) continue;
        auto tok = std::make_unique<Token>();
        tok->type = static_cast<std::size_t>(r.type); tok->line = sline; tok->col = scol; tok->start = start; tok->stop = accIndex - 1;
        tok->text = input->getText(start, accIndex - 1);
        return tok;
    }
}
void CommonTokenStream::sync(std::size_t i) {
    while (tokens.size() <= i) {
        if (!tokens.empty() && tokens.back()->getType() == Token::EOF) return;
        tokens.push_back(lexer->nextToken());
    }
}
Token* CommonTokenStream::LT(std::size_t k) {
    sync(p + k - 1);
    return tokens[std::min(p + k - 1, tokens.size() - 1)].get();
}
void CommonTokenStream::consume() {
    sync(p + 1);
    if (p + 1 < tokens.size()) ++p;
}
std::string CommonTokenStream::getText(std::size_t a, std::size_t b) {
    std::string s;
    for (std::size_t i = a; i <= b && i < tokens.size() && tokens[i]->getType() != Token::EOF; ++i) s += tokens[i]->getText();
    return s;
}

//------------------------------------------------------------------ contexts
tree::TerminalNode* ParserRuleContext::getToken(std::size_t type, std::size_t i) const {
    for (auto* c : children) if (auto* n = dynamic_cast<tree::TerminalNode*>(c)) if (n->getSymbol()->getType() == type) { if (i == 0) return n; --i; }
    return nullptr;
}
std::vector<tree::TerminalNode*> ParserRuleContext::getTokens(std::size_t type) const {
    std::vector<tree::TerminalNode*> v;
    for (auto* c : children) if (auto* n = dynamic_cast<tree::TerminalNode*>(c)) if (n->getSymbol()->getType() == type) v.push_back(n);
    return v;
}

//------------------------------------------------------------------ parser
namespace {
bool has(const std::vector<long>& s, long x) { return std::find(s.begin(), s.end(), x) != s.end(); }
void put(std::vector<long>& s, long x) { if (!has(s, x)) s.push_back(x); }

struct Stack { int ret; std::shared_ptr<const Stack> up; };
using StackP = std::shared_ptr<const Stack>;
using Flat = std::vector<int>;
struct Cfg { int state; int alt; Flat stack; bool outer; };
struct CfgLess {
    bool operator()(const Cfg& a, const Cfg& b) const { return std::tie(a.state, a.alt, a.stack, a.outer) < std::tie(b.state, b.alt, b.stack, b.outer); }
};
using CfgSet = std::set<Cfg, CfgLess>;
}  // namespace

void Parser::look(int s, std::vector<int>& stack, Set& out, std::vector<std::pair<int, std::size_t>>& busy, std::vector<char>& called) const {
    std::pair<int, std::size_t> key{ s, stack.size() };
    if (std::find(busy.begin(), busy.end(), key) != busy.end()) return;
    busy.push_back(key);
    const auto& st = t.states[static_cast<std::size_t>(s)];
    if (st.type == 4) {
        if (stack.empty()) put(out, -2);
        else {
            int r = stack.back();
            stack.pop_back();
            look(r, stack, out, busy, called);
            stack.push_back(r);
        }
    }
    for (const auto& tr : st.trans) {
        if (tr.kind == 0) { if (st.type != 4) look(tr.target, stack, out, busy, called); }
        else if (tr.kind == 1) for (long x : tr.set) put(out, x);
        else {
            if (called[static_cast<std::size_t>(tr.rule)]) continue;
            called[static_cast<std::size_t>(tr.rule)] = 1;
            stack.push_back(tr.target);
            look(t.ruleStart[static_cast<std::size_t>(tr.rule)], stack, out, busy, called);
            stack.pop_back();
            called[static_cast<std::size_t>(tr.rule)] = 0;
        }
    }
    busy.pop_back();
}
Parser::Set Parser::nextTokens(int s) const {
    Set out;
    std::vector<int> stack;
    std::vector<std::pair<int, std::size_t>> busy;
    std::vector<char> called(t.rules.size(), 0);
    look(s, stack, out, busy, called);
    std::sort(out.begin(), out.end());
    return out;
}
Parser::Set Parser::expectedFrom(int s, std::size_t depth) const {
    Set r, f = nextTokens(s);
    for (;;) {
        bool eps = false;
        for (long x : f) { if (x == -2) eps = true; else put(r, x); }
        if (!eps) break;
        if (depth == 0) { put(r, -1); break; }
        f = nextTokens(follow[--depth]);
    }
    std::sort(r.begin(), r.end());
    return r;
}
static std::string tokenName(const LexTables& v, long x) {
    if (x == -1) return "<EOF>";
    const auto& l = v.literalNames[static_cast<std::size_t>(x)];
    return l.empty() ? v.symbolicNames[static_cast<std::size_t>(x)] : l;
}
std::string Parser::display(const Set& s) const {
    if (s.empty()) return "{}";
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) r += (i ? ", " : "") + tokenName(*t.vocab, s[i]);
    return s.size() > 1 ? "{" + r + "}" : r;
}
static std::string tokenDisplay(Token* tok) { return "'" + escapeWs(tok->getText()) + "'"; }

namespace { struct Stop : RuntimeException { using RuntimeException::RuntimeException; }; }
void Parser::report(Token* tok, const std::string& msg) {
    for (auto* l : listeners) l->syntaxError(this, tok, tok->getLine(), tok->getCharPositionInLine(), msg, nullptr);
    throw Stop(msg); // error recovery is not implemented: libqasm's listener always throws
}
void Parser::reportNoViable(std::size_t start, std::size_t stop) {
    auto* st = input->get(start);
    auto text = st->getType() == Token::EOF ? std::string("<EOF>") : input->getText(start, stop);
    report(input->get(stop), "no viable alternative at input '" + escapeWs(text) + "'");
}
bool Parser::singleTokenDeletion() {
    auto next = static_cast<long>(static_cast<std::ptrdiff_t>(input->LA(2)));
    auto exp = expectedTokens();
    if (!has(exp, next)) return false;
    report(input->LT(1), "extraneous input " + tokenDisplay(input->LT(1)) + " expecting " + display(exp));
}
void Parser::sync() {
    auto next = nextTokens(state);
    if (has(next, la()) || has(next, -2)) return;
    switch (t.states[static_cast<std::size_t>(state)].type) {
        case 1: case 2:
            singleTokenDeletion();
            report(input->LT(1), "mismatched input " + tokenDisplay(input->LT(1)) + " expecting " + display(expectedTokens()));
        case 3:
            report(input->LT(1), "extraneous input " + tokenDisplay(input->LT(1)) + " expecting " + display(expectedTokens()));
        default: break;
    }
}
void Parser::recoverInline() {
    singleTokenDeletion();
    const auto& st = t.states[static_cast<std::size_t>(state)];
    auto at2 = expectedFrom(st.trans[0].target, follow.size());
    // ANTLR: atn.nextTokens(next, ctx) (no EOF added unless the outermost context can end)
    if (has(at2, la())) report(input->LT(1), "missing " + display(expectedTokens()) + " at " + tokenDisplay(input->LT(1)));
    report(input->LT(1), "mismatched input " + tokenDisplay(input->LT(1)) + " expecting " + display(expectedTokens()));
}
void Parser::matchSet(const Elem& e, ParserRuleContext* ctx) {
    state = e.state;
    if (!has(e.set, la())) recoverInline();
    auto n = std::make_unique<tree::TerminalNode>(input->LT(1));
    ctx->children.push_back(n.get());
    owned.push_back(std::move(n));
    if (la() != -1) input->consume();
}

// ALL(*) prediction: SLL first, full context on an SLL conflict.
std::size_t Parser::predict(int s) {
    auto start = input->index();
    const auto& states = t.states;
    // As ANTLR (canDropLoopEntryEdgeInLeftRecursiveRule): operators after a trailing operand are left to
    // the outermost expression that ends there, which keeps the contexts of a chain of operators few.
    auto trailing = [&](int s0, int loop) {
        for (int n = 0; n < 8; ++n) {
            if (s0 == loop) return true;
            const auto& q = states[static_cast<std::size_t>(s0)];
            if (q.trans.size() != 1 || q.trans[0].kind != 0) return false;
            s0 = q.trans[0].target;
        }
        return false;
    };
    auto isLoop = [&](int s0) { return std::any_of(t.rules.begin(), t.rules.end(), [&](const RuleInfo& r) { return r.recursive && r.loopState == s0; }); };
    auto closure = [&](auto&& self, Cfg c, CfgSet& out, CfgSet& busy, bool full) -> void {
        const auto& st = states[static_cast<std::size_t>(c.state)];
        if (!busy.insert(c).second) return;
        if (!c.stack.empty() && isLoop(c.state) && trailing(c.stack.back(), c.state)) {
            Cfg d = c;
            d.state = st.trans.back().target; // the exit of the loop
            self(self, d, out, busy, full);
            return;
        }
        if (st.type == 4) {
            if (!c.stack.empty()) {
                c.state = c.stack.back();
                c.stack.pop_back();
                self(self, c, out, busy, full);
                return;
            }
            if (full || st.trans.empty()) { out.insert(c); return; }
            for (const auto& tr : st.trans) { Cfg d = c; d.state = tr.target; d.outer = true; self(self, d, out, busy, full); }
            return;
        }
        for (const auto& tr : st.trans) {
            if (tr.kind == 1) { out.insert(c); continue; }
            Cfg d = c;
            if (tr.kind == 0) d.state = tr.target;
            else { d.stack.push_back(tr.target); d.state = t.ruleStart[static_cast<std::size_t>(tr.rule)]; }
            self(self, d, out, busy, full);
        }
    };
    auto initial = [&](bool full) {
        CfgSet out;
        int alt = 0;
        for (const auto& tr : states[static_cast<std::size_t>(s)].trans) {
            CfgSet busy;
            closure(closure, Cfg{ tr.target, ++alt, full ? Flat(follow.begin(), follow.end()) : Flat{}, false }, out, busy, full);
        }
        return out;
    };
    auto unique = [](const CfgSet& c) { int a = 0; for (auto& x : c) { if (a == 0) a = x.alt; else if (a != x.alt) return 0; } return a; };
    auto step = [&](const CfgSet& cur, long x, bool full) {
        CfgSet mid, out;
        for (auto& c : cur) {
            for (const auto& tr : states[static_cast<std::size_t>(c.state)].trans) {
                if (tr.kind == 1 && has(tr.set, x)) { Cfg d = c; d.state = tr.target; mid.insert(d); }
            }
        }
        if (x != -1 && !mid.empty() && unique(mid)) return mid;
        CfgSet busy;
        for (auto& c : mid) closure(closure, c, out, busy, full);
        return out;
    };
    // alternatives grouped by (state, set of stacks), as ANTLR does on its merged contexts
    auto subsets = [&](const CfgSet& cur) {
        std::map<std::pair<int, int>, std::set<Flat>> ctx;
        for (auto& c : cur) ctx[{ c.state, c.alt }].insert(c.stack);
        std::map<std::pair<int, std::set<Flat>>, std::set<int>> alts;
        for (auto& [k, v] : ctx) alts[{ k.first, v }].insert(k.second);
        return alts;
    };
    auto finished = [&](const CfgSet& cur) {
        int best = 0;
        for (auto& c : cur) {
            if (c.outer || (states[static_cast<std::size_t>(c.state)].type == 4 && c.stack.empty())) {
                if (best == 0 || c.alt < best) best = c.alt;
            }
        }
        return best;
    };
    for (bool full : { false, true }) {
        auto cur = initial(full);
        std::size_t k = 1;
        for (;; ++k) {
            if (int u = unique(cur); u && k > 1) return static_cast<std::size_t>(u);
            if (k > 1) {
                auto sub = subsets(cur);
                if (!full) {
                    bool allStop = std::all_of(cur.begin(), cur.end(), [&](const Cfg& c) { return states[static_cast<std::size_t>(c.state)].type == 4; });
                    std::map<int, std::set<int>> perState;
                    bool conflict = false;
                    for (auto& [key, alts] : sub) { if (alts.size() > 1) conflict = true; perState[key.first].insert(alts.begin(), alts.end()); }
                    bool single = std::any_of(perState.begin(), perState.end(), [](auto& x) { return x.second.size() == 1; });
                    if (allStop || (conflict && !single)) break;
                } else {
                    std::set<int> mins;
                    for (auto& [key, alts] : sub) mins.insert(*alts.begin());
                    if (mins.size() == 1) return static_cast<std::size_t>(*mins.begin());
                }
            }
            long x = static_cast<long>(static_cast<std::ptrdiff_t>(input->LA(k)));
            auto nxt = step(cur, x, full);
            if (nxt.empty()) {
                if (int a = finished(cur)) return static_cast<std::size_t>(a);
                input->LT(k);
                auto idx = start;
                while (idx < start + k - 1 && input->get(idx)->getType() != Token::EOF) ++idx;
                reportNoViable(start, idx);
            }
            cur = std::move(nxt);
        }
    }
    throw RuntimeException("prediction did not terminate");
}

std::size_t Parser::choose(const Elem& e, bool alt_block) {
    if (!e.ll1) return predict(e.state);
    for (std::size_t i = 0; i < e.look.size(); ++i) if (has(e.look[i], la())) return i + 1;
    if (alt_block) reportNoViable(input->index(), input->index());
    return e.look.size() + 1; // exit
}
void Parser::exec(const Elem& e, ParserRuleContext* ctx) {
    switch (e.kind) {
        case 0: matchSet(e, ctx); break;
        case 1: {
            state = e.state;
            follow.push_back(t.states[static_cast<std::size_t>(e.state)].trans[0].target);
            auto* c = runRule(e.rule, e.prec);
            follow.pop_back();
            ctx->children.push_back(c);
            break;
        }
        case 2:
            state = e.state;
            sync();
            run(e.alts[choose(e, true) - 1], ctx);
            break;
        case 3: {
            state = e.state;
            sync();
            if (auto a = choose(e, false); a <= e.alts.size()) run(e.alts[a - 1], ctx);
            break;
        }
        case 4: {
            state = e.state;
            sync();
            for (auto a = choose(e, false); a <= e.alts.size();) {
                run(e.alts[a - 1], ctx);
                state = e.state2;
                sync();
                a = choose(e, false);
            }
            break;
        }
        case 5: {
            state = e.state2;   // block start
            sync();
            for (;;) {
                run(e.alts[0], ctx);
                state = e.state; // loop back decision
                sync();
                if (choose(e, false) != 1) break;
            }
            break;
        }
        default: break;
    }
}
void Parser::run(const std::vector<Elem>& seq, ParserRuleContext* ctx) { for (const auto& e : seq) exec(e, ctx); }

ParserRuleContext* Parser::runRule(int rule, int prec) {
    const auto& r = t.rules[static_cast<std::size_t>(rule)];
    std::size_t alt = 1;
    if (r.block.alts.size() > 1) {
        state = r.block.state;
        sync();
        alt = choose(r.block, true);
    }
    auto make = [&](int id) { auto c = makeContext(id); auto* p = c.get(); owned.push_back(std::move(c)); return p; };
    auto* ctx = make(r.altCtx[alt - 1]);
    run(r.block.alts[alt - 1], ctx);
    if (r.recursive) {
        for (;;) {
            state = r.loopState;
            sync();
            const RuleInfo::Op* op = nullptr;
            for (const auto& o : r.ops) if (o.prec >= prec && has(o.first, la())) { op = &o; break; }
            if (!op) break;
            auto* c = make(op->ctx);
            c->children.push_back(ctx);
            run(op->seq, c);
            ctx = c;
        }
    }
    return ctx;
}
ParserRuleContext* Parser::parseRule(int rule) { return runRule(rule, 0); }
}  // namespace antlr4
