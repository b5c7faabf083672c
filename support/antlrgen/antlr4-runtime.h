// Offline substitute for the part of the ANTLR 4.13 C++ runtime that libqasm uses.
// The tables it interprets come from antlrgen.py, which reads the project's .g4 files.
#pragma once
#include <any>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <iostream>
#include <fstream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

#undef EOF

namespace antlr4 {

class RuntimeException : public std::exception {
    std::string msg;
public:
    explicit RuntimeException(const std::string& m = "") : msg(m) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
class IllegalArgumentException : public RuntimeException { public: using RuntimeException::RuntimeException; };

class ANTLRInputStream {
protected:
    std::u32string data;
    std::size_t p = 0;
public:
    ANTLRInputStream() = default;
    ANTLRInputStream(std::string_view s) { load(s); }
    void load(std::string_view s);
    std::size_t index() const { return p; }
    std::size_t size() const { return data.size(); }
    int LA(std::size_t k) const { return p + k - 1 < data.size() ? static_cast<int>(data[p + k - 1]) : -1; }
    void consume() { ++p; }
    void seek(std::size_t i) { p = i; }
    std::string getText(std::size_t start, std::size_t stop) const;
};
class ANTLRFileStream : public ANTLRInputStream {
public:
    ANTLRFileStream() = default;
    void loadFromFile(const std::string& name);
};

class Token {
    friend class Lexer;
    std::size_t type = 0, line = 0, col = 0, start = 0, stop = 0;
    std::string text;
public:
    static constexpr std::size_t EOF = static_cast<std::size_t>(-1);
    static constexpr std::size_t EPSILON = static_cast<std::size_t>(-2);
    std::size_t getType() const { return type; }
    std::size_t getLine() const { return line; }
    std::size_t getCharPositionInLine() const { return col; }
    std::size_t getStartIndex() const { return start; }
    std::size_t getStopIndex() const { return stop; }
    std::string getText() const { return text; }
    std::size_t getChannel() const { return 0; }
};

class Recognizer { public: virtual ~Recognizer() = default; };

class ANTLRErrorListener {
public:
    virtual ~ANTLRErrorListener() = default;
    virtual void syntaxError(Recognizer* recognizer, Token* offendingSymbol, std::size_t line,
        std::size_t charPositionInLine, const std::string& msg, std::exception_ptr e) = 0;
};
class BaseErrorListener : public ANTLRErrorListener {
public:
    void syntaxError(Recognizer*, Token*, std::size_t, std::size_t, const std::string&, std::exception_ptr) override {}
};

//------------------------------------------------------------------ lexer
struct LexState { // ordered epsilon targets, or one character-set transition, or accept
    int kind; // 0 eps, 1 set, 2 accept
    bool nonGreedy;
    std::vector<int> eps;
    std::vector<std::pair<int, int>> set;
    int target;
};
struct LexRule { int type; int start; bool skip; int pushMode; bool popMode; };
struct LexTables {
    std::vector<LexState> states;
    std::vector<std::vector<LexRule>> modes;
    std::vector<std::string> literalNames, symbolicNames;
};
class Lexer : public Recognizer {
    const LexTables& tables;
    ANTLRInputStream* input;
    std::vector<ANTLRErrorListener*> listeners;
    std::size_t line = 1, col = 0;
    int mode = 0;
    std::vector<int> modeStack;
public:
    Lexer(ANTLRInputStream* in, const LexTables& t) : tables(t), input(in) {}
    void removeErrorListeners() { listeners.clear(); }
    void addErrorListener(ANTLRErrorListener* l) { listeners.push_back(l); }
    std::unique_ptr<Token> nextToken();
};
class CommonTokenStream {
    Lexer* lexer;
    std::vector<std::unique_ptr<Token>> tokens;
    std::size_t p = 0;
    bool started = false;
    void sync(std::size_t i);
public:
    explicit CommonTokenStream(Lexer* l) : lexer(l) {}
    Token* LT(std::size_t k);
    std::size_t LA(std::size_t k) { return LT(k)->getType(); }
    void consume();
    std::size_t index() const { return p; }
    void seek(std::size_t i) { p = i; }
    Token* get(std::size_t i) { return tokens.at(i).get(); }
    std::string getText(std::size_t a, std::size_t b);
};

//------------------------------------------------------------------ trees
namespace tree {
class ParseTreeVisitor;
class ParseTree {
public:
    std::vector<ParseTree*> children;
    virtual ~ParseTree() = default;
    virtual std::string getText() const = 0;
    virtual std::any accept(ParseTreeVisitor* visitor) = 0;
    virtual Token* firstToken() const { for (auto* c : children) if (auto* t = c->firstToken()) return t; return nullptr; }
    virtual Token* lastToken() const { for (auto i = children.size(); i-- > 0;) if (auto* t = children[i]->lastToken()) return t; return nullptr; }
};
class ParseTreeVisitor {
public:
    virtual ~ParseTreeVisitor() = default;
    virtual std::any visit(ParseTree* t) { return t->accept(this); }
    virtual std::any visitChildren(ParseTree* t) {
        std::any r = defaultResult();
        for (auto* c : t->children) r = aggregateResult(std::move(r), c->accept(this));
        return r;
    }
protected:
    virtual std::any defaultResult() { return {}; }
    virtual std::any aggregateResult(std::any /* aggregate */, std::any next) { return next; }
};
class TerminalNode : public ParseTree {
    Token* symbol;
public:
    explicit TerminalNode(Token* t) : symbol(t) {}
    Token* getSymbol() const { return symbol; }
    Token* firstToken() const override { return symbol; }
    Token* lastToken() const override { return symbol; }
    std::string getText() const override { return symbol->getText(); }
    std::any accept(ParseTreeVisitor*) override { return {}; }
};
}  // namespace tree

class ParserRuleContext : public tree::ParseTree {
public:
    Token* getStart() const { return firstToken(); }
    Token* getStop() const { return lastToken(); }
    std::string getText() const override { std::string s; for (auto* c : children) s += c->getText(); return s; }
    tree::TerminalNode* getToken(std::size_t type, std::size_t i) const;
    std::vector<tree::TerminalNode*> getTokens(std::size_t type) const;
    template <class T> T* getRuleContext(std::size_t i) const {
        for (auto* c : children) if (auto* r = dynamic_cast<T*>(c)) { if (i == 0) return r; --i; }
        return nullptr;
    }
    template <class T> std::vector<T*> getRuleContexts() const {
        std::vector<T*> v;
        for (auto* c : children) if (auto* r = dynamic_cast<T*>(c)) v.push_back(r);
        return v;
    }
};

//------------------------------------------------------------------ parser
struct Trans { int kind; /* 0 eps, 1 set, 2 rule */ int target; std::vector<long> set; int rule; };
struct AtnState { int type; /* 0 basic, 1 block start, 2 loop entry, 3 loop back, 4 rule stop */ std::vector<Trans> trans; };
struct Elem {
    int kind; // 0 tok, 1 rule, 2 block, 3 optional, 4 star, 5 plus
    int state, state2;  // decision / loop-back state
    std::vector<long> set;
    int rule, prec;
    bool ll1;
    std::vector<std::vector<long>> look;   // per alternative (plus exit), for LL(1) decisions
    std::vector<std::vector<Elem>> alts;
};
struct RuleInfo {
    Elem block;                        // kind 2 (one alternative: no decision)
    std::vector<int> altCtx;           // context factory per alternative
    bool recursive = false;
    int loopState = 0;
    struct Op { std::vector<long> first; int prec; std::vector<Elem> seq; int ctx; };
    std::vector<Op> ops;
};
struct ParserTables {
    std::vector<AtnState> states;
    std::vector<int> ruleStart, ruleStop;
    std::vector<RuleInfo> rules;
    const LexTables* vocab;
};
class Parser : public Recognizer {
    const ParserTables& t;
    CommonTokenStream* input;
    std::vector<ANTLRErrorListener*> listeners;
    std::vector<int> follow;           // follow states of the active rule invocations
    int state = 0;
    std::vector<std::unique_ptr<tree::ParseTree>> owned;

    using Set = std::vector<long>;     // sorted; -1 EOF, -2 EPSILON
    void look(int s, std::vector<int>& stack, Set& out, std::vector<std::pair<int, std::size_t>>& busy, std::vector<char>& called) const;
    Set nextTokens(int s) const;
    Set expectedTokens() const { return expectedFrom(state, follow.size()); }
    Set expectedFrom(int s, std::size_t depth) const;
    std::string display(const Set& s) const;
    [[noreturn]] void report(Token* tok, const std::string& msg);
    [[noreturn]] void reportNoViable(std::size_t start, std::size_t stop);
    void sync();
    void recoverInline();
    bool singleTokenDeletion();
    std::size_t predict(int s);
    long la() { return static_cast<long>(static_cast<std::ptrdiff_t>(input->LA(1))); }
    void matchSet(const Elem& e, ParserRuleContext* ctx);
    void run(const std::vector<Elem>& seq, ParserRuleContext* ctx);
    void exec(const Elem& e, ParserRuleContext* ctx);
    std::size_t choose(const Elem& e, bool alt_block);
    ParserRuleContext* runRule(int rule, int prec);
protected:
    virtual std::unique_ptr<ParserRuleContext> makeContext(int id) = 0;
    ParserRuleContext* parseRule(int rule);
public:
    Parser(CommonTokenStream* in, const ParserTables& tab) : t(tab), input(in) {}
    void removeErrorListeners() { listeners.clear(); }
    void addErrorListener(ANTLRErrorListener* l) { listeners.push_back(l); }
};
}  // namespace antlr4
