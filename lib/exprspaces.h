// Spaces of expression strings, shared by C12 (well-formed ones) and C13 (malformed ones).
#pragma once
#include "exprref.h"
namespace exprs {
using namespace ref;
inline const std::vector<std::string> &binops() { static std::vector<std::string> v{"|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%", "**"}; return v; }
// every sentence of the grammar up to maxTok tokens over the given operands/operators (and nothing else)
struct Alphabet { std::vector<std::string> operands, prefix, postfix, binary; bool paren, cond; std::vector<std::string> funcs; };
inline std::string sentence(const Alphabet &A, unsigned maxTok) {
    // stack of open constructs: '(' paren, 'c' call, '?' awaiting ':', and the rest of the tokens needed to close everything
    std::string s, stack; unsigned used = 0; bool wantOperand = true; bool callJustOpened = false;
    auto closing = [&] { unsigned c = 0; for (char x : stack) c += x == '?' ? 2 : 1; return c; };  // ':' operand / ')'
    while (true) {
        const int left = (int)maxTok - (int)used - (int)closing();
        std::vector<std::pair<char, const std::string *>> opt; static const std::string none;
        if (wantOperand) { // at least one token must be left for the operand itself
            if (left >= 1) for (auto &o : A.operands) opt.push_back({'o', &o});
            if (left >= 2) for (auto &o : A.prefix) opt.push_back({'p', &o});
            if (left >= 3 && A.paren) opt.push_back({'(', &none});
            if (left >= 3) for (auto &o : A.funcs) opt.push_back({'c', &o});
            if (callJustOpened) opt.push_back({')', &none});
        } else {
            if (stack.empty()) opt.push_back({'.', &none}); // end
            if (left >= 1) for (auto &o : A.postfix) opt.push_back({'!', &o});
            if (left >= 2) for (auto &o : A.binary) opt.push_back({'b', &o});
            // '?' needs then-part, ':' and else-part: a conditional is not directly nested inside its own condition, the grammar's shape decides
            if (A.cond && left >= 4) opt.push_back({'?', &none});
            if (!stack.empty()) { if (stack.back() == '?') opt.push_back({':', &none}); else { opt.push_back({')', &none}); if (stack.back() == 'c' && left >= 2) opt.push_back({',', &none}); } }
        }
        auto [k, w] = opt[mc::choose(opt.size())]; callJustOpened = false;
        if (!s.empty()) s += ' ';
        switch (k) {
        case 'o': s += *w; ++used; wantOperand = false; break;
        case 'p': s += *w; ++used; break;
        case '(': s += '('; ++used; stack += '('; break;
        case 'c': s += *w + "("; used += 2; stack += 'c'; callJustOpened = true; break;
        case '!': s += *w; ++used; break;
        case 'b': s += *w; ++used; wantOperand = true; break;
        case '?': s += '?'; ++used; stack += '?'; wantOperand = true; break;
        case ':': s += ':'; ++used; stack.pop_back(); wantOperand = true; break;
        case ',': s += ','; ++used; wantOperand = true; break;
        case ')': s += ')'; ++used; stack.pop_back(); wantOperand = false; break;
        case '.': return s;
        }
    }
}
inline const std::vector<std::string> &longSentences() { // seeds of mutations
    static std::vector<std::string> v{
        "1+2*3-4/5%6", "(1+2)*(3-4)", "2**3**2", "-2**2", "~5&7|8^1", "3!+4!", "1<2==2>1", "5<=5!=4>=6", "1<<4>>2", "1?2:3", "0?2:1?4:5", "(0?1:0)?2:3", "f()+g(1)*h2(2,3)", "Sum()", "Sum(1,2,3)", "g(g(g(k)))", "K_1*k-_", "0x1F+017+02x101+036xZz", "1.5+0.25", " 1 \t+\r\n2 ", "((((1))))", "- - -1", "~~+-3", "h2(1?2:3,(4))", "3!!", "Sum(f(),g(2),h2(3,4))!=0", "12345678901234567890*98765432109876543210", "0xffffffffffffffff<<64", "2*(3+(4-(5*(6-7))))", "1|2^3&4==5<6<<7+8*9**1"};
    return v;
}
} // namespace exprs
