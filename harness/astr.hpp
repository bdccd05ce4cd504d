// Canonical structural text of a library formula, by walking the AST (independent of its printing).
#pragma once
#include "bind.hpp"

namespace astr {
namespace ast = signal_tl::ast;
inline std::string dbl(double d) { char b[40]; snprintf(b, 40, "%a", d); return b; }
inline std::string cmp(ast::ComparisonOp o) { return o == ast::ComparisonOp::GT ? ">" : o == ast::ComparisonOp::GE ? ">=" : o == ast::ComparisonOp::LT ? "<" : o == ast::ComparisonOp::LE ? "<=" : "?"; }
inline std::string iv(const ast::Interval& i) { auto [a, b] = i.as_double(); if (a == 0 && std::isinf(b)) return ""; return "[" + dbl(a) + "," + dbl(b) + "]"; }
inline std::string str(const ast::Expr& e);
inline std::string list(const char* n, const std::vector<ast::Expr>& v) { std::string r = std::string("(") + n; for (auto& a : v) r += " " + str(a); return r + ")"; }
struct V {
  std::string operator()(const ast::Const& c) const { return c.value ? "true" : "false"; }
  std::string operator()(const ast::Predicate& p) const { return "(" + cmp(p.op) + " " + p.name + " " + dbl(p.rhs) + ")"; }
  std::string operator()(const ast::NotPtr& p) const { return p ? "(not " + str(p->arg) + ")" : "null"; }
  std::string operator()(const ast::AndPtr& p) const { return p ? list("and", p->args) : "null"; }
  std::string operator()(const ast::OrPtr& p) const { return p ? list("or", p->args) : "null"; }
  std::string operator()(const ast::AlwaysPtr& p) const { return p ? "(always" + iv(p->interval) + " " + str(p->arg) + ")" : "null"; }
  std::string operator()(const ast::EventuallyPtr& p) const { return p ? "(eventually" + iv(p->interval) + " " + str(p->arg) + ")" : "null"; }
  std::string operator()(const ast::UntilPtr& p) const { return p ? "(until" + iv(p->interval) + " " + str(p->args.first) + " " + str(p->args.second) + ")" : "null"; }
};
inline std::string str(const ast::Expr& e) { return std::visit(V{}, e); }
} // namespace astr
