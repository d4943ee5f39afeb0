// A small PEG engine with the part of cpp-peglib's interface that exaloop/codon uses
// (codon/parser/peg/peg.cpp, rules.h and the actions in grammar.peg). The real library is not
// available in this sandbox. Semantics follow cpp-peglib: ordered choice, packrat memoisation
// per (rule, position), actions run as soon as a rule matches (also below predicates).
#pragma once
#include <algorithm>
#include <any>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <stack>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace peg {

inline bool success(size_t len) { return len != static_cast<size_t>(-1); }
inline bool fail(size_t len) { return len == static_cast<size_t>(-1); }
constexpr size_t FAIL = static_cast<size_t>(-1);

using Log = std::function<void(size_t, size_t, const std::string &, const std::string &)>;

class Context;
class Definition;

class SemanticValues : public std::vector<std::any> {
public:
  const char *path = nullptr;
  const Context *c_ = nullptr;
  std::string_view sv_;
  size_t choice_count_ = 0;
  size_t choice_ = 0;
  std::string name_;
  std::vector<std::string_view> tokens;

  std::string_view sv() const { return sv_; }
  const std::string &name() const { return name_; }
  size_t choice() const { return choice_; }
  std::pair<size_t, size_t> line_info() const;
  std::string_view token(size_t id = 0) const {
    if (tokens.empty())
      return sv_;
    assert(id < tokens.size());
    return tokens[id];
  }
  std::string token_to_string(size_t id = 0) const { return std::string(token(id)); }
  template <typename T>
  std::vector<T> transform(size_t beg = 0, size_t end = static_cast<size_t>(-1)) const {
    std::vector<T> r;
    end = (std::min)(end, size());
    for (size_t i = beg; i < end; i++)
      r.emplace_back(std::any_cast<T>((*this)[i]));
    return r;
  }
  void reset(const Context *c, const char *p) {
    clear();
    path = p;
    c_ = c;
    sv_ = {};
    choice_count_ = choice_ = 0;
    name_.clear();
    tokens.clear();
  }
};

struct ErrorInfo {
  const char *error_pos = nullptr;
  const char *message_pos = nullptr;
  std::string message;
  std::string label;

  static std::pair<size_t, size_t> pos(const char *s, const char *cur) {
    size_t line = 1, col = 1;
    for (const char *p = s; p < cur; p++)
      if (*p == '\n')
        line++, col = 1;
      else
        col++;
    return {line, col};
  }
  void output_log(const Log &log, const char *s, size_t n) const {
    if (!log)
      return;
    if (message_pos && message_pos >= (error_pos ? error_pos : s)) {
      auto lc = pos(s, message_pos);
      log(lc.first, lc.second, message, label);
      return;
    }
    const char *e = error_pos ? error_pos : s;
    auto lc = pos(s, e);
    std::string msg;
    if (e >= s + n) {
      msg = "syntax error, unexpected end of input";
    } else {
      // the offending token: an identifier-like run, or one character
      const char *q = e;
      auto alnum = [](unsigned char c) { return isalnum(c) || c == '_' || c >= 0x80; };
      if (alnum(*q)) {
        while (q < s + n && alnum(*q))
          q++;
      } else {
        q++;
      }
      std::string tok;
      for (auto p = e; p < q; p++)
        if (*p == '\n')
          tok += "\\n";
        else if (*p == '\t')
          tok += "\\t";
        else if (*p == '\r')
          tok += "\\r";
        else
          tok += *p;
      msg = "syntax error, unexpected '" + tok + "'";
    }
    log(lc.first, lc.second, msg, "");
  }
};

class Context {
public:
  const char *path;
  const char *s;
  size_t l;
  Log log;
  ErrorInfo error_info;
  bool cut = false;
  bool packrat_on;
  size_t impure = 0; // runs of rules that are not memoised (they depend on parser state)
  int quiet = 0; // inside a not-predicate: failures are not errors

  struct Memo {
    size_t def;
    size_t len;
    std::any val;
  };
  std::vector<std::vector<Memo>> memo;
  std::vector<std::unique_ptr<SemanticValues>> sv_stack;
  size_t sv_top = 0;
  mutable std::vector<size_t> newlines;
  mutable bool newlines_done = false;

  Context(const char *path, const char *s, size_t l, bool packrat, Log log)
      : path(path), s(s), l(l), log(std::move(log)), packrat_on(packrat) {
    if (packrat_on)
      memo.resize(l + 1);
  }
  SemanticValues &push() {
    if (sv_top == sv_stack.size())
      sv_stack.emplace_back(std::make_unique<SemanticValues>());
    auto &v = *sv_stack[sv_top++];
    v.reset(this, path);
    return v;
  }
  void pop() { sv_top--; }
  void set_error_pos(const char *p) {
    if (quiet)
      return;
    if (!error_info.error_pos || error_info.error_pos < p)
      error_info.error_pos = p;
  }
  std::pair<size_t, size_t> line_info(const char *cur) const {
    if (!newlines_done) {
      newlines_done = true;
      for (size_t i = 0; i < l; i++)
        if (s[i] == '\n')
          newlines.push_back(i);
      newlines.push_back(l);
    }
    size_t p = cur - s;
    auto it = std::lower_bound(newlines.begin(), newlines.end(), p);
    size_t id = it - newlines.begin();
    size_t off = p - (id == 0 ? 0 : newlines[id - 1] + 1);
    return {id + 1, off + 1};
  }
};

inline std::pair<size_t, size_t> SemanticValues::line_info() const {
  return c_->line_info(sv_.data());
}

class Ope {
public:
  virtual ~Ope() = default;
  virtual size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
                       std::any &dt) const = 0;
  virtual bool is_choice() const { return false; }
  virtual const Ope *strip_token() const { return this; }
};
using P_ = std::shared_ptr<Ope>;

struct Sequence : Ope {
  std::vector<P_> opes;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    size_t i = 0;
    for (auto &o : opes) {
      auto len = o->parse(s + i, n - i, vs, c, dt);
      if (fail(len))
        return FAIL;
      i += len;
    }
    return i;
  }
};

struct PrioritizedChoice : Ope {
  std::vector<P_> opes;
  bool is_choice() const override { return true; }
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    bool saved = c.cut;
    c.cut = false;
    size_t len = FAIL;
    for (size_t id = 0; id < opes.size(); id++) {
      auto &ch = c.push();
      len = opes[id]->parse(s, n, ch, c, dt);
      if (success(len)) {
        for (auto &v : ch)
          vs.emplace_back(std::move(v));
        vs.choice_count_ = opes.size();
        vs.choice_ = id;
        vs.tokens.insert(vs.tokens.end(), ch.tokens.begin(), ch.tokens.end());
        c.pop();
        break;
      }
      c.pop();
      if (c.cut)
        break;
    }
    c.cut = saved;
    return len;
  }
};

struct Repetition : Ope {
  P_ ope;
  size_t min, max;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    size_t i = 0, count = 0;
    while (count < max) {
      auto vsz = vs.size();
      auto tsz = vs.tokens.size();
      auto len = ope->parse(s + i, n - i, vs, c, dt);
      if (fail(len)) {
        vs.resize(vsz);
        vs.tokens.resize(tsz);
        if (count < min)
          return FAIL;
        break;
      }
      count++;
      i += len;
      if (len == 0 && count >= min)
        break;
    }
    return i;
  }
};

struct AndPredicate : Ope {
  P_ ope;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    auto &ch = c.push();
    auto len = ope->parse(s, n, ch, c, dt);
    c.pop();
    return success(len) ? 0 : FAIL;
  }
};

struct NotPredicate : Ope {
  P_ ope;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    auto &ch = c.push();
    c.quiet++;
    auto len = ope->parse(s, n, ch, c, dt);
    c.quiet--;
    c.pop();
    if (success(len)) {
      c.set_error_pos(s);
      return FAIL;
    }
    return 0;
  }
};

struct LiteralString : Ope {
  std::string lit;
  bool ic;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    if (n < lit.size() ||
        (ic ? strncasecmp(s, lit.data(), lit.size()) : memcmp(s, lit.data(), lit.size()))) {
      c.set_error_pos(s);
      return FAIL;
    }
    return lit.size();
  }
};

inline size_t utf8_len(const char *s, size_t n) {
  unsigned char b = *s;
  size_t k = b < 0x80 ? 1 : (b & 0xE0) == 0xC0 ? 2 : (b & 0xF0) == 0xE0 ? 3
                                                 : (b & 0xF8) == 0xF0   ? 4
                                                                        : 1;
  if (k > n)
    return 1;
  for (size_t i = 1; i < k; i++)
    if ((s[i] & 0xC0) != 0x80)
      return 1;
  return k;
}
inline char32_t utf8_cp(const char *s, size_t k) {
  unsigned char b = *s;
  if (k == 1)
    return b;
  char32_t r = k == 2 ? b & 0x1F : k == 3 ? b & 0x0F : b & 0x07;
  for (size_t i = 1; i < k; i++)
    r = (r << 6) | (s[i] & 0x3F);
  return r;
}

struct CharacterClass : Ope {
  std::vector<std::pair<char32_t, char32_t>> ranges;
  bool negated;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    if (n < 1) {
      c.set_error_pos(s);
      return FAIL;
    }
    auto k = utf8_len(s, n);
    auto cp = utf8_cp(s, k);
    bool m = false;
    for (auto &r : ranges)
      if (r.first <= cp && cp <= r.second) {
        m = true;
        break;
      }
    if (m != negated)
      return k;
    c.set_error_pos(s);
    return FAIL;
  }
};

struct AnyCharacter : Ope {
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    if (n < 1) {
      c.set_error_pos(s);
      return FAIL;
    }
    return utf8_len(s, n);
  }
};

struct Cut : Ope {
  size_t parse(const char *, size_t, SemanticValues &, Context &c, std::any &) const override {
    c.cut = true;
    return 0;
  }
};

struct TokenBoundary : Ope {
  P_ ope;
  const Ope *strip_token() const override { return ope.get(); }
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    auto len = ope->parse(s, n, vs, c, dt);
    if (success(len))
      vs.tokens.emplace_back(s, len);
    return len;
  }
};

struct Ignore : Ope {
  P_ ope;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    auto &ch = c.push();
    auto len = ope->parse(s, n, ch, c, dt);
    c.pop();
    return len;
  }
};

using UserFn = std::function<size_t(const char *, size_t, SemanticValues &, std::any &)>;
struct User : Ope {
  UserFn fn;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    auto len = fn(s, n, vs, dt);
    return len;
  }
};

struct Result {
  bool ret;
  bool recovered;
  size_t len;
  ErrorInfo error_info;
};

using Grammar = std::unordered_map<std::string, Definition>;

struct LinkReferences {
  Grammar &g;
  LinkReferences(Grammar &g, const std::vector<std::string> &) : g(g) {}
};

class Definition {
public:
  std::string name;
  bool ignoreSemanticValue = false;
  bool is_macro = false;
  bool enable_memoize = true;
  bool enablePackratParsing = false;
  std::vector<std::string> params;
  std::function<void(const Context &, const char *, size_t, std::any &)> enter;
  std::function<void(const Context &, const char *, size_t, size_t, std::any &, std::any &)>
      leave;
  std::function<bool(const SemanticValues &, const std::any &, std::string &)> predicate;
  std::function<std::any(SemanticValues &, std::any &)> action;
  P_ ope;
  size_t id;

  Definition() {
    static size_t next = 0;
    id = next++;
  }
  Definition &operator<=(const P_ &o) {
    ope = o;
    return *this;
  }
  Definition &operator~() {
    ignoreSemanticValue = true;
    return *this;
  }
  template <typename F,
            typename = std::enable_if_t<
                std::is_invocable_v<F, SemanticValues &, std::any &>>>
  Definition &operator=(F fn) {
    using R = std::invoke_result_t<F, SemanticValues &, std::any &>;
    if constexpr (std::is_void_v<R>)
      action = [fn](SemanticValues &vs, std::any &dt) -> std::any {
        fn(vs, dt);
        return std::any();
      };
    else if constexpr (std::is_same_v<std::decay_t<R>, std::any>)
      action = fn;
    else
      action = [fn](SemanticValues &vs, std::any &dt) -> std::any {
        return std::make_any<std::decay_t<R>>(fn(vs, dt));
      };
    return *this;
  }
  void accept(LinkReferences &) {}

  size_t run(const char *s, size_t n, SemanticValues &vs, Context &c, std::any &dt) const {
    bool use = c.packrat_on && enable_memoize;
    if (use) {
      for (auto &m : c.memo[s - c.s])
        if (m.def == id) {
          if (success(m.len) && !ignoreSemanticValue)
            vs.emplace_back(m.val);
          return m.len;
        }
    }
    std::any val;
    if (!enable_memoize)
      c.impure++;
    auto impure0 = c.impure;
    if (enter)
      enter(c, s, n, dt);
    auto &ch = c.push();
    auto len = ope->parse(s, n, ch, c, dt);
    if (success(len)) {
      ch.sv_ = std::string_view(s, len);
      ch.name_ = name;
      if (!ope->strip_token()->is_choice())
        ch.choice_count_ = ch.choice_ = 0;
      std::string msg;
      if (predicate && !predicate(ch, dt, msg)) {
        if (!msg.empty() && !c.quiet && c.error_info.message_pos < s) {
          c.error_info.message_pos = s;
          c.error_info.message = msg;
          c.error_info.label = name;
        }
        len = FAIL;
      }
      if (success(len)) {
        if (action)
          val = action(ch, dt);
        else if (!ch.empty())
          val = std::move(ch.front());
      }
    }
    c.pop();
    if (leave)
      leave(c, s, n, len, val, dt);
    // a result that went through a state-dependent rule (indentation) holds only now
    if (use && c.impure == impure0)
      c.memo[s - c.s].push_back({id, len, val});
    if (success(len) && !ignoreSemanticValue)
      vs.emplace_back(std::move(val));
    return len;
  }

  template <typename T>
  Result parse_and_get_value(const char *s, size_t n, std::any &dt, T &out,
                             const char *path = nullptr, Log log = nullptr) const {
    Context c(path, s, n, enablePackratParsing, log);
    SemanticValues vs;
    vs.reset(&c, path);
    auto len = run(s, n, vs, c, dt);
    if (success(len) && !vs.empty() && vs.front().has_value())
      out = std::any_cast<T>(vs.front());
    return Result{success(len), false, success(len) ? len : 0, c.error_info};
  }
};

struct Reference : Ope {
  Grammar *g;
  std::string name;
  mutable const Definition *def = nullptr;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    if (!def)
      def = &g->at(name);
    return def->run(s, n, vs, c, dt);
  }
};

template <typename... A> P_ seq(A &&...a) {
  auto o = std::make_shared<Sequence>();
  (o->opes.push_back(a), ...);
  return o;
}
template <typename... A> P_ cho(A &&...a) {
  auto o = std::make_shared<PrioritizedChoice>();
  (o->opes.push_back(a), ...);
  return o;
}
inline P_ rep(const P_ &p, size_t mn, size_t mx) {
  auto o = std::make_shared<Repetition>();
  o->ope = p, o->min = mn, o->max = mx;
  return o;
}
inline P_ zom(const P_ &p) { return rep(p, 0, std::numeric_limits<size_t>::max()); }
inline P_ oom(const P_ &p) { return rep(p, 1, std::numeric_limits<size_t>::max()); }
inline P_ opt(const P_ &p) { return rep(p, 0, 1); }
inline P_ apd(const P_ &p) {
  auto o = std::make_shared<AndPredicate>();
  o->ope = p;
  return o;
}
inline P_ npd(const P_ &p) {
  auto o = std::make_shared<NotPredicate>();
  o->ope = p;
  return o;
}
inline P_ lit(const std::string &s) {
  auto o = std::make_shared<LiteralString>();
  o->lit = s, o->ic = false;
  return o;
}
inline P_ cls(const std::vector<std::pair<char32_t, char32_t>> &r) {
  auto o = std::make_shared<CharacterClass>();
  o->ranges = r, o->negated = false;
  return o;
}
inline P_ ncls(const std::vector<std::pair<char32_t, char32_t>> &r) {
  auto o = std::make_shared<CharacterClass>();
  o->ranges = r, o->negated = true;
  return o;
}
inline P_ dot() { return std::make_shared<AnyCharacter>(); }
inline P_ cut() { return std::make_shared<Cut>(); }
inline P_ tok(const P_ &p) {
  auto o = std::make_shared<TokenBoundary>();
  o->ope = p;
  return o;
}
inline P_ ign(const P_ &p) {
  auto o = std::make_shared<Ignore>();
  o->ope = p;
  return o;
}
inline P_ ref(Grammar &g, const std::string &n) {
  auto o = std::make_shared<Reference>();
  o->g = &g, o->name = n;
  return o;
}
inline P_ usr(UserFn f) {
  auto o = std::make_shared<User>();
  o->fn = std::move(f);
  return o;
}

} // namespace peg
