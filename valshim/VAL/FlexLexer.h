#ifndef VALSHIM_FLEXLEXER_H_
#define VALSHIM_FLEXLEXER_H_
#include <iostream>
class yyFlexLexer {
 public:
  explicit yyFlexLexer(std::istream* in = nullptr, std::ostream* out = nullptr)
      : in_(in), out_(out) {}
  virtual ~yyFlexLexer() = default;
  void switch_streams(std::istream* in, std::ostream* out = nullptr) {
    if (in != nullptr) in_ = in;
    if (out != nullptr) out_ = out;
  }
  std::istream* input() { return in_; }

 private:
  std::istream* in_;
  std::ostream* out_;
};
#endif
