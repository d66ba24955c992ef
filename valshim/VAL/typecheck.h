#ifndef VALSHIM_TYPECHECK_H_
#define VALSHIM_TYPECHECK_H_
#include <VAL/ptree.h>
namespace VAL {
class TypeChecker {
 public:
  explicit TypeChecker(const analysis* a) : an_(a) {}
  bool typecheckDomain();
  bool typecheckProblem();

 private:
  bool checkProp(const proposition* prop) const;
  bool checkGoal(const goal* g) const;
  bool checkEffects(const effect_lists* e) const;
  const analysis* an_;
};
}  // namespace VAL
#endif
