// Concrete operations, such that the virtual functions of the abstract interface are known.
#include <icl_core_thread/ActiveOperation.h>
namespace vf {
struct Operation : public icl_core::thread::ActiveOperation
{
  virtual ~Operation();
  virtual void invoke();
};
Operation::~Operation() {}
void Operation::invoke() {}
}
