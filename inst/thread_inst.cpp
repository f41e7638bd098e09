// Instantiates the header-only parts of icl_core_thread.
#include <new>
#include <icl_core/BaseTypes.h>
#include <icl_core/Noncopyable.h>
#include <icl_core_thread/SpinLock.h>
#include <icl_core_thread/ScopedSpinLock.h>
#include <icl_core_thread/Common.h>

bool vf_spin_lock(icl_core::thread::SpinLock *l) { return l->lock(); }
bool vf_spin_trylock(icl_core::thread::SpinLock *l) { return l->tryLock(); }
void vf_spin_unlock(icl_core::thread::SpinLock *l) { l->unlock(); }
void vf_spin_new(void *p) { new (p) icl_core::thread::SpinLock(); }
bool vf_scoped_spin(icl_core::thread::SpinLock *l) { icl_core::thread::ScopedSpinLock g(*l); return g.isLocked(); }
