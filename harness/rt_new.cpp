// operator new/delete of the native replay: counted, and failing when the case says so
#include <new>
#include <cstddef>
extern "C" void *rt_new(size_t n); extern "C" void rt_delete(void *p);
void *operator new(size_t n) { void *p = rt_new(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = rt_new(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { rt_delete(p); }
void operator delete[](void *p) noexcept { rt_delete(p); }
void operator delete(void *p, size_t) noexcept { rt_delete(p); }
void operator delete[](void *p, size_t) noexcept { rt_delete(p); }
