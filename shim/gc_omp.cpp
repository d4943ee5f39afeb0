// exaloop's OpenMP fork registers its worker threads with the garbage collector through this
// hook; the stock libomp has none. Here every thread created in the process is registered with
// the collector by interposing pthread_create (see also codon/runtime/lib.cpp, seq_init).
#include <dlfcn.h>
#include <pthread.h>
#define GC_THREADS
#define GC_NO_THREAD_REDIRECTS
#include <gc.h>



static bool gc_ready = false;
extern "C" void __kmpc_set_gc_callbacks(void *, void *, void *, void *) { gc_ready = true; }

namespace {
struct Start {
  void *(*fn)(void *);
  void *arg;
};
void *trampoline(void *p) {
  Start s = *(Start *)p;
  delete (Start *)p;
  struct GC_stack_base sb;
  bool reg = false;
  if (GC_get_stack_base(&sb) == GC_SUCCESS)
    reg = GC_register_my_thread(&sb) == GC_SUCCESS;
  void *r = s.fn(s.arg);
  if (reg)
    GC_unregister_my_thread();
  return r;
}
} // namespace

extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *),
                              void *arg) {
  static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *),
                              void *))dlsym(RTLD_NEXT, "pthread_create");
  if (!gc_ready)
    return real(t, a, fn, arg);
  return real(t, a, trampoline, new Start{fn, arg});
}

// The runtime formats numbers with std::locale("en_US.UTF-8"), which this sandbox does not have
// installed: give it a locale with that one's digit grouping instead.
#include <locale>
#include <new>
#include <string>
namespace {
struct EnUs : std::numpunct<char> {
  char do_decimal_point() const override { return '.'; }
  char do_thousands_sep() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
};
} // namespace
extern "C" void _ZNSt6localeC1EPKc(std::locale *self, const char *) {
  new (self) std::locale(std::locale::classic(), new EnUs);
}
