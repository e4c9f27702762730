// Tracks which mutexes the current thread holds, by interposing the pthread lock functions.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <pthread.h>
#include <set>
#include <vector>
#include <cerrno>

namespace lpv_locks {
  struct Entry { void* m; };
  inline std::vector<void*>& stack() { static thread_local std::vector<void*> v; return v; }
  static thread_local bool busy = false;
  inline std::set<void*> held() { return std::set<void*>(stack().begin(), stack().end()); }
  inline void add(void* m) { if(busy) return; busy = true; stack().push_back(m); busy = false; }
  inline void del(void* m) { if(busy) return; busy = true; auto& s = stack(); for(size_t i = s.size(); i > 0; --i) if(s[i - 1] == m) { s.erase(s.begin() + i - 1); break; } busy = false; }
  typedef int (*F)(pthread_mutex_t*);
  inline F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
  static void (*onDouble)(void*) = nullptr;
}
extern "C" {
  int pthread_mutex_lock(pthread_mutex_t* m) {
    static lpv_locks::F f = lpv_locks::real("pthread_mutex_lock");
    if(lpv_locks::onDouble && !lpv_locks::busy) for(void* p : lpv_locks::stack()) if(p == m) lpv_locks::onDouble(m);
    int r = f(m); if(r == 0) lpv_locks::add(m); return r;
  }
  int pthread_mutex_trylock(pthread_mutex_t* m) { static lpv_locks::F f = lpv_locks::real("pthread_mutex_trylock"); int r = f(m); if(r == 0) lpv_locks::add(m); return r; }
  int pthread_mutex_unlock(pthread_mutex_t* m) { static lpv_locks::F f = lpv_locks::real("pthread_mutex_unlock"); lpv_locks::del(m); return f(m); }
}
