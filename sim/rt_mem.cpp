// memcpy family: checked, preemptible entry points (kept apart so that the runtime itself does not use them)
#include "rt.hpp"
using namespace sim;
static inline void bset(void* d,int v,size_t n){ asm volatile("rep stosb":"+D"(d),"+c"(n):"a"(v):"memory"); }
static inline void bcpy(void* d,const void* s,size_t n){ asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); }
extern "C" {
// ---------- memory functions ----------
static inline bool in_exe(void* pc){ return (uintptr_t)pc<GL_MAX; }
static inline void memop(const void* d,const void* s,size_t n,void* pc){ Thr*t=me; if(!on||!t||t->quiet||!n) return; bool ex=in_exe(pc); size_t od=(uintptr_t)d-(uintptr_t)H_BASE, os=(uintptr_t)s-(uintptr_t)H_BASE; if(!ex&&od>=H_SIZE&&(!s||os>=H_SIZE)) return; step_point(); if(s) check_addr(s,n,false,pc); check_addr(d,n,true,pc); if(s) race_access(s,n,ex?0:A_LIB,pc); race_access(d,n,A_W|(ex?0:A_LIB),pc); }
void* memcpy(void* d,const void* s,size_t n){ memop(d,s,n,__builtin_return_address(0)); bcpy(d,s,n); return d; }
void* memmove(void* d,const void* s,size_t n){ memop(d,s,n,__builtin_return_address(0)); if((uintptr_t)d-(uintptr_t)s>=n) bcpy(d,s,n); else { char* dd=(char*)d+n-1; const char* ss=(const char*)s+n-1; asm volatile("std; rep movsb; cld":"+D"(dd),"+S"(ss),"+c"(n)::"memory"); } return d; }
void* memset(void* d,int v,size_t n){ memop(d,0,n,__builtin_return_address(0)); bset(d,v,n); return d; }


void* sim_memcpy(void* d,const void* s,size_t n){ bcpy(d,s,n); return d; }
void* sim_memmove(void* d,const void* s,size_t n){ if((uintptr_t)d-(uintptr_t)s>=n) bcpy(d,s,n); else { char* dd=(char*)d+n-1; const char* ss=(const char*)s+n-1; asm volatile("std; rep movsb; cld":"+D"(dd),"+S"(ss),"+c"(n)::"memory"); } return d; }
void* sim_memset(void* d,int v,size_t n){ bset(d,v,n); return d; }
}
