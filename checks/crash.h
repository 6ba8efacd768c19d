// Store-by-store recording of a mapped file: every machine store to it is logged with its
// effect, so that the file as left by a crash at any point can be rebuilt.
#pragma once
#include "sim.h"
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
extern void (*sim_hook_map)(void *p, size_t n);
struct StoreLog { struct Rec { uint32_t off, len; int64_t t; uint8_t data[64]; }; uint32_t n, cap, overflow; uint32_t size; uint8_t init[1 << 18]; Rec rec[1 << 16]; char text[1 << 18]; uint32_t textn; };
namespace crash {
static StoreLog *L; static uint8_t *base, *shadow; static size_t len, pend; static bool stepping, on;
static struct sigaction old_segv;
static void diff(size_t from, size_t to) { if (to > len) to = len; while (from < to) { if (base[from] == shadow[from]) { from++; continue; } size_t e = from; while (e < to && e - from < 64 && base[e] != shadow[e]) e++; if (L->n < sizeof L->rec / sizeof L->rec[0]) { auto &r = L->rec[L->n++]; r.off = from; r.len = e - from; r.t = sim::now_ms; memcpy(r.data, base + from, e - from); } else L->overflow = 1; memcpy(shadow + from, base + from, e - from); from = e; } }
static void segv(int s, siginfo_t *si, void *u) { uint8_t *a = (uint8_t *)si->si_addr; if (on && a >= base && a < base + len && !stepping) { mprotect(base, len, PROT_READ | PROT_WRITE); pend = a - base; stepping = true; ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] |= 0x100; return; } sigaction(SIGSEGV, &old_segv, nullptr); }
static void trap(int, siginfo_t *, void *u) { ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; if (!stepping) return; stepping = false; diff(pend, pend + 128); mprotect(base, len, PROT_READ); }
static void start(void *p, size_t n) { base = (uint8_t *)p; len = n; L->size = n; L->n = 0; memcpy(L->init, p, n); shadow = (uint8_t *)mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(shadow, p, n); struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = segv; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &a, &old_segv); a.sa_sigaction = trap; sigaction(SIGTRAP, &a, nullptr); on = true; mprotect(base, len, PROT_READ); }
static void stop() { if (!on) return; on = false; mprotect(base, len, PROT_READ | PROT_WRITE); diff(0, len); }
inline void alloc() { L = (StoreLog *)mmap(NULL, sizeof(StoreLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
// the file after k stores
inline bytes image(size_t k) { bytes b((char *)L->init, L->size); for (size_t i = 0; i < k && i < L->n; i++) memcpy(&b[L->rec[i].off], L->rec[i].data, L->rec[i].len); return b; }
}
