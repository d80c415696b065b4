#ifndef VERIF_HOOKS_HPP
#define VERIF_HOOKS_HPP
namespace hooks { extern long live_bytes, live_blocks, allocs, fail_at; extern unsigned failures; }
// what operations keep allocated
struct Meter { long bytes, blocks; Meter() : bytes(0), blocks(0) {} template<class F> long operator()(F f) { long b = hooks::live_bytes, k = hooks::live_blocks; f(); long d = hooks::live_bytes - b; bytes += d; blocks += hooks::live_blocks - k; return d; } };
#endif
