#pragma once
#include "scen.h"
#include <algorithm>
typedef sim::Cfg Cfg_;
#define DECL(p) void gen_##p(Rng &, Plan &, sim::Cfg &, uint64_t, int); void run_##p(const Plan &);
DECL(C01) DECL(C02) DECL(C03) DECL(C04) DECL(C05) DECL(C06) DECL(C07) DECL(C08) DECL(C09) DECL(C10) DECL(C11) DECL(C12) DECL(C13) DECL(C14)
void gen_C06b(Rng &, Plan &, sim::Cfg &); void run_C06b(const Plan &);
extern const char *const probes_barrier[];
extern const char *const probes_mailbox[];
