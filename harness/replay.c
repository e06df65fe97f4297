/* Native side of the harness intrinsics: replays a list of recorded values against the compiled code.
 * usage: replay ENTRY VALUES-FILE ; exit 0 all assertions held, 1 assertion failed (prints VPFAIL id),
 * 77 the run asked for other values than were recorded, 78 an assumption did not hold; a panic aborts. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
static struct { uint32_t tag, w; uint64_t v; } *vals; static int nvals, pos;
static uint64_t next(uint32_t tag, uint32_t w) {
  if (pos >= nvals || vals[pos].tag != tag || vals[pos].w != w) { fprintf(stderr, "VPDIVERGED at value %d (tag %u)\n", pos, tag); exit(77); }
  return vals[pos++].v;
}
uint8_t ocg_any_u8(uint32_t t) { return next(t, 8); }
uint16_t ocg_any_u16(uint32_t t) { return next(t, 16); }
uint32_t ocg_any_u32(uint32_t t) { return next(t, 32); }
int32_t ocg_any_i32(uint32_t t) { return next(t, 32); }
uint64_t ocg_any_u64(uint32_t t) { return next(t, 64); }
float ocg_any_f32(uint32_t t) { uint32_t x = next(t, 32); float f; memcpy(&f, &x, 4); return f; }
float ocg_pos_f32(uint32_t t, float lo, float hi) { float f = ocg_any_f32(t); if (!(f >= lo && f <= hi)) { fprintf(stderr, "VPASSUME\n"); exit(78); } return f; }
double ocg_any_f64(uint32_t t) { uint64_t x = next(t, 64); double f; memcpy(&f, &x, 8); return f; }
uint64_t ocg_conc_u64(uint64_t v) { return v; }
uint32_t ocg_in_engine(void) { return 0; }
void ocg_assume(bool b) { if (!b) { fprintf(stderr, "VPASSUME\n"); exit(78); } }
void ocg_assert(bool b, uint32_t id) { if (!b) { printf("VPFAIL %u\n", id); fflush(stdout); _Exit(1); } }
void ocg_cover(uint32_t id) { printf("VPCOVER %u\n", id); }
void ocg_debug(uint64_t v) { printf("VPDEBUG %llx\n", (unsigned long long)v); }
#define E(n) void n(void);
#include "entries.h"
#undef E
int main(int c, char **a) {
  FILE *f = fopen(a[2], "r"); if (!f) return 79;
  unsigned long long v; unsigned t, w; int cap = 16; vals = malloc(cap * sizeof *vals);
  while (fscanf(f, "%u %u %llu", &t, &w, &v) == 3) { if (nvals == cap) { cap *= 2; vals = realloc(vals, cap * sizeof *vals); } vals[nvals].tag = t; vals[nvals].w = w; vals[nvals++].v = v; }
  fclose(f);
#define E(n) if (!strcmp(a[1], #n)) { n(); printf("VPDONE\n"); return 0; }
#include "entries.h"
  return 79;
}
