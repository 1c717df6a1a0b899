// The in-place sort: ordered permutation, failures reported.
// 0: all keys free (key bits = arg 2)  1: long arrays with free keys at a few positions  2: as 0 with a failing comparison  3: as 1 with a failing comparison
#include "vp.h"
#include <pointless/custom_sort.h>
#define MAXN 64
static uint32_t key[MAXN], id[MAXN]; static int n, failing, failed; static uint32_t fail_at, calls;
static int cmp(int a, int b, int* c, void* user)
{
	(void)user;
	VP_CHECK(a >= 0 && a < n && b >= 0 && b < n, "compared positions are valid");
	if (a < 0 || a >= n || b < 0 || b >= n) { *c = 0; return 1; }
	if (failing && calls++ == fail_at) { failed = 1; *c = (int)vp_choice(3) - 1; return 0; }
	*c = key[a] < key[b] ? -1 : key[a] > key[b];
	return 1;
}
static void swp(int a, int b, void* user)
{
	(void)user;
	VP_CHECK(a >= 0 && a < n && b >= 0 && b < n, "swapped positions are valid");
	if (a < 0 || a >= n || b < 0 || b >= n) return;
	uint32_t t = key[a]; key[a] = key[b]; key[b] = t; t = id[a]; id[a] = id[b]; id[b] = t;
}
int main()
{
	uint32_t mode = vp_arg(0), lo = vp_arg(1), hi = vp_arg(2), bits = vp_arg(3), nfree = vp_arg(4), i, orig[MAXN];
	n = (int)(lo + vp_choice(hi - lo + 1));
	failing = mode >= 2;
	if (mode % 2 == 0) for (i = 0; i < (uint32_t)n; i++) key[i] = vp_u32() & (bits >= 32 ? ~0u : (1u << bits) - 1);
	else {
		uint32_t shape = vp_choice(5);
		for (i = 0; i < (uint32_t)n; i++) key[i] = 8 * (shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? 3 : shape == 3 ? (i < n / 2u ? i : n - i) : (i * 7) % 5) + 4;
		for (i = 0; i < nfree; i++) key[i * (n - 1) / (nfree > 1 ? nfree - 1 : 1)] = vp_u32() & ((1u << bits) - 1);
	}
	for (i = 0; i < (uint32_t)n; i++) { id[i] = i; orig[i] = key[i]; }
	if (failing) { uint32_t k = (uint32_t)vp_arg(5); fail_at = k ? vp_choice(k) * (uint32_t)vp_arg(6) : vp_choice(n * n + 1); }
	int ok = bentley_sort_(n, cmp, swp, 0);
	VP_OUT(ok);
	VP_CHECK((ok != 0) == !failed, "failure is reported exactly when a comparison failed");
	uint32_t seen[2] = {0, 0}, perm = 1;
	for (i = 0; i < (uint32_t)n; i++) { if (id[i] >= (uint32_t)n || (seen[id[i] / 32] >> (id[i] % 32) & 1)) perm = 0; else seen[id[i] / 32] |= 1u << (id[i] % 32); }
	VP_CHECK(perm, "the result is a permutation of the input");
	if (perm) for (i = 0; i < (uint32_t)n; i++) VP_CHECK(key[i] == orig[id[i]], "items move as a whole");
	if (!failed) for (i = 0; i + 1 < (uint32_t)n; i++) VP_CHECK(key[i] <= key[i + 1], "the result is ordered");
	if (failed) VP_REACH("comparison failed"); else VP_REACH("sorted");
	return 0;
}
