// The arithmetic expression evaluator against a reference evaluator working on the characters.
// 0: every string of up to arg(1) characters over the alphabet  1: two or three operations, operands at the 64-bit limits  2: numeral length and limits  3: around the limit of 512 tokens
#include "vp.h"
#include <pointless/pointless_int_ops.h>
#define MAXS 1200
static char s[MAXS]; static uint32_t pos; static int bad, fail;   // bad: not well-formed; fail: no numeric value
typedef uint64_t u64;
static u64 expr(void);
static void ws(void) { while (s[pos] == ' ' || s[pos] == '\t') pos++; }
static u64 factor(void)
{
	u64 v = 0; uint32_t nd = 0;
	ws();
	if (s[pos] == '(') { pos++; v = expr(); ws(); if (s[pos] != ')') bad = 1; else pos++; return v; }
	if (s[pos] == 'x') { pos++; fail |= 2; return 0; }
	if (s[pos] < '0' || s[pos] > '9') { bad = 1; return 0; }
	while (!bad && s[pos] >= '0' && s[pos] <= '9') {
		u64 d = (u64)(s[pos++] - '0'), t;
		if (++nd > 30) bad = 1;
		if (__builtin_mul_overflow(v, (u64)10, &t) || __builtin_add_overflow(t, d, &t)) bad = 1;
		v = t;
	}
	return v;
}
static u64 term(void)
{
	u64 a = factor(), b; char o;
	while (!bad) {
		ws(); o = s[pos];
		if (o != '*' && o != '/') break;
		pos++; b = factor();
		if (bad) break;
		if (o == '*') { if (__builtin_mul_overflow(a, b, &a)) fail |= 1; }
		else { if (b == 0) { fail |= 1; b = 1; } a = a / b; }
	}
	return a;
}
static u64 expr(void)
{
	u64 a = term(), b; char o;
	while (!bad) {
		ws(); o = s[pos];
		if (o != '+' && o != '-') break;
		pos++; b = term();
		if (bad) break;
		if (o == '+') { if (__builtin_add_overflow(a, b, &a)) fail |= 1; } else { if (a < b) fail |= 1; a = a - b; }
	}
	return a;
}
static void put(const char* t) { uint32_t n = (uint32_t)strlen(s); while (*t) s[n++] = *t++; s[n] = 0; }
int main()
{
	static intop_eval_context_t c;
	uint32_t mode = vp_arg(0), maxn = vp_arg(1), n, i; int over = 0; const char* error = 0; u64 r = 0x1234, want;
	if (mode == 0) {
		static const char alpha[] = "9()+-*/x ?\t";   // '9' stands for any digit
		n = vp_choice(maxn + 1);
		for (i = 0; i < n; i++) { char ch = alpha[vp_choice(vp_arg(2))]; if (ch == '9') ch = (char)('0' + vp_below(10)); if (ch == '?') { ch = (char)vp_u8(); VP_ASSUME(ch && !strchr("()+-*/x \t", ch) && !(ch >= '0' && ch <= '9')); } s[i] = ch; }
	} else if (mode == 1) {
		static const char* nums[] = { "3", "0", "18446744073709551615", "4294967296", "2", "1", "9223372036854775808" };
		uint32_t par = vp_choice(4), k = vp_arg(2);
		for (i = 0; i < maxn; i++) {
			if (i) { char o[2] = { "-/+*"[vp_choice(4)], 0 }; put(o); }
			if ((par == 1 && i == 0) || (par == 2 && i == 1)) put("(");
			if (i >= vp_arg(3) || vp_choice(2)) put(nums[vp_choice(k)]); else { char d[2] = { (char)('0' + vp_below(10)), 0 }; put(d); }
			if ((par == 1 && i == 1) || (par == 2 && i == 2)) put(")");
		}
	} else if (mode == 3) {
		// 509 to 515 tokens: a chain of operations, or parentheses around one operation
		uint32_t t = 509 + vp_choice(7), par = vp_choice(3); char d[2] = { (char)('0' + vp_below(10)), 0 };
		if (par) { uint32_t k = (t - 3) / 2; for (i = 0; i < k; i++) s[i] = '('; s[k] = 0; put("2+"); put(d); k = (uint32_t)strlen(s); for (i = 0; i < (t - 3) / 2; i++) s[k++] = ')'; if (t % 2 == 0) s[k++] = par == 1 ? ')' : '7'; s[k] = 0; }
		else { s[0] = '2'; for (i = 1; i + 1 < t; i += 2) { s[i] = "+*"[i / 2 % 2]; s[i + 1] = '1'; } s[t & ~1u] = 0; if (t % 2 == 0) s[t - 1] = '+'; else s[t - 1] = d[0]; s[t] = 0; }
		over = t > 512;
	} else {
		// a numeral of 18 to 32 digits with free last digits, after a free amount of leading zeros
		uint32_t z = vp_choice(3), k = vp_choice(2);
		for (i = 0; i < z * 6; i++) put("0");
		put(k ? "184467440737095516" : "99999999999");
		n = vp_choice(3);
		for (i = 0; i < n; i++) { char d[2] = { (char)('0' + vp_below(10)), 0 }; put(d); }
	}
	// an earlier use of the same context must not matter
	if (vp_bool()) { const char* e2 = 0; int k2 = intop_eval_compile("7+(8-2)*3", &c, &e2); VP_CHECK(k2, "a well-formed expression is accepted"); k2 = intop_eval_eval(&c, &r, &e2); VP_CHECK(k2 && r == 25, "value of a fixed expression"); r = 0x1234; }
	want = expr(); ws(); if (s[pos]) bad = 1;
	if (over) { VP_CHECK(!intop_eval_compile(s, &c, &error) && error, "more than 512 tokens are refused"); VP_REACH("too long"); return 0; }
	int ok = intop_eval_compile(s, &c, &error);
	VP_OUT(ok);
	VP_CHECK((ok != 0) == !bad, "exactly the well-formed expressions are accepted");
	VP_CHECK((ok != 0) == (error == 0), "an error is reported exactly on failure");
	if (!ok || bad) { VP_REACH("malformed"); return 0; }
	ok = intop_eval_eval(&c, &r, &error);
	VP_CHECK((ok != 0) == (fail == 0), "evaluation fails exactly for overflow, negative results, division by zero and variables");
	VP_CHECK((ok != 0) == (error == 0), "an error is reported exactly on failure");
	if (ok && !fail) { VP_CHECK(r == want, "the value is that of ordinary arithmetic"); VP_REACH("value"); } else VP_REACH("no value");
	u64 r2 = 0; error = 0;
	VP_CHECK((intop_eval_eval(&c, &r2, &error) != 0) == (ok != 0) && (!ok || r2 == r), "evaluating again gives the same");
	return 0;
}
