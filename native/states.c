/*
 * Runs grapheme_is_character_break() over all histories until no new pair of
 * state word and history appears, and prints the relation as a C function.
 */
#include "common.h"
#include GENH
#include "grapheme.h"
#include UCDH
#include SPEC

struct pair { unsigned s; struct cb_hist h; };
static struct pair q[200000];
static size_t qn;

static unsigned hid(struct cb_hist h) { return h.prev | h.ri << 5 | h.pict << 6 | h.pictzwj << 7; }
static unsigned char seen[65536][256 / 8];

static void
add(unsigned s, struct cb_hist h)
{
	unsigned k = hid(h);
	if (seen[s][k / 8] & (1 << k % 8)) return;
	seen[s][k / 8] |= 1 << k % 8;
	if (qn == sizeof(q) / sizeof(*q)) exit(3);
	q[qn].s = s;
	q[qn++].h = h;
}

int
main(void)
{
	for (unsigned c = 0; c < NUMCLASS; c++)
		if (cls_first[c] != cls_first[c + 1]) add(0, cb_step(cb_init(), c));
	for (size_t i = 0; i < qn; i++) {
		for (unsigned c = 0; c < NUMCLASS; c++) {
			uint_least16_t s = q[i].s;
			if (cls_first[c] == cls_first[c + 1]) continue;
			grapheme_is_character_break(cls_range[cls_first[q[i].h.prev]][0], cls_range[cls_first[c]][0], &s);
			add(s, cb_step(q[i].h, c));
		}
	}
	printf("static inline _Bool\nVF_state_of(unsigned short s, struct cb_hist h)\n{\n\tunsigned k = h.prev | (unsigned)h.ri << 5 | (unsigned)h.pict << 6 | (unsigned)h.pictzwj << 7;\n");
	for (unsigned s = 0; s < 65536; s++) {
		bool any = false;
		for (unsigned k = 0; k < 256; k++) {
			if (!(seen[s][k / 8] & (1 << k % 8))) continue;
			if (!any) printf("\tif (s == %u) return ", s);
			printf("%sk == %u", any ? " || " : "", k);
			any = true;
		}
		if (any) printf(";\n");
	}
	printf("\treturn 0;\n}\nstatic inline _Bool\nVF_state_known(unsigned short s)\n{\n\treturn 0");
	for (unsigned s = 0; s < 65536; s++) {
		for (unsigned k = 0; k < 256; k++) {
			if (!(seen[s][k / 8] & (1 << k % 8))) continue;
			printf(" || s == %u", s);
			break;
		}
	}
	printf(";\n}\n/* %zu pairs */\n", qn);
	return 0;
}
