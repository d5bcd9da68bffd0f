/* decoder and encoder against the reference; utf8 <secs> <seed> <part> | utf8 case <api> <data> */
#include "common.h"
#include "grapheme.h"

static void
dec(const unsigned char *s, size_t n, bool nul)
{
	u32 want, got = 0x12345678;
	size_t l, w;
	unsigned char *b = exact(s, n + nul);
	if (nul) b[n] = 0;
	set_case("%s %s", nul ? "decode-nul" : "decode", hex_bytes(s, n));
	w = ref_decode(b, nul ? n + 1 : n, &want);
	l = grapheme_decode_utf8((char *)b, nul ? SIZE_MAX : n, &got);
	if (l != w) fail("grapheme_decode_utf8: length %zu, expected %zu", l, w);
	if (got != want) fail("grapheme_decode_utf8: U+%04X, expected U+%04X", got, want);
	l = grapheme_decode_utf8((char *)b, nul ? SIZE_MAX : n, NULL);
	if (l != w) fail("grapheme_decode_utf8 without a place: length %zu, expected %zu", l, w);
	if (memcmp(b, s, n)) fail("grapheme_decode_utf8 changes the text");
	count(s, n, n > 1);
	free(b);
}

static void
enc(u32 cp)
{
	unsigned char o[4];
	size_t w = ref_encode(cp, o), n, l, i;
	set_case("encode %X", cp);
	l = grapheme_encode_utf8(cp, NULL, 4);
	if (l != w) fail("grapheme_encode_utf8 without a buffer: %zu, expected %zu", l, w);
	for (n = 0; n <= 6; n++) {
		unsigned char *b = malloc(n ? n : 1);
		memset(b, 0xA5, n);
		l = grapheme_encode_utf8(cp, (char *)b, n);
		if (l != w) fail("grapheme_encode_utf8: %zu for a buffer of %zu, expected %zu", l, n, w);
		for (i = 0; i < n; i++)
			if (b[i] != (w <= n && i < w ? o[i] : 0xA5)) fail("grapheme_encode_utf8: byte %zu is %02X in a buffer of %zu", i, b[i], n);
		if (n == 4) {
			u32 back;
			l = grapheme_decode_utf8((char *)b, w, &back);
			u32 e = (cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) ? 0xFFFD : cp;
			if (l != w || back != e) fail("decode(encode(U+%04X)) is U+%04X", cp, back);
		}
		free(b);
	}
	count(&cp, 4, true);
}

int
main(int argc, char **argv)
{
	static unsigned char s[1 << 16];
	size_t n, i;
	setup();
	if (argc == 4 && !strcmp(argv[1], "case")) {
		if (!strcmp(argv[2], "encode")) enc(strtoul(argv[3], NULL, 16));
		else { n = parse_bytes(argv[3], s); dec(s, n, !strcmp(argv[2], "decode-nul")); }
		printf("OK\n");
		return 0;
	}
	double end = now() + atof(argv[1]);
	int part = argc > 3 ? atoi(argv[3]) : 0;
	rng_s ^= strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ull;
	dec(s, 0, false);
	if (grapheme_decode_utf8(NULL, 5, NULL) != 0) fail("NULL text");
	if (part == 1 || part == 2) for (u32 c = 0; c < 0x110010 && now() < end; c++) enc(c);
	for (i = 0; i < 1000; i++) enc(0x110000 + rnd());
	static const unsigned char in[] = {0, 0x20, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF};
	const size_t k = sizeof(in);
	if (part == 0) {
		for (size_t a = 0; a < k; a++) for (size_t b = 0; b < k; b++) {
			for (size_t c = 0; c < k; c++) {
				for (size_t d = 0; d < k && now() < end; d += 1 + (rnd() & 1)) {
					s[0] = in[a]; s[1] = in[b]; s[2] = in[c]; s[3] = in[d];
					dec(s, 4, false);
				}
				dec(s, 3, false);
				for (n = 0; n < 3 && s[n]; n++) ;
				dec(s, n, true);
			}
			dec(s, 2, false); dec(s, 1, false);
		}
	}
	while (now() < end) {
		n = 1 + below(8);
		for (i = 0; i < n; i++) s[i] = rnd() & 1 ? in[below(k)] : rnd() % 3 ? 0x80 + below(0x40) : rnd();
		if (rnd() & 1) { u32 c = below(0x120000); n = ref_encode(c, s); if (!(rnd() & 3)) s[below(n)] ^= 1 << below(8); if (!(rnd() & 3)) n = below(n + 1); else s[n++] = rnd(); }
		dec(s, n, false);
		for (i = 0; i < n && s[i]; i++) ;
		dec(s, i, true);
	}
	finish();
}
