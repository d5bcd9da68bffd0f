/* UTF-8 (Unicode 15.0, D92, tables 3-6 and 3-7), written from the standard and
 * from the documented result for incomplete sequences; loop-free */
#ifndef UTF8REF_H
#define UTF8REF_H
struct u8 { size_t len; uint_least32_t cp; };
#define CONT(b) (((b) & 0xC0) == 0x80)
/* s[0..n): n may be larger than the object, if a byte that is not a
 * continuation byte comes before its end */
static struct u8
ref_decode(const unsigned char *s, size_t n)
{
	struct u8 r;
	size_t need, have = 0;
	uint_least32_t v;
	r.cp = 0xFFFD;
	if (n == 0) { r.len = 0; return r; }
	if (s[0] <= 0x7F) { r.len = 1; r.cp = s[0]; return r; }
	if (s[0] <= 0xBF || s[0] >= 0xF8) { r.len = 1; return r; }
	need = s[0] >= 0xF0 ? 3 : s[0] >= 0xE0 ? 2 : 1;
	v = s[0] & (need == 1 ? 0x1F : need == 2 ? 0x0F : 0x07);
	if (n > 1 && CONT(s[1])) {
		have = 1;
		v = v << 6 | (s[1] & 0x3F);
		if (need > 1 && n > 2 && CONT(s[2])) {
			have = 2;
			v = v << 6 | (s[2] & 0x3F);
			if (need > 2 && n > 3 && CONT(s[3])) {
				have = 3;
				v = v << 6 | (s[3] & 0x3F);
			}
		}
	}
	if (have < need) {
		/* ends with a byte that does not continue it: what there is;
		 * ends with the data: the number of bytes it would need */
		r.len = 1 + have < n ? 1 + have : 1 + need;
		return r;
	}
	r.len = 1 + need;
	if (v >= (need == 1 ? 0x80u : need == 2 ? 0x800u : 0x10000u) && v <= 0x10FFFF && !(v >= 0xD800 && v <= 0xDFFF)) r.cp = v;
	return r;
}
static size_t
ref_encode(uint_least32_t c, unsigned char *o)
{
	if ((c >= 0xD800 && c <= 0xDFFF) || c > 0x10FFFF) c = 0xFFFD;
	if (c < 0x80) { o[0] = c; return 1; }
	if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
	if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
	o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63);
	return 4;
}
#endif
