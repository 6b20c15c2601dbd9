// C42: colour channels are exact on bytes and always in range.
//@ srcs:
//@ bound: every byte, every float that is a number, every 32-bit colour code; interpolation: every double value that is a number, for 6 ranges (unit, shifted, empty, zero, huge, denormal; 11 in the thorough tier); values beyond the ends for 11 ranges
//@ outside: channels that are NaN; other interpolation ranges, those whose width overflows
#include <sym.h>
#include <cstring>
#include <common_robotics_utilities/color_builder.hpp>
using namespace common_robotics_utilities::color_builder;
struct Plain { float r, g, b, a; };
static int in(float v) { return (v >= 0.0f) & (v <= 1.0f); }
template <class C> static int in(const C& c) { return in(c.r) & in(c.g) & in(c.b) & in(c.a); }
static float number(const char* name) { const float f = sym_float(name); sym_assume(f == f); return f; }
HARNESS(bytes) {
  const uint8_t v = sym_u8("byte"); const float f = ColorChannelFromHex(v); sym_assert(in(f), "a byte's channel is in [0, 1]"); sym_assert(ColorChannelToHex(f) == v, "a byte converted to a channel and back is unchanged");
  RGBAColor c; c.SetRHex(v); sym_assert(c.GetRHex() == v && c.R() == f && c.GetGHex() == 0 && c.GetBHex() == 0 && c.GetAHex() == 0, "red byte"); c = RGBAColor(); c.SetGHex(v); sym_assert(c.GetGHex() == v && c.G() == f && c.GetRHex() == 0 && c.GetBHex() == 0 && c.GetAHex() == 0, "green byte"); c = RGBAColor(); c.SetBHex(v); sym_assert(c.GetBHex() == v && c.B() == f && c.GetRHex() == 0 && c.GetGHex() == 0 && c.GetAHex() == 0, "blue byte"); c = RGBAColor(); c.SetAHex(v); sym_assert(c.GetAHex() == v && c.A() == f && c.GetRHex() == 0 && c.GetGHex() == 0 && c.GetBHex() == 0, "alpha byte");
  sym_observe(v); sym_cover("byte");
}
HARNESS(channel) {
  const float f = number("channel"); const float t = TrimColorValue(f); sym_assert(in(t), "a trimmed channel is in [0, 1]"); sym_assert((f >= 0.0f && f <= 1.0f) ? t == f : (t == (f > 1.0f ? 1.0f : 0.0f)), "a channel in range is kept, others go to the nearer end");
  const uint8_t h = ColorChannelToHex(f); const float back = ColorChannelFromHex(h); sym_assert(in(back), "a byte's channel is in [0, 1]"); sym_assert(ColorChannelToHex(back) == h, "a channel rounded to a byte is stable"); sym_observe(h);
}
HARNESS(monotone) { const float a = number("a"), b = number("b"); sym_assume(a <= b); const uint8_t x = ColorChannelToHex(a), y = ColorChannelToHex(b); sym_assert(x <= y, "brighter channels never give darker bytes"); sym_observe(x); }
HARNESS(construct) {
  const float r = number("r"), g = number("g"), b = number("b"), a = number("a"); const uint8_t x = sym_u8("x"), y = sym_u8("y"), z = sym_u8("z"), w = sym_u8("w");
  const int kind = sym_choice(9, "construction"); float e[4]; RGBAColor c; const float tr = TrimColorValue(r), tg = TrimColorValue(g), tb = TrimColorValue(b), ta = TrimColorValue(a), hx = ColorChannelFromHex(x), hy = ColorChannelFromHex(y), hz = ColorChannelFromHex(z), hw = ColorChannelFromHex(w);
  e[0] = tr; e[1] = tg; e[2] = tb; e[3] = ta;
  if (kind == 0) c = RGBAColor(r, g, b, a);
  else if (kind == 1) { c = RGBAColor(r, g, b); e[3] = 1.0f; }
  else if (kind == 2) { c.SetR(r); c.SetG(g); c.SetB(b); c.SetA(a); }
  else if (kind == 3) { const Plain p = MakeFromFloatColors<Plain>(r, g, b, a); c = ConvertColor<Plain, RGBAColor>(p); }
  else if (kind == 4) { Plain p; p.r = r; p.g = g; p.b = b; p.a = a; c = ConvertColor<Plain, RGBAColor>(p); }
  else { e[0] = hx; e[1] = hy; e[2] = hz; if (kind == 5) { c = RGBAColor(x, y, z, w); e[3] = hw; } else if (kind == 6) c = RGBAColor(x, y, z, a); else if (kind == 7) { c = MakeFromHexColors<RGBAColor>(x, y, z, w); e[3] = hw; } else { c = MakeFromMixedColors<RGBAColor>(x, y, z, a); } }
  sym_assert(in(c), "every channel is in [0, 1]"); sym_assert((c.R() == e[0]) & (c.G() == e[1]) & (c.B() == e[2]) & (c.A() == e[3]), "every channel holds its own argument"); sym_assert(ColorsEqual<RGBAColor, RGBAColor>(c, c), "a colour equals itself"); sym_cover("constructed");
}
HARNESS(defaults) { const uint8_t x = sym_u8("x"); const RGBAColor c(x, x, x); sym_assert(c.A() == 1.0f && in(c), "opaque by default"); const RGBAColor d = MakeFromHexColors<RGBAColor>(x, x, x), m = MakeFromMixedColors<RGBAColor>(x, x, x); sym_assert(d.A() == 1.0f && m.A() == 1.0f, "opaque by default"); const RGBAColor z; sym_assert(z.R() == 0.0f && z.G() == 0.0f && z.B() == 0.0f && z.A() == 0.0f, "default colour"); }
HARNESS(equal) {
  const int k = sym_choice(4, "channel"); float u[4] = {0.25f, 0.5f, 0.75f, 1.0f}, w[4] = {0.25f, 0.5f, 0.75f, 1.0f}; u[k] = number("u"); w[k] = number("w"); const RGBAColor x(u[0], u[1], u[2], u[3]), y(w[0], w[1], w[2], w[3]); const bool eq = ColorsEqual<RGBAColor, RGBAColor>(x, y);
  const float a = TrimColorValue(u[k]), b = TrimColorValue(w[k]); sym_assert(eq == (a == b), "colours are equal exactly when every channel is"); sym_cover(eq ? "equal" : "different");
}
static const double kRange[][2] = {{0.0, 1.0}, {-1.0, 3.0}, {0.25, 0.25}, {0.0, 0.0}, {1e16, 1e16 + 2.0}, {0.0, 5e-324}, {100.0, 100.5}, {-7.0, -4.0}, {0.3, 0.7}, {0.0, 1e300}, {-1e-300, 1e-300}};
HARNESS(hot) {
  const int k = sym_choice(sym_param("ranges", 6), "range"); const double lo = kRange[k][0], hi = kRange[k][1]; const double v = sym_double("value"); sym_assume(v == v);
  const RGBAColor c = InterpolateHotToCold<RGBAColor>(v, lo, hi); sym_assert(in(c), "every channel of an interpolated colour is in [0, 1]"); sym_assert(c.A() == 1.0f, "opaque"); sym_cover("interpolated");
}
HARNESS(hot_ends) {
  const int k = sym_choice(11, "range"); const double lo = kRange[k][0], hi = kRange[k][1]; const double v = sym_double("value"); sym_assume(v < lo || v > hi); const RGBAColor c = InterpolateHotToCold<RGBAColor>(v, lo, hi), m = InterpolateHotToCold<RGBAColor>(lo, lo, hi), x = InterpolateHotToCold<RGBAColor>(hi, lo, hi); const int low = v < lo;
  sym_assert(in(c), "every channel of an interpolated colour is in [0, 1]"); sym_assert((low && ColorsEqual<RGBAColor, RGBAColor>(c, m)) || (!low && ColorsEqual<RGBAColor, RGBAColor>(c, x)), "values beyond the range have the colour of its nearer end"); if (k < 2) sym_assert(low ? (c.R() == 0.0f && c.G() == 0.0f && c.B() == 1.0f) : (c.R() == 1.0f && c.G() == 0.0f && c.B() == 0.0f), "blue at the low end, red at the high end"); sym_cover(low ? "low" : "high");
}
HARNESS(lookup) {
  const uint32_t i = sym_u32("code"), j = sym_u32("code"); const RGBAColor a = LookupUniqueColor<RGBAColor>(i), b = LookupUniqueColor<RGBAColor>(j); sym_assert(in(a), "every channel is in [0, 1]");
  if (i >= 1) sym_assert(a.A() == 1.0f, "codes above zero are opaque by default"); if (i == 0) sym_assert(a.A() == 0.0f, "code zero is transparent"); if (i > 20) sym_assert(a.R() == 0.0f && a.G() == 0.0f && a.B() == 0.0f, "codes above the table are black");
  if (i >= 1 && j >= 1 && i <= 20 && j <= 20 && i != j) { sym_assert(!ColorsEqual<RGBAColor, RGBAColor>(a, b), "codes 1 to 20 have distinct colours"); sym_cover("distinct"); }
  sym_observe(a.GetRHex());
}
HARNESS(lookup_alpha) { const uint32_t i = sym_u32("code"); const float al = number("alpha"); const RGBAColor c = LookupUniqueColor<RGBAColor>(i, al), d = LookupUniqueColor<RGBAColor>(i); sym_assert(in(c), "every channel is in [0, 1]"); sym_assert(i == 0 || (c.A() == TrimColorValue(al) && c.R() == d.R() && c.G() == d.G() && c.B() == d.B()), "the alpha argument only sets alpha"); }
//@ job both h_bytes must=byte
//@ job both h_channel time=60
//@ job both h_monotone time=60
//@ job both h_construct must=constructed time=60
//@ job both h_defaults
//@ job both h_equal must=equal,different time=60
//@ job both h_hot must=interpolated time=100
//@ job both h_hot_ends must=low,high time=60
//@ job both h_lookup must=distinct time=60
//@ job both h_lookup_alpha time=60
//@ job thorough h_hot ranges=11 time=3000
