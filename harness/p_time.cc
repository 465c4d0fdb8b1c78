// P05 calendar, P06 sexagesimal formatting, P07 sexagesimal parsing, P15 time-scale offsets, P16 epochs and sidereal time.
#include "vp.h"
#include "slalib.h"
using namespace sla;
typedef long long ll;

// ---------------------------------------------------------------- exact calendar model (days since 1858-11-17)
static ll floordiv(ll a, ll b) { ll q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
static ll days_civil(ll y, ll m, ll d) {
    y -= m <= 2; ll era = floordiv(y, 400), yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468 + 40587;
}
static void civil_days(ll z, ll& y, int& m, int& d) {
    z += 719468 - 40587; ll era = floordiv(z, 146097), doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    y = yoe + era * 400; ll doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = (int) (doy - (153 * mp + 2) / 5 + 1); m = (int) (mp < 10 ? mp + 3 : mp - 9); y += m <= 2;
}
static int dim(ll y, int m) { static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; return m == 2 && leap ? 29 : t[m - 1]; }
static int two_digit(int y) { return y >= 0 && y <= 49 ? y + 2000 : y >= 50 && y <= 99 ? y + 1900 : y; }

static void check_date(int y, int m, int d) {
    in(y, m, d);
    for (int variant = 0; variant < 2; variant++) {
        const char* fn = variant ? "caldj" : "cldj";
        int ye = variant ? two_digit(y) : y;
        double mjd = -7.25;
        G2JStatus s = variant ? caldj(y, m, d, mjd) : cldj(y, m, d, mjd);
        if (ye < -4699) chk(s == G2J_BAD_YEAR && mjd == -7.25, fn, "bad-year-reported-output-untouched", "status %d mjd %.17g", s, mjd);
        else if (m < 1 || m > 12) chk(s == G2J_BAD_MONTH && mjd == -7.25, fn, "bad-month-reported-output-untouched", "status %d mjd %.17g", s, mjd);
        else {
            double want = (double) (days_civil(ye, m, 1) + d - 1);
            bool okday = d >= 1 && d <= dim(ye, m);
            chk(s == (okday ? G2J_OK : G2J_BAD_DAY), fn, "day-status", "status %d for valid=%d", s, okday);
            chk(mjd == want, fn, "mjd-equals-exact-day-count", "got %.17g want %.17g", mjd, want);
            covered(okday ? "valid-date" : "bad-day");
            seen(fn, (uint64_t) (ll) want);
        }
        fn = variant ? "calyd" : "clyd";
        int jy = -77777, jd = -88888;
        s = variant ? calyd(y, m, d, jy, jd) : clyd(y, m, d, jy, jd);
        if (ye < -4711) chk(s == G2J_BAD_YEAR && jy == -77777 && jd == -88888, fn, "bad-year-reported-output-untouched", "status %d %d %d", s, jy, jd);
        else if (m < 1 || m > 12) chk(s == G2J_BAD_MONTH && jy == -77777 && jd == -88888, fn, "bad-month-reported-output-untouched", "status %d %d %d", s, jy, jd);
        else {
            ll n = days_civil(ye, m, 1) + d - 1 - days_civil(2000, 1, 1), k = floordiv(n, 1461), rem = n - 1461 * k, wy, wd;
            if (rem < 366) { wy = 2000 + 4 * k; wd = rem + 1; } else { rem -= 366; wy = 2001 + 4 * k + rem / 365; wd = rem % 365 + 1; }
            bool okday = d >= 1 && d <= dim(ye, m);
            chk(s == (okday ? G2J_OK : G2J_BAD_DAY), fn, "day-status", "status %d for valid=%d", s, okday);
            if (ye > -4711 || m > 3) chk(jy == wy && jd == wd, fn, "year-and-day-equal-exact-count", "got %d %d want %lld %lld", jy, jd, wy, wd);
        }
    }
}
GROUP("P05", calendar_forward, 400000, 40000000) {
    int y, m, d, k = (int) r.irange(0, 9);
    if (k < 4) y = (int) r.irange(1700, 2300); else if (k < 6) y = (int) r.irange(-4715, 4000); else if (k == 6) y = (int) r.irange(-10, 110);
    else if (k == 7) y = (int) (100 * r.irange(-47, 60) + r.irange(-1, 1)); else if (k == 8) y = (int) r.irange(-4720, -4690); else y = (int) r.irange(-100000, 2700000);
    m = r.coin(0.05) ? (int) r.irange(-3, 16) : (int) r.irange(1, 12); if (r.coin(0.2)) m = (int) r.irange(1, 3);
    d = r.coin(0.1) ? (int) r.irange(-40, 80) : (int) r.irange(1, 31); if (r.coin(0.2)) d = (int) r.irange(27, 32); if (r.coin(0.05)) d = 0;
    if (r.coin(0.02)) { y = INT_MIN + (int) r.irange(0, 5); }
    check_date(y, m, d);
}
// every day of a contiguous block of years (blocks cover 4700 BC to 5000 AD over the run)
GROUP("P05", calendar_every_day, 700, 9800) {
    int y = thorough() ? -4699 + (int) idx : (int) (idx < 350 ? 1750 + idx : r.irange(-4699, 5000));
    for (int m = 1; m <= 12; m++) for (int d = 1; d <= dim(y, m); d++) check_date(y, m, d);
    ll a = days_civil(y, 1, 1), b = days_civil(y + 1, 1, 1);
    for (ll n = a; n < b; n++) {
        if (n <= -2395520) continue;
        Date dt; dt.d_ifraction = 0; dt.d_fraction = -1; in((double) n);
        ll wy; int wm, wd; civil_days(n, wy, wm, wd);
        bool bad = djcl((double) n, dt);
        chk(!bad && dt.d_year == wy && dt.d_month == wm && dt.d_day == wd && dt.d_fraction == 0.0, "djcl", "date-of-integer-mjd", "bad %d got %d %d %d + %.17g", bad, dt.d_year, dt.d_month, dt.d_day, dt.d_fraction);
    }
}
GROUP("P05", calendar_backward, 400000, 40000000) {
    double x; int k = (int) r.irange(0, 9);
    if (k < 3) x = r.uni(0, 90000); else if (k < 5) x = r.uni(-2395520, 3e6); else if (k == 5) x = r.uni(-2395530, -2395500); else if (k == 6) x = r.logu(1, 1.2e9) * (r.coin(0.7) ? 1 : -1);
    else if (k == 7) x = std::floor(r.uni(-2395519, 3e6)) + r.pick({0.0, 0.5, 1e-9, 1 - 1e-9, 0.00005, 0.99995, 0.49995, 0.5 - 1e-5});
    else if (k == 8) x = jitter(r, (double) days_civil(r.irange(-4600, 4000), r.irange(1, 12), 1)); else x = r.uni(-50, 50);
    if (r.coin(0.03)) x = r.pick({-2395520.0, 1e9, std::nextafter(-2395520.0, 0.0), std::nextafter(1e9, 0.0), -2395519.0, 1e300, -1e300, 1e10});
    in(x);
    bool want_bad = x <= -2395520.0 || x >= 1e9;
    Date dt; std::memset(&dt, g_poison, sizeof dt);
    Date d0{(int) r.irange(1, 999), (int) r.irange(13, 99), (int) r.irange(40, 99), (int) r.irange(1, 999), r.uni(2, 3)}; if (want_bad) dt = d0;
    auto kept = [&](const Date& d) { return d.d_year == d0.d_year && d.d_month == d0.d_month && d.d_day == d0.d_day && d.d_ifraction == d0.d_ifraction && d.d_fraction == d0.d_fraction; };
    bool bad = djcl(x, dt); if (want_bad) chk(kept(dt), "djcl", "rejected-date-untouched");
    if (chk(bad == want_bad, "djcl", "range-status", "got %d", bad) && !bad) {
        chk(dt.d_month >= 1 && dt.d_month <= 12 && dt.d_day >= 1 && dt.d_day <= dim(dt.d_year, dt.d_month), "djcl", "valid-date", "%d %d %d", dt.d_year, dt.d_month, dt.d_day);
        chk(dt.d_fraction >= 0.0 && dt.d_fraction <= 1.0, "djcl", "fraction-range", "%.17g", dt.d_fraction);
        LD back = (LD) days_civil(dt.d_year, dt.d_month, dt.d_day) + dt.d_fraction;
        near_(back, x, 1e-16L * (x < 0 ? 2 : 0) + 0x1p-53L * std::fabs(x) * 0 + (x < 0 ? 2.3e-16L : 0), "djcl", "date-plus-fraction-recovers-mjd");
        seen("djcl", hd(x));
    }
    int ndp = (int) r.irange(-2, 4);
    if (std::fabs(x) > 2e8 && ndp > 0) ndp = 0;     // day count times 10^ndp stays well inside the exact range
    Date dc; std::memset(&dc, g_poison, sizeof dc);
    in(ndp, x);
    if (want_bad) dc = d0;
    bad = djcal(ndp, x, dc); if (want_bad) chk(kept(dc), "djcal", "rejected-date-untouched");
    if (chk(bad == want_bad, "djcal", "range-status", "got %d", bad) && !bad) {
        ll fd = 1; for (int q = 0; q < ndp; q++) fd *= 10;
        chk(dc.d_ifraction >= 0 && dc.d_ifraction < fd, "djcal", "fraction-field-range", "%d of %lld", dc.d_ifraction, fd);
        chk(dc.d_month >= 1 && dc.d_month <= 12 && dc.d_day >= 1 && dc.d_day <= dim(dc.d_year, dc.d_month), "djcal", "valid-date", "%d %d %d", dc.d_year, dc.d_month, dc.d_day);
        LD n = (LD) days_civil(dc.d_year, dc.d_month, dc.d_day) * fd + dc.d_ifraction, v = (LD) x * fd;
        near_(n, v, 0.5L + 2.3e-16L * std::fabs(v), "djcal", "rounded-date-nearest");
    }
}
// ---------------------------------------------------------------- sexagesimal formatting
static double sexa_value(Rng& r, double unit, double maxunits) {      // unit: one leading field (hour/degree) in argument units
    double v; int k = (int) r.irange(0, 11); double sec = unit / 3600;
    if (k < 3) v = r.uni(0, 24) * unit;
    else if (k < 5) v = (double) r.irange(0, (long) maxunits) * unit;
    else if (k == 5) v = (double) r.irange(0, 86400) * sec;
    else if (k == 6) v = (double) r.irange(0, 1440) * 60 * sec - r.logu(1e-10, 1.0) * sec;
    else if (k == 7) v = (double) r.irange(1, 400) * unit - r.logu(1e-12, 1e-1) * sec;
    else if (k == 8) v = (double) r.irange(0, 864000) * sec / 10 + 0.05 * sec;
    else if (k == 9) v = r.logu(1e-18, 1.0) * unit;
    else if (k == 10) v = r.uni(0, maxunits) * unit;
    else v = r.coin() ? 0.0 : (double) r.irange(0, 24) * unit / 4;
    if (r.coin(0.3)) v = jitter(r, v);
    return r.coin(0.4) ? -v : v;
}
template <class CallF> static void check_format(const char* fn, CallF call, int ndp, double x, LD factor /* leading fields per argument unit */, double eps) {
    ConversionResult c; std::memset((void*) &c, 0, sizeof c);
    in(ndp, x);
    call(ndp, x, c);
    LD rs = 1; for (int q = 0; q < ndp; q++) rs *= 10;
    LD v = std::fabs((LD) x) * factor * 3600 * rs;
    if (v / (3600 * rs) > 2e9 || v > 0x1p52) return;
    int h = c.get_hours(), m = c.get_minutes(), s = c.get_seconds(), f = c.get_fraction();
    chk(h >= 0 && m >= 0 && m <= 59 && s >= 0 && s <= 59 && f >= 0 && (LD) f < rs, fn, "fields-in-range", "%d %d %d %d ndp %d", h, m, s, f, ndp);
    if (x == 0 || std::fabs(x) > 1e-35) chk(c.get_sign() == (x >= 0 ? '+' : '-'), fn, "sign", "sign %c for %.17g", c.get_sign(), x);
    chk(c.get_degrees() == h && c.get_arcminutes() == m && c.get_arcseconds() == s, fn, "field-aliases", "accessors disagree");
    LD n = (((LD) h * 60 + m) * 60 + s) * rs + f;
    near_(n, v, 0.5L + v * eps + 1e-9L, fn, "recombined-value-is-rounded-magnitude");
    if (v < 0.5L - 1e-6L) covered("rounds-to-zero");
    if (f == 0 && s == 0) covered(m == 0 ? "carried-to-leading-field" : "carried-to-minutes");
    seen(fn, hd(x) ^ (uint64_t) ndp);
}
GROUP("P06", sexagesimal_format, 400000, 40000000) {
    int ndp = (int) r.irange(-3, 9); double mx = r.coin(0.8) ? 400 : r.logu(400, 2e6);
    LD fdeg = 180 / PIl, fhr = 12 / PIl;
    double x = sexa_value(r, 1.0 / 24, mx);
    check_format("dd2tf", [](int n, double v, ConversionResult& c) { dd2tf(n, v, c); }, ndp, x, 24, 8 * EPSD);
    check_format("dr2af", [](int n, double v, ConversionResult& c) { dr2af(n, v, c); }, ndp, sexa_value(r, D2R, mx), fdeg, 8 * EPSD);
    check_format("dr2tf", [](int n, double v, ConversionResult& c) { dr2tf(n, v, c); }, ndp, sexa_value(r, PI / 12, mx), fhr, 8 * EPSD);
    int nf = (int) r.irange(-3, 9);
    check_format("cd2tf", [](int n, double v, ConversionResult& c) { cd2tf(n, (float) v, c); }, nf, (double) (float) sexa_value(r, 1.0 / 24, 400), 24, 8 * EPSF);
    check_format("cr2af", [](int n, double v, ConversionResult& c) { cr2af(n, (float) v, c); }, nf, (double) (float) sexa_value(r, D2R, 400), fdeg, 8 * EPSF);
    check_format("cr2tf", [](int n, double v, ConversionResult& c) { cr2tf(n, (float) v, c); }, nf, (double) (float) sexa_value(r, PI / 12, 400), fhr, 8 * EPSF);
}
// whole units typed by a user (k hours, k degrees, k minutes, k seconds) must come out whole
GROUP("P06", sexagesimal_whole_units, 150000, 3000000) {
    long secs = r.coin(0.4) ? 3600 * r.irange(0, 400) : r.coin(0.4) ? 60 * r.irange(0, 30000) : r.irange(0, 1500000);
    int ndp = (int) r.irange(0, 7); double sg = r.sign();
    ConversionResult c;
    in(secs, ndp, sg);
    auto whole = [&](const char* fn) { chk(c.get_hours() == secs / 3600 && c.get_minutes() == secs / 60 % 60 && c.get_seconds() == secs % 60 && c.get_fraction() == 0, fn, "whole-units-exact", "%ld s -> %d %d %d . %d (ndp %d)", secs, c.get_hours(), c.get_minutes(), c.get_seconds(), c.get_fraction(), ndp); };
    dd2tf(ndp, sg * (double) secs / 86400, c); whole("dd2tf");
    dr2tf(ndp, sg * (double) ((LD) secs * PIl / 43200), c); whole("dr2tf");
    dr2af(ndp, sg * (double) ((LD) secs * PIl / 648000), c); whole("dr2af");
    if (secs <= 86400) {
        ndp = 0;
        cd2tf(ndp, (float) (sg * (double) secs / 86400), c); whole("cd2tf");
        cr2tf(ndp, (float) (sg * (double) ((LD) secs * PIl / 43200)), c); whole("cr2tf");
        cr2af(ndp, (float) (sg * (double) ((LD) secs * PIl / 648000)), c); whole("cr2af");
    }
}
// ---------------------------------------------------------------- sexagesimal parsing
GROUP("P07", sexagesimal_parse, 400000, 40000000) {
    int h = r.coin(0.7) ? (int) r.irange(0, 23) : r.coin(0.5) ? (int) r.irange(-3, 27) : (int) r.irange(-400, 800);
    int dg = r.coin(0.7) ? (int) r.irange(0, 359) : r.coin(0.5) ? (int) r.irange(355, 364) : (int) r.irange(-400, 800);
    int m = r.coin(0.75) ? (int) r.irange(0, 59) : r.coin(0.5) ? r.pick({-1, 59, 60, 61, 0}) : (int) r.irange(-100, 200);
    double s = r.coin(0.6) ? r.uni(0, 60) : r.coin(0.6) ? r.pick({0.0, 60.0, -0.0, std::nextafter(60.0, 0.0), 59.999, 59.9999999, 60.0001, -1e-9, 61.0, 30.0}) : r.uni(-100, 200);
    float sf = (float) s; if (r.coin(0.1)) sf = std::nextafterf(60.0f, 0.0f);
    auto judge = [&](const char* fn, int lead, int maxlead, double sec, int status, LD got, LD perfield, double eps) {
        bool bl = lead < 0 || lead > maxlead, bm = m < 0 || m > 59, bs = sec < 0 || sec >= 60;
        in(lead, m, sec);
        bool ok = status == 0 ? !bl && !bm && !bs : status == 1 ? bl : status == 2 ? bm : status == 3 ? bs : false;
        chk(ok, fn, "status-names-a-bad-field", "status %d, bad lead/min/sec %d%d%d", status, bl, bm, bs);
        LD tot = ((LD) lead * 60 + m) * 60 + sec, mag = (std::fabs((LD) lead) * 60 + std::abs(m)) * 60 + std::fabs(sec);
        near_(got, tot * perfield / 3600, eps * 8 * mag * perfield / 3600, fn, "value-is-weighted-sum");
        if (bl || bm || bs) covered("out-of-range-field"); else covered("all-in-range");
        seen(fn, hd((double) got));
    };
    double d; float f; int st;
    poison(d); st = dtf2d(h, m, s, d); judge("dtf2d", h, 23, s, st, d, 1.0L / 24, EPSD);
    poison(d); st = dtf2r(h, m, s, d); judge("dtf2r", h, 23, s, st, d, PIl / 12, EPSD);
    poison(d); st = daf2r(dg, m, s, d); judge("daf2r", dg, 359, s, st, d, PIl / 180, EPSD);
    poison(f); st = ctf2d(h, m, sf, f); judge("ctf2d", h, 23, sf, st, f, 1.0L / 24, EPSF);
    poison(f); st = ctf2r(h, m, sf, f); judge("ctf2r", h, 23, sf, st, f, PIl / 12, EPSF);
    poison(f); st = caf2r(dg, m, sf, f); judge("caf2r", dg, 359, sf, st, f, PIl / 180, EPSF);
    // parsing the fields produced by formatting recovers the value to the displayed precision
    if (idx % 4 == 0) {
        double x = r.uni(0, 1) * TWOPI; ConversionResult c; dr2af(6, x, c); double back = 0;
        int q = daf2r(c.get_degrees(), c.get_arcminutes(), c.get_arcseconds() + c.get_fraction() * 1e-6, back);
        in(x); chk(q == 0 || c.get_degrees() == 360, "daf2r", "accepts-formatted-fields", "status %d", q);
        near_(back, x, 0.51e-6 * AS2R + 1e-14, "daf2r", "format-parse-round-trip");
        dr2tf(6, x, c); q = dtf2r(c.get_hours(), c.get_minutes(), c.get_seconds() + c.get_fraction() * 1e-6, back);
        near_(back, x, 0.51e-6 * 15 * AS2R + 1e-14, "dtf2r", "format-parse-round-trip");
    }
}
// ---------------------------------------------------------------- time scales
struct Leap { int y, m; double dat; };
static const Leap LEAPS[] = {{1972, 1, 10}, {1972, 7, 11}, {1973, 1, 12}, {1974, 1, 13}, {1975, 1, 14}, {1976, 1, 15}, {1977, 1, 16}, {1978, 1, 17}, {1979, 1, 18}, {1980, 1, 19},
    {1981, 7, 20}, {1982, 7, 21}, {1983, 7, 22}, {1985, 7, 23}, {1988, 1, 24}, {1990, 1, 25}, {1991, 1, 26}, {1992, 7, 27}, {1993, 7, 28}, {1994, 7, 29}, {1996, 1, 30}, {1997, 7, 31},
    {1999, 1, 32}, {2006, 1, 33}, {2009, 1, 34}, {2012, 7, 35}, {2015, 7, 36}, {2017, 1, 37}};
struct Drift { int y, m; LD a; double ref; LD b; };      // USNO tai-utc.dat, 1961-1971
static const Drift DRIFTS[] = {{1961, 1, 1.4228180L, 37300, 0.001296L}, {1961, 8, 1.3728180L, 37300, 0.001296L}, {1962, 1, 1.8458580L, 37665, 0.0011232L}, {1963, 11, 1.9458580L, 37665, 0.0011232L},
    {1964, 1, 3.2401300L, 38761, 0.001296L}, {1964, 4, 3.3401300L, 38761, 0.001296L}, {1964, 9, 3.4401300L, 38761, 0.001296L}, {1965, 1, 3.5401300L, 38761, 0.001296L}, {1965, 3, 3.6401300L, 38761, 0.001296L},
    {1965, 7, 3.7401300L, 38761, 0.001296L}, {1965, 9, 3.8401300L, 38761, 0.001296L}, {1966, 1, 4.3131700L, 39126, 0.002592L}, {1968, 2, 4.2131700L, 39126, 0.002592L}};
static LD dat_model(double utc, int& slot) {
    LD v = 1.4178180L + ((LD) utc - 37300) * 0.001296L; slot = 0; int k = 0;
    for (auto& q : DRIFTS) { k++; if (utc >= (double) days_civil(q.y, q.m, 1)) { v = q.a + ((LD) utc - q.ref) * q.b; slot = k; } }
    for (auto& q : LEAPS) { k++; if (utc >= (double) days_civil(q.y, q.m, 1)) { v = q.dat; slot = k; } }
    return v;
}
GROUP("P15", tai_utc, 300000, 20000000) {
    double u; int k = (int) r.irange(0, 9);
    if (k < 3) u = r.uni(41000, 60000); else if (k < 5) u = r.uni(36900, 41400); else if (k == 5) u = r.uni(30000, 90000); else if (k == 6) u = gen_mjd(r, 20000, 120000, &dict("dat"));
    else { int n = (int) r.irange(0, 40); double b = (double) (n < 13 ? days_civil(DRIFTS[n].y, DRIFTS[n].m, 1) : days_civil(LEAPS[n - 13].y, LEAPS[n - 13].m, 1)); u = k == 7 ? b + r.uni(-2, 2) : k == 8 ? jitter(r, b) : b + r.pick({0.0, -1.0, 1.0, 0.5, -0.5}); }
    in(u);
    int slot; LD want = dat_model(u, slot); double got = dat(u);
    if (slot >= 14) chk(got == (double) want, "dat", "announced-leap-seconds", "got %.17g want %.17g", got, (double) want);
    else near_(got, want, 1e-9L + 0x1p-50L * std::fabs(want), "dat", "published-drift");
    char b[32]; snprintf(b, sizeof b, "slot%02d", slot); covered(b);
    near_(dtt(u), (LD) got + 32.184L, 1e-12L + 0x1p-51L * std::fabs((LD) got), "dtt", "tt-utc-is-tai-utc-plus-32.184");
    seen("dat", hd(got));
}
static LD dt_model(LD e) {
    if (e >= 1708.185161980887L) { LD t = (e - 1800) / 100 - 0.19L; return 5.156L + 13.3066L * t * t; }
    if (e >= 979.0258204760233L) { LD t = (e - 1800) / 100; return 25.5L * t * t; }
    LD t = (e - 1800) / 100; return 1360 + (320 + 44.3L * t) * t;
}
GROUP("P15", delta_t_historical, 100000, 5000000) {
    double e; int k = (int) r.irange(0, 5);
    if (k < 2) e = r.uni(-1500, 2300); else if (k == 2) e = r.uni(900, 1050); else if (k == 3) e = r.uni(1650, 1750); else if (k == 4) e = jitter(r, r.pick({1708.185161980887, 979.0258204760233, 1900.0, 1800.0})); else e = gen_real(r, -2000, 3000, &dict("dt"));
    in(e);
    LD w = dt_model(e); near_(dt(e), w, 1e-10L + std::fabs(w) * 1e-12L, "dt", "documented-parabola");
    for (double b : {1708.185161980887, 979.0258204760233}) { double h = r.logu(1e-9, 1e-4); double lo = dt(b - h), hi = dt(b + h); near_(lo, hi, 1e-5 + 60 * h, "dt", "continuous-at-breakpoint"); }
    seen("dt", hd(e));
}
// ---------------------------------------------------------------- epochs and sidereal time
static LD epb_m(LD d) { return 1900 + (d - 15019.81352L) / 365.242198781L; }
static LD epj_m(LD d) { return 2000 + (d - 51544.5L) / 365.25L; }
GROUP("P16", epochs, 300000, 20000000) {
    double d = gen_mjd(r, -700000, 800000, &dict("epb")), e = gen_real(r, -1000, 4500, &dict("epb2d"));
    in(d, e);
    near_(epb(d), epb_m(d), 4e-13L + 0x1p-48L * std::fabs(epb_m(d)), "epb", "besselian-epoch-definition");
    near_(epj(d), epj_m(d), 4e-13L + 0x1p-48L * std::fabs(epj_m(d)), "epj", "julian-epoch-definition");
    near_(epb2d(e), 15019.81352L + ((LD) e - 1900) * 365.242198781L, 2e-9L, "epb2d", "besselian-definition");
    near_(epj2d(e), 51544.5L + ((LD) e - 2000) * 365.25L, 2e-9L, "epj2d", "julian-definition");
    near_(epb2d(epb(d)), d, 2e-9, "epb2d", "inverts-epb"); near_(epj2d(epj(d)), d, 2e-9, "epj2d", "inverts-epj");
    near_(epb(epb2d(e)), e, 4e-12, "epb", "inverts-epb2d"); near_(epj(epj2d(e)), e, 4e-12, "epj", "inverts-epj2d");
    for (char a : {'B', 'b', 'J', 'j'}) for (char g : {'B', 'b', 'J', 'j'}) {
        bool ab = a == 'B' || a == 'b', gb = g == 'B' || g == 'b'; double got = epco(a, g, e);
        note("epco('%c','%c')", a, g);
        if (ab == gb) chk(got == e, "epco", "equal-types-unchanged", "got %.17g", got);
        else { LD mj = gb ? 15019.81352L + ((LD) e - 1900) * 365.242198781L : 51544.5L + ((LD) e - 2000) * 365.25L; near_(got, ab ? epb_m(mj) : epj_m(mj), 1e-11, "epco", "conversion"); }
    }
    char bad; do bad = (char) r.irange(32, 126); while (std::strchr("BbJj", bad));
    char good = r.pick({'B', 'b', 'J', 'j'}); note("bad type '%c'", bad);
    chk(epco(bad, good, e) == 0.0, "epco", "unknown-result-type-gives-zero", "'%c' '%c' gives %.17g", bad, good, epco(bad, good, e));
    chk(epco(good, bad, e) == 0.0, "epco", "unknown-given-type-gives-zero", "'%c' '%c' gives %.17g", good, bad, epco(good, bad, e));
    seen("epco", hd(e));
}
static LD gmst_m(LD u, LD frac) { LD t = (u - 51544.5L) / 36525.0L; LD s = 24110.54841L + (8640184.812866L + (0.093104L - 6.2e-6L * t) * t) * t; return 2 * PIl * (frac + s / 86400.0L); }
GROUP("P16", sidereal_time, 300000, 20000000) {
    double u = gen_mjd(r, -20000, 140000, &dict("gmst"));
    in(u);
    double g = gmst(u);
    chk(g >= 0 && g < TWOPI + 1e-15, "gmst", "range", "%.17g", g);
    neara(g, gmst_m(u, (LD) u - std::floor(u)), 2e-10, "gmst", "iau1982-expression");
    // two-part form, split in several ways
    double ip = std::floor(u), fp = u - ip; int k = (int) r.irange(0, 5); double a = ip, b = fp;
    if (k == 1) std::swap(a, b); if (k == 2) { a = ip + 0.5; b = fp - 0.5; } if (k == 3) { a = ip - 1; b = fp + 1; } if (k == 4) { a = u; b = 0; } if (k == 5) { a = 0; b = u; }
    in(u, a, b);
    double ga = gmsta(a, b);
    chk(ga >= 0 && ga < TWOPI + 1e-15, "gmsta", "range", "%.17g", ga);
    LD us = (LD) a + b;
    neara(ga, gmst_m(us, us - std::floor(us)), (k == 4 || k == 5 || k == 1) ? 2e-10 : 2e-10, "gmsta", "iau1982-expression");
    neara(ga, g, 4e-10, "gmsta", "agrees-with-one-part-form");
    // sidereal rate over a finite step
    double h = r.logu(1e-3, 1.0); LD d = (LD) gmst(u + h) - g; LD hh = (LD) (u + h) - u;
    neara(d, gmst_m((LD) u + hh, hh) - gmst_m(u, 0), 4e-10, "gmst", "advances-at-sidereal-rate");
    seen("gmst", hd(g));
}
