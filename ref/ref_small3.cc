// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.
#include "slaref.h"
#include "slaref_f77.h"
#include <cmath>
#include <cstring>
#include <cstdint>
#include <algorithm>
// ---- atmdsp

namespace slaref {
void atmdsp(LDBL atk, LDBL apm, LDBL arh, LDBL wl1, LDBL a1, LDBL b1, LDBL wl2, LDBL& a2, LDBL& b2) {
    if (wl1 > 100.0 || wl2 > 100.0) {
        a2 = a1;
        b2 = b1;
    } else {
        const LDBL tdkok = r_min(r_max(atk, 100.0), 500.0);
        const LDBL pmbok = r_min(r_max(apm, 0.0), 10000.0);
        const LDBL rhok = r_min(r_max(arh, 0.0), 1.0);
        const LDBL psat = std::pow(10.0, (-8.7115 + 0.03477 * tdkok));
        const LDBL pwo = rhok * psat;
        const LDBL w1 = 11.2684e-6 * pwo;
        LDBL wlok = r_max(wl1, 0.1);
        LDBL wlsq = wlok * wlok;
        LDBL w2 = 77.5317e-6 + (0.43909e-6 + 0.00367e-6 / wlsq) / wlsq;
        const LDBL dn1 = (w2 * pmbok - w1) / tdkok;
        wlok = r_max(wl2, 0.1);
        wlsq = wlok * wlok;
        w2 = 77.5317e-6 + (0.43909e-6 + 0.00367e-6 / wlsq) / wlsq;
        const LDBL dn2 = (w2 * pmbok - w1) / tdkok;
        if (dn1 != 0.0) {
            const LDBL f = dn2 / dn1;
            a2 = a1 * f;
            b2 = b1 * f;
            if (dn1 != a1) {
                b2 *= (1.0 + dn1 * (dn1 - dn2) / (2.0 * (dn1 - a1)));
            }
        } else {
            a2 = a1;
            b2 = b1;
        }
    }
}
}
// ---- caldj

namespace slaref {
G2JStatus caldj(int year, int month, int day, LDBL& mjd) {
    return cldj(process_year_defaults(year), month, day, mjd);
}
}
// ---- cd2tf

namespace slaref {
void cd2tf(int ndp, LDBL days, ConversionResult& result) {
    dd2tf(ndp, LDBL (days), result);
}
}
// ---- cr2af

namespace slaref {
void cr2af(int ndp, LDBL angle, ConversionResult& result) {
    constexpr auto factor = (LDBL)(15.0 / 6.283185307179586476925287);
    cd2tf(ndp, angle * factor, result);
}
}
// ---- ctf2d

namespace slaref {
T2DStatus ctf2d(int hours, int minutes, LDBL seconds, LDBL& days) {
    T2DStatus result = T2D_OK;
    if (hours < 0 || hours > 23) result = T2D_BAD_HOURS;
    if (minutes < 0 || minutes > 59) result = T2D_BAD_MINUTES;
    if (seconds < 0.0f || seconds >= 60.0f) result = T2D_BAD_SECONDS;
    constexpr LDBL DAYS2SECONDS = 86400.0f;
    days= (60.0f * (60.0f * (LDBL) hours + (LDBL) minutes) + seconds) / DAYS2SECONDS;
    return result;
}
}
// ---- dav2m

namespace slaref {
void dav2m(const Vector<LDBL> vec, Matrix<LDBL> mat) {
    LDBL x = vec[0];
    LDBL y = vec[1];
    LDBL z = vec[2];
    const LDBL phi = std::sqrt(x * x + y * y + z * z);
    const LDBL sin_phi = std::sin(phi);
    const LDBL cos_phi = std::cos(phi);
    const LDBL w = 1.0 - cos_phi;
    if (phi != 0.0) {
        x = x / phi;
        y = y / phi;
        z = z / phi;
    }
    mat[0][0] = x * x * w + cos_phi;
    mat[0][1] = x * y * w + z * sin_phi;
    mat[0][2] = x * z * w - y * sin_phi;
    mat[1][0] = x * y * w - z * sin_phi;
    mat[1][1] = y * y * w + cos_phi;
    mat[1][2] = y * z * w + x * sin_phi;
    mat[2][0] = x * z * w + y * sin_phi;
    mat[2][1] = y * z * w - x * sin_phi;
    mat[2][2] = z * z * w + cos_phi;
}
}
// ---- dcmpf

namespace slaref {
void dcmpf(const FitCoeffs& model, LDBL& xz, LDBL& yz, LDBL& xs, LDBL& ys,  LDBL& perp, LDBL& orient) {
    const LDBL a = model.get_a();
    LDBL b = model.get_b();
    const LDBL c = model.get_c();
    const LDBL d = model.get_d();
    LDBL e = model.get_e();
    const LDBL f = model.get_f();
    const LDBL rb2e2 = std::sqrt(b * b + e * e);
    const LDBL rc2f2 = std::sqrt(c * c + f * f);
    LDBL xsc;
    if (b * f - c * e >= 0.0) {
        xsc = rb2e2;
    } else {
        b = -b;
        e = -e;
        xsc = -rb2e2;
    }
    const LDBL ysc = rc2f2;
    const LDBL p1 = (c != 0.0 || f != 0.0)? std::atan2(c, f): 0.0;
    const LDBL p2 = (e != 0.0 || b != 0.0)? std::atan2(e, b): 0.0;
    const LDBL p = drange(p1 + p2);
    const LDBL ws = c * rb2e2 - e * rc2f2;
    const LDBL wc = b * rc2f2 + f * rb2e2;
    const LDBL orientation = (ws != 0.0 || wc != 0.0)? std::atan2(ws, wc): 0.0;
    const LDBL hp = p / 2.0;
    const LDBL shp = std::sin(hp);
    const LDBL chp = std::cos(hp);
    const LDBL sor = std::sin(orientation);
    const LDBL cor = std::cos(orientation);
    const LDBL det = xsc * ysc * (chp + shp) * (chp - shp);
    LDBL X0, Y0;
    if (std::abs(det) > 0.0) {
        X0 = ysc * (a * (chp * cor - shp * sor) - d * (chp * sor + shp * cor)) / det;
        Y0 = xsc * (a * (chp * sor - shp * cor) + d * (chp * cor + shp * sor)) / det;
    } else {
        X0 = 0.0;
        Y0 = 0.0;
    }
    xz = X0;
    yz = Y0;
    xs = xsc;
    ys = ysc;
    perp = p;
    orient = orientation;
}
}
// ---- deuler

namespace slaref {
void deuler(const char* order, const LDBL phi, const LDBL theta, const LDBL psi, Matrix<LDBL> mat) {
    Matrix<LDBL> result;
    int i, j;
    for (i = 0; i < 3; i++) {
        for (j = 0; j < 3; j++) {
            result[i][j] = (i == j) ? 1.0 : 0.0;
        }
    }
    int l = std::strlen(order);
    if (l > 3) {
        l = 3;
    }
    for (int n = 0; n < l; n++) {
        Matrix<LDBL> rotation;
        for (i = 0; i < 3; i++) {
            for (j = 0; j < 3; j++) {
                rotation[i][j] = (i == j) ? 1.0 : 0.0;
            }
        }
        LDBL angle;
        switch (n) {
            case 0:
                angle = phi;
                break;
            case 1:
                angle = theta;
                break;
            default:
                angle = psi;
        }
        const LDBL sin_a = sin(angle);
        const LDBL cos_a = cos(angle);
        const char axis = order[n];
        switch (axis) {
            case 'X':
            case 'x':
            case '1':
                rotation[1][1] = cos_a;
                rotation[1][2] = sin_a;
                rotation[2][1] = -sin_a;
                rotation[2][2] = cos_a;
                break;
            case 'Y':
            case 'y':
            case '2':
                rotation[0][0] = cos_a;
                rotation[0][2] = -sin_a;
                rotation[2][0] = sin_a;
                rotation[2][2] = cos_a;
                break;
            case 'Z':
            case 'z':
            case '3':
                rotation[0][0] = cos_a;
                rotation[0][1] = sin_a;
                rotation[1][0] = -sin_a;
                rotation[1][1] = cos_a;
                break;
            default:
                l = 0;
        }
        Matrix<LDBL> combined;
        for (i = 0; i < 3; i++) {
            for (j = 0; j < 3; j++) {
                LDBL element = 0.0;
                for (int k = 0; k < 3; k++) {
                    element += rotation[i][k] * result[k][j];
                }
                combined[i][j] = element;
            }
        }
        for (i = 0; i < 3; i++) {
            for (j = 0; j < 3; j++) {
                result[i][j] = combined[i][j];
            }
        }
    }
    for (i = 0; i < 3; i++) {
        for (j = 0; j < 3; j++) {
            mat[i][j] = result[i][j];
        }
    }
}
}
// ---- djcl

namespace slaref {
bool djcl(LDBL mjd, Date& date) {
    if (mjd <= -2395520.0 || mjd >= 1.0e9) {
        return true;
    } else {
        LDBL f = std::fmod(mjd, 1.0);
        if (f < 0.0) {
            f += 1.0;
        }
        const LDBL d = f_anint(mjd - f);
        const long long jd = f_nint(d) + 2400001LL;
        const long long n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
        date.d_year = (int) (n4 / 1461 - 4712);
        date.d_month = ((nd10 / 306 + 2) % 12) + 1;
        date.d_day = (nd10 % 306) / 10 + 1;
        date.d_fraction = f;
        return false;
    }
}
}
// ---- dmxv

namespace slaref {
void dmxv(const Matrix<LDBL> mat, const Vector<LDBL> va, Vector<LDBL> vb) {
    Vector<LDBL> result;
    for (int j = 0; j < 3; j++) {
        LDBL element = 0.0;
        for (int i = 0; i < 3; i++) {
            element += mat[j][i] * va[i];
        }
        result[j] = element;
    }
    for (int k = 0; k < 3; k++) {
        vb[k] = result[k];
    }
}
}
// ---- drange

namespace slaref {
LDBL drange(LDBL angle) {
    constexpr LDBL PI = 3.141592653589793238462643;
    constexpr LDBL PI2 = 6.283185307179586476925287;
    LDBL result = std::fmod(angle, PI2);
    if (std::fabs(result) >= PI) {
        result -= f_sign(PI2, angle);
    }
    return result;
}
}
// ---- dsep

namespace slaref {
LDBL dsep(const Spherical<LDBL>& sa, const Spherical<LDBL>& sb) {
    Vector<LDBL> va, vb;
    dcs2c(sa, va);
    dcs2c(sb, vb);
    return dsepv(va, vb);
}
}
// ---- dtf2r

namespace slaref {
T2DStatus dtf2r(int hours, int minutes, LDBL seconds, LDBL& radians) {
    T2DStatus result = dtf2d(hours, minutes, seconds, radians);
    constexpr LDBL TURNS2RADIANS = 6.283185307179586476925287;
    radians *= TURNS2RADIANS;
    return result;
}
}
// ---- dtpv2c

namespace slaref {
int dtpv2c(LDBL xi, LDBL eta, const Vector<LDBL> point, Vector<LDBL> solution1, Vector<LDBL> solution2) {
    const LDBL x = point[0];
    const LDBL y = point[1];
    const LDBL z = point[2];
    const LDBL rxy2 = x * x + y * y;
    const LDBL xi2 = xi * xi;
    const LDBL eta2p1 = eta * eta + 1.0;
    const LDBL sdf = z * std::sqrt(xi2 + eta2p1);
    const LDBL r2 = rxy2 * eta2p1 - z * z * xi2;
    if (r2 > 0.0) {
        LDBL r = std::sqrt(r2);
        LDBL c = (sdf * eta + r) / (eta2p1 * std::sqrt(rxy2 * (r2 + xi2)));
        solution1[0] = c * (x * r + y * xi);
        solution1[1] = c * (y * r - x * xi);
        solution1[2] = (sdf - eta * r) / eta2p1;
        r = -r;
        c = (sdf * eta + r) / (eta2p1 * std::sqrt(rxy2 * (r2 + xi2)));
        solution2[0] = c * (x * r + y * xi);
        solution2[1] = c * (y * r - x * xi);
        solution2[2] = (sdf - eta * r) / eta2p1;
        if (std::abs(sdf) < 1.0) {
            return 1;
        } else {
            return 2;
        }
    } else {
        return 0;
    }
}
}
// ---- dvn

namespace slaref {
LDBL dvn(const Vector<LDBL> vec, Vector<LDBL> nvec) {
    LDBL modulus = 0.0;
    for (int i = 0; i < 3; i++) {
        LDBL tmp = vec[i];
        modulus += tmp * tmp;
    }
    modulus = std::sqrt(modulus);
    LDBL result = modulus;
    if (modulus <= 0.0) {
        modulus = 1.0;
    }
    for (int i = 0; i < 3; i++) {
        nvec[i] = vec[i] / modulus;
    }
    return result;
}
}
// ---- ecleq

namespace slaref {
void ecleq(const Spherical<LDBL>& ecliptic, LDBL date, Spherical<LDBL>& equatorial) {
    Vector<LDBL> v1;
    dcs2c(ecliptic, v1);
    Matrix<LDBL> mat;
    ecmat(date, mat);
    Vector<LDBL> v2;
    dimxv(mat, v1, v2);
    prec(2000.0, epj(date), mat);
    dimxv(mat, v2, v1);
    dcc2s(v1, equatorial);
    equatorial.set_ra(dranrm(equatorial.get_ra()));
    equatorial.set_dec(drange(equatorial.get_dec()));
}
}
// ---- epb

namespace slaref {
LDBL epb(LDBL mjd) {
    return 1900.0 + (mjd - 15019.81352) / 365.242198781;
}
}
// ---- epj2d

namespace slaref {
LDBL epj2d(LDBL je) {
    return 51544.5 + (je - 2000.0) * 365.25;
}
}
// ---- etrms

namespace slaref {
void etrms(LDBL be, Vector<LDBL> et) {
    constexpr LDBL ARCSECS_2_RADIANS = 0.484813681109535994e-5;
    const LDBL jc = (be - 1950.0) * 1.00002135903e-2;
    const LDBL e = 0.01673011 - (0.00004193 + 0.000000126 * jc) * jc;
    const LDBL e0 = (84404.836 - (46.8495 + (0.00319 + 0.00181 * jc) * jc) * jc) * ARCSECS_2_RADIANS;
    const LDBL pl = (1015489.951 + (6190.67 + (1.65 + 0.012 * jc) * jc) * jc) * ARCSECS_2_RADIANS;
    const LDBL ek = e * 20.49552 * ARCSECS_2_RADIANS;
    const LDBL cp = std::cos(pl);
    et[0] = ek * std::sin(pl);
    et[1] = -ek * cp * std::cos(e0);
    et[2] = -ek * cp * std::sin(e0);
}
}
// ---- galsup

namespace slaref {
void galsup(const Spherical<LDBL>& galactic, Spherical<LDBL>& supergalactic) {
    static const Matrix<LDBL> mat = {
        {-0.735742574804, +0.677261296414, +0.000000000000},
        {-0.074553778365, -0.080991471307, +0.993922590400},
        {+0.673145302109, +0.731271165817, +0.110081262225}
    };
    Vector<LDBL> v1;
    dcs2c(galactic, v1);
    Vector<LDBL> v2;
    dmxv(mat, v1, v2);
    dcc2s(v2, supergalactic);
    supergalactic.set_longitude(dranrm(supergalactic.get_longitude()));
    supergalactic.set_latitude(drange(supergalactic.get_latitude()));
}
}
// ---- gmsta

namespace slaref {
LDBL gmsta(LDBL date, LDBL fdate) {
    constexpr LDBL SECONDS_2_RADIANS = 7.272205216643039903848712e-5;
    LDBL d1, d2;
    if (date < fdate) {
        d1 = date;
        d2 = fdate;
    } else {
        d1 = fdate;
        d2 = date;
    }
    const LDBL jc = (d1 + (d2 - 51544.5)) / 36525.0;
    return dranrm(SECONDS_2_RADIANS * (24110.54841 + (8640184.812866 +
        (0.093104 - 6.2e-6 * jc) * jc) * jc + 86400.0 * (std::fmod(d1, 1.0) + std::fmod(d2, 1.0))));
}
}
// ---- m2av

namespace slaref {
void m2av(const Matrix<LDBL> mat, Vector<LDBL> axis) {
    LDBL x = mat[1][2] - mat[2][1];
    LDBL y = mat[2][0] - mat[0][2];
    LDBL z = mat[0][1] - mat[1][0];
    LDBL s2 = std::sqrt(x * x + y * y + z * z);
    if (s2 != 0.0f) {
        LDBL c2 = mat[0][0] + mat[1][1] + mat[2][2] - 1.0f;
        LDBL phi = std::atan2(s2 / 2.0f, c2 / 2.0f);
        LDBL f = phi / s2;
        axis[0] = x * f;
        axis[1] = y * f;
        axis[2] = z * f;
    } else {
        axis[0] = 0.0f;
        axis[1] = 0.0f;
        axis[2] = 0.0f;
    }
}
}
// ---- pa

namespace slaref {
LDBL pa(const Spherical<LDBL>& dir, LDBL phi) {
    const LDBL cp = std::cos(phi);
    const LDBL sqsz = cp * std::sin(dir.get_ha());
    LDBL cqsz = std::sin(phi) * std::cos(dir.get_dec()) - cp * std::sin(dir.get_dec()) * std::cos(dir.get_ha());
    if (sqsz == 0.0 && cqsz == 0.0) {
        cqsz = 1.0;
    }
    return std::atan2(sqsz, cqsz);
}
}
// ---- pdq2h

namespace slaref {
void pdq2h(LDBL lat, LDBL dec, LDBL pa, LDBL& ha1, bool& ha1_valid, LDBL& ha2, bool& ha2_valid) {
    constexpr LDBL PI = 3.141592653589793238462643;
    constexpr LDBL DEG_90 = PI / 2.0;
    constexpr LDBL TINY = 1.0e-12;
    LDBL pn = drange(lat);
    if (std::fabs(std::fabs(pn) - DEG_90) < TINY) {
        pn -= f_sign(TINY, pn);
    } else if (std::fabs(pn) < TINY) {
        pn = TINY;
    }
    LDBL qn = drange(pa);
    if (std::fabs(std::fabs(qn) - PI) < TINY) {
        qn -= f_sign(TINY, qn);
    } else if (std::fabs(qn) < TINY) {
        qn = TINY;
    }
    LDBL dn = drange(dec);
    if (std::fabs(std::fabs(dec) - std::fabs(lat)) < TINY ||
        std::fabs(std::fabs(dec) - DEG_90) < TINY) {
        dn -= f_sign(TINY, dn);
    }
    const LDBL sin_qn = std::sin(qn);
    const LDBL cos_qn = std::cos(qn);
    const LDBL sinqn_sindn = sin_qn * std::sin(dn);
    const LDBL qt = std::sin(pn) * sin_qn * std::cos(dn);
    const LDBL qb = std::cos(pn) * std::sqrt(cos_qn * cos_qn + sinqn_sindn * sinqn_sindn);
    if (std::fabs(qt) <= qb) {
        const LDBL hpt = std::asin(qt / qb);
        const LDBL t = std::atan2(sinqn_sindn, cos_qn);
        ha1 = drange(hpt - t);
        ha2 = drange(-hpt - (t + PI));
        ha1_valid = (std::sin(pn) * std::cos(dn) - std::cos(pn) * std::sin(dn) * std::cos(ha1)) * cos_qn + std::cos(pn) * std::sin(ha1) * sin_qn >= LDBL(0);
        ha2_valid = (std::sin(pn) * std::cos(dn) - std::cos(pn) * std::sin(dn) * std::cos(ha2)) * cos_qn + std::cos(pn) * std::sin(ha2) * sin_qn >= LDBL(0);
    } else {
        ha1_valid = ha2_valid = false;
    }
}
}
// ---- prebn

namespace slaref {
void prebn(LDBL be0, LDBL be1, Matrix<LDBL> mat) {
    constexpr LDBL ARCSECS_2_RADIANS = 0.484813681109535994e-5;
    const LDBL bigt = (be0 - 1850.0) / 100.0;
    const LDBL t = (be1 - be0) / 100.0;
    const LDBL tas2r = t * ARCSECS_2_RADIANS;
    const LDBL w = 2303.5548 + (1.39720 + 0.000059 * bigt) * bigt;
    const LDBL zeta = (w + (0.30242 - 0.000269 * bigt + 0.017996 * t) * t) * tas2r;
    const LDBL z = (w + (1.09478 + 0.000387 * bigt + 0.018324 * t) * t) * tas2r;
    const LDBL theta = (2005.1125 + (-0.85294 - 0.000365 * bigt) * bigt +
        (-0.42647 - 0.000365 * bigt - 0.041802 * t) * t) * tas2r;
    deuler("ZYZ", -zeta, theta, -z, mat);
}
}
// ---- prenut

namespace slaref {
void prenut(LDBL je, LDBL mjd, Matrix<LDBL> mat) {
    Matrix<LDBL> pmat, nmat;
    prec(je, epj(mjd), pmat);
    nut(mjd, nmat);
    dmxm(nmat, pmat, mat);
}
}
// ---- ranorm

namespace slaref {
LDBL ranorm(LDBL angle) {
    constexpr LDBL A2PI = 6.283185307179586476925287f;
    LDBL result = std::fmod(angle, A2PI);
    if (result < 0.0f) {
        result += A2PI;
    }
    return result;
}
}
// ---- refv

namespace slaref {
void refv(const Vector<LDBL> vec, LDBL refa, LDBL refb, Vector<LDBL> rvec) {
    const LDBL x = vec[0];
    const LDBL y = vec[1];
    const LDBL z1 = vec[2];
    const LDBL z = r_max(z1, 0.05);
    const LDBL z_squared = z * z;
    const LDBL r_squared = x * x + y * y;
    const LDBL r = std::sqrt(r_squared);
    const LDBL wb = refb * r_squared / z_squared;
    const LDBL wt = (refa + wb) / (1.0 + (refa + 3.0 * wb) * (z_squared + r_squared) / z_squared);
    const LDBL d = wt * r / z;
    const LDBL cd = 1.0 - d * d / 2.0;
    const LDBL f = cd * (1.0 - wt);
    rvec[0] = x * f;
    rvec[1] = y * f;
    rvec[2] = cd * (z + d * r) + (z1 - z);
}
}
// ---- rvlg

namespace slaref {
LDBL rvlg(const Spherical<LDBL>& pos) {
    static const Vector<LDBL> va = {-148.23284, +133.44888, -224.09467};
    Vector<LDBL> vb;
    cs2c(pos, vb);
    return vdv(va, vb);
}
}
// ---- sep

namespace slaref {
LDBL sep(const Spherical<LDBL>& sa, const Spherical<LDBL>& sb) {
    const Spherical<LDBL> da = {sa.get_ra(), sa.get_dec()};
    const Spherical<LDBL> db = {sb.get_ra(), sb.get_dec()};
    return (LDBL) dsep(da, db);
}
}
// ---- subet

namespace slaref {
void subet(const Spherical<LDBL>& edir, LDBL be, Spherical<LDBL>& dir) {
    Vector<LDBL> et;
    etrms(be, et);
    Vector<LDBL> v;
    dcs2c(edir, v);
    const LDBL f = 1.0 + dvdv(v, et);
    for (int i = 0; i < 3; i++) {
        v[i] = v[i] * f - et[i];
    }
    dcc2s(v, dir);
    dir.set_ra(dranrm(dir.get_ra()));
}
}
// ---- svdsol

namespace slaref {
void svdsol(int m, int n, int mp, int np, const LDBL* b, const LDBL* u, const LDBL* w, const LDBL* v,
    LDBL* ws, LDBL* x) {
    assert(m <= mp && n <= np && b && u && w && v && ws && x);
    auto u_elem = [u, m, n, np](int row, int col) -> const LDBL& {
        assert(row < m && col < n);
        return u[row * np + col];
    };
    auto v_elem = [v, np](int row, int col) -> const LDBL& {
        assert(row < np && col < np);
        return v[row * np + col];
    };
    for (int j = 0; j < n; j++) {
        LDBL s1 = 0.0;
        if (w[j] != 0.0) {
            for (int i = 0; i < m; i++) {
                s1 += u_elem(i, j) * b[i];
            }
            s1 = s1 / w[j];
        }
        ws[j] = s1;
    }
    for (int k = 0; k < n; k++) {
        LDBL s2 = 0.0;
        for (int l = 0; l < n; l++) {
            s2 += v_elem(k, l) * ws[l];
        }
        x[k] = s2;
    }
}
}
// ---- tpv2c

namespace slaref {
int tpv2c(LDBL xi, LDBL eta, const Vector<LDBL> point, Vector<LDBL> solution1, Vector<LDBL> solution2) {
    const LDBL x = point[0];
    const LDBL y = point[1];
    const LDBL z = point[2];
    const LDBL rxy2 = x * x + y * y;
    const LDBL xi2 = xi * xi;
    const LDBL eta2p1 = eta * eta + 1.0f;
    const LDBL sdf = z * std::sqrt(xi2 + eta2p1);
    const LDBL r2 = rxy2 * eta2p1 - z * z * xi2;
    if (r2 > 0.0f) {
        LDBL r = std::sqrt(r2);
        LDBL c = (sdf * eta + r) / (eta2p1 * std::sqrt(rxy2 * (r2 + xi2)));
        solution1[0] = c * (x * r + y * xi);
        solution1[1] = c * (y * r - x * xi);
        solution1[2] = (sdf - eta * r) / eta2p1;
        r = -r;
        c = (sdf * eta + r) / (eta2p1 * std::sqrt(rxy2 * (r2 + xi2)));
        solution2[0] = c * (x * r + y * xi);
        solution2[1] = c * (y * r - x * xi);
        solution2[2] = (sdf - eta * r) / eta2p1;
        if (std::abs(sdf) < 1.0f) {
            return 1;
        } else {
            return 2;
        }
    } else {
        return 0;
    }
}
}
// ---- vn

namespace slaref {
LDBL vn(const Vector<LDBL> vec, Vector<LDBL> nvec) {
    LDBL modulus = 0.0f;
    for (int i = 0; i < 3; i++) {
        LDBL tmp = vec[i];
        modulus += tmp * tmp;
    }
    modulus = std::sqrt(modulus);
    LDBL result = modulus;
    if (modulus <= 0.0f) {
        modulus = 1.0f;
    }
    for (int i = 0; i < 3; i++) {
        nvec[i] = vec[i] / modulus;
    }
    return result;
}
}
