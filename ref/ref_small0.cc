// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.
#include "slaref.h"
#include "slaref_f77.h"
#include <cmath>
#include <cstring>
#include <cstdint>
#include <algorithm>
// ---- addet

namespace slaref {
void addet(const Spherical<LDBL>& dir, LDBL be, Spherical<LDBL>& edir) {
    Vector<LDBL> et;
    etrms(be, et);
    Vector<LDBL> v;
    dcs2c(dir, v);
    for (int i = 0; i < 3; i++) {
        v[i] += et[i];
    }
    dcc2s(v,edir);
    edir.set_ra(dranrm(edir.get_ra()));
}
}
// ---- av2m

namespace slaref {
void av2m(const Vector<LDBL> vec, Matrix<LDBL> mat) {
    LDBL x = vec[0];
    LDBL y = vec[1];
    LDBL z = vec[2];
    const LDBL phi = std::sqrt(x * x + y * y + z * z);
    const LDBL sin_phi = std::sin(phi);
    const LDBL cos_phi = std::cos(phi);
    const LDBL w = 1.0f - cos_phi;
    if (phi != 0.0f) {
        x = x / phi;
        y = y / phi;
        z = z / phi;
    }
    mat[0][0] = x * x * w + cos_phi;
    mat[0][1] = x * y * w + z * sin_phi;
    mat[0][2] = x * z * w - y * sin_phi;
    mat[1][0] = x * y * w - z * sin_phi;
    mat[1][1] = y * y * w + cos_phi;
    mat[1][2] = y * z * w + x * sin_phi;
    mat[2][0] = x * z * w + y * sin_phi;
    mat[2][1] = y * z * w - x * sin_phi;
    mat[2][2] = z * z * w + cos_phi;
}
}
// ---- calyd

namespace slaref {
G2JStatus calyd(int year, int month, int day, int& jyear, int& jday) {
    return clyd(process_year_defaults(year), month, day, jyear, jday);
}
}
// ---- cldj

namespace slaref {
G2JStatus cldj(int year, int month, int day, LDBL& mjd) {
    if (year >= -4699 ) {
        if (month >= 1 && month <= 12) {
            mjd = LDBL((1461LL * (year - (12 - month) / 10 + 4712LL)) / 4
                + (306 * ((month + 9) % 12) + 5) / 10
                - (3LL * ((year - (12 - month) / 10 + 4900LL) / 100)) / 4
                + day - 2399904);
            return validate_gregorian_day(year, month, day);
        } else {
            return G2J_BAD_MONTH;
        }
    } else {
        return G2J_BAD_YEAR;
    }
}
}
// ---- cr2tf

namespace slaref {
void cr2tf(int ndp, LDBL angle, ConversionResult& result) {
    constexpr LDBL TURNS2RADIANS = 6.283185307179586476925287f;
    cd2tf(ndp, angle / TURNS2RADIANS, result);
}
}
// ---- ctf2r

namespace slaref {
T2DStatus ctf2r(int hours, int minutes, LDBL seconds, LDBL & radians) {
    T2DStatus result = ctf2d(hours, minutes, seconds, radians);
    constexpr LDBL TURNS2RADIANS = 6.283185307179586476925287f;
    radians *= TURNS2RADIANS;
    return result;
}
}
// ---- dbear

namespace slaref {
LDBL dbear(const Spherical<LDBL>& da, const Spherical<LDBL>& db) {
    const LDBL cos_b_dec = std::cos(db.get_dec());
    const LDBL d_ra = db.get_ra() - da.get_ra();
    const LDBL x = std::sin(db.get_dec()) * std::cos(da.get_dec()) - cos_b_dec * std::sin(da.get_dec()) * std::cos(d_ra);
    const LDBL y = std::sin(d_ra) * cos_b_dec;
    return (x != 0.0 || y != 0.0)? std::atan2(y, x): 0.0;
}
}
// ---- dcs2c

namespace slaref {
void dcs2c(const Spherical<LDBL>& spherical, Vector<LDBL> cartesian) {
    const LDBL cos_b = std::cos(spherical.get_latitude());
    cartesian[0] = std::cos(spherical.get_longitude()) * cos_b;
    cartesian[1] = std::sin(spherical.get_longitude()) * cos_b;
    cartesian[2] = std::sin(spherical.get_latitude());
}
}
// ---- dh2e

namespace slaref {
void dh2e(LDBL azimuth, LDBL elevation, LDBL phi, Spherical<LDBL>& dir) {
    const LDBL sin_az = std::sin(azimuth);
    const LDBL cos_az = std::cos(azimuth);
    const LDBL sin_el = std::sin(elevation);
    const LDBL cos_el = std::cos(elevation);
    const LDBL sin_phi = std::sin(phi);
    const LDBL cos_phi = std::cos(phi);
    const LDBL x = -cos_az * cos_el * sin_phi + sin_el * cos_phi;
    const LDBL y = -sin_az * cos_el;
    const LDBL z = cos_az * cos_el * cos_phi + sin_el * sin_phi;
    const LDBL r = std::sqrt(x * x + y * y);
    dir.set_ha((r == 0.0) ? 0.0 : std::atan2(y, x));
    dir.set_dec(std::atan2(z, r));
}
}
// ---- dm2av

namespace slaref {
void dm2av(const Matrix<LDBL> mat, Vector<LDBL> axis) {
    LDBL x = mat[1][2] - mat[2][1];
    LDBL y = mat[2][0] - mat[0][2];
    LDBL z = mat[0][1] - mat[1][0];
    LDBL s2 = std::sqrt(x * x + y * y + z * z);
    if (s2 != 0.0) {
        LDBL c2 = mat[0][0] + mat[1][1] + mat[2][2] - 1.0;
        LDBL phi = std::atan2(s2 / 2.0, c2 / 2.0);
        LDBL f = phi / s2;
        axis[0] = x * f;
        axis[1] = y * f;
        axis[2] = z * f;
    } else {
        axis[0] = 0.0;
        axis[1] = 0.0;
        axis[2] = 0.0;
    }
}
}
// ---- dpav

namespace slaref {
LDBL dpav(const Vector<LDBL> va, const Vector<LDBL> vb) {
    LDBL x1 = va[0];
    LDBL y1 = va[1];
    LDBL z1 = va[2];
    const LDBL length = std::sqrt(x1 * x1 + y1 * y1 + z1 * z1);
    if (length != 0.0) {
        x1 = x1 / length;
        y1 = y1 / length;
        z1 = z1 / length;
    }
    const LDBL x2 = vb[0];
    const LDBL y2 = vb[1];
    const LDBL z2 = vb[2];
    const LDBL sq = y2 * x1 - x2 * y1;
    LDBL cq = z2 * (x1 * x1 + y1 * y1) - z1 * (x2 * x1 + y2 * y1);
    if (sq == 0.0 && cq == 0.0) {
        cq = 1.0;
    }
    return std::atan2(sq, cq);
}
}
// ---- dranrm

namespace slaref {
LDBL dranrm(LDBL angle) {
    constexpr LDBL A2PI = 6.283185307179586476925287;
    LDBL result = std::fmod(angle, A2PI);
    if (result < 0.0) {
        result += A2PI;
    }
    return result;
}
}
// ---- dsepv

namespace slaref {
LDBL dsepv(const Vector<LDBL> va, const Vector<LDBL> vb) {
    Vector<LDBL> v1_x_v2, wv;
    dvxv(va, vb, v1_x_v2);
    const LDBL s = dvn(v1_x_v2, wv);
    const LDBL c = dvdv(va, vb);
    return s != 0.0 || c != 0.0? std::atan2(s,c): 0.0;
}
}
// ---- dtp2s

namespace slaref {
void dtp2s(LDBL xi, LDBL eta, const Spherical<LDBL>& tangent, Spherical<LDBL>& point) {
    const LDBL sin_tdec = std::sin(tangent.get_dec());
    const LDBL cos_tdec = std::cos(tangent.get_dec());
    const LDBL denom = cos_tdec - eta * sin_tdec;
    point.set_ra(dranrm(std::atan2(xi, denom) + tangent.get_ra()));
    point.set_dec(std::atan2(sin_tdec + eta * cos_tdec, std::sqrt(xi * xi + denom * denom)));
}
}
// ---- dtt

namespace slaref {
LDBL dtt(LDBL utc) {
    return 32.184 + dat(utc);
}
}
// ---- dvxv

namespace slaref {
void dvxv(const Vector<LDBL> va, const Vector<LDBL> vb, Vector<LDBL> vc) {
    Vector<LDBL> tmp;
    tmp[0]= va[1] * vb[2] - va[2] * vb[1];
    tmp[1]= va[2] * vb[0] - va[0] * vb[2];
    tmp[2]= va[0] * vb[1] - va[1] * vb[0];
    for (int i = 0; i < 3; i++) {
        vc[i] = tmp[i];
    }
}
}
// ---- ecmat

namespace slaref {
void ecmat(LDBL date, Matrix<LDBL> mat) {
    constexpr LDBL ARCSECONDS2RADIANS = 0.484813681109535994e-5;
    const LDBL t = (date - 51544.5) / 36525.0;
    const LDBL phi = ARCSECONDS2RADIANS * (84381.448 + (-46.8150 + (-0.00059 + 0.001813 * t ) * t) * t);
    deuler("X", phi, 0.0, 0.0, mat);
}
}
// ---- epb2d

namespace slaref {
LDBL epb2d(LDBL be) {
    return 15019.81352 + (be - 1900.0) * 365.242198781;
}
}
// ---- eqecl

namespace slaref {
void eqecl(const Spherical<LDBL>& dir, LDBL date, Spherical<LDBL>& edir) {
    Matrix<LDBL> mat;
    Vector<LDBL> v1, v2;
    dcs2c(dir, v1);
    prec(2000.0, epj(date), mat);
    dmxv(mat, v1, v2);
    ecmat(date, mat);
    dmxv(mat, v2, v1);
    dcc2s(v1, edir);
    edir.set_longitude(dranrm(edir.get_longitude()));
    edir.set_latitude(drange(edir.get_latitude()));
}
}
// ---- euler

namespace slaref {
void euler(const char* order, const LDBL phi, const LDBL theta, const LDBL psi, Matrix<LDBL> mat) {
    Matrix<LDBL> result;
    deuler(order, LDBL(phi), LDBL(theta), LDBL(psi), result);
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            mat[i][j] = LDBL(result[i][j]);
        }
    }
}
}
// ---- ge50

namespace slaref {
void ge50(const Spherical<LDBL>& gal, Spherical<LDBL>& fk4) {
    static const Matrix<LDBL> mat = {
        {-0.066988739415, -0.872755765852, -0.483538914632},
        {+0.492728466075, -0.450346958020, +0.744584633283},
        {-0.867600811151, -0.188374601723, +0.460199784784},
    };
    Vector<LDBL> v1;
    dcs2c(gal, v1);
    Vector<LDBL> v2;
    dimxv(mat, v1, v2);
    Spherical<LDBL> loc;
    dcc2s(v2, loc);
    addet(loc, 1950.0, fk4);
    fk4.set_ra(dranrm(fk4.get_ra()));
    fk4.set_dec(drange(fk4.get_dec()));
}
}
// ---- h2e

namespace slaref {
void h2e(LDBL azimuth, LDBL elevation, LDBL phi, Spherical<LDBL>& dir) {
    const LDBL sin_az = std::sin(azimuth);
    const LDBL cos_az = std::cos(azimuth);
    const LDBL sin_el = std::sin(elevation);
    const LDBL cos_el = std::cos(elevation);
    const LDBL sin_phi = std::sin(phi);
    const LDBL cos_phi = std::cos(phi);
    const LDBL x = -cos_az * cos_el * sin_phi + sin_el * cos_phi;
    const LDBL y = -sin_az * cos_el;
    const LDBL z = cos_az * cos_el * cos_phi + sin_el * sin_phi;
    const LDBL r = std::sqrt(x * x + y * y);
    dir.set_ha((r == 0.0)? 0.0f: LDBL(std::atan2(y, x)));
    dir.set_dec((LDBL) std::atan2(z, r));
}
}
// ---- mxm

namespace slaref {
void mxm(const Matrix<LDBL> ma, const Matrix<LDBL> mb, Matrix<LDBL> mc) {
    Matrix <LDBL> result;
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            LDBL element = 0.0f;
            for (int k = 0; k < 3; k++) {
                element += ma[i][k] * mb[k][j];
            }
            result[i][j] = element;
        }
    }
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            mc[i][j] = result[i][j];
        }
    }
}
}
// ---- pav

namespace slaref {
LDBL pav(const Vector<LDBL> va, const Vector<LDBL> vb) {
    Vector<LDBL> dv1, dv2;
    for (int i = 0; i < 3; i++) {
        dv1[i] = va[i];
        dv2[i] = vb[i];
    }
    return LDBL(dpav(dv1, dv2));
}
}
// ---- permut

namespace slaref {
CPStatus permut(int n, int* state, int* order) {
    if (n < 1) {
        return CPS_INVALID_ARG;
    }
    if (state[0] < 0) {
        state[0] = -1;
        for (int i = 1; i < n; i++) {
            state[i] = 0;
      }
    }
    state[0]++;
    CPStatus status = CPS_OK;
    for (int j = 1; j <= n; j++) {
        if (state[j - 1] >= j) {
            state[j - 1] = 0;
            if (j >= n) {
                status = CPS_NO_MORE;
            } else {
                state[j]++;
            }
        }
    }
    for (int k = 0; k < n; k++) {
        order[k] = 1;
    }
    for (int l = n; l >= 2; l--) {
        int slot = 0;
        for (int skip = 0; skip <= state[l - 1]; skip++) {
            slot++;
            while (order[slot - 1] > 1) {
                slot++;
            }
        }
        order[slot - 1] = l;
    }
    return status;
}
}
// ---- prec

namespace slaref {
void prec(LDBL ep0, LDBL ep1, Matrix<LDBL> mat) {
    constexpr LDBL ARCSECS_2_RADIANS = 0.484813681109535994e-5;
    const LDBL t0 = (ep0 - 2000.0) / 100.0;
    const LDBL t = (ep1 - ep0) / 100.0;
    const LDBL tas2R = t * ARCSECS_2_RADIANS;
    const LDBL w = 2306.2181 + (1.39656 - 0.000139 * t0) * t0;
    const LDBL zeta = (w + ((0.30188 - 0.000344 * t0) + 0.017998 * t) * t) * tas2R;
    const LDBL z = (w + ((1.09468 + 0.000066 * t0) + 0.018203 * t) * t) * tas2R;
    const LDBL theta = ((2004.3109 + (-0.85330 - 0.000217 * t0) * t0) + ((-0.42665 - 0.000217 * t0) -
        0.041833 * t) * t) * tas2R;
    deuler("ZYZ", -zeta, theta, -z, mat);
}
}
// ---- pvobs

namespace slaref {
void pvobs(LDBL latitude, LDBL height, LDBL lst, VectorPV<LDBL>& pv) {
    constexpr LDBL SIDERIAL_RATE = 7.292115855306589e-5;
    LDBL axis_dist, equator_dist;
    geoc(latitude, height, axis_dist, equator_dist);
    const LDBL sin_lst = std::sin(lst);
    const LDBL cos_lst = std::cos(lst);
    const LDBL velocity = SIDERIAL_RATE * axis_dist;
    pv.set_x(axis_dist * cos_lst);
    pv.set_y(axis_dist * sin_lst);
    pv.set_z(equator_dist);
    pv.set_dx(-velocity * sin_lst);
    pv.set_dy(velocity * cos_lst);
    pv.set_dz(0.0);
}
}
// ---- refco

namespace slaref {
void refco(LDBL oh, LDBL atk, LDBL apm, LDBL arh, LDBL wl, LDBL phi, LDBL tlr, LDBL eps,
    LDBL& refa, LDBL& refb) {
    constexpr LDBL ATAN_1 = 0.7853981633974483;
    constexpr LDBL ATAN_4 = 1.325817663668033;
    const LDBL r1 = refro(ATAN_1, oh, atk, apm, arh, wl, phi, tlr, eps);
    const LDBL r2 = refro(ATAN_4, oh, atk, apm, arh, wl, phi, tlr, eps);
    refa = (64.0 * r1 - r2) / 60.0;
    refb = (r2 - 4.0 * r1) / 60.0;
}
}
// ---- refz

namespace slaref {
LDBL refz(LDBL zu, LDBL refa, LDBL refb) {
    constexpr LDBL RADIANS2DEGREES = 57.29577951308232;
    constexpr LDBL DEG93_IN_RADIANS = 93.0;
    constexpr LDBL C1 = +0.55445;
    constexpr LDBL C2 = -0.01133;
    constexpr LDBL C3 = +0.00202;
    constexpr LDBL C4 = +0.28385;
    constexpr LDBL C5 = +0.02390;
    constexpr LDBL ZD_THRESHOLD83 = 83.0 / RADIANS2DEGREES;
    constexpr LDBL REF83 = (C1 + C2 * 7.0 + C3 * 49.0) / (1.0 + C4 * 7.0 + C5 * 49.0);
    const LDBL zu1 = r_min(zu, ZD_THRESHOLD83);
    LDBL zl = zu1;
    LDBL sine = std::sin(zl);
    LDBL cosine = std::cos(zl);
    LDBL tangent = sine / cosine;
    LDBL tangent_sqr = tangent * tangent;
    LDBL tangent_cube = tangent * tangent_sqr;
    zl = zl - (refa * tangent + refb * tangent_cube) / (1.0 + (refa + 3.0 * refb * tangent_sqr) / (cosine * cosine));
    sine = std::sin(zl);
    cosine = std::cos(zl);
    tangent = sine / cosine;
    tangent_sqr = tangent * tangent;
    tangent_cube = tangent * tangent_sqr;
    LDBL ref = zu1 - zl + (zl - zu1 + refa * tangent + refb * tangent_cube) /
        (1.0 + (refa + 3.0 * refb * tangent_sqr) / (cosine * cosine));
    if (zu > zu1) {
        const LDBL E = 90.0 - r_min(DEG93_IN_RADIANS, zu * RADIANS2DEGREES);
        const LDBL E2 = E * E;
        ref = (ref / REF83) * (C1 + C2 * E + C3 * E2) / (1.0 + C4 * E + C5 * E2);
    }
    return zu - ref;
}
}
// ---- rvlsrd

namespace slaref {
LDBL rvlsrd(const Spherical<LDBL>& pos) {
    static const Vector<LDBL> va = {+0.63823, +14.58542, -7.80116};
    Vector<LDBL> vb;
    cs2c(pos, vb);
    return vdv(va, vb);
}
}
// ---- sepv

namespace slaref {
LDBL sepv(const Vector<LDBL> va, const Vector<LDBL> vb) {
    const Vector<LDBL> dv1 = {va[0], va[1], va[2]};
    const Vector<LDBL> dv2 = {vb[0], vb[1], vb[2]};
    return (LDBL) dsepv(dv1, dv2);
}
}
// ---- supgal

namespace slaref {
void supgal(const Spherical<LDBL>& sgal, Spherical<LDBL>& gal) {
    static const Matrix<LDBL> mat = {
        {-0.735742574804, +0.677261296414, +0.000000000000},
        {-0.074553778365, -0.080991471307, +0.993922590400},
        {+0.673145302109, +0.731271165817, +0.110081262225}
    };
    Vector<LDBL> v1;
    dcs2c(sgal, v1);
    Vector<LDBL> v2;
    dimxv(mat, v1, v2);
    dcc2s(v2, gal);
    gal.set_longitude(dranrm(gal.get_longitude()));
    gal.set_latitude(drange(gal.get_latitude()));
}
}
// ---- tp2s

namespace slaref {
void tp2s(LDBL xi, LDBL eta, const Spherical<LDBL>& tangent, Spherical<LDBL>& point) {
    const LDBL sin_tdec = std::sin(tangent.get_dec());
    const LDBL cos_tdec = std::cos(tangent.get_dec());
    const LDBL denom = cos_tdec - eta * sin_tdec;
    point.set_ra(ranorm(std::atan2(xi, denom) + tangent.get_ra()));
    point.set_dec(std::atan2(sin_tdec + eta * cos_tdec, std::sqrt(xi * xi + denom * denom)));
}
}
// ---- unpcd

namespace slaref {
void unpcd(LDBL disco, LDBL& x, LDBL& y) {
    constexpr LDBL ONE_THIRD = 1.0 / 3.0;
    constexpr LDBL PI2 = 6.283185307179586476925286766559;
    const LDBL rp = std::sqrt(x * x + y * y);
    if (rp != 0.0 && disco != 0.0) {
        const LDBL q = 1.0 / (3.0 * disco);
        const LDBL r = rp / (2.0 * disco);
        LDBL w = q * q * q + r * r;
        LDBL f;
        if (w >= 0.0) {
            const LDBL d = std::sqrt(w);
            w = r + d;
            const LDBL s1 = f_sign(std::pow(std::abs(w), ONE_THIRD), w);
            w = r - d;
            const LDBL t = f_sign(std::pow(std::abs(w), ONE_THIRD), w);
            f = s1 + t;
        } else {
            w = 2.0 / std::sqrt(-3.0 * disco);
            const LDBL c = 4.0 * rp / (disco * w * w * w);
            const LDBL s2 = std::sqrt(1.0 - r_min(c * c, 1.0));
            const LDBL t3 = std::atan2(s2, c);
            const LDBL f1 = w * std::cos((PI2 - t3) / 3.0);
            const LDBL f2 = w * std::cos((t3) / 3.0);
            const LDBL f3 = w * std::cos((PI2 + t3) / 3.0);
            const LDBL w1 = std::abs(f1 - rp);
            const LDBL w2 = std::abs(f2 - rp);
            const LDBL w3 = std::abs(f3 - rp);
            if (w1 < w2) {
                if (w1 < w3) {
                    f = f1;
                } else {
                    f = f3;
                }
            } else {
                if (w2 < w3) {
                    f = f2;
                } else {
                    f = f3;
                }
            }
        }
        f = f / rp;
        x = f * x;
        y = f * y;
    }
}
}
// ---- vxv

namespace slaref {
void vxv(const Vector<LDBL> va, const Vector<LDBL> vb, Vector<LDBL> vc) {
    Vector<LDBL> tmp;
    tmp[0]= va[1] * vb[2] - va[2] * vb[1];
    tmp[1]= va[2] * vb[0] - va[0] * vb[2];
    tmp[2]= va[0] * vb[1] - va[1] * vb[0];
    for (int i = 0; i < 3; i++) {
        vc[i] = tmp[i];
    }
}
}
