// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.
#include "slaref.h"
#include "slaref_f77.h"
#include <cmath>
#include <cstring>
#include <cstdint>
#include <algorithm>
// ---- airmas

namespace slaref {
LDBL airmas(LDBL zenith_dist) {
    const LDBL seczm1 = 1.0 / (std::cos(std::fmin(1.52, std::fabs(zenith_dist)))) - 1.0;
    return 1.0 + seczm1 * (0.9981833 - seczm1 * (0.002875 + 0.0008083 * seczm1));
}
}
// ---- bear

namespace slaref {
LDBL bear(const Spherical<LDBL>& da, const Spherical<LDBL>& db) {
    const LDBL cos_b_dec = std::cos(db.get_dec());
    const LDBL d_ra = db.get_ra() - da.get_ra();
    const LDBL x = std::sin(db.get_dec()) * std::cos(da.get_dec()) - cos_b_dec * std::sin(da.get_dec()) * std::cos(d_ra);
    const LDBL y = std::sin(d_ra) * cos_b_dec;
    return (x != 0.0f || y != 0.0f)? std::atan2(y, x): 0.0f;
}
}
// ---- cc2s

namespace slaref {
void cc2s(const Vector<LDBL> cartesian, Spherical<LDBL>& spherical) {
    const LDBL x = cartesian[0];
    const LDBL y = cartesian[1];
    const LDBL z = cartesian[2];
    const LDBL r = std::sqrt(x * x + y * y);
    spherical.set_longitude((r == 0.0f) ? 0.0f : std::atan2(y, x));
    spherical.set_latitude((z == 0.0f) ? 0.0f : std::atan2(z, r));
}
}
// ---- clyd

namespace slaref {
G2JStatus clyd(int year, int month, int day, int& jyear, int& jday) {
    if (year >= -4711) {
        if (month >= 1 && month <= 12) {
            int i = (14 - month) / 12;
            long long k = year - i;
            long long j = (1461 * (k + 4800)) / 4 + (367 * (month - 2 + 12 * i)) / 12 -
                    (3 * ((k + 4900) / 100)) / 4 + day - 30660;
            k = (j - 1) / 1461;
            const int L = int(j - 1461 * k);
            const int N = (L - 1) / 365 - L / 1461;
            j = ((80 * (L - 365 * N + 30)) / 2447) / 11;
            i = N + (int) j;
            jday = 59 + L - 365 * i + ((4 - N) / 4) * (1 - (int) j);
            jyear = int(4 * k + i - 4716);
            return validate_gregorian_day(year, month, day);
        } else {
            return G2J_BAD_MONTH;
        }
    } else {
        return G2J_BAD_YEAR;
    }
}
}
// ---- cs2c

namespace slaref {
void cs2c(const Spherical<LDBL>& spherical, Vector<LDBL> cartesian) {
    const LDBL cos_b = std::cos(spherical.get_latitude());
    cartesian[0] = std::cos(spherical.get_longitude()) * cos_b;
    cartesian[1] = std::sin(spherical.get_longitude()) * cos_b;
    cartesian[2] = std::sin(spherical.get_latitude());
}
}
// ---- daf2r

namespace slaref {
D2RStatus daf2r(int degrees, int minutes, LDBL seconds, LDBL& radians) {
    D2RStatus status = D2R_OK;
    if (seconds < 0.0 || seconds >= 60.0) {
        status = D2R_BAD_ARCSECONDS;
    }
    if (minutes < 0 || minutes > 59) {
        status = D2R_BAD_ARCMINUTES;
    }
    if (degrees < 0 || degrees > 359) {
        status = D2R_BAD_DEGREES;
    }
    constexpr LDBL ARCSECS_2_RADIANS = 0.484813681109535994e-5;
    radians = ((LDBL(degrees) * 60.0 + LDBL(minutes)) * 60.0 + seconds) * ARCSECS_2_RADIANS;
    return status;
}
}
// ---- dc62s

namespace slaref {
void dc62s(const VectorPV<LDBL>& cartesian, SphericalPV<LDBL>& spherical) {
    LDBL x = cartesian.get_x();
    LDBL y = cartesian.get_y();
    LDBL z = cartesian.get_z();
    const LDBL xd = cartesian.get_dx();
    const LDBL yd = cartesian.get_dy();
    const LDBL zd = cartesian.get_dz();
    LDBL rxy2 = x * x + y * y;
    LDBL r2 = rxy2 + z * z;
    if (r2 == 0.0) {
        x = xd;
        y = yd;
        z = zd;
        rxy2 = x * x + y * y;
        r2 = rxy2 + z * z;
    }
    const LDBL rxy = std::sqrt(rxy2);
    const LDBL xyp = x * xd + y * yd;
    if (rxy2 != 0.0) {
        spherical.set_longitude(std::atan2(y, x));
        spherical.set_latitude(std::atan2(z, rxy));
        spherical.set_dlong((x * yd - y * xd) / rxy2);
        spherical.set_dlat((zd * rxy2 - z * xyp) / (r2 * rxy));
    } else {
        spherical.set_longitude(0.0);
        spherical.set_latitude((z != 0.0)? std::atan2(z, rxy): 0.0);
        spherical.set_dlong(0.0);
        spherical.set_dlat(0.0);
    }
    const LDBL dist = std::sqrt(r2);
    spherical.set_dist(dist);
    spherical.set_ddist((dist != 0.0)? (xyp + z * zd) / dist: 0.0);
}
}
// ---- dd2tf

namespace slaref {
void dd2tf(int ndp, LDBL days, ConversionResult& result) {
    int nrs = 1;
    for (int i = 0; i < ndp; i++) {
        nrs *= 10;
    }
    auto rs = (LDBL) nrs;
    LDBL rm = rs * 60.0;
    LDBL rh = rm * 60.0;
    constexpr LDBL DAYS2SECONDS = 86400.0;
    LDBL interval = f_anint(rs * DAYS2SECONDS * std::abs(days));
    LDBL hours = f_aint(interval / rh);
    interval -= hours * rh;
    LDBL minutes = f_aint(interval / rm);
    interval -= minutes * rm;
    LDBL seconds = f_aint(interval / rs);
    LDBL fraction = interval - seconds * rs;
    result.set_hours(r_max(f_nint(hours), 0));
    result.set_minutes(r_max(r_min(f_nint(minutes), 59), 0));
    result.set_seconds(r_max(r_min(f_nint(seconds), 59), 0));
    result.set_fraction(r_max(f_nint(r_min(fraction, rs - 1.0)), 0));
    result.set_sign(days >= 0.0);
}
}
// ---- dimxv

namespace slaref {
void dimxv(const Matrix<LDBL> mat, const Vector<LDBL> va, Vector<LDBL> vb) {
    Vector<LDBL> result;
    for (int j = 0; j < 3; j++) {
        LDBL element = 0.0;
        for (int i = 0; i < 3; i++) {
            element += mat[i][j] * va[i];
        }
        result[j] = element;
    }
    for (int k = 0; k < 3; k++) {
        vb[k] = result[k];
    }
}
}
// ---- dmat

namespace slaref {
bool dmat(int n, LDBL* mat, LDBL* vec, LDBL& det, int* ws) {
    assert(mat && vec && ws);
    auto element = [mat, n](int i1, int i2) -> LDBL& {
        assert(i1 < n && i2 < n);
        return mat[i1 * n + i2];
    };
    constexpr LDBL EPSILON = 1.0e-20;
    bool singular = false;
    det = 1.0;
    int i, j, k;
    for (k = 0; k < n; k++) {
        LDBL amx = std::abs(element(k, k));
        int imx = k;
        if (k != n) {
            for (i = k + 1; i < n; i++) {
                const LDBL t0 = std::abs(element(i, k));
                if (t0 > amx) {
                    amx = t0;
                    imx = i;
                }
            }
        }
        if (amx < EPSILON) {
            singular = true;
        } else {
            if (imx != k) {
                for (j = 0; j < n; j++) {
                    const LDBL t1 = element(k, j);
                    element(k, j) = element(imx, j);
                    element(imx, j) = t1;
                }
                const LDBL t2 = vec[k];
                vec[k] = vec[imx];
                vec[imx] = t2;
                det = -det;
            }
            ws[k] = imx;
            LDBL akk = element(k, k);
            det = det * akk;
            if (std::abs(det) < EPSILON) {
                singular = true;
            } else {
                akk = 1.0 / akk;
                element(k, k) = akk;
                for (j = 0; j < n; j++) {
                    if (j != k) {
                        element(k, j) = element(k, j) * akk;
                    }
                }
                const LDBL yk = vec[k] * akk;
                vec[k] = yk;
                for (i = 0; i < n; i++) {
                    const LDBL aik = element(i, k);
                    if (i != k) {
                        for (j = 0; j < n; j++) {
                            if (j != k) {
                                element(i, j) = element(i, j) - aik * element(k, j);
                            }
                        }
                        vec[i] = vec[i] - aik * yk;
                    }
                }
                for (i = 0; i < n; i++) {
                    if (i != k) {
                        element(i, k) = -element(i, k) * akk;
                    }
                }
            }
        }
    }
    if (singular) {
        det = 0.0;
    } else {
        for (k = 0; k < n; k++) {
            const int np1mk = n - 1 - k;
            const int ki = ws[np1mk];
            if (np1mk != ki) {
                for (i = 0; i < n; i++) {
                    const LDBL t3 = element(i, np1mk);
                    element(i, np1mk) = element(i, ki);
                    element(i, ki) = t3;
                }
            }
        }
    }
    return singular;
}
}
// ---- dr2af

namespace slaref {
void dr2af(int ndp, LDBL angle, ConversionResult& result) {
    constexpr LDBL factor = 15.0 / 6.283185307179586476925287;
    dd2tf(ndp, angle * factor, result);
}
}
// ---- ds2c6

namespace slaref {
void ds2c6(const SphericalPV<LDBL>& spv, VectorPV<LDBL>& pv) {
    const LDBL sin_long = std::sin(spv.get_longitude());
    const LDBL cos_long = std::cos(spv.get_longitude());
    const LDBL sin_lat = std::sin(spv.get_latitude());
    const LDBL cos_lat = std::cos(spv.get_latitude());
    const LDBL dist_cos_lat = spv.get_dist() * cos_lat;
    const LDBL x = dist_cos_lat * cos_long;
    const LDBL y = dist_cos_lat * sin_long;
    const LDBL dist_dlat = spv.get_dist() * spv.get_dlat();
    const LDBL w = dist_dlat * sin_lat - cos_lat * spv.get_ddist();
    pv.set_x(x);
    pv.set_y(y);
    pv.set_z(spv.get_dist() * sin_lat);
    pv.set_dx(-y * spv.get_dlong() - w * cos_long);
    pv.set_dy(x * spv.get_dlong() - w * sin_long);
    pv.set_dz(dist_dlat * cos_lat + sin_lat * spv.get_ddist());
}
}
// ---- dt

namespace slaref {
LDBL dt(LDBL epoch) {
    const LDBL centuries = (epoch - 1800.0) / 100.0;
    if (epoch >= 1708.185161980887) {
        const LDBL w = centuries - 0.19;
        return 5.156 + 13.3066 * w * w;
    } else if (epoch >= 979.0258204760233) {
        return 25.5 * centuries * centuries;
    } else {
        return 1360.0 + (320.0 + 44.3 * centuries) * centuries;
    }
}
}
// ---- dtp2v

namespace slaref {
void dtp2v(LDBL xi, LDBL eta, const Vector<LDBL> tangent, Vector<LDBL> point) {
    LDBL x = tangent[0];
    const LDBL y = tangent[1];
    const LDBL z = tangent[2];
    const LDBL f = std::sqrt(1.0 + xi * xi + eta * eta);
    LDBL r = std::sqrt(x * x + y * y);
    if (r == 0.0) {
        x = r = 1e-20;
    }
    point[0] = (x - (xi * y + eta * x * z) / r) / f;
    point[1] = (y + (xi * x - eta * y * z) / r) / f;
    point[2] = (z + eta * r) / f;
}
}
// ---- dv2tp

namespace slaref {
TPPStatus dv2tp(const Vector<LDBL> point, const Vector<LDBL> tangent, LDBL& xi, LDBL& eta) {
    constexpr LDBL TINY = 1e-6;
    const LDBL x = point[0];
    const LDBL y = point[1];
    const LDBL z = point[2];
    LDBL x0 = tangent[0];
    const LDBL y0 = tangent[1];
    const LDBL z0 = tangent[2];
    const LDBL r2 = x0 * x0 + y0 * y0;
    LDBL r = std::sqrt(r2);
    if (r == 0.0f) {
        x0 = r = 1e-20;
    }
    const LDBL w = x * x0 + y * y0;
    LDBL d = w + z * z0;
    TPPStatus status;
    if (d > TINY) {
        status = TPP_OK;
    } else if (d >= 0.0) {
        status = TPP_TOO_FAR;
        d = TINY;
    } else if (d > -TINY) {
        status = TPP_ASTAR_ON_TP;
        d = -TINY;
    } else {
        status = TPP_ASTAR_TOO_FAR;
    }
    d *= r;
    xi = (y * x0 - x * y0) / d;
    eta = (z * r2 - z0 * w) / d;
    return status;
}
}
// ---- e2h

namespace slaref {
void e2h(const Spherical<LDBL>& dir, LDBL phi, LDBL& azimuth, LDBL& elevation) {
    const LDBL sin_ha = std::sin(dir.get_ha());
    const LDBL cos_ha = std::cos(dir.get_ha());
    const LDBL sin_dec = std::sin(dir.get_dec());
    const LDBL cos_dec = std::cos(dir.get_dec());
    const LDBL sin_phi = std::sin(phi);
    const LDBL cos_phi = std::cos(phi);
    const LDBL x = -cos_ha * cos_dec * sin_phi + sin_dec * cos_phi;
    const LDBL y = -sin_ha * cos_dec;
    const LDBL z = cos_ha * cos_dec * cos_phi + sin_dec * sin_phi;
    LDBL a;
    const LDBL r = std::sqrt(x * x + y * y);
    if (r == 0.0f) {
        a = 0.0f;
    } else {
        a = std::atan2(y, x);
        if (a < 0.0f) {
            constexpr LDBL R2PI = 6.283185307179586476925286766559f;
            a += R2PI;
        }
    }
    azimuth = a;
    elevation = std::atan2(z, r);
}
}
// ---- ecor

namespace slaref {
void ecor(Spherical<LDBL> dir, int year, int day, LDBL fraction, LDBL& velocity, LDBL& lt) {
    constexpr LDBL AU_2_KM = 1.4959787066e8f;
    constexpr LDBL AU_2_LSEC = 499.0047837f;
    VectorPV<LDBL> pv;
    earth(year, day, fraction, pv);
    Vector<LDBL> vec;
    cs2c(dir, vec);
    velocity = -AU_2_KM * vdv(pv.get_velocity(), vec);
    lt = AU_2_LSEC * vdv(pv.get_position(), vec);
}
}
// ---- epco

namespace slaref {
LDBL epco(char result, char given, LDBL epoch) {
    if (result == 'b') {
        result = 'B';
    } else if (result == 'j') {
        result = 'J';
    }
    if (result != 'B' && result != 'J') {
        return 0.0;
    }
    if (given == 'j') {
        given = 'J';
    } else if (given == 'b') {
        given = 'B';
    }
    if (given != 'B' && given != 'J') {
        return 0.0;
    }
    if (result == given) {
        return epoch;
    } else if (result == 'B') {
        return epb(epj2d(epoch));
    } else { 
        return epj(epb2d(epoch));
    }
}
}
// ---- eqeqx

namespace slaref {
LDBL eqeqx(LDBL date) {
    constexpr LDBL TURNS_2_ARCSECS = 1296000.0;
    constexpr LDBL ARCSECS_2_RADIANS = 0.484813681109535994e-5;
    const LDBL t = (date - 51544.5) / 36525.0;
    const LDBL om = ARCSECS_2_RADIANS *
        (450160.280 + (-5.0 * TURNS_2_ARCSECS - 482890.539 + (7.455 + 0.008 * t) * t) * t);
    LDBL psi, eps, eps0;
    nutc(date, psi, eps, eps0);
    return psi * std::cos(eps0) + ARCSECS_2_RADIANS * (0.00264 * std::sin(om) + 0.000063 * std::sin(om + om));
}
}
// ---- fitxy

namespace slaref {
FITStatus fitxy(bool sbr, int nsamples, const XYSamples expected, const XYSamples measured, FitCoeffs& model) {
    int i, workspace[4];
    LDBL x_expected, y_expected, x_measured, y_measured,
        sum_x_expected, sum_y_expected, sum_x_measured, sum_y_measured,
        vec[4], mat3[3][3], mat4[4][4], det, sdr2;
    LDBL a = 0.0;
    LDBL b = 0.0;
    LDBL c = 0.0;
    LDBL d = 0.0;
    LDBL a_old = 0.0;
    LDBL b_old = 0.0;
    LDBL c_old = 0.0;
    LDBL d_old = 0.0;
    LDBL sdr2_old = -1.0;
    auto num_samples = (const LDBL) nsamples;
    FITStatus status = FIT_OK;
    bool singular;
    if (sbr == false) {
        if (nsamples >= 3) {
            LDBL sum_xe_xm = 0.0;
            LDBL sum_xe_ym = 0.0;
            LDBL sum_ye_ym = 0.0;
            LDBL sum_ye_xm = 0.0;
            LDBL sum_xm_xm = 0.0;
            LDBL sum_xm_ym = 0.0;
            LDBL sum_ym_ym = 0.0;
            sum_x_expected = 0.0;
            sum_y_expected = 0.0;
            sum_x_measured = 0.0;
            sum_y_measured = 0.0;
            for (i = 0; i < nsamples; i++) {
                x_expected = expected[i][0];
                y_expected = expected[i][1];
                x_measured = measured[i][0];
                y_measured = measured[i][1];
                sum_x_expected += x_expected;
                sum_xe_xm += x_expected * x_measured;
                sum_xe_ym += x_expected * y_measured;
                sum_y_expected += y_expected;
                sum_ye_ym += y_expected * y_measured;
                sum_ye_xm += y_expected * x_measured;
                sum_x_measured += x_measured;
                sum_y_measured += y_measured;
                sum_xm_xm += x_measured * x_measured;
                sum_xm_ym += x_measured * y_measured;
                sum_ym_ym += y_measured * y_measured;
            }
            vec[0] = sum_x_expected;
            vec[1] = sum_xe_xm;
            vec[2] = sum_xe_ym;
            mat3[0][0] = num_samples;
            mat3[0][1] = sum_x_measured;
            mat3[0][2] = sum_y_measured;
            mat3[1][0] = sum_x_measured;
            mat3[1][1] = sum_xm_xm;
            mat3[1][2] = sum_xm_ym;
            mat3[2][0] = sum_y_measured;
            mat3[2][1] = sum_xm_ym;
            mat3[2][2] = sum_ym_ym;
            singular = dmat(3, (LDBL*) mat3, vec, det, workspace);
            if (singular == false) {
                for (i = 0; i < 3; i++) {
                    model[i] = vec[i];
                }
                vec[0] = sum_y_expected;
                vec[1] = sum_ye_xm;
                vec[2] = sum_ye_ym;
                dmxv(mat3, vec, model.get_def());
            } else {
                status = FIT_NONE;
            }
        } else {
            status = FIT_INSUFFICIENT;
        }
    } else {
        if (nsamples >= 2) {
            for (int solution = 0; solution <= 1; solution++) {
                const LDBL sign = solution == 0? 1.0: -1.0;
                LDBL sum_xx_yy = 0.0;
                LDBL sum_xy_yx = 0.0;
                LDBL sum_x2_y2 = 0.0;
                sum_x_expected = 0.0;
                sum_y_expected = 0.0;
                sum_x_measured = 0.0;
                sum_y_measured = 0.0;
                for (i = 0; i < nsamples; i++) {
                    x_expected = expected[i][0] * sign;
                    y_expected = expected[i][1];
                    x_measured = measured[i][0];
                    y_measured = measured[i][1];
                    sum_x_expected += x_expected;
                    sum_xx_yy += x_expected * x_measured + y_expected * y_measured;
                    sum_xy_yx += x_expected * y_measured - y_expected * x_measured;
                    sum_y_expected += y_expected;
                    sum_x_measured += x_measured;
                    sum_y_measured += y_measured;
                    sum_x2_y2 += x_measured * x_measured + y_measured * y_measured;
                }
                vec[0] = sum_x_expected;
                vec[1] = sum_xx_yy;
                vec[2] = sum_xy_yx;
                vec[3] = sum_y_expected;
                mat4[0][0] = num_samples;
                mat4[0][1] = sum_x_measured;
                mat4[0][2] = -sum_y_measured;
                mat4[0][3] = 0.0;
                mat4[1][0] = sum_x_measured;
                mat4[1][1] = sum_x2_y2;
                mat4[1][2] = 0.0;
                mat4[1][3] = sum_y_measured;
                mat4[2][0] = sum_y_measured;
                mat4[2][1] = 0.0;
                mat4[2][2] = -sum_x2_y2;
                mat4[2][3] = -sum_x_measured;
                mat4[3][0] = 0.0;
                mat4[3][1] = sum_y_measured;
                mat4[3][2] = sum_x_measured;
                mat4[3][3] = num_samples;
                singular = dmat(4, (LDBL*) mat4, vec, det, workspace);
                if (singular == false) {
                    a = vec[0];
                    b = vec[1];
                    c = vec[2];
                    d = vec[3];
                    sdr2 = 0.0;
                    for (i = 0; i < nsamples; i++) {
                        x_measured = measured[i][0];
                        y_measured = measured[i][1];
                        const LDBL xr = a + b * x_measured - c * y_measured - expected[i][0] * sign;
                        const LDBL yr = d + c * x_measured + b * y_measured - expected[i][1];
                        sdr2 = sdr2 + xr * xr + yr * yr;
                    }
                } else {
                    sdr2 = -1.0;
                }
                if (solution == 0 && singular == false) {
                    a_old = a;
                    b_old = b;
                    c_old = c;
                    d_old = d;
                    sdr2_old = sdr2;
                }
            }
            if (sdr2_old >= 0.0 && (sdr2_old <= sdr2 || nsamples == 2)) {
                model[0] = a_old;
                model[1] = b_old;
                model[2] = -c_old;
                model[3] = d_old;
                model[4] = c_old;
                model[5] = b_old;
            } else if (singular == false) {
                model[0] = -a;
                model[1] = -b;
                model[2] = c;
                model[3] = d;
                model[4] = c;
                model[5] = b;
            } else {
                status = FIT_NONE;
            }
        } else {
            status = FIT_INSUFFICIENT;
        }
    }
    return status;
}
}
// ---- geoc

namespace slaref {
void geoc(LDBL latitude, LDBL height, LDBL& axis_dist, LDBL& equator_dist) {
    constexpr LDBL EARTH_RADIUS = 6378140.0;
    constexpr LDBL FF = 1.0 / 298.257;
    constexpr LDBL B2 = 1.0 - FF;
    constexpr LDBL B = B2 * B2;
    constexpr LDBL AU = 1.49597870e11;
    const LDBL sin_lat = std::sin(latitude);
    const LDBL cos_lat = std::cos(latitude);
    const LDBL c = 1.0 / std::sqrt(cos_lat * cos_lat + B * sin_lat * sin_lat);
    const LDBL s = B * c;
    axis_dist = (EARTH_RADIUS * c + height) * cos_lat / AU;
    equator_dist = (EARTH_RADIUS * s + height) * sin_lat / AU;
}
}
// ---- imxv

namespace slaref {
void imxv(const Matrix<LDBL> mat, const Vector<LDBL> va, Vector<LDBL> vb) {
    Vector<LDBL> result;
    for (int j = 0; j < 3; j++) {
        LDBL element = 0.0f;
        for (int i = 0; i < 3; i++) {
            element += mat[i][j] * va[i];
        }
        result[j] = element;
    }
    for (int k = 0; k < 3; k++) {
        vb[k] = result[k];
    }
}
}
// ---- mxv

namespace slaref {
void mxv(const Matrix<LDBL> mat, const Vector<LDBL> va, Vector<LDBL> vb) {
    Vector<LDBL> result;
    for (int j = 0; j < 3; j++) {
        LDBL element = 0.0f;
        for (int i = 0; i < 3; i++) {
            element += mat[j][i] * va[i];
        }
        result[j] = element;
    }
    for (int k = 0; k < 3; k++) {
        vb[k] = result[k];
    }
}
}
// ---- pcd

namespace slaref {
void pcd(LDBL disco, LDBL& x, LDBL& y) {
    const LDBL f = 1.0 + disco * (x * x + y * y);
    x *= f;
    y *= f;
}
}
// ---- pm

namespace slaref {
void pm(const Spherical<LDBL>& dir_ep0, const Spherical<LDBL>& motion, LDBL parallax, LDBL r_velocity,
    LDBL ep0, LDBL ep1, Spherical<LDBL>& dir_ep1) {
    constexpr LDBL VFR = (365.25 * 86400.0 / 149597870.0) * 4.8481368111e-6;
    Vector<LDBL> pos;
    dcs2c(dir_ep0, pos);
    const LDBL w = VFR * r_velocity * parallax;
    const Vector<LDBL> em = {
        -motion.get_ra() * pos[1] - motion.get_dec() * std::cos(dir_ep0.get_ra()) * std::sin(dir_ep0.get_dec()) + w * pos[0],
        motion.get_ra() * pos[0] - motion.get_dec() * std::sin(dir_ep0.get_ra()) * std::sin(dir_ep0.get_dec()) + w * pos[1],
        motion.get_dec() * std::cos(dir_ep0.get_dec()) + w * pos[2]
    };
    const LDBL time = ep1 - ep0;
    for (int i = 0; i < 3; i++) {
        pos[i] += time * em[i];
    }
    dcc2s(pos, dir_ep1);
    dir_ep1.set_ra(dranrm(dir_ep1.get_ra()));
}
}
// ---- preces

namespace slaref {
void preces(Catalogue system, LDBL ep0, LDBL ep1, Spherical<LDBL>& pos) {
    switch (system) {
        case CAT_FK4:
        case CAT_FK5:
            Matrix<LDBL> m_precession;
            if (system == CAT_FK4) {
                prebn(ep0, ep1, m_precession);
            } else {
                prec(ep0, ep1, m_precession);
            }
            Vector<LDBL> v1;
            dcs2c(pos, v1);
            Vector<LDBL> v2;
            dmxv(m_precession, v1, v2);
            dcc2s(v2, pos);
            pos.set_ra(dranrm(pos.get_ra()));
            break;
        default:
            pos.set_ra(-99.0);
            pos.set_dec(-99.0);
    }
}
}
// ---- pxy

namespace slaref {
void pxy(int nsamples, const XYSamples expected, const XYSamples measured, const FitCoeffs& model,
    XYSamples predicted, LDBL& x_rms, LDBL& y_rms, LDBL& rms) {
    LDBL sum_dx2 = 0.0;
    LDBL sum_dy2 = 0.0;
    for (int i = 0; i < nsamples; i++) {
        LDBL x_predicted, y_predicted;
        xy2xy(measured[i][0], measured[i][1], model, x_predicted, y_predicted);
        predicted[i][0] = x_predicted;
        predicted[i][1] = y_predicted;
        const LDBL dx = expected[i][0] - x_predicted;
        const LDBL dy = expected[i][1] - y_predicted;
        sum_dx2 += dx * dx;
        sum_dy2 += dy * dy;
    }
    const LDBL p = r_max(1.0, (LDBL) nsamples);
    x_rms = std::sqrt(sum_dx2 / p);
    y_rms = std::sqrt(sum_dy2 / p);
    rms = std::sqrt(x_rms * x_rms + y_rms * y_rms);
}
}
// ---- refcoq

namespace slaref {
void refcoq(LDBL atk, LDBL apm, LDBL arh, LDBL wl, LDBL& refa, LDBL& refb) {
    const bool optic = wl <= 100.0;
    const LDBL t = r_min(r_max(atk, 100.0), 500.0);
    const LDBL p = r_min(r_max(apm, 0.0), 10000.0);
    const LDBL r = r_min(r_max(arh, 0.0), 1.0);
    const LDBL w = r_min(r_max(wl, 0.1), 1.0e6);
    LDBL pw;
    if (p > 0.0) {
        const LDBL tdc = t - 273.15;
        const LDBL ps = std::pow(10.0, ((0.7859 + 0.03477 * tdc) / (1.0 + 0.00412 * tdc))) *
            (1.0 + p * (4.5e-6 + 6.0e-10 * tdc * tdc));
        pw = r * ps / (1.0 - (1.0 - r) * ps / p);
    } else {
        pw = 0.0;
    }
    LDBL gamma;
    if (optic) {
        const LDBL wlsq = w * w;
        gamma = ((77.53484e-6 + (4.39108e-7 + 3.666e-9 / wlsq) / wlsq) * p - 11.2684e-6 * pw) / t;
    } else {
        gamma = (77.6890e-6 * p - (6.3938e-6 - 0.375463 / t) * pw) / t;
    }
    LDBL beta = 4.4474e-6 * t;
    if (!optic) {
        beta -= 0.0074 * pw * beta;
    }
    refa = gamma * (1.0 - beta);
    refb = -gamma * (beta - gamma / 2.0);
}
}
// ---- rverot

namespace slaref {
LDBL rverot(LDBL phi, const Spherical<LDBL>& pos, LDBL stime) {
    constexpr LDBL EARTH_SPEED = 0.4655f;
    return EARTH_SPEED * std::cos(phi) * std::sin(stime - pos.get_ra()) * std::cos(pos.get_dec());
}
}
// ---- rvlsrk

namespace slaref {
LDBL rvlsrk(const Spherical<LDBL>& pos) {
    static const Vector<LDBL> va = {-0.29000, +17.31726, -10.00141};
    Vector<LDBL> vb;
    cs2c(pos, vb);
    return vdv(va, vb);
}
}
// ---- slalib

namespace slaref {
int process_year_defaults(int year) {
    if (year >= 0 && year <= 49) {
        return year + 2000;
    } else if (year >= 50 && year <= 99) {
        return year + 1900;
    }
    return year;
}
G2JStatus validate_gregorian_day(int year, int month, int day) {
    int days_in_given_month;
    if (month == 2) { 
        days_in_given_month = (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0))? 29: 28;
    } else {
        static int days_in_month[12] = {
                31, 0 , 31, 30, 31, 30, 31, 31, 30, 31, 30, 31
        };
        days_in_given_month = days_in_month[month - 1];
    }
    return (day < 1 || day > days_in_given_month)? G2J_BAD_DAY: G2J_OK;
}
}
// ---- svd

namespace slaref {
int svd(int m, int n, int mp, int np, LDBL* a, LDBL* w, LDBL* v, LDBL* ws) {
    assert(m <= mp && n <= np && a && w && v && ws);
    auto a_elem = [a, m, n, np](int row, int col) -> LDBL& {
        assert(row < m && col < n);
        return a[row * np + col];
    };
    auto v_elem = [v, np](int row, int col) -> LDBL& {
        assert(row < np && col < np);
        return v[row * np + col];
    };
    auto negate = [](LDBL& x) {
        x = -x;
    };
    constexpr int MAX_ITERATIONS = 30;
    int status;
    if (m < n) {
        status = -1;
    } else {
        status = 0;
        LDBL s, f, h, c, x, y, z;
        LDBL g = 0.0;
        LDBL scale = 0.0;
        LDBL an = 0.0;
        int i, j, k, l;
        for (i = 0; i < n; i++) {
            l = i + 1;
            ws[i] = scale * g;
            g = 0.0;
            s = 0.0;
            scale = 0.0;
            if (i < m) {
                for (k = i; k < m; k++) {
                    scale += std::fabs(a_elem(k, i));
                }
                if (scale != 0.0) {
                    for (k = i; k < m; k++) {
                        x = a_elem(k, i) / scale;
                        a_elem(k, i) = x;
                        s += x * x;
                    }
                    f = a_elem(i, i);
                    g = -f_sign(std::sqrt(s), f);
                    h = f * g - s;
                    a_elem(i, i) = f - g;
                    if (i != n - 1) {
                        for (j = l; j < n; j++) {
                            s = 0.0;
                            for (k = i; k < m; k++) {
                                s += a_elem(k, i) * a_elem(k, j);
                            }
                            f = s / h;
                            for (k = i; k < m; k++) {
                                a_elem(k, j) += f * a_elem(k, i);
                            }
                        }
                    }
                    for (k = i; k < m; k++) {
                        a_elem(k, i) *= scale;
                    }
                }
            }
            w[i] = scale * g;
            g = 0.0;
            s = 0.0;
            scale = 0.0;
            if (i < m && i != n - 1) {
                for (k = l; k < n; k++) {
                    scale += std::fabs(a_elem(i, k));
                }
                if (scale != 0.0) {
                    for (k = l; k < n; k++) {
                        x = a_elem(i, k) / scale;
                        a_elem(i, k) = x;
                        s += x * x;
                    }
                    f = a_elem(i, l);
                    g = -f_sign(std::sqrt(s), f);
                    h = f * g - s;
                    a_elem(i, l) = f - g;
                    for (k = l; k < n; k++) {
                        ws[k] = a_elem(i, k) / h;
                    }
                    if (i != m - 1) {
                        for (j = l; j < m; j++) {
                            s = 0.0;
                            for (k = l; k < n; k++) {
                                s += a_elem(j, k) * a_elem(i, k);
                            }
                            for (k = l; k < n; k++) {
                                a_elem(j, k) += s * ws[k];
                            }
                        }
                    }
                    for (k = l; k < n; k++) {
                        a_elem(i, k) *= scale;
                    }
                }
            }
            an = std::fmax(an, std::fabs(w[i]) + std::fabs(ws[i]));
        }
        for (i = n - 1; i >= 0; i--) {
            if (i != n - 1) {
                if (g != 0.0) {
                    for (j = l; j < n; j++) {
                        v_elem(j, i) = (a_elem(i, j) / a_elem(i, l)) / g;
                    }
                    for (j = l; j < n; j++) {
                        s = 0.0;
                        for (k = l; k < n; k++) {
                            s += a_elem(i, k) * v_elem(k, j);
                        }
                        for (k = l; k < n; k++) {
                            v_elem(k, j) += s * v_elem(k, i);
                        }
                    }
                }
                for (j = l; j < n; j++) {
                    v_elem(i, j) = 0.0;
                    v_elem(j, i) = 0.0;
                }
            }
            v_elem(i, i) = 1.0;
            g = ws[i];
            l = i;
        }
        for (i = n - 1; i >= 0; i--) {
            l = i + 1;
            g = w[i];
            if (i != n - 1) {
                for (j = l; j < n; j++) {
                    a_elem(i, j) = 0.0;
                }
            }
            if (g != 0.0) {
                if (i != n - 1) {
                    for (j = l; j < n; j++) {
                        s = 0.0;
                        for (k = l; k < m; k++) {
                            s += a_elem(k, i) * a_elem(k, j);
                        }
                        f = (s / a_elem(i, i)) / g;
                        for (k = i; k < m; k++) {
                            a_elem(k, j) += f * a_elem(k, i);
                        }
                    }
                }
                for (j = i; j < m; j++) {
                    a_elem(j, i) /= g;
                }
            } else {
                for (j = i; j < m; j++) {
                    a_elem(j, i) = 0.0;
                }
            }
            a_elem(i, i) += 1.0;
        }
        for (k = n - 1; k >= 0; k--) {
            const int k1 = k - 1;
            int iterations = 0;
            while (iterations < MAX_ITERATIONS) {
                iterations++;
                bool cancel = true;
                int l1;
                for (l = k; l >= 0; l--) {
                    l1 = l - 1;
                    if (an + std::fabs(ws[l]) == an) {
                        cancel = false;
                        break;
                    }
                    if (an + std::fabs(w[l1]) == an) {
                        break;
                    }
                }
                if (cancel) {
                    s = 1.0;
                    for (i = l; i <= k; i++) {
                        f = s * ws[i];
                        if (an + std::fabs(f) == an) {
                            break;
                        }
                        g = w[i];
                        h = std::sqrt(f * f + g * g);
                        w[i] = h;
                        c = g / h;
                        s = -f / h;
                        for (j = 0; j < m; j++) {
                            y = a_elem(j, l1);
                            z = a_elem(j, i);
                            a_elem(j, l1) = y * c + z * s;
                            a_elem(j, i) = -y * s + z * c;
                        }
                    }
                }
                z = w[k];
                if (l == k) {
                    iterations = MAX_ITERATIONS;
                    if (z < 0.0) {
                        w[k] = -z;
                        for (j = 0; j < n; j++) {
                            negate(v_elem(j, k));
                        }
                    }
                } else {
                    if (iterations == MAX_ITERATIONS) {
                        status = k;
                    }
                    x = w[l];
                    y = w[k1];
                    g = ws[k1];
                    h = ws[k];
                    f = ((y - z) * (y + z) + (g - h) * (g + h)) / (2.0 * h * y);
                    const LDBL abs_f = std::fabs(f);
                    g = abs_f > 1.0e15? abs_f: std::sqrt(f * f + 1.0);
                    f = ((x - z) * (x + z) + h * (y / (f + f_sign(g, f)) - h)) / x;
                    c = 1.0;
                    s = 1.0;
                    for (int i1 = l; i1 <= k1; i1++) {
                        i = i1 + 1;
                        g = ws[i];
                        y = w[i];
                        h = s * g;
                        g = c * g;
                        z = std::sqrt(f * f + h * h);
                        ws[i1] = z;
                        if (z != 0.0) {
                            c = f / z;
                            s = h / z;
                        } else {
                            c = 1.0;
                            s = 0.0;
                        }
                        f = x * c + g * s;
                        g = -x * s + g * c;
                        h = y * s;
                        y = y * c;
                        for (j = 0; j < n; j++) {
                            x = v_elem(j, i1);
                            z = v_elem(j, i);
                            v_elem(j, i1) = x * c + z * s;
                            v_elem(j, i) = -x * s + z * c;
                        }
                        z = std::sqrt(f * f + h * h);
                        w[i1] = z;
                        if (z != 0.0) {
                            c = f / z;
                            s = h / z;
                        }
                        f = c * g + s * y;
                        x = -s * g + c * y;
                        for (j = 0; j < m; j++) {
                            y = a_elem(j, i1);
                            z = a_elem(j, i);
                            a_elem(j, i1) = y * c + z * s;
                            a_elem(j, i) = -y * s + z * c;
                        }
                    }
                    ws[l] = 0.0;
                    ws[k] = f;
                    w[k] = x;
                }
            }
        }
    }
    return status;
}
}
// ---- tp2v

namespace slaref {
void tp2v(LDBL xi, LDBL eta, const Vector<LDBL> tangent, Vector<LDBL> point) {
    LDBL x = tangent[0];
    const LDBL y = tangent[1];
    const LDBL z = tangent[2];
    const LDBL f = std::sqrt(1.0f + xi * xi + eta * eta);
    LDBL r = std::sqrt(x * x + y * y);
    if (r == 0.0f) {
        x = r = 1e-20f;
    }
    point[0] = (x - (xi * y + eta * x * z) / r) / f;
    point[1] = (y + (xi * x - eta * y * z) / r) / f;
    point[2] = (z + eta * r) / f;
}
}
// ---- v2tp

namespace slaref {
TPPStatus v2tp(const Vector<LDBL> point, const Vector<LDBL> tangent, LDBL& xi, LDBL& eta) {
    constexpr LDBL TINY = 1E-6f;
    const LDBL x = point[0];
    const LDBL y = point[1];
    const LDBL z = point[2];
    LDBL x0 = tangent[0];
    const LDBL y0 = tangent[1];
    const LDBL z0 = tangent[2];
    const LDBL r2 = x0 * x0 + y0 * y0;
    LDBL r = std::sqrt(r2);
    if (r == 0.0f) {
        x0 = r = 1e-20f;
    }
    const LDBL w = x * x0 + y * y0;
    LDBL d = w + z * z0;
    TPPStatus status;
    if (d > TINY) {
        status = TPP_OK;
    } else if (d >= 0.0f) {
        status = TPP_TOO_FAR;
        d = TINY;
    } else if (d > -TINY) {
        status = TPP_ASTAR_ON_TP;
        d = -TINY;
    } else {
        status = TPP_ASTAR_TOO_FAR;
    }
    d *= r;
    xi = (y * x0 - x * y0) / d;
    eta = (z * r2 - z0 * w) / d;
    return status;
}
}
// ---- xy2xy

namespace slaref {
void xy2xy(LDBL x1, LDBL y1, const FitCoeffs& model, LDBL& x2, LDBL& y2) {
    x2 = model.get_a() + model.get_b() * x1 + model.get_c() * y1;
    y2 = model.get_d() + model.get_e() * x1 + model.get_f() * y1;
}
}
