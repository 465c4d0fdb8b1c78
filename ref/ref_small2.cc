// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.
#include "slaref.h"
#include "slaref_f77.h"
#include <cmath>
#include <cstring>
#include <cstdint>
#include <algorithm>
// ---- altaz

namespace slaref {
void altaz(const Spherical<LDBL>& dir, LDBL phi, AltazMount& am) {
    constexpr LDBL PI = 3.1415926535897932384626433832795;
    constexpr LDBL PI2 = 6.283185307179586476925286766559;
    constexpr LDBL EPSILON = 1.0e-30;
    const LDBL sin_ha = std::sin(dir.get_ha());
    const LDBL cos_ha = std::cos(dir.get_ha());
    const LDBL sin_dec = std::sin(dir.get_dec());
    const LDBL cos_dec = std::cos(dir.get_dec());
    const LDBL sin_phi = std::sin(phi);
    const LDBL cos_phi = std::cos(phi);
    const LDBL ch_cd = cos_ha * cos_dec;
    const LDBL sd_cp = sin_dec * cos_phi;
    const LDBL x = -ch_cd * sin_phi + sd_cp;
    const LDBL y = -sin_ha * cos_dec;
    const LDBL z = ch_cd * cos_phi + sin_dec * sin_phi;
    LDBL r_squared = x * x + y * y;
    LDBL r = std::sqrt(r_squared);
    LDBL azimuth = r_squared == 0.0? 0.0: std::atan2(y, x);
    if (azimuth < 0.0) {
        azimuth += PI2;
    }
    const LDBL elevation = std::atan2(z, r);
    const LDBL c = cos_dec * sin_phi - cos_ha * sd_cp;
    const LDBL s = sin_ha * cos_phi;
    const LDBL p_angle = c * c + s * s > 0.0? std::atan2(s, c): PI - dir.get_ha();
    if (r_squared < EPSILON) {
        r_squared = EPSILON;
        r = std::sqrt(r_squared);
    }
    const LDBL p_vel = -x * cos_phi / r_squared;
    const LDBL a_vel = sin_phi + z * p_vel;
    const LDBL e_vel = cos_phi * y / r;
    const LDBL edr = e_vel / r;
    const LDBL a_acc = edr * (z * sin_phi + (2.0 - r_squared) * p_vel);
    const LDBL e_acc = -r * p_vel * a_vel;
    const LDBL p_acc = edr * (sin_phi + 2.0 * z * p_vel);
    am.set_azimuth(azimuth);
    am.set_az_velocity(a_vel);
    am.set_az_acceleration(a_acc);
    am.set_elevation(elevation);
    am.set_el_velocity(e_vel);
    am.set_el_acceleration(e_acc);
    am.set_pangle(p_angle);
    am.set_pa_velocity(p_vel);
    am.set_pa_acceleration(p_acc);
}
}
// ---- caf2r

namespace slaref {
D2RStatus caf2r(int degrees, int minutes, LDBL seconds, LDBL& radians) {
    D2RStatus status = D2R_OK;
    if (seconds < 0.0f || seconds >= 60.0f) {
        status = D2R_BAD_ARCSECONDS;
    }
    if (minutes < 0 || minutes > 59) {
        status = D2R_BAD_ARCMINUTES;
    }
    if (degrees < 0 || degrees > 359) {
        status = D2R_BAD_DEGREES;
    }
    constexpr LDBL ARCSECS_2_RADIANS = 0.484813681109535994e-5f;
    radians = ((LDBL(degrees) * 60.0f + LDBL(minutes)) * 60.0f + seconds) * ARCSECS_2_RADIANS;
    return status;
}
}
// ---- cc62s

namespace slaref {
void cc62s(const VectorPV<LDBL>& cartesian, SphericalPV<LDBL>& spherical) {
    LDBL x = cartesian.get_x();
    LDBL y = cartesian.get_y();
    LDBL z = cartesian.get_z();
    const LDBL xd = cartesian.get_dx();
    const LDBL yd = cartesian.get_dy();
    const LDBL zd = cartesian.get_dz();
    LDBL rxy2 = x * x + y * y;
    LDBL r2 = rxy2 + z * z;
    if (r2 == 0.0f) {
        x = xd;
        y = yd;
        z = zd;
        rxy2 = x * x + y * y;
        r2 = rxy2 + z * z;
    }
    const LDBL rxy = std::sqrt(rxy2);
    const LDBL xyp = x * xd + y * yd;
    if (rxy2 != 0.0f) {
        spherical.set_longitude(std::atan2(y, x));
        spherical.set_latitude(std::atan2(z, rxy));
        spherical.set_dlong((x * yd - y * xd) / rxy2);
        spherical.set_dlat((zd * rxy2 - z * xyp) / (r2 * rxy));
    } else {
        spherical.set_longitude(0.0f);
        spherical.set_latitude((z != 0.0f)? std::atan2(z, rxy): 0.0f);
        spherical.set_dlong(0.0f);
        spherical.set_dlat(0.0f);
    }
    const LDBL dist = std::sqrt(r2);
    spherical.set_dist(dist);
    spherical.set_ddist((dist != 0.0f)? (xyp + z * zd) / dist: 0.0f);
}
}
// ---- combn

namespace slaref {
CPStatus combn(int nsel, int ncand, int* list) {
    if (nsel < 1 || ncand < 1 || nsel > ncand) {
        return CPS_INVALID_ARG;
    }
    if (list[0] < 1) {
        for (int j = 0; j < nsel;) {
            const int next_j = j + 1;
            list[j] = next_j;
            j = next_j;
        }
        return CPS_OK;
    }
    for (int i = 1;;) {
        const int list_i = list[i - 1];
        const int nmax = (i >= nsel)?
            ncand + 1: 
            list[i]; 
        if (nmax - list_i > 1) {
            list[i - 1] = list_i + 1;
            for (int m = 0; m < i - 1;) {
                const int next_m = m + 1;
                list[m] = next_m;
                m = next_m;
            }
            return CPS_OK;
        } else {
            if (i >= nsel) {
                for (int k = 0; k < nsel;) {
                    const int next_k = k + 1;
                    list[k] = next_k;
                    k = next_k;
                }
                return CPS_NO_MORE;
            } else {
                i++;
            }
        }
    }
}
}
// ---- cs2c6

namespace slaref {
void cs2c6(const SphericalPV<LDBL>& spv, VectorPV<LDBL>& pv) {
    const LDBL sin_long = std::sin(spv.get_longitude());
    const LDBL cos_long = std::cos(spv.get_longitude());
    const LDBL sin_lat = std::sin(spv.get_latitude());
    const LDBL cos_lat = std::cos(spv.get_latitude());
    const LDBL dist_cos_lat = spv.get_dist() * cos_lat;
    const LDBL x = dist_cos_lat * cos_long;
    const LDBL y = dist_cos_lat * sin_long;
    const LDBL dist_dlat = spv.get_dist() * spv.get_dlat();
    const LDBL w = dist_dlat * sin_lat - cos_lat * spv.get_ddist();
    pv.set_x(x);
    pv.set_y(y);
    pv.set_z(spv.get_dist() * sin_lat);
    pv.set_dx(-y * spv.get_dlong() - w * cos_long);
    pv.set_dy(x * spv.get_dlong() - w * sin_long);
    pv.set_dz(dist_dlat * cos_lat + sin_lat * spv.get_ddist());
}
}
// ---- dat

namespace slaref {
LDBL dat(LDBL utc) {
    if (utc >= 57754.0) { 
        return 37.0;
    } else if (utc >= 57204.0) { 
        return 36.0;
    } else if (utc >= 56109.0) { 
        return 35.0;
    } else if (utc >= 54832.0) { 
        return 34.0;
    } else if (utc >= 53736.0) { 
        return 33.0;
    } else if (utc >= 51179.0) { 
        return 32.0;
    } else if (utc >= 50630.0) { 
        return 31.0;
    } else if (utc >= 50083.0) { 
        return 30.0;
    } else if (utc >= 49534.0) { 
        return 29.0;
    } else if (utc >= 49169.0) { 
        return 28.0;
    } else if (utc >= 48804.0) { 
        return 27.0;
    } else if (utc >= 48257.0) { 
        return 26.0;
    } else if (utc >= 47892.0) { 
        return 25.0;
    } else if (utc >= 47161.0) { 
        return 24.0;
    } else if (utc >= 46247.0) { 
        return 23.0;
    } else if (utc >= 45516.0) { 
        return 22.0;
    } else if (utc >= 45151.0) { 
        return 21.0;
    } else if (utc >= 44786.0) { 
        return 20.0;
    } else if (utc >= 44239.0) { 
        return 19.0;
    } else if (utc >= 43874.0) { 
        return 18.0;
    } else if (utc >= 43509.0) { 
        return 17.0;
    } else if (utc >= 43144.0) { 
        return 16.0;
    } else if (utc >= 42778.0) { 
        return 15.0;
    } else if (utc >= 42413.0) { 
        return 14.0;
    } else if (utc >= 42048.0) { 
        return 13.0;
    } else if (utc >= 41683.0) { 
        return 12.0;
    } else if (utc >= 41499.0) { 
        return 11.0;
    } else if (utc >= 41317.0) { 
        return 10.0;
    } else if (utc >= 39887.0) { 
        return 4.21317 + (utc - 39126.0) * 0.002592;
    } else if (utc >= 39126.0) { 
        return 4.31317 + (utc - 39126.0) * 0.002592;
    } else if (utc >= 39004.0) { 
        return 3.84013 + (utc - 38761.0) * 0.001296;
    } else if (utc >= 38942.0) { 
        return 3.74013 + (utc - 38761.0) * 0.001296;
    } else if (utc >= 38820.0) { 
        return 3.64013 + (utc - 38761.0) * 0.001296;
    } else if (utc >= 38761.0) { 
        return 3.54013 + (utc - 38761.0) * 0.001296;
    } else if (utc >= 38639.0) { 
        return 3.44013 + (utc - 38761.0) * 0.001296;
    } else if (utc >= 38486.0) { 
        return 3.34013 + (utc - 38761.0) * 0.001296;
    } else if (utc >= 38395.0) { 
        return 3.24013 + (utc - 38761.0) * 0.001296;
    } else if (utc >= 38334.0) { 
        return 1.945858 + (utc - 37665.0) * 0.0011232;
    } else if (utc >= 37665.0) { 
        return 1.845858 + (utc - 37665.0) * 0.0011232;
    } else if (utc >= 37512.0) { 
        return 1.372818 + (utc - 37300.0) * 0.001296;
    } else if (utc >= 37300.0) { 
        return 1.422818 + (utc - 37300.0) * 0.001296;
    } else { 
        return 1.417818 + (utc - 37300.0) * 0.001296;
    }
}
}
// ---- dcc2s

namespace slaref {
void dcc2s(const Vector<LDBL> cartesian, Spherical<LDBL>& spherical) {
    const LDBL x = cartesian[0];
    const LDBL y = cartesian[1];
    const LDBL z = cartesian[2];
    const LDBL r = std::sqrt(x * x + y * y);
    spherical.set_longitude((r == 0.0)? 0.0: std::atan2(y, x));
    spherical.set_latitude((z == 0.0)? 0.0: std::atan2(z, r));
}
}
// ---- de2h

namespace slaref {
void de2h(const Spherical<LDBL>& dir, LDBL phi, LDBL& azimuth, LDBL& elevation) {
    const LDBL sin_ha = std::sin(dir.get_ha());
    const LDBL cos_ha = std::cos(dir.get_ha());
    const LDBL sin_dec = std::sin(dir.get_dec());
    const LDBL cos_dec = std::cos(dir.get_dec());
    const LDBL sin_phi = std::sin(phi);
    const LDBL cos_phi = std::cos(phi);
    const LDBL x = -cos_ha * cos_dec * sin_phi + sin_dec * cos_phi;
    const LDBL y = -sin_ha * cos_dec;
    const LDBL z = cos_ha * cos_dec * cos_phi + sin_dec * sin_phi;
    LDBL a;
    const LDBL r = std::sqrt(x * x + y * y);
    if (r == 0.0) {
        a = 0.0;
    } else {
        a = std::atan2(y, x);
        if (a < 0.0f) {
            constexpr LDBL R2PI = 6.283185307179586476925286766559;
            a += R2PI;
        }
    }
    azimuth = a;
    elevation = std::atan2(z, r);
}
}
// ---- djcal

namespace slaref {
bool djcal(int ndp, LDBL mjd, Date& date) {
    if (mjd <= -2395520.0 || mjd >= 1.0e9) {
        return true;
    } else {
        int nfd = (int) std::round(std::pow(10.0, (LDBL) r_max(ndp, 0)));
        const LDBL fd = (LDBL) nfd;
        const LDBL df = f_anint(mjd * fd);
        LDBL f = std::fmod(df, fd);
        if (f < 0.0) {
            f += fd;
        }
        const LDBL d = (df - f) / fd;
        const long long jd = f_nint(d) + 2400001LL;
        const long long n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
        date.d_year = (int) (n4 / 1461 - 4712);
        date.d_month =  ((nd10 / 306 + 2) % 12) + 1;
        date.d_day = (nd10 % 306) / 10 + 1;
        date.d_ifraction = f_nint(f);
        return false;
    }
}
}
// ---- dmxm

namespace slaref {
void dmxm(const Matrix<LDBL> ma, const Matrix<LDBL> mb, Matrix<LDBL> mc) {
    Matrix <LDBL> result;
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            LDBL element = 0.0;
            for (int k = 0; k < 3; k++) {
                element += ma[i][k] * mb[k][j];
            }
            result[i][j] = element;
        }
    }
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            mc[i][j] = result[i][j];
        }
    }
}
}
// ---- dr2tf

namespace slaref {
void dr2tf(int ndp, LDBL angle, ConversionResult& result) {
    constexpr LDBL TURNS2RADIANS = 6.283185307179586476925287;
    dd2tf(ndp, angle / TURNS2RADIANS, result);
}
}
// ---- ds2tp

namespace slaref {
TPPStatus ds2tp(const Spherical<LDBL>& point, const Spherical<LDBL>& tangent, LDBL& xi, LDBL& eta) {
    constexpr LDBL TINY = 1e-6;
    const LDBL sin_tdec = std::sin(tangent.get_dec());
    const LDBL sin_dec = std::sin(point.get_dec());
    const LDBL cos_tdec = std::cos(tangent.get_dec());
    const LDBL cos_dec = std::cos(point.get_dec());
    const LDBL ra_diff = point.get_ra() - tangent.get_ra();
    const LDBL sin_ra_diff = std::sin(ra_diff);
    const LDBL cos_ra_diff = std::cos(ra_diff);
    LDBL denom = sin_dec * sin_tdec + cos_dec * cos_tdec * cos_ra_diff;
    TPPStatus status;
    if (denom > TINY) {
        status = TPP_OK;
    } else if (denom >= 0.0) {
        status = TPP_TOO_FAR;
        denom = TINY;
    } else if (denom > -TINY) {
        status = TPP_ASTAR_ON_TP;
        denom = -TINY;
    } else {
        status = TPP_ASTAR_TOO_FAR;
    }
    xi = cos_dec * sin_ra_diff / denom;
    eta = (sin_dec * cos_tdec - cos_dec * sin_tdec * cos_ra_diff) / denom;
    return status;
}
}
// ---- dtf2d

namespace slaref {
T2DStatus dtf2d(int hours, int minutes, LDBL seconds, LDBL& days) {
    T2DStatus result = T2D_OK;
    if (hours < 0 || hours > 23) result = T2D_BAD_HOURS;
    if (minutes < 0 || minutes > 59) result = T2D_BAD_MINUTES;
    if (seconds < 0.0 || seconds >= 60.0) result = T2D_BAD_SECONDS;
    constexpr LDBL DAYS2SECONDS = 86400.0;
    days= (60.0 * (60.0 * hours + minutes ) + seconds) / DAYS2SECONDS;
    return result;
}
}
// ---- dtps2c

namespace slaref {
int dtps2c(LDBL xi, LDBL eta, const Spherical<LDBL>& point,
    Spherical<LDBL>& solution1, Spherical<LDBL>& solution2) {
    const LDBL x2 = xi * xi;
    const LDBL y2 = eta * eta;
    const LDBL sin_dec = std::sin(point.get_dec());
    const LDBL cos_dec = std::cos(point.get_dec());
    const LDBL sdf = sin_dec * std::sqrt(1.0 + x2 + y2);
    const LDBL r2 = cos_dec * cos_dec * (1.0 + y2) - sin_dec * sin_dec * x2;
    if (r2 >= 0.0) {
        LDBL r = std::sqrt(r2);
        LDBL s = sdf - eta * r;
        LDBL c = sdf * eta + r;
        if (xi == 0.0 && r == 0.0) {
            r = 1.0;
        }
        solution1.set_ra(dranrm(point.get_ra() - std::atan2(xi, r)));
        solution1.set_dec(std::atan2(s, c));
        r = -r;
        s = sdf - eta * r;
        c = sdf * eta + r;
        solution2.set_ra(dranrm(point.get_ra() - std::atan2(xi, r)));
        solution2.set_dec(std::atan2(s, c));
        if (std::abs(sdf) < 1.0) {
            return 1;
        } else {
            return 2;
        }
    } else {
        return 0;
    }
}
}
// ---- dvdv

namespace slaref {
LDBL dvdv(const Vector<LDBL> va, const Vector<LDBL> vb) {
    return va[0] * vb[0] + va[1] * vb[1] + va[2] * vb[2];
}
}
// ---- earth

namespace slaref {
void earth(int year, int day, LDBL fraction, VectorPV<LDBL>& pv) {
    constexpr LDBL TWO_PI = 6.28318530718f;
    constexpr LDBL orbital_speed = 1.9913e-7;
    constexpr LDBL emb_dist = 3.12e-5;
    constexpr LDBL emb_speed = 8.31e-11;
    auto year_since_1900 = (const LDBL) (year - 1900);
    const int y4 = ((year % 4) + 4) % 4;
    const LDBL yf = ((LDBL) (4 * (day - 1 / (y4 + 1)) - y4 - 2) + 4.0f * fraction) / 1461.0f;
    const LDBL t = year_since_1900 + yf;
    const LDBL elm = std::fmod(4.881628f + TWO_PI * yf + 0.00013420f * t, TWO_PI);
    const LDBL gamma = 4.908230f + 3.0005e-4f * t;
    const LDBL em = elm - gamma;
    const LDBL eps0 = 0.40931975f - 2.27e-6f * t;
    const LDBL e = 0.016751f - 4.2e-7f * t;
    const LDBL e_squared = e * e;
    const LDBL v = em + 2.0f * e * std::sin(em) + 1.25f * e_squared * std::sin(2.0f * em);
    const LDBL elt = v + gamma;
    const LDBL r = (1.0f - e_squared) / (1.0f + e * std::cos(v));
    const LDBL elmm = std::fmod(4.72f + 83.9971f * t, TWO_PI);
    const LDBL cos_elt = std::cos(elt);
    const LDBL sin_eps0 = std::sin(eps0);
    const LDBL cos_eps0 = std::cos(eps0);
    const LDBL w1 = -r * std::sin(elt);
    const LDBL w2 = -orbital_speed * (cos_elt + e * std::cos(gamma));
    const LDBL sin_elmm = std::sin(elmm);
    const LDBL cos_elmm = std::cos(elmm);
    pv.set_x(-r * cos_elt - emb_dist * cos_elmm);
    pv.set_y((w1 - emb_dist * sin_elmm) * cos_eps0);
    pv.set_z(w1 * sin_eps0);
    pv.set_dx(orbital_speed * (std::sin(elt) + e * std::sin(gamma)) + emb_speed * sin_elmm);
    pv.set_dy((w2 - emb_speed * cos_elmm) * cos_eps0);
    pv.set_dz(w2 * sin_eps0);
}
}
// ---- eg50

namespace slaref {
void eg50(const Spherical<LDBL>& fk4, Spherical<LDBL>& gal) {
    static const Matrix<LDBL> mat = {
        {-0.066988739415, -0.872755765852, -0.483538914632},
        {+0.492728466075, -0.450346958020, +0.744584633283},
        {-0.867600811151, -0.188374601723, +0.460199784784}
    };
    Spherical<LDBL> loc;
    subet(fk4, 1950.0, loc);
    Vector<LDBL> v1;
    dcs2c(loc, v1);
    Vector<LDBL> v2;
    dmxv(mat, v1, v2);
    dcc2s(v2, gal);
    gal.set_longitude(dranrm(gal.get_longitude()));
    gal.set_latitude(drange(gal.get_latitude()));
}
}
// ---- epj

namespace slaref {
LDBL epj(LDBL mjd) {
    return 2000.0 + (mjd - 51544.5) / 365.25;
}
}
// ---- eqgal

namespace slaref {
void eqgal(const Spherical<LDBL>& dir, Spherical<LDBL>& gal) {
    static const Matrix<LDBL> mat = {
        {-0.054875539726, -0.873437108010, -0.483834985808},
        {+0.494109453312, -0.444829589425, +0.746982251810},
        {-0.867666135858, -0.198076386122, +0.455983795705}
    };
    Vector<LDBL> v1;
    dcs2c(dir, v1);
    Vector<LDBL> v2;
    dmxv(mat, v1, v2);
    dcc2s(v2, gal);
    gal.set_longitude(dranrm(gal.get_longitude()));
    gal.set_latitude(drange(gal.get_latitude()));
}
}
// ---- galeq

namespace slaref {
void galeq(const Spherical<LDBL>& gal, Spherical<LDBL>& dir) {
    static const Matrix<LDBL> mat = {
        {-0.054875539726, -0.873437108010, -0.483834985808},
        {+0.494109453312, -0.444829589425, +0.746982251810},
        {-0.867666135858, -0.198076386122, +0.455983795705}
    };
    Vector<LDBL> v1;
    dcs2c(gal, v1);
    Vector<LDBL> v2;
    dimxv(mat, v1, v2);
    dcc2s(v2, dir);
    dir.set_longitude(dranrm(dir.get_longitude()));
    dir.set_latitude(drange(dir.get_latitude()));
}
}
// ---- gmst

namespace slaref {
LDBL gmst(LDBL ut1) {
    constexpr LDBL D2PI = 6.283185307179586476925286766559;
    constexpr LDBL S2R = 7.272205216643039903848711535369e-5;
    const LDBL jc = (ut1 - 51544.5) / 36525.0;
    return dranrm(std::fmod(ut1, 1.0) * D2PI +
        (24110.54841 +
        (8640184.812866 +
        (0.093104 - 6.2e-6 * jc) * jc) * jc) * S2R);
}
}
// ---- invf

namespace slaref {
bool invf(const FitCoeffs& model, FitCoeffs& inverse) {
    const LDBL b = model.get_b();
    const LDBL c = model.get_c();
    const LDBL e = model.get_e();
    const LDBL f = model.get_f();
    const LDBL det = b * f - c * e;
    if (det != 0.0) {
        const LDBL a = model.get_a();
        const LDBL d = model.get_d();
        inverse[0] = (c * d - a * f) / det;
        inverse[1] = f / det;
        inverse[2] = -c / det;
        inverse[3] = (a * e - b * d) / det;
        inverse[4] = -e / det;
        inverse[5] = b / det;
        return true;
    } else {
        return false;
    }
}
}
// ---- nut

namespace slaref {
void nut(LDBL tdb, Matrix<LDBL> mat) {
    LDBL psi, eps, eps0;
    nutc(tdb,psi,eps,eps0);
    deuler("XZX", eps0, -psi,-(eps0 + eps), mat);
}
}
// ---- pda2h

namespace slaref {
void pda2h(LDBL lat, LDBL dec, LDBL azimuth, LDBL& ha1, bool& ha1_valid, LDBL& ha2, bool& ha2_valid) {
    constexpr LDBL PI = 3.141592653589793238462643;
    constexpr LDBL DEG_90 = PI / 2.0;
    constexpr LDBL TINY = 1.0e-12;
    LDBL pn = drange(lat);
    if (std::fabs(std::fabs(pn) - DEG_90) < TINY) {
        pn -= f_sign(TINY, pn);
    } else if (std::fabs(pn) <TINY) {
        pn = TINY;
    }
    LDBL an = drange(azimuth);
    if (std::fabs(std::fabs(an) - PI) < TINY) {
        an -= f_sign(TINY, an);
    } else if (std::fabs(an) < TINY) {
        an = TINY;
    }
    LDBL dn = drange(dec);
    if (std::fabs(std::fabs(dn) - std::fabs(lat)) < TINY ||
        std::fabs(std::fabs(dn) - DEG_90) < TINY) {
        dn -= f_sign(TINY, dn);
    } else if (std::fabs(dn) < TINY) {
        dn = TINY;
    }
    const LDBL sin_an = std::sin(an);
    const LDBL cos_an = std::cos(an);
    const LDBL sinan_cospn = sin_an * std::sin(pn);
    const LDBL qt = std::sin(dn) * sin_an * std::cos(pn);
    const LDBL qb = std::cos(dn) * std::sqrt(cos_an * cos_an + sinan_cospn * sinan_cospn);
    if (std::fabs(qt) <= qb) {
        const LDBL hpt = std::asin(qt / qb);
        const LDBL t = std::atan2(sinan_cospn, -cos_an);
        ha1 = drange(hpt - t);
        ha2 = drange(-hpt - (t + PI));
        ha1_valid = (std::sin(dn) * std::cos(pn) - std::cos(dn) * std::sin(pn) * std::cos(ha1)) * cos_an - std::cos(dn) * std::sin(ha1) * sin_an >= LDBL(0);
        ha2_valid = (std::sin(dn) * std::cos(pn) - std::cos(dn) * std::sin(pn) * std::cos(ha2)) * cos_an - std::cos(dn) * std::sin(ha2) * sin_an >= LDBL(0);
    } else {
        ha1_valid = ha2_valid = false;
    }
}
}
// ---- polmo

namespace slaref {
void polmo(LDBL m_long, LDBL m_phi, LDBL x_pm, LDBL y_pm, LDBL& t_long, LDBL& t_phi, LDBL& d_az) {
    LDBL sin_long = std::sin(m_long);
    LDBL cos_long = std::cos(m_long);
    const LDBL sin_phi = std::sin(m_phi);
    LDBL cos_phi = std::cos(m_phi);
    const LDBL xm = cos_long * cos_phi;
    const LDBL ym = sin_long * cos_phi;
    const LDBL zm = sin_phi;
    const LDBL sin_xpm = std::sin(x_pm);
    const LDBL cos_xpm = std::cos(x_pm);
    const LDBL sin_ypm = std::sin(y_pm);
    const LDBL cos_ypm = std::cos(y_pm);
    const LDBL zw = (-ym * sin_ypm + zm * cos_ypm);
    LDBL xt = xm * cos_xpm - zw * sin_xpm;
    const LDBL yt = ym * cos_ypm + zm * sin_ypm;
    const LDBL zt = xm * sin_xpm + zw * cos_xpm;
    const LDBL xnm = -sin_xpm * cos_ypm;
    const LDBL ynm = sin_ypm;
    const LDBL znm = cos_xpm * cos_ypm;
    cos_phi = std::sqrt(xt * xt + yt * yt);
    if (cos_phi == 0.0) {
        xt = 1.0;
    }
    sin_long = yt / cos_phi;
    cos_long = xt / cos_phi;
    t_long = (xt != 0.0 || yt != 0.0)? std::atan2(yt, xt): 0.0;
    t_phi = std::atan2(zt, cos_phi);
    const LDBL xnt = (xnm * cos_long + ynm * sin_long) * zt - znm * cos_phi;
    const LDBL ynt = -xnm * sin_long + ynm * cos_long;
    d_az = (xnt != 0.0 || ynt != 0.0)? std::atan2(-ynt, -xnt): 0.0;
}
}
// ---- precl

namespace slaref {
void precl(LDBL ep0, LDBL ep1, Matrix<LDBL> mat) {
    constexpr LDBL ARCSECS_2_RADIANS = 0.484813681109535994e-5;
    const LDBL t0 = (ep0 - 2000.0) / 1000.0;
    const LDBL t = (ep1 - ep0) / 1000.0;
    const LDBL tas2r = t * ARCSECS_2_RADIANS;
    const LDBL w = 23060.9097 +
                      (139.7459 +
                       (-0.0038 +
                       (-0.5918 +
                       (-0.0037 +
                         0.0007 * t0) * t0) * t0) * t0) * t0;
    const LDBL zeta = (w + (30.2226 +
                             (-0.2523 +
                             (-0.3840 +
                             (-0.0014 +
                               0.0007 * t0) * t0) * t0) * t0 +
                             (18.0183 +
                             (-0.1326 +
                              (0.0006 +
                               0.0005 * t0) * t0) * t0 +
                             (-0.0583 +
                             (-0.0001 +
                               0.0007 * t0) * t0 +
                             (-0.0285 +
                              -0.0002 * t) * t) * t) * t) * t) * tas2r;
    const LDBL z = (w + (109.5270 +
                            (0.2446 +
                           (-1.3913 +
                           (-0.0134 +
                             0.0026 * t0) * t0) * t0) * t0 +
                           (18.2667 +
                           (-1.1400 +
                           (-0.0173 +
                             0.0044 * t0) * t0) * t0 +
                           (-0.2821 +
                           (-0.0093 +
                             0.0032 * t0) * t0 +
                           (-0.0301 +
                             0.0006 * t0
                            -0.0001 * t) * t) * t) * t) * t) * tas2r;
    const LDBL theta = (20042.0207 +
                           (-85.3131 +
                            (-0.2111 +
                             (0.3642 +
                             (0.0008 +
                             -0.0005 * t0) * t0) * t0) * t0) * t0 +
                           (-42.6566 +
                            (-0.2111 +
                             (0.5463 +
                             (0.0017 +
                             -0.0012 * t0) * t0) * t0) * t0 +
                           (-41.8238 +
                             (0.0359 +
                             (0.0027 +
                             -0.0001 * t0) * t0) * t0 +
                            (-0.0731 +
                             (0.0019 +
                              0.0009 * t0) * t0 +
                            (-0.0127 +
                              0.0011 * t0 + 0.0004 * t) * t) * t) * t) * t) * tas2r;
    deuler("ZYZ", -zeta, theta, -z, mat);
}
}
// ---- range

namespace slaref {
LDBL range(LDBL angle) {
    constexpr LDBL PI = 3.141592653589793238462643f;
    constexpr LDBL PI2 = 6.283185307179586476925287f;
    LDBL result = std::fmod(angle, PI2);
    if (std::fabs(result) >= PI) {
        result -= f_sign(PI2, angle);
    }
    return result;
}
}
// ---- refro

namespace slaref {
static void atms(LDBL rt, LDBL tt, LDBL dnt, LDBL gamal, LDBL r, LDBL& dn, LDBL& rdndr) {
    const LDBL b = gamal / tt;
    const LDBL w = (dnt - 1.0) * std::exp(-b * (r - rt));
    dn = 1.0 + w;
    rdndr = -r * b * w;
}
static void atmt(LDBL r0, LDBL t0, LDBL alpha, LDBL gamm2, LDBL delm2,
    LDBL c1, LDBL c2, LDBL c3, LDBL c4, LDBL c5, LDBL c6, LDBL r,
    LDBL& t, LDBL& dn, LDBL& rdndr) {
    t = r_max(r_min(t0 - alpha * (r - r0), 320.0), 100.0);
    const LDBL tt0 = t / t0;
    const LDBL tt0gm2 = std::pow(tt0, gamm2);
    const LDBL tt0dm2 = std::pow(tt0, delm2);
    dn = 1.0 + (c1 * tt0gm2 - (c2 - c5 / t) * tt0dm2) * tt0;
    rdndr = r * (-c3 * tt0gm2 + (c4 - c6 / tt0) * tt0dm2);
}
LDBL refro(LDBL ozd, LDBL oh, LDBL atk, LDBL apm, LDBL arh, LDBL wl, LDBL phi, LDBL tlr, LDBL eps) {
    constexpr LDBL DEG93_IN_RADIANS = 1.623156204;
    constexpr LDBL MOLAR_GAS_CONSTANT = 8314.32;
    constexpr LDBL DRY_AIR_MOL_WEIGHT = 28.9644;
    constexpr LDBL WATER_VAPOUR_MOL_WEIGHT = 18.0152;
    constexpr LDBL EARTH_RADIUS = 6378120.0;
    constexpr LDBL DELTA = 18.36;
    constexpr LDBL TROPOPAUSE_HEIGHT = 11000.0;
    constexpr LDBL RE_HEIGHT_LIMIT = 80000.0;
    constexpr int MAX_STRIPS = 16384;
    auto refraction_integrand = [] (LDBL dn, LDBL rdndr) -> LDBL {
        return rdndr / (dn + rdndr);
    };
    const LDBL zobs1 = drange(ozd);
    const LDBL zobs2 = r_min(std::abs(zobs1), DEG93_IN_RADIANS);
    const LDBL hm_ok = r_min(r_max(oh, -1.0e3), RE_HEIGHT_LIMIT);
    const LDBL tdk_ok = r_min(r_max(atk, 100.0), 500.0);
    const LDBL pmb_ok = r_min(r_max(apm, 0.0), 10000.0);
    const LDBL rh_ok = r_min(r_max(arh, 0.0), 1.0);
    const LDBL wl_ok = r_max(wl, 0.1);
    const LDBL alpha = r_min(r_max(std::abs(tlr), 0.001), 0.01);
    const LDBL tolerance = r_min(r_max(std::abs(eps), 1.0e-12), 0.1) / 2.0;
    bool optic = wl_ok <= 100.0;
    const LDBL wl_squared = wl_ok * wl_ok;
    const LDBL gb = 9.784 * (1.0 - 0.0026 * std::cos(phi + phi) - 0.00000028 * hm_ok);
    const LDBL a = optic?
        (287.6155 + (1.62887 + 0.01360 / wl_squared) / wl_squared) * 273.15e-6 / 1013.25: 77.6890e-6;
    const LDBL gamal = (gb * DRY_AIR_MOL_WEIGHT) / MOLAR_GAS_CONSTANT;
    const LDBL gamma = gamal / alpha;
    const LDBL gamm2 = gamma - 2.0;
    const LDBL delm2 = DELTA - 2.0;
    const LDBL tdc = tdk_ok - 273.15;
    const LDBL psat = std::pow(10.0, ((0.7859 + 0.03477 * tdc) / (1.0 + 0.00412 * tdc))) *
        (1.0 + pmb_ok * (4.5e-6 + 6.0e-10 * tdc * tdc));
    const LDBL pwo = pmb_ok > 0.0 ? rh_ok * psat / (1.0 - (1.0 - rh_ok) * psat / pmb_ok) : 0.0;
    const LDBL w = pwo * (1.0 - WATER_VAPOUR_MOL_WEIGHT / DRY_AIR_MOL_WEIGHT) * gamma / (DELTA - gamma);
    const LDBL c1 = a * (pmb_ok + w) / tdk_ok;
    const LDBL c2 = (a * w + (optic ? 11.2684e-6 : 6.3938e-6) * pwo) / tdk_ok;
    const LDBL c3 = (gamma - 1.0) * alpha * c1 / tdk_ok;
    const LDBL c4 = (DELTA - 1.0) * alpha * c2 / tdk_ok;
    const LDBL c5 = optic ? 0.0 : 375463.0e-6 * pwo / tdk_ok;
    const LDBL c6 = optic ? 0.0 : c5 * delm2 * alpha / (tdk_ok * tdk_ok);
    const LDBL r0 = EARTH_RADIUS + hm_ok;
    LDBL temp0, dn0, rdndr0;
    atmt(r0, tdk_ok, alpha, gamm2, delm2, c1, c2, c3, c4, c5, c6, r0, temp0, dn0, rdndr0);
    const LDBL sk0 = dn0 * r0 * std::sin(zobs2);
    const LDBL f0 = refraction_integrand(dn0, rdndr0);
    const LDBL rt = EARTH_RADIUS + r_max(TROPOPAUSE_HEIGHT, hm_ok);
    LDBL tt, dnt, rdndrt;
    atmt(r0, tdk_ok, alpha, gamm2, delm2, c1, c2, c3, c4, c5, c6, rt, tt, dnt, rdndrt);
    LDBL sine = sk0 / (rt * dnt);
    const LDBL zt = std::atan2(sine, std::sqrt(r_max(1.0 - sine * sine, 0.0)));
    const LDBL ft = refraction_integrand(dnt, rdndrt);
    LDBL dnts, rdndrp;
    atms(rt, tt, dnt, gamal, rt, dnts, rdndrp);
    sine = sk0 / (rt * dnts);
    const LDBL zts = std::atan2(sine, std::sqrt(r_max(1.0 - sine * sine, 0.0)));
    const LDBL fts = refraction_integrand(dnts, rdndrp);
    const LDBL rs = EARTH_RADIUS + RE_HEIGHT_LIMIT;
    LDBL dns, rdndrs;
    atms(rt, tt, dnt, gamal, rs, dns, rdndrs);
    sine = sk0 / (rs * dns);
    const LDBL zs = std::atan2(sine, std::sqrt(r_max(1.0 - sine * sine, 0.0)));
    const LDBL fs = refraction_integrand(dns, rdndrs);
    LDBL refp, reft = 0.0;
    for (int k = 0; k < 2; k++) {
        LDBL ref_old = 1.0;
        int num_strips = 8;
        LDBL z0, z_range, fb, ff;
        if (k == 0) {
            z0 = zobs2;
            z_range = zt - z0;
            fb = f0;
            ff = ft;
        } else {
            z0 = zts;
            z_range = zs - z0;
            fb = fts;
            ff = fs;
        }
        LDBL f_odd = 0.0;
        LDBL f_even = 0.0;
        for (int step = 1;;) { 
            const LDBL h = z_range / (LDBL) num_strips;
            LDBL r = (k == 0) ? r0 : rt;
            for (int i = 1; i <= num_strips - 1; i += step) {
                const LDBL sine_zd = std::sin(z0 + h * (LDBL)(i));
                LDBL dn, rdndr;
                if (sine_zd > 1.0e-20) {
                    const LDBL ww = sk0 / sine_zd;
                    LDBL rg = r;
                    LDBL dr = 1.0e6;
                    for (int j = 0; j < 4 && std::abs(dr) > 1.0; j++) {
                        if (k == 0) {
                            LDBL tg;
                            atmt(r0, tdk_ok, alpha, gamm2, delm2, c1, c2, c3, c4, c5, c6, rg, tg, dn, rdndr);
                        } else {
                            atms(rt, tt, dnt, gamal, rg, dn, rdndr);
                        }
                        dr = (rg * dn - ww) / (dn + rdndr);
                        rg = rg - dr;
                    }
                    r = rg;
                }
                if (k == 0) {
                    LDBL t;
                    atmt(r0, tdk_ok, alpha, gamm2, delm2, c1, c2, c3, c4, c5, c6, r, t, dn, rdndr);
                } else {
                    atms(rt, tt, dnt, gamal, r, dn, rdndr);
                }
                const LDBL f = refraction_integrand(dn, rdndr);
                if (step == 1 && i % 2 == 0) {
                    f_even = f_even + f;
                } else {
                    f_odd = f_odd + f;
                }
            }
            refp = h * (fb + 4.0 * f_odd + 2.0 * f_even + ff) / 3.0;
            if (std::abs(refp - ref_old) > tolerance && num_strips < MAX_STRIPS) {
                ref_old = refp;
                num_strips += num_strips;
                f_even = f_even + f_odd;
                f_odd = 0.0;
                step = 2;
            } else {
                if (k == 0) {
                    reft = refp;
                }
                break;
            }
        }
    }
    LDBL result = reft + refp;
    if (zobs1 < 0.0) {
        result = -result;
    }
    return result;
}
}
// ---- rvgalc

namespace slaref {
LDBL rvgalc(const Spherical<LDBL>& pos) {
    static const Vector<LDBL> va = {-108.70408, +97.86251, -164.33610};
    Vector<LDBL> vb;
    cs2c(pos, vb);
    return vdv(va, vb);
}
}
// ---- s2tp

namespace slaref {
TPPStatus s2tp(const Spherical<LDBL>& point, const Spherical<LDBL>& tangent, LDBL& xi, LDBL& eta) {
    constexpr LDBL TINY = 1e-6f;
    const LDBL sin_tdec = std::sin(tangent.get_dec());
    const LDBL sin_dec = std::sin(point.get_dec());
    const LDBL cos_tdec = std::cos(tangent.get_dec());
    const LDBL cos_dec = std::cos(point.get_dec());
    const LDBL ra_diff = point.get_ra() - tangent.get_ra();
    const LDBL sin_ra_diff = std::sin(ra_diff);
    const LDBL cos_ra_diff = std::cos(ra_diff);
    LDBL denom = sin_dec * sin_tdec + cos_dec * cos_tdec * cos_ra_diff;
    TPPStatus status;
    if (denom > TINY) {
        status = TPP_OK;
    } else if (denom >= 0.0f) {
        status = TPP_TOO_FAR;
        denom = TINY;
    } else if (denom > -TINY) {
        status = TPP_ASTAR_ON_TP;
        denom = -TINY;
    } else {
        status = TPP_ASTAR_TOO_FAR;
    }
    xi = cos_dec * sin_ra_diff / denom;
    eta = (sin_dec * cos_tdec - cos_dec * sin_tdec * cos_ra_diff) / denom;
    return status;
}
}
// ---- smat

namespace slaref {
bool smat(int n, LDBL* mat, LDBL* vec, LDBL& det, int* ws) {
    assert(mat && vec && ws);
    auto element = [mat, n](int i1, int i2) -> LDBL& {
        assert(i1 < n && i2 < n);
        return mat[i1 * n + i2];
    };
    constexpr LDBL EPSILON = 1.0e-20f;
    bool singular = false;
    det = 1.0f;
    int i, k;
    for (k = 0; k < n; k++) {
        LDBL v_max = std::abs(element(k, k));
        int i_max = k;
        if (k != n) {
            for (i = k + 1; i < n; i++) {
                const LDBL t0 = std::abs(element(i, k));
                if (t0 > v_max) {
                    v_max = t0;
                    i_max = i;
                }
            }
        }
        if (v_max < EPSILON) {
            singular = true;
        } else {
            int j;
            if (i_max != k) {
                for (j = 0; j < n; j++) {
                    const LDBL t1 = element(k, j);
                    element(k, j) = element(i_max, j);
                    element(i_max, j) = t1;
                }
                const LDBL t2 = vec[k];
                vec[k] = vec[i_max];
                vec[i_max] = t2;
                det = -det;
            }
            ws[k] = i_max;
            LDBL a_kk = element(k, k);
            det = det * a_kk;
            if (std::abs(det) < EPSILON) {
                singular = -1;
            } else {
                a_kk = 1.0f / a_kk;
                element(k, k) = a_kk;
                for (j = 0; j < n; j++) {
                    if (j != k) {
                        element(k, j) = element(k, j) * a_kk;
                    }
                }
                const LDBL y_k = vec[k] * a_kk;
                vec[k] = y_k;
                for (i = 0; i < n; i++) {
                    const LDBL a_ik = element(i, k);
                    if (i != k) {
                        for (j = 0; j < n; j++) {
                            if (j != k) {
                                element(i, j) = element(i, j) - a_ik * element(k, j);
                            }
                        }
                        vec[i] = vec[i] - a_ik * y_k;
                    }
                }
                for (i = 0; i < n; i++) {
                    if (i != k) {
                        element(i, k) = -element(i, k) * a_kk;
                    }
                }
            }
        }
    }
    if (singular) {
        det = 0.0;
    } else {
        for (k = 0; k < n; k++) {
            const int np1mk = n - 1 - k;
            const int ki = ws[np1mk];
            if (np1mk != ki) {
                for (i = 0; i < n; i++) {
                    const LDBL t3 = element(i, np1mk);
                    element(i, np1mk) = element(i, ki);
                    element(i, ki) = t3;
                }
            }
        }
    }
    return singular;
}
}
// ---- svdcov

namespace slaref {
void svdcov(int n, int np, int nc, const LDBL* w, const LDBL* v, LDBL* ws, LDBL* cvm) {
    assert(n <= np && n <= nc && w && v && ws && cvm);
    auto v_elem = [v, np](int row, int col) -> const LDBL& {
        assert(row < np && col < np);
        return v[row * np + col];
    };
    auto cvm_elem = [cvm, nc](int row, int col) -> LDBL& {
        assert(row < nc && col < nc);
        return cvm[row * nc + col];
    };
    for (int l = 0; l < n; l++) {
        const LDBL s1 = w[l];
        ws[l] = (s1 != 0.0)? 1.0 / (s1 * s1): 0.0;
    }
    for (int i = 0; i < n; i++) {
        for (int j = 0; j <= i; j++) {
            LDBL s2 = 0.0;
            for (int k = 0; k < n; k++) {
                s2 += v_elem(i, k) * v_elem(j, k) * ws[k];
            }
            cvm_elem(i, j) = s2;
            cvm_elem(j, i) = s2;
        }
    }
}
}
// ---- tps2c

namespace slaref {
int tps2c(LDBL xi, LDBL eta, const Spherical<LDBL>& point,
    Spherical<LDBL>& solution1, Spherical<LDBL>& solution2) {
    const LDBL x2 = xi * xi;
    const LDBL y2 = eta * eta;
    const LDBL sin_dec = std::sin(point.get_dec());
    const LDBL cos_dec = std::cos(point.get_dec());
    const LDBL sdf = sin_dec * std::sqrt(1.0f + x2 + y2);
    const LDBL r2 = cos_dec * cos_dec * (1.0f + y2) - sin_dec * sin_dec * x2;
    if (r2 >= 0.0f) {
        LDBL r = std::sqrt(r2);
        LDBL s = sdf - eta * r;
        LDBL c = sdf * eta + r;
        if (xi == 0.0f && r == 0.0f) {
            r = 1.0f;
        }
        solution1.set_ra(ranorm(point.get_ra() - std::atan2(xi, r)));
        solution1.set_dec(std::atan2(s, c));
        r = -r;
        s = sdf - eta * r;
        c = sdf * eta + r;
        solution2.set_ra(ranorm(point.get_ra() - std::atan2(xi, r)));
        solution2.set_dec(std::atan2(s, c));
        if (std::abs(sdf) < 1.0f) {
            return 1;
        } else {
            return 2;
        }
    } else {
        return 0;
    }
}
}
// ---- vdv

namespace slaref {
LDBL vdv(const Vector<LDBL> va, const Vector<LDBL> vb) {
    return va[0] * vb[0] + va[1] * vb[1] + va[2] * vb[2];
}
}
// ---- zd

namespace slaref {
LDBL zd(const Spherical<LDBL>& dir, LDBL phi) {
    const LDBL sin_ha = std::sin(dir.get_ha());
    const LDBL cos_ha = std::cos(dir.get_ha());
    const LDBL sin_dec = std::sin(dir.get_dec());
    const LDBL cos_dec = std::cos(dir.get_dec());
    const LDBL sin_phi = std::sin(phi);
    const LDBL cos_phi = std::cos(phi);
    const LDBL x = cos_ha * cos_dec * sin_phi - sin_dec * cos_phi;
    const LDBL y = sin_ha * cos_dec;
    const LDBL z = cos_ha * cos_dec * cos_phi + sin_dec * sin_phi;
    return std::atan2(std::sqrt(x * x + y * y), z);
}
}
