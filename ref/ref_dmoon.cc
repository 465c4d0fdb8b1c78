// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.
#include "slaref.h"
#include "slaref_f77.h"
#include <cmath>
#include <cstring>
#include <cstdint>
#include <algorithm>
// ---- dmoon

namespace slaref {
void dmoon(LDBL date, VectorPV<LDBL>& pv) {
    constexpr LDBL DEGREES_2_RADIANS = 0.0174532925199432957692369;
    constexpr LDBL ARCSECONDS_2_RADIANS = 4.848136811095359935899141e-6;
    constexpr LDBL SECONDS_2_RADIANS = 7.272205216643039903848712e-5;
    constexpr LDBL SECONDS_PER_JCENTURY = 3155760000.0;
    constexpr LDBL JEPOCH_B1950 = 1949.9997904423;
    constexpr LDBL EARTH_RADIUS_AU = 4.2635212653763e-5;
    constexpr LDBL ELP0 = 270.434164;
    constexpr LDBL ELP1 = 481267.8831;
    constexpr LDBL ELP2 = -0.001133;
    constexpr LDBL ELP3 = 0.0000019;
    LDBL elp, delp;
    constexpr LDBL EM0 = 358.475833;
    constexpr LDBL EM1 = 35999.0498;
    constexpr LDBL EM2 = -0.000150;
    constexpr LDBL EM3 = -0.0000033;
    LDBL em, dem;
    constexpr LDBL EMP0 = 296.104608;
    constexpr LDBL EMP1 = 477198.8491;
    constexpr LDBL EMP2 = 0.009192;
    constexpr LDBL EMP3 = 0.0000144;
    LDBL emp, demp;
    constexpr LDBL D0 = 350.737486;
    constexpr LDBL D1 = 445267.1142;
    constexpr LDBL D2 = -0.001436;
    constexpr LDBL D3 = 0.0000019;
    LDBL d, dd;
    constexpr LDBL F0 = 11.250889;
    constexpr LDBL F1 = 483202.0251;
    constexpr LDBL F2 = -0.003211;
    constexpr LDBL F3 = -0.0000003;
    LDBL f, df;
    constexpr LDBL OM0 = 259.183275;
    constexpr LDBL OM1 = -1934.1420;
    constexpr LDBL OM2 = 0.002078;
    constexpr LDBL OM3 = 0.0000022;
    LDBL om, dom;
    constexpr LDBL E1 = -0.002495;
    constexpr LDBL E2 = -0.00000752;
    LDBL e, de, esq, desq;
    constexpr LDBL PAC = 0.000233;
    constexpr LDBL PA0 = 51.2;
    constexpr LDBL PA1 = 20.2;
    constexpr LDBL PBC = -0.001778;
    constexpr LDBL PCC = 0.000817;
    constexpr LDBL PDC = 0.002011;
    constexpr LDBL PEC = 0.003964;
    constexpr LDBL PE0 = 346.560;
    constexpr LDBL PE1 = 132.870;
    constexpr LDBL PE2 = -0.0091731;
    constexpr LDBL PFC = 0.001964;
    constexpr LDBL PGC = 0.002541;
    constexpr LDBL PHC = 0.001964;
    constexpr LDBL PIC = -0.024691;
    constexpr LDBL PJC = -0.004328;
    constexpr LDBL PJ0 = 275.05;
    constexpr LDBL PJ1 = -2.30;
    constexpr LDBL CW1 = 0.0004664;
    constexpr LDBL CW2 = 0.0000754;
    constexpr int NL = 50;
    static const LDBL TL[NL] = {
        +6.288750, +1.274018, +0.658309, +0.213616, -0.185596,
        -0.114336, +0.058793, +0.057212, +0.053320, +0.045874,
        +0.041024, -0.034718, -0.030465, +0.015326, -0.012528,
        -0.010980, +0.010674, +0.010034, +0.008548, -0.007910,
        -0.006783, +0.005162, +0.005000, +0.004049, +0.003996,
        +0.003862, +0.003665, +0.002695, +0.002602, +0.002396,
        -0.002349, +0.002249, -0.002125, -0.002079, +0.002059,
        -0.001773, -0.001595, +0.001220, -0.001110, +0.000892,
        -0.000811, +0.000761, +0.000717, +0.000704, +0.000693,
        +0.000598, +0.000550, +0.000538, +0.000521, +0.000486
    };
    static const int8_t ITL[NL][5] = {
        {+0, +1, +0, +0, 0},
        {+0, -1, +2, +0, 0},
        {+0, +0, +2, +0, 0},
        {+0, +2, +0, +0, 0},
        {+1, +0, +0, +0, 1},
        {+0, +0, +0, +2, 0},
        {+0, -2, +2, +0, 0},
        {-1, -1, +2, +0, 1},
        {+0, +1, +2, +0, 0},
        {-1, +0, +2, +0, 1},
        {-1, +1, +0, +0, 1},
        {+0, +0, +1, +0, 0},
        {+1, +1, +0, +0, 1},
        {+0, +0, +2, -2, 0},
        {+0, +1, +0, +2, 0},
        {+0, -1, +0, +2, 0},
        {+0, -1, +4, +0, 0},
        {+0, +3, +0, +0, 0},
        {+0, -2, +4, +0, 0},
        {+1, -1, +2, +0, 1},
        {+1, +0, +2, +0, 1},
        {+0, +1, -1, +0, 0},
        {+1, +0, +1, +0, 1},
        {-1, +1, +2, +0, 1},
        {+0, +2, +2, +0, 0},
        {+0, +0, +4, +0, 0},
        {+0, -3, +2, +0, 0},
        {-1, +2, +0, +0, 1},
        {+0, +1, -2, -2, 0},
        {-1, -2, +2, +0, 1},
        {+0, +1, +1, +0, 0},
        {-2, +0, +2, +0, 2},
        {+1, +2, +0, +0, 1},
        {+2, +0, +0, +0, 2},
        {-2, -1, +2, +0, 2},
        {+0, +1, +2, -2, 0},
        {+0, +0, +2, +2, 0},
        {-1, -1, +4, +0, 1},
        {+0, +2, +0, +2, 0},
        {+0, +1, -3, +0, 0},
        {+1, +1, +2, +0, 1},
        {-1, -2, +4, +0, 1},
        {-2, +1, +0, +0, 2},
        {-2, +1, -2, +0, 2},
        {+1, -2, +2, +0, 1},
        {-1, +0, +2, -2, 1},
        {+0, +1, +4, +0, 0},
        {+0, +4, +0, +0, 0},
        {-1, +0, +4, +0, 1},
        {+0, +2, -1, +0, 0}
    };
    constexpr int NB = 45;
    static const LDBL TB[NB] = {
        +5.128189, +0.280606, +0.277693, +0.173238, +0.055413,
        +0.046272, +0.032573, +0.017198, +0.009267, +0.008823,
        +0.008247, +0.004323, +0.004200, +0.003372, +0.002472,
        +0.002222, +0.002072, +0.001877, +0.001828, -0.001803,
        -0.001750, +0.001570, -0.001487, -0.001481, +0.001417,
        +0.001350, +0.001330, +0.001106, +0.001020, +0.000833,
        +0.000781, +0.000670, +0.000606, +0.000597, +0.000492,
        +0.000450, +0.000439, +0.000423, +0.000422, -0.000367,
        -0.000353, +0.000331, +0.000317, +0.000306, -0.000283
    };
    static const int8_t ITB[NB][5] = {
        {+0, +0, +0, +1, 0},
        {+0, +1, +0, +1, 0},
        {+0, +1, +0, -1, 0},
        {+0, +0, +2, -1, 0},
        {+0, -1, +2, +1, 0},
        {+0, -1, +2, -1, 0},
        {+0, +0, +2, +1, 0},
        {+0, +2, +0, +1, 0},
        {+0, +1, +2, -1, 0},
        {+0, +2, +0, -1, 0},
        {-1, +0, +2, -1, 1},
        {+0, -2, +2, -1, 0},
        {+0, +1, +2, +1, 0},
        {-1, +0, -2, +1, 1},
        {-1, -1, +2, +1, 1},
        {-1, +0, +2, +1, 1},
        {-1, -1, +2, -1, 1},
        {-1, +1, +0, +1, 1},
        {+0, -1, +4, -1, 0},
        {+1, +0, +0, +1, 1},
        {+0, +0, +0, +3, 0},
        {-1, +1, +0, -1, 1},
        {+0, +0, +1, +1, 0},
        {+1, +1, +0, +1, 1},
        {-1, -1, +0, +1, 1},
        {-1, +0, +0, +1, 1},
        {+0, +0, -1, +1, 0},
        {+0, +3, +0, +1, 0},
        {+0, +0, +4, -1, 0},
        {+0, -1, +4, +1, 0},
        {+0, +1, +0, -3, 0},
        {+0, -2, +4, +1, 0},
        {+0, +0, +2, -3, 0},
        {+0, +2, +2, -1, 0},
        {-1, +1, +2, -1, 1},
        {+0, +2, -2, -1, 0},
        {+0, +3, +0, -1, 0},
        {+0, +2, +2, +1, 0},
        {+0, -3, +2, -1, 0},
        {+1, -1, +2, +1, 1},
        {+1, +0, +2, +1, 1},
        {+0, +0, +4, +1, 0},
        {-1, +1, +2, +1, 1},
        {-2, +0, +2, -1, 2},
        {+0, +1, +0, +3, 0}
    };
    constexpr int NP = 31;
    LDBL TP[NP]{
        +0.950724, +0.051818, +0.009531, +0.007843, +0.002824,
        +0.000857, +0.000533, +0.000401, +0.000320, -0.000271,
        -0.000264, -0.000198, +0.000173, +0.000167, -0.000111,
        +0.000103, -0.000084, -0.000083, +0.000079, +0.000072,
        +0.000064, -0.000063, +0.000041, +0.000035, -0.000033,
        -0.000030, -0.000029, -0.000029, +0.000026, -0.000023,
        +0.000019
    };
    static const int8_t ITP[NP][5] = {
        {+0, +0, +0, +0, 0},
        {+0, +1, +0, +0, 0},
        {+0, -1, +2, +0, 0},
        {+0, +0, +2, +0, 0},
        {+0, +2, +0, +0, 0},
        {+0, +1, +2, +0, 0},
        {-1, +0, +2, +0, 1},
        {-1, -1, +2, +0, 1},
        {-1, +1, +0, +0, 1},
        {+0, +0, +1, +0, 0},
        {+1, +1, +0, +0, 1},
        {+0, -1, +0, +2, 0},
        {+0, +3, +0, +0, 0},
        {+0, -1, +4, +0, 0},
        {+1, +0, +0, +0, 1},
        {+0, -2, +4, +0, 0},
        {+0, +2, -2, +0, 0},
        {+1, +0, +2, +0, 1},
        {+0, +2, +2, +0, 0},
        {+0, +0, +4, +0, 0},
        {-1, +1, +2, +0, 1},
        {+1, -1, +2, +0, 1},
        {+1, +0, +1, +0, 1},
        {-1, +2, +0, +0, 1},
        {+0, +3, -2, +0, 0},
        {+0, +1, +1, +0, 0},
        {+0, +0, -2, +2, 0},
        {+1, +2, +0, +0, 1},
        {-2, +0, +2, +0, 2},
        {+0, +1, -2, +2, 0},
        {-1, -1, +4, +0, 1}
    };
    LDBL t = (date - 15019.5) / 36525.0;
    elp = DEGREES_2_RADIANS * std::fmod(ELP0 + (ELP1 + (ELP2 + ELP3 * t) * t) * t, 360.0);
    delp = DEGREES_2_RADIANS * (ELP1 + (2.0 * ELP2 + 3.0 * ELP3 * t) * t);
    em = DEGREES_2_RADIANS * std::fmod(EM0 + (EM1 + (EM2 + EM3 * t) * t) * t, 360.0);
    dem = DEGREES_2_RADIANS * (EM1 + (2.0 * EM2 + 3.0 * EM3 * t) * t);
    emp = DEGREES_2_RADIANS * std::fmod(EMP0 + (EMP1 + (EMP2 + EMP3 * t) * t) * t, 360.0);
    demp = DEGREES_2_RADIANS * (EMP1 + (2.0 * EMP2 + 3.0 * EMP3 * t) * t);
    d = DEGREES_2_RADIANS * std::fmod(D0 + (D1 + (D2 + D3 * t) * t) * t, 360.0);
    dd = DEGREES_2_RADIANS * (D1 + (2.0 * D2 + 3.0 * D3 * t) * t);
    f = DEGREES_2_RADIANS * std::fmod(F0 + (F1 + (F2 + F3 * t) * t) * t, 360.0);
    df = DEGREES_2_RADIANS * (F1 + (2.0 * F2 + 3.0 * F3 * t) * t);
    om = DEGREES_2_RADIANS * std::fmod(OM0 + (OM1 + (OM2 + OM3 * t) * t) * t, 360.0);
    dom = DEGREES_2_RADIANS * (OM1 + (2.0 * OM2 + 3.0 * OM3 * t) * t);
    const LDBL sin_om = std::sin(om);
    const LDBL cos_om = std::cos(om);
    const LDBL dom_cos_om = dom * cos_om;
    LDBL theta = DEGREES_2_RADIANS * (PA0 + PA1 * t);
    const LDBL wa = std::sin(theta);
    const LDBL dwa = DEGREES_2_RADIANS * PA1 * std::cos(theta);
    theta = DEGREES_2_RADIANS * (PE0 + (PE1 + PE2 * t) * t);
    const LDBL wb = PEC * std::sin(theta);
    const LDBL dwb = DEGREES_2_RADIANS * PEC * (PE1 + 2.0 * PE2 * t) * std::cos(theta);
    elp = elp + DEGREES_2_RADIANS * (PAC * wa + wb + PFC * sin_om);
    delp = delp + DEGREES_2_RADIANS * (PAC * dwa + dwb + PFC * dom_cos_om);
    em = em + DEGREES_2_RADIANS * PBC * wa;
    dem = dem + DEGREES_2_RADIANS * PBC * dwa;
    emp = emp + DEGREES_2_RADIANS * (PCC * wa + wb + PGC * sin_om);
    demp = demp + DEGREES_2_RADIANS * (PCC * dwa + dwb + PGC * dom_cos_om);
    d = d + DEGREES_2_RADIANS * (PDC * wa + wb + PHC * sin_om);
    dd = dd + DEGREES_2_RADIANS * (PDC * dwa + dwb + PHC * dom_cos_om);
    const LDBL wom = om + DEGREES_2_RADIANS * (PJ0 + PJ1 * t);
    const LDBL dwom = dom + DEGREES_2_RADIANS * PJ1;
    const LDBL sin_wom = std::sin(wom);
    const LDBL cos_wom = std::cos(wom);
    f = f + DEGREES_2_RADIANS * (wb + PIC * sin_om + PJC * sin_wom);
    df = df + DEGREES_2_RADIANS * (dwb + PIC * dom_cos_om + PJC * dwom * cos_wom);
    e = 1.0 + (E1 + E2 * t) * t;
    de = E1 + 2.0 * E2 * t;
    esq = e * e;
    desq = 2.0 * e * de;
    int n, i;
    LDBL v = 0.0;
    LDBL dv = 0.0;
    LDBL coeff, emn, empn, dn, fn, en, den, dtheta, ftheta;
    for (n = NL - 1; n >= 0; n--) {
        coeff = TL[n];
        emn = (LDBL) ITL[n][0];
        empn = (LDBL) ITL[n][1];
        dn = (LDBL) ITL[n][2];
        fn = (LDBL) ITL[n][3];
        i = ITL[n][4];
        if (i == 0) {
            en = 1.0;
            den = 0.0;
        } else if (i == 1) {
            en = e;
            den = de;
        } else {
            en = esq;
            den = desq;
        }
        theta = emn * em + empn * emp + dn * d + fn * f;
        dtheta = emn * dem + empn * demp + dn * dd + fn * df;
        ftheta = std::sin(theta);
        v += coeff * ftheta * en;
        dv += coeff * (std::cos(theta) * dtheta * en + ftheta * den);
    }
    const LDBL el = elp + DEGREES_2_RADIANS * v;
    const LDBL del = (delp + DEGREES_2_RADIANS * dv) / SECONDS_PER_JCENTURY;
    v = 0.0;
    dv = 0.0;
    for (n = NB - 1; n >= 0; n--) {
        coeff = TB[n];
        emn = (LDBL) ITB[n][0];
        empn = (LDBL) ITB[n][1];
        dn = (LDBL) ITB[n][2];
        fn = (LDBL) ITB[n][3];
        i = ITB[n][4];
        if (i == 0) {
            en = 1.0;
            den = 0.0;
        } else if (i == 1) {
            en = e;
            den = de;
        } else {
            en = esq;
            den = desq;
        }
        theta = emn * em + empn * emp + dn * d + fn * f;
        dtheta = emn * dem + empn * demp + dn * dd + fn * df;
        ftheta = std::sin(theta);
        v += coeff * ftheta * en;
        dv += coeff * (std::cos(theta) * dtheta * en + ftheta * den);
    }
    const LDBL bf = 1.0 - CW1 * cos_om - CW2 * cos_wom;
    const LDBL dbf = CW1 * dom * sin_om + CW2 * dwom * sin_wom;
    const LDBL b = DEGREES_2_RADIANS * v * bf;
    const LDBL db = DEGREES_2_RADIANS * (dv * bf + v * dbf) / SECONDS_PER_JCENTURY;
    v = 0.0;
    dv = 0.0;
    for (n = NP - 1; n >= 0; n--) {
        coeff = TP[n];
        emn = (LDBL) ITP[n][0];
        empn = (LDBL) ITP[n][1];
        dn = (LDBL) ITP[n][2];
        fn = (LDBL) ITP[n][3];
        i = ITP[n][4];
        if (i == 0) {
            en = 1.0;
            den = 0.0;
        } else if (i == 1) {
            en = e;
            den = de;
        } else {
            en = esq;
            den = desq;
        }
        theta = emn * em + empn * emp + dn * d + fn * f;
        dtheta = emn * dem + empn * demp + dn * dd + fn * df;
        ftheta = std::cos(theta);
        v += coeff * ftheta * en;
        dv += coeff * (-std::sin(theta) * dtheta * en + ftheta * den);
    }
    const LDBL p = DEGREES_2_RADIANS * v;
    const LDBL dp = DEGREES_2_RADIANS * dv / SECONDS_PER_JCENTURY;
    const LDBL sin_p = std::sin(p);
    const LDBL r = EARTH_RADIUS_AU / sin_p;
    const LDBL dr = -r * dp * std::cos(p) / sin_p;
    const LDBL sel = std::sin(el);
    const LDBL cel = std::cos(el);
    const LDBL sb = std::sin(b);
    const LDBL cb = std::cos(b);
    const LDBL rcb = r * cb;
    const LDBL rbd = r * db;
    const LDBL w = rbd * sb - cb * dr;
    const LDBL x = rcb * cel;
    const LDBL y = rcb * sel;
    const LDBL z = r * sb;
    const LDBL xd = -y * del - w * cel;
    const LDBL yd = x * del - w * sel;
    const LDBL zd = rbd * cb + sb * dr;
    t = (date - 51544.5) / 36525.0;
    const LDBL epj = 2000.0 + t * 100.0;
    const LDBL eqcor = SECONDS_2_RADIANS * (0.035 + 0.00085 * (epj - JEPOCH_B1950));
    const LDBL eps = ARCSECONDS_2_RADIANS * (84381.448 + (-46.8150 + (-0.00059 + 0.001813 * t) * t) * t);
    const LDBL sin_eps = std::sin(eps);
    const LDBL cos_eps = std::cos(eps);
    const LDBL es = eqcor * sin_eps;
    const LDBL ec = eqcor * cos_eps;
    pv.set_x(x - ec * y + es * z);
    pv.set_y(eqcor * x + y * cos_eps - z * sin_eps);
    pv.set_z(y * sin_eps + z * cos_eps);
    pv.set_dx(xd - ec * yd + es * zd);
    pv.set_dy(eqcor * xd + yd * cos_eps - zd * sin_eps);
    pv.set_dz(yd * sin_eps + zd * cos_eps);
}
}
