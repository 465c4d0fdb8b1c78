// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.
#include "slaref.h"
#include "slaref_f77.h"
#include <cmath>
#include <cstring>
#include <cstdint>
#include <algorithm>
// ---- moon

namespace slaref {
void moon(int year, int day, LDBL fraction, VectorPV<LDBL>& pv) {
    constexpr LDBL DEGREES_2_RADIANS = 1.745329252e-2f;
    constexpr LDBL RATE_CONV_FACTOR = 9.652743551e-12f;
    constexpr LDBL EARTH_RADIUS_AU = 4.2635212653763e-5f;
    constexpr LDBL ELP0 = 270.434164f,
        ELP1 = 4812.678831f,
        ELP1I = 4680.0f,
        ELP1F = 132.678831f;
    constexpr LDBL EM0 = 358.475833f,
        EM1 = 359.990498f,
        EM1F = 359.990498f;
    constexpr LDBL EMP0 = 296.104608f,
        EMP1 = 4771.988491f,
        EMP1I = 4680.0f,
        EMP1F = 91.988491f;
    constexpr LDBL D0 = 350.737486f,
        D1 = 4452.671142f,
        D1I = 4320.0f,
        D1F = 132.671142f;
    constexpr LDBL F0 = 11.250889f,
        F1 = 4832.020251f,
        F1I = 4680.0f,
        F1F = 152.020251;
    static const LDBL TL[39] = {
        +6.288750f, +1.274018f, +0.658309f, +0.213616f, -0.185596f,
        -0.114336f, +0.058793f, +0.057212f, +0.053320f, +0.045874f,
        +0.041024f, -0.034718f, -0.030465f, +0.015326f, -0.012528f,
        -0.010980f, +0.010674f, +0.010034f, +0.008548f, -0.007910f,
        -0.006783f, +0.005162f, +0.005000f, +0.004049f, +0.003996f,
        +0.003862f, +0.003665f, +0.002695f, +0.002602f, +0.002396f,
        -0.002349f, +0.002249f, -0.002125f, -0.002079f, +0.002059f,
        -0.001773f, -0.001595f, +0.001220f, -0.001110f
    };
    static const int8_t ITL[39][4] = {
        {0,  +1, 0,  0},
        {0,  -1, +2, 0},
        {0,  0,  +2, 0},
        {0,  +2, 0,  0},
        {+1, 0,  0,  0},
        {0,  0,  0,  +2},
        {0,  -2, +2, 0},
        {-1, -1, +2, 0},
        {0,  +1, +2, 0},
        {-1, 0,  +2, 0},
        {-1, +1, 0,  0},
        {0,  0,  +1, 0},
        {+1, +1, 0,  0},
        {0,  0,  +2, -2},
        {0,  +1, 0,  +2},
        {0,  -1, 0,  +2},
        {0,  -1, +4, 0},
        {0,  +3, 0,  0},
        {0,  -2, +4, 0},
        {+1, -1, +2, 0},
        {+1, 0,  +2, 0},
        {0,  +1, -1, 0},
        {+1, 0,  +1, 0},
        {-1, +1, +2, 0},
        {0,  +2, +2, 0},
        {0,  0,  +4, 0},
        {0,  -3, +2, 0},
        {-1, +2, 0,  0},
        {0,  +1, -2, -2},
        {-1, -2, +2, 0},
        {0,  +1, +1, 0},
        {-2, 0,  +2, 0},
        {+1, +2, 0,  0},
        {+2, 0,  0,  0},
        {-2, -1, +2, 0},
        {0,  +1, +2, -2},
        {0,  0,  +2, +2},
        {-1, -1, +4, 0},
        {0,  +2, 0,  +2}
    };
    static const LDBL TB[29] = {
        +5.128189f, +0.280606f, +0.277693f, +0.173238f, +0.055413f,
        +0.046272f, +0.032573f, +0.017198f, +0.009267f, +0.008823f,
        +0.008247f, +0.004323f, +0.004200f, +0.003372f, +0.002472f,
        +0.002222f, +0.002072f, +0.001877f, +0.001828f, -0.001803f,
        -0.001750f, +0.001570f, -0.001487f, -0.001481f, +0.001417f,
        +0.001350f, +0.001330f, +0.001106f, +0.001020f
    };
    static const int8_t ITB[29][4] = {
        {0,  0,  0,  +1},
        {0,  +1, 0,  +1},
        {0,  +1, 0,  -1},
        {0,  0,  +2, -1},
        {0,  -1, +2, +1},
        {0,  -1, +2, -1},
        {0,  0,  +2, +1},
        {0,  +2, 0,  +1},
        {0,  +1, +2, -1},
        {0,  +2, 0,  -1},
        {-1, 0,  +2, -1},
        {0,  -2, +2, -1},
        {0,  +1, +2, +1},
        {-1, 0,  -2, +1},
        {-1, -1, +2, +1},
        {-1, 0,  +2, +1},
        {-1, -1, +2, -1},
        {-1, +1, 0,  +1},
        {0,  -1, +4, -1},
        {+1, 0,  0,  +1},
        {0,  0,  0,  +3},
        {-1, +1, 0,  -1},
        {0,  0,  +1, +1},
        {+1, +1, 0,  +1},
        {-1, -1, 0,  +1},
        {-1, 0,  0,  +1},
        {0,  0,  -1, +1},
        {0,  +3, 0,  +1},
        {0,  0,  +4, -1}
    };
    static const LDBL TP[4] = {
        +0.051818f, +0.009531f, +0.007843f, +0.002824f
    };
    static const int8_t ITP[4][4] = {
        {0, +1, 0,  0},
        {0, -1, +2, 0},
        {0, 0,  +2, 0},
        {0, +2, 0,  0}
    };
    const LDBL yi = LDBL(year - 1900);
    const int iy4 = ((year % 4) + 4) % 4;
    const LDBL yf = (LDBL(4 * (day - 1 / (iy4 + 1)) - iy4 - 2) + 4.0f * fraction) / 1461.0f;
    const LDBL t = yi + yf;
    const LDBL elp = DEGREES_2_RADIANS * std::fmod(ELP0 + ELP1I * yf + ELP1F * t, 360.0f);
    const LDBL em = DEGREES_2_RADIANS * std::fmod(EM0 + EM1F * t, 360.0f);
    const LDBL emp = DEGREES_2_RADIANS * std::fmod(EMP0 + EMP1I * yf + EMP1F * t, 360.0f);
    const LDBL d = DEGREES_2_RADIANS * std::fmod(D0 + D1I * yf + D1F * t, 360.0f);
    const LDBL f = DEGREES_2_RADIANS * std::fmod(F0 + F1I * yf + F1F * t, 360.0f);
    LDBL el = 0.0f;
    LDBL eld = 0.0f;
    LDBL coeff, cem, cemp, cd, cf, theta, thetad;
    int i;
    for (i = 38; i >= 0; i--) {
        coeff = TL[i];
        cem = (LDBL) ITL[i][0];
        cemp = (LDBL) ITL[i][1];
        cd = (LDBL) ITL[i][2];
        cf = (LDBL) ITL[i][3];
        theta = cem * em + cemp * emp + cd * d + cf * f;
        thetad = cem * EM1 + cemp * EMP1 + cd * D1 + cf * F1;
        el += coeff * std::sin(theta);
        eld += coeff * std::cos(theta) * thetad;
    }
    el = el * DEGREES_2_RADIANS + elp;
    eld = RATE_CONV_FACTOR * (eld + ELP1 / DEGREES_2_RADIANS);
    LDBL b = 0.0f;
    LDBL bd = 0.0f;
    for (i = 28; i >= 0; i--) {
        coeff = TB[i];
        cem = (LDBL) ITB[i][0];
        cemp = (LDBL) ITB[i][1];
        cd = (LDBL) ITB[i][2];
        cf = (LDBL) ITB[i][3];
        theta = cem * em + cemp * emp + cd * d + cf * f;
        thetad = cem * EM1 + cemp * EMP1 + cd * D1 + cf * F1;
        b += coeff * std::sin(theta);
        bd += coeff * std::cos(theta) * thetad;
    }
    b *= DEGREES_2_RADIANS;
    bd *= RATE_CONV_FACTOR;
    LDBL p = 0.0f;
    LDBL pd = 0.0f;
    for (i = 3; i >= 0; i--) {
        coeff = TP[i];
        cem = (LDBL) ITP[i][0];
        cemp = (LDBL) ITP[i][1];
        cd = (LDBL) ITP[i][2];
        cf = (LDBL) ITP[i][3];
        theta = cem * em + cemp * emp + cd * d + cf * f;
        thetad = cem * EM1 + cemp * EMP1 + cd * D1 + cf * F1;
        p += coeff * std::cos(theta);
        pd -= coeff * std::sin(theta) * thetad;
    }
    p = (p + 0.950724f) * DEGREES_2_RADIANS;
    pd *= RATE_CONV_FACTOR;
    const LDBL sp = std::sin(p);
    const LDBL r = EARTH_RADIUS_AU / sp;
    const LDBL rd = -r * pd / sp;
    VectorPV<LDBL> v;
    cs2c6({{{el, b}, r}, {{eld, bd}, rd}}, v);
    const LDBL eps = DEGREES_2_RADIANS * (23.45229f - 0.00013f * t);
    const LDBL sin_eps = std::sin(eps);
    const LDBL cos_eps = std::cos(eps);
    pv.set_x(v.get_x());
    pv.set_y(v.get_y() * cos_eps - v.get_z() * sin_eps);
    pv.set_z(v.get_y() * sin_eps + v.get_z() * cos_eps);
    pv.set_dx(v.get_dx());
    pv.set_dy(v.get_dy() * cos_eps - v.get_dz() * sin_eps);
    pv.set_dz(v.get_dy() * sin_eps + v.get_dz() * cos_eps);
}
}
