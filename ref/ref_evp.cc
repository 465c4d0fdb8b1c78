// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.
#include "slaref.h"
#include "slaref_f77.h"
#include <cmath>
#include <cstring>
#include <cstdint>
#include <algorithm>
// ---- evp

namespace slaref {
void evp(LDBL date, LDBL deqx,
    Vector<LDBL> bvelo, Vector<LDBL> bpos, Vector<LDBL> hvelo, Vector<LDBL> hpos) {
    LDBL sn[4], forbel[7], sorbel[17], sinlp[4], coslp[4];
    const LDBL& e = sorbel[0];
    const LDBL& g = forbel[0];
    constexpr LDBL DC2PI = 6.2831853071796;
    constexpr LDBL CC2PI = 6.283185f;
    constexpr LDBL DS2R = 0.7272205216643e-4;
    constexpr LDBL B1950 = 1949.9997904423;
    static const LDBL DCFEL[8][3] = {
        {1.7400353e+00, 6.2833195099091e+02,  5.2796e-06},
        {6.2565836e+00, 6.2830194572674e+02, -2.6180e-06},
        {4.7199666e+00, 8.3997091449254e+03, -1.9780e-05},
        {1.9636505e-01, 8.4334662911720e+03, -5.6044e-05},
        {4.1547339e+00, 5.2993466764997e+01,  5.8845e-06},
        {4.6524223e+00, 2.1354275911213e+01,  5.6797e-06},
        {4.2620486e+00, 7.5025342197656e+00,  5.5317e-06},
        {1.4740694e+00, 3.8377331909193e+00,  5.6093e-06}
    };
    static const LDBL DCEPS[3] = {
        4.093198e-01,   -2.271110e-04,  -2.860401e-08
    };
    static const LDBL CCSEL[17][3] = {
        {1.675104e-02f, -4.179579e-05f, -1.260516e-07f},
        {2.220221e-01f,  2.809917e-02f,  1.852532e-05f},
        {1.589963e+00f,  3.418075e-02f,  1.430200e-05f},
        {2.994089e+00f,  2.590824e-02f,  4.155840e-06f},
        {8.155457e-01f,  2.486352e-02f,  6.836840e-06f},
        {1.735614e+00f,  1.763719e-02f,  6.370440e-06f},
        {1.968564e+00f,  1.524020e-02f, -2.517152e-06f},
        {1.282417e+00f,  8.703393e-03f,  2.289292e-05f},
        {2.280820e+00f,  1.918010e-02f,  4.484520e-06f},
        {4.833473e-02f,  1.641773e-04f, -4.654200e-07f},
        {5.589232e-02f, -3.455092e-04f, -7.388560e-07f},
        {4.634443e-02f, -2.658234e-05f,  7.757000e-08f},
        {8.997041e-03f,  6.329728e-06f, -1.939256e-09f},
        {2.284178e-02f, -9.941590e-05f,  6.787400e-08f},
        {4.350267e-02f, -6.839749e-05f, -2.714956e-07f},
        {1.348204e-02f,  1.091504e-05f,  6.903760e-07f},
        {3.106570e-02f, -1.665665e-04f, -1.590188e-07f}
    };
    static const LDBL DCARGS[15][2] = {
        {5.0974222e+00, -7.8604195454652e+02},
        {3.9584962e+00, -5.7533848094674e+02},
        {1.6338070e+00, -1.1506769618935e+03},
        {2.5487111e+00, -3.9302097727326e+02},
        {4.9255514e+00, -5.8849265665348e+02},
        {1.3363463e+00, -5.5076098609303e+02},
        {1.6072053e+00, -5.2237501616674e+02},
        {1.3629480e+00, -1.1790629318198e+03},
        {5.5657014e+00, -1.0977134971135e+03},
        {5.0708205e+00, -1.5774000881978e+02},
        {3.9318944e+00,  5.2963464780000e+01},
        {4.8989497e+00,  3.9809289073258e+01},
        {1.3097446e+00,  7.7540959633708e+01},
        {3.5147141e+00,  7.9618578146517e+01},
        {3.5413158e+00, -5.4868336758022e+02}
    };
    static const LDBL CCAMPS[15][5] = {
        {-2.279594e-5f,  1.407414e-5f,  8.273188e-6f,  1.340565e-5f, -2.490817e-7f},
        {-3.494537e-5f,  2.860401e-7f,  1.289448e-7f,  1.627237e-5f, -1.823138e-7f},
        { 6.593466e-7f,  1.322572e-5f,  9.258695e-6f, -4.674248e-7f, -3.646275e-7f},
        { 1.140767e-5f, -2.049792e-5f, -4.747930e-6f, -2.638763e-6f, -1.245408e-7f},
        { 9.516893e-6f, -2.748894e-6f, -1.319381e-6f, -4.549908e-6f, -1.864821e-7f},
        { 7.310990e-6f, -1.924710e-6f, -8.772849e-7f, -3.334143e-6f, -1.745256e-7f},
        {-2.603449e-6f,  7.359472e-6f,  3.168357e-6f,  1.119056e-6f, -1.655307e-7f},
        {-3.228859e-6f,  1.308997e-7f,  1.013137e-7f,  2.403899e-6f, -3.736225e-7f},
        { 3.442177e-7f,  2.671323e-6f,  1.832858e-6f, -2.394688e-7f, -3.478444e-7f},
        { 8.702406e-6f, -8.421214e-6f, -1.372341e-6f, -1.455234e-6f, -4.998479e-8f},
        {-1.488378e-6f, -1.251789e-5f,  5.226868e-7f, -2.049301e-7f,  0.0f},
        {-8.043059e-6f, -2.991300e-6f,  1.473654e-7f, -3.154542e-7f,  0.0f},
        { 3.699128e-6f, -3.316126e-6f,  2.901257e-7f,  3.407826e-7f,  0.0f},
        { 2.550120e-6f, -1.241123e-6f,  9.901116e-8f,  2.210482e-7f,  0.0f},
        {-6.351059e-7f,  2.341650e-6f,  1.061492e-6f,  2.878231e-7f,  0.0f}
    };
    constexpr LDBL CCSEC3 = -7.757020e-08f;
    static const LDBL CCSEC[4][3] = {
        {1.289600e-06f, 5.550147e-01f, 2.076942e+00f},
        {3.102810e-05f, 4.035027e+00f, 3.525565e-01f},
        {9.124190e-06f, 9.990265e-01f, 2.622706e+00f},
        {9.793240e-07f, 5.508259e+00f, 1.559103e+01f}
    };
    constexpr LDBL DCSLD = 1.990987e-07;
    constexpr LDBL CCSGD = 1.990969e-07f;
    constexpr LDBL CCKM = 3.122140e-05f;
    constexpr LDBL CCMLD = 2.661699e-06f;
    constexpr LDBL CCFDI = 2.399485e-07f;
    static const LDBL DCARGM[3][2] = {
        {5.1679830e+00,  8.3286911095275e+03},
        {5.4913150e+00, -7.2140632838100e+03},
        {5.9598530e+00,  1.5542754389685e+04}
    };
    static const LDBL CCAMPM[3][4] = {
        { 1.097594e-01, 2.896773e-07, 5.450474e-02,  1.438491e-07},
        {-2.223581e-02, 5.083103e-08, 1.002548e-02, -2.291823e-08},
        { 1.148966e-02, 5.658888e-08, 8.249439e-03,  4.063015e-08}
    };
    static const LDBL CCPAMV[4] = {
        8.326827e-11,1.843484e-11,1.988712e-12,1.881276e-12
    };
    constexpr LDBL DC1MME = 0.99999696;
    static const LDBL CCPAM[4] = {
        4.960906e-3, 2.727436e-3, 8.392311e-4, 1.556861e-3
    };
    constexpr LDBL CCIM = 8.978749e-2f;
    bool deq = false;
    if (deqx > 0.0) {
        deq = true;
    }
    const LDBL dt = (date - 15019.5) / 36525.0;
    auto t = (const LDBL) dt;
    const LDBL dtsq = dt * dt;
    auto tsq = (const LDBL) dtsq;
    int k;
    LDBL dml;
    for (k = 0; k < 8; k++) {
        const LDBL local = std::fmod(DCFEL[k][0] + dt * DCFEL[k][1] + dtsq * DCFEL[k][2], DC2PI);
        if (k == 0) {
            dml = local;
        } else {
            forbel[k - 1] = (LDBL) local;
        }
    }
    const LDBL deps = std::fmod(DCEPS[0] + dt * DCEPS[1] + dtsq * DCEPS[2], DC2PI);
    for (k = 0; k < 17; k++) {
        sorbel[k] = std::fmod(CCSEL[k][0] + t * CCSEL[k][1] + tsq * CCSEL[k][2], CC2PI);
    }
    LDBL a;
    for (k = 0; k < 4; k++) {
        a = std::fmod(CCSEC[k][1] + t * CCSEC[k][2], CC2PI);
        sn[k] = std::sin(a);
    }
    LDBL pertl = CCSEC[0][0] * sn[0] + CCSEC[1][0] * sn[1] + (CCSEC[2][0] + t * CCSEC3) * sn[2] + CCSEC[3][0] * sn[3];
    LDBL pertld = 0.0f;
    LDBL pertr = 0.0f;
    LDBL pertrd = 0.0f;
    LDBL cos_a, sin_a;
    for (k = 0; k < 15; k++) {
        a = LDBL(std::fmod(DCARGS[k][0] + dt * DCARGS[k][1], DC2PI));
        cos_a = std::cos(a);
        sin_a = std::sin(a);
        pertl += CCAMPS[k][0] * cos_a + CCAMPS[k][1] * sin_a;
        pertr += CCAMPS[k][2] * cos_a + CCAMPS[k][3] * sin_a;
        if (k < 10) {
            pertld += (CCAMPS[k][1] * cos_a - CCAMPS[k][0] * sin_a) * CCAMPS[k][4];
            pertrd += (CCAMPS[k][3] * cos_a - CCAMPS[k][2] * sin_a) * CCAMPS[k][4];
        }
    }
    const LDBL esq = e * e;
    const LDBL dparam = 1.0 - LDBL(esq);
    auto param = (const LDBL) dparam;
    const LDBL two_e = e + e;
    const LDBL two_g = g + g;
    const LDBL phi = two_e * ((1.0f - esq * 0.125f) * std::sin(g) + e * 0.625f * std::sin(two_g) +
        esq * 0.54166667f * std::sin(g + two_g));
    const LDBL f = g + phi;
    const LDBL sin_f = std::sin(f);
    const LDBL cos_f = std::cos(f);
    const LDBL dpsi = dparam / (1.0 + LDBL(e * cos_f));
    const LDBL phid = two_e * CCSGD * ((1.0f + esq * 1.5f) * cos_f + e * (1.25f - sin_f * sin_f * 0.5f));
    const LDBL psid = CCSGD * e * sin_f / std::sqrt(param);
    const LDBL d1pdro = 1.0 + LDBL(pertr);
    const LDBL drd = d1pdro * (LDBL(psid) + dpsi * LDBL(pertrd));
    const LDBL drld = d1pdro * dpsi * (DCSLD + LDBL(phid) + LDBL(pertld));
    const LDBL dtl = std::fmod(dml + LDBL(phi) + LDBL(pertl), DC2PI);
    const LDBL dsinls = std::sin(dtl);
    const LDBL dcosls = std::cos(dtl);
    LDBL dxhd = drd * dcosls - drld * dsinls;
    LDBL dyhd = drd * dsinls + drld * dcosls;
    pertl = 0.0f;
    pertld = 0.0f;
    LDBL pertp = 0.0f;
    LDBL pertpd = 0.0f;
    for (k = 0; k < 3; k++) {
        a = LDBL(std::fmod(DCARGM[k][0] + dt * DCARGM[k][1], DC2PI));
        sin_a = std::sin(a);
        cos_a = std::cos(a);
        pertl += CCAMPM[k][0] * sin_a;
        pertld += CCAMPM[k][1] * cos_a;
        pertp += CCAMPM[k][2] * cos_a;
        pertpd -= CCAMPM[k][3] * sin_a;
    }
    LDBL tl = forbel[1] + pertl;
    const LDBL sinlm = std::sin(tl);
    const LDBL coslm = std::cos(tl);
    const LDBL sigma = CCKM / (1.0f + pertp);
    a = sigma * (CCMLD + pertld);
    LDBL b = sigma * pertpd;
    dxhd = dxhd + LDBL(a * sinlm) + LDBL(b * coslm);
    dyhd = dyhd - LDBL(a * coslm) + LDBL(b * sinlm);
    const LDBL dzhd = -LDBL(sigma * CCFDI * std::cos(forbel[2]));
    LDBL dxbd = dxhd * DC1MME;
    LDBL dybd = dyhd * DC1MME;
    LDBL dzbd = dzhd * DC1MME;
    for (k = 0; k < 4; k++) {
        const LDBL plon = forbel[k + 3];
        const LDBL pomg = sorbel[k + 1];
        const LDBL pecc = sorbel[k + 9];
        tl = std::fmod(plon + 2.0f * pecc * std::sin(plon - pomg), CC2PI);
        sinlp[k] = std::sin(tl);
        coslp[k] = std::cos(tl);
        dxbd += LDBL(CCPAMV[k] * (sinlp[k] + pecc * std::sin(pomg)));
        dybd -= LDBL(CCPAMV[k] * (coslp[k] + pecc * std::cos(pomg)));
        dzbd -= LDBL(CCPAMV[k] * sorbel[k + 13] * std::cos(plon - sorbel[k + 5]));
    }
    const LDBL dcosep = std::cos(deps);
    const LDBL dsinep = std::sin(deps);
    const LDBL dyahd = dcosep * dyhd - dsinep * dzhd;
    const LDBL dzahd = dsinep * dyhd + dcosep * dzhd;
    const LDBL dyabd = dcosep * dybd - dsinep * dzbd;
    const LDBL dzabd = dsinep * dybd + dcosep * dzbd;
    const LDBL dr = dpsi * d1pdro;
    const LDBL flatm = CCIM * std::sin(forbel[2]);
    a = sigma * std::cos(flatm);
    const LDBL dxh = dr * dcosls - LDBL(a * coslm);
    const LDBL dyh = dr * dsinls - LDBL(a * sinlm);
    const LDBL dzh = -LDBL(sigma * std::sin(flatm));
    LDBL dxb = dxh * DC1MME;
    LDBL dyb = dyh * DC1MME;
    LDBL dzb = dzh * DC1MME;
    for (k = 0; k < 4; k++) {
        const LDBL flat = sorbel[k + 13] * std::sin(forbel[k + 3] - sorbel[k + 5]);
        a = CCPAM[k] * (1.0f - sorbel[k + 9] * std::cos(forbel[k + 3] - sorbel[k + 1]));
        b = a * std::cos(flat);
        dxb -= LDBL(b * coslp[k]);
        dyb -= LDBL(b * sinlp[k]);
        dzb -= LDBL(a * std::sin(flat));
    }
    const LDBL dyah = dcosep * dyh - dsinep * dzh;
    const LDBL dzah = dsinep * dyh + dcosep * dzh;
    const LDBL dyab = dcosep * dyb - dsinep * dzb;
    const LDBL dzab = dsinep * dyb + dcosep * dzb;
    const LDBL depj = epj(date);
    const LDBL deqcor = DS2R * (0.035 + 0.00085 * (depj - B1950));
    hvelo[0] = dxhd - deqcor * dyahd;
    hvelo[1] = dyahd + deqcor * dxhd;
    hvelo[2] = dzahd;
    bvelo[0] = dxbd - deqcor * dyabd;
    bvelo[1] = dyabd + deqcor * dxbd;
    bvelo[2] = dzabd;
    hpos[0] = dxh - deqcor * dyah;
    hpos[1] = dyah + deqcor * dxh;
    hpos[2] = dzah;
    bpos[0] = dxb - deqcor * dyab;
    bpos[1] = dyab + deqcor * dxb;
    bpos[2] = dzab;
    if (deq) {
        Matrix<LDBL> mat;
        prec(depj, deqx, mat);
        Vector<LDBL> vec;
        LDBL w;
        int i, j;
        for (j = 0; j < 3; j++) {
            w = 0.0;
            for (i = 0; i < 3; i++) {
                w += mat[j][i] * hvelo[i];
            }
            vec[j] = w;
        }
        for (j = 0; j < 3; j++) {
            hvelo[j] = vec[j];
        }
        for (j = 0; j < 3; j++) {
            w = 0.0;
            for (i = 0; i < 3; i++) {
                w += mat[j][i] * bvelo[i];
            }
            vec[j] = w;
        }
        for (j = 0; j < 3; j++) {
            bvelo[j] = vec[j];
        }
        for (j = 0; j < 3; j++) {
            w = 0.0;
            for (i = 0; i < 3; i++) {
                w += mat[j][i] * hpos[i];
            }
            vec[j] = w;
        }
        for (j = 0; j < 3; j++) {
            hpos[j] = vec[j];
        }
        for (j = 0; j < 3; j++) {
            w = 0.0;
            for (i = 0; i < 3; i++) {
                w += mat[j][i] * bpos[i];
            }
            vec[j] = w;
        }
        for (j = 0; j < 3; j++) {
            bpos[j] = vec[j];
        }
    }
}
}
