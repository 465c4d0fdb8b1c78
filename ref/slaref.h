// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.

#ifndef SLAREF_H_INCLUDED
#define SLAREF_H_INCLUDED
using LDBL = long double;
#include <cassert>
#include <type_traits>
namespace slaref {
enum Catalogue {
    CAT_NONE = 0, 
    CAT_FC,       
    CAT_NFK,      
    CAT_FK3,      
    CAT_FK4,      
    CAT_FK5,      
    CAT_FK6       
};
enum D2RStatus {
    D2R_OK = 0,         
    D2R_BAD_DEGREES,    
    D2R_BAD_ARCMINUTES, 
    D2R_BAD_ARCSECONDS  
};
enum G2JStatus {
    G2J_OK = 0,    
    G2J_BAD_YEAR,  
    G2J_BAD_MONTH, 
    G2J_BAD_DAY    
};
enum T2DStatus {
    T2D_OK = 0,      
    T2D_BAD_HOURS,   
    T2D_BAD_MINUTES, 
    T2D_BAD_SECONDS  
};
enum FITStatus {
    FIT_OK = 0,       
    FIT_INSUFFICIENT, 
    FIT_NONE          
};
enum CPStatus {
    CPS_OK = 0,      
    CPS_NO_MORE,     
    CPS_INVALID_ARG  
};
enum TPPStatus {
    TPP_OK = 0,       
    TPP_TOO_FAR,      
    TPP_ASTAR_ON_TP,  
    TPP_ASTAR_TOO_FAR 
};
template<typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
using Vector = T[3];
template<typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
using Matrix = T[3][3];
template <typename T, int N, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
class Array {
    T a_data[N]; 
protected:
    [[nodiscard]] T get(int i) const {
        assert(i < N);
        return a_data[i];
    }
    void set(int i, T value) {
        assert(i < N);
        a_data[i] = value;
    }
public:
    [[nodiscard]] int get_nfields() const { return N; }
    [[nodiscard]] T* operator()() { return a_data; }
    [[nodiscard]] T& operator[](int i) {
        assert(i < N);
        return a_data[i];
    }
};
template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
struct Spherical {
    T s_a; 
    T s_b; 
    [[nodiscard]] T get_longitude() const { return s_a; }
    void set_longitude(T radians) { s_a = radians; }
    [[nodiscard]] T get_ra() const { return s_a; }
    void set_ra(T radians) { s_a = radians; }
    [[nodiscard]] T get_ha() const { return s_a; }
    void set_ha(T radians) { s_a = radians; }
    [[nodiscard]] T get_latitude() const { return s_b; }
    void set_latitude(T radians) { s_b = radians; }
    [[nodiscard]] T get_dec() const { return s_b; }
    void set_dec(T radians) { s_b = radians; }
};
template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
struct SphericalPos: public Spherical<T> {
    T sp_dist; 
    [[nodiscard]] T get_dist() const { return sp_dist; }
    void set_dist(T dist) { sp_dist = dist; }
};
template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
class VectorPV {
    Vector<T> vpv_pos;  
    Vector<T> vpv_velo; 
public:
    VectorPV() = default;
    VectorPV(const Vector<T>& position, const Vector<T>& velocity) {
        for (int i = 0; i < 3; i++) {
            vpv_pos[i] = position[i];
            vpv_velo[i] = velocity[i];
        }
    }
    void set_x(T x) { vpv_pos[0] = x; }
    [[nodiscard]] T get_x() const { return vpv_pos[0]; }
    void set_y(T y) { vpv_pos[1] = y; }
    [[nodiscard]] T get_y() const { return vpv_pos[1]; }
    void set_z(T z) { vpv_pos[2] = z; }
    [[nodiscard]] T get_z() const { return vpv_pos[2]; }
    void set_dx(T dx) { vpv_velo[0] = dx; }
    [[nodiscard]] T get_dx() const { return vpv_velo[0]; }
    void set_dy(T dy) { vpv_velo[1] = dy; }
    [[nodiscard]] T get_dy() const { return vpv_velo[1]; }
    void set_dz(T dz) { vpv_velo[2] = dz; }
    [[nodiscard]] T get_dz() const { return vpv_velo[2]; }
    const Vector<T>& get_position() const { return vpv_pos; }
    const Vector<T>& get_velocity() const { return vpv_velo; }
};
template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
class SphericalPV {
    SphericalPos<T> spv_pos;  
    SphericalPos<T> spv_velo; 
public:
    SphericalPV() = default;
    SphericalPV(const SphericalPos<T>& position, const SphericalPos<T>& velocity) {
        spv_pos = position;
        spv_velo = velocity;
    }
    void set_longitude(T radians) { spv_pos.set_longitude(radians); }
    [[nodiscard]] T get_longitude() const { return spv_pos.get_longitude(); }
    void set_ra(T radians) { spv_pos.set_longitude(radians); }
    [[nodiscard]] T get_ra() const { return spv_pos.get_longitude(); }
    void set_latitude(T radians) { spv_pos.set_latitude(radians); }
    [[nodiscard]] T get_latitude() const { return spv_pos.get_latitude(); }
    void set_dec(T radians) { spv_pos.set_latitude(radians); }
    [[nodiscard]] T get_dec() const { return spv_pos.get_latitude(); }
    void set_dist(T dist) { spv_pos.set_dist(dist); }
    [[nodiscard]] T get_dist() const { return spv_pos.get_dist(); }
    void set_dlong(T rput) { spv_velo.set_longitude(rput); }
    [[nodiscard]] T get_dlong() const { return spv_velo.get_longitude(); }
    void set_dra(T rput) { spv_velo.set_longitude(rput); }
    [[nodiscard]] T get_dra() const { return spv_velo.get_longitude(); }
    void set_dlat(T rput) { spv_velo.set_latitude(rput); }
    [[nodiscard]] T get_dlat() const { return spv_velo.get_latitude(); }
    void set_ddec(T rput) { spv_velo.set_latitude(rput); }
    [[nodiscard]] T get_ddec() const { return spv_velo.get_latitude(); }
    void set_ddist(T der) { spv_velo.set_dist(der); }
    [[nodiscard]] T get_ddist() const { return spv_velo.get_dist(); }
    const Spherical<T>& get_direction() const { return spv_pos; }
    const SphericalPos<T>& get_position() const { return spv_pos; }
    const SphericalPos<T>& get_velocity() const { return spv_velo; }
};
struct Date {
    int    d_year;      
    int    d_month;     
    int    d_day;       
    int    d_ifraction; 
    LDBL d_fraction;  
};
struct Observatory {
    const char* o_id;     
    const char* o_name;   
    LDBL      o_long;   
    LDBL      o_lat;    
    LDBL      o_height; 
};
class AltazMount {
    LDBL am_azimuth;   
    LDBL am_az_vel;    
    LDBL am_az_accel;  
    LDBL am_elevation; 
    LDBL am_el_vel;    
    LDBL am_el_accel;  
    LDBL am_pangle;    
    LDBL am_pa_vel;    
    LDBL am_pa_accel;  
public:
    void set_azimuth(LDBL radians) { am_azimuth = radians; }
    [[nodiscard]] LDBL get_azimuth() const { return am_azimuth; }
    void set_az_velocity(LDBL velocity) { am_az_vel = velocity; }
    [[nodiscard]] LDBL get_az_velocity() const { return am_az_vel; }
    void set_az_acceleration(LDBL acceleration) { am_az_accel = acceleration; }
    [[nodiscard]] LDBL get_az_acceleration() const { return am_az_accel; }
    void set_elevation(LDBL radians) { am_elevation = radians; }
    [[nodiscard]] LDBL get_elevation() const { return am_elevation; }
    void set_el_velocity(LDBL velocity) { am_el_vel = velocity; }
    [[nodiscard]] LDBL get_el_velocity() const { return am_el_vel; }
    void set_el_acceleration(LDBL acceleration) { am_el_accel = acceleration; }
    [[nodiscard]] LDBL get_el_acceleration() const { return am_el_accel; }
    void set_pangle(LDBL radians) { am_pangle = radians; }
    [[nodiscard]] LDBL get_pangle() const { return am_pangle; }
    void set_pa_velocity(LDBL velocity) { am_pa_vel = velocity; }
    [[nodiscard]] LDBL get_pa_velocity() const { return am_pa_vel; }
    void set_pa_acceleration(LDBL acceleration) { am_pa_accel = acceleration; }
    [[nodiscard]] LDBL get_pa_acceleration() const { return am_pa_accel; }
};
class ConversionResult {
    int  cr_data[4]; 
    bool cr_sign;    
public:
    [[nodiscard]] int get_hours() const { return cr_data[0]; }
    void set_hours(int hours) { cr_data[0] = hours; }
    [[nodiscard]] int get_minutes() const { return cr_data[1]; }
    void set_minutes(int minutes) { cr_data[1] = minutes; }
    [[nodiscard]] int get_seconds() const { return cr_data[2]; }
    void set_seconds(int seconds) { cr_data[2] = seconds; }
    [[nodiscard]] int get_degrees() const { return cr_data[0]; }
    void set_degrees(int degrees) { cr_data[0] = degrees; }
    [[nodiscard]] int get_arcminutes() const { return cr_data[1]; }
    void set_arcminutes(int arcminutes) { cr_data[1] = arcminutes; }
    [[nodiscard]] int get_arcseconds() const { return cr_data[2]; }
    void set_arcseconds(int arcseconds) { cr_data[2] = arcseconds; }
    [[nodiscard]] int get_fraction() const { return cr_data[3]; }
    void set_fraction(int fraction) { cr_data[3] = fraction; }
    [[nodiscard]] char get_sign() const { return cr_sign? '+': '-'; }
    void set_sign(char sign) { cr_sign = sign == '+'; }
    void set_sign(bool sign) { cr_sign = sign; }
};
using XYSamples = LDBL[][2];
class FitCoeffs: public Array<LDBL, 6> {
    enum {
        I_A = 0, I_B, I_C, I_D, I_E, I_F
    };
public:
    void set_a(LDBL a) { set(I_A, a); }
    [[nodiscard]] LDBL get_a() const { return get(I_A); }
    void set_b(LDBL b) { set(I_B, b); }
    [[nodiscard]] LDBL get_b() const { return get(I_B); }
    void set_c(LDBL c) { set(I_C, c); }
    [[nodiscard]] LDBL get_c() const { return get(I_C); }
    void set_d(LDBL d) { set(I_D, d); }
    [[nodiscard]] LDBL get_d() const { return get(I_D); }
    void set_e(LDBL e) { set(I_E, e); }
    [[nodiscard]] LDBL get_e() const { return get(I_E); }
    void set_f(LDBL f) { set(I_F, f); }
    [[nodiscard]] LDBL get_f() const { return get(I_F); }
    Vector<LDBL>& get_abc() { return (Vector<LDBL>&) (*this)[I_A]; }
    Vector<LDBL>& get_def() { return (Vector<LDBL>&) (*this)[I_D]; }
};
int process_year_defaults(int year);
G2JStatus validate_gregorian_day(int year, int month, int day);
LDBL airmas(LDBL zenith_dist);
LDBL range(LDBL angle);
LDBL drange(LDBL angle);
LDBL ranorm(LDBL angle);
LDBL dranrm(LDBL angle);
void av2m(const Vector<LDBL> vec, Matrix<LDBL> mat);
void dav2m(const Vector<LDBL> vec, Matrix<LDBL> mat);
void cc2s(const Vector<LDBL> cartesian, Spherical<LDBL>& spherical);
void dcc2s(const Vector<LDBL> cartesian, Spherical<LDBL>& spherical);
void cs2c(const Spherical<LDBL>& spherical, Vector<LDBL> cartesian);
void dcs2c(const Spherical<LDBL>& spherical, Vector<LDBL> cartesian);
void euler(const char* order, LDBL phi, LDBL theta, LDBL psi, Matrix<LDBL> mat);
void deuler(const char* order, LDBL phi, LDBL theta, LDBL psi, Matrix<LDBL> mat);
void imxv(const Matrix<LDBL> mat, const Vector<LDBL> va, Vector<LDBL> vb);
void dimxv(const Matrix<LDBL> mat, const Vector<LDBL> va, Vector<LDBL> vb);
void m2av(const Matrix<LDBL> mat, Vector<LDBL> axis);
void dm2av(const Matrix<LDBL> mat, Vector<LDBL> axis);
void mxm(const Matrix<LDBL> ma, const Matrix<LDBL> mb, Matrix<LDBL> mc);
void dmxm(const Matrix<LDBL> ma, const Matrix<LDBL> mb, Matrix<LDBL> mc);
void mxv(const Matrix<LDBL> mat, const Vector<LDBL> va, Vector<LDBL> vb);
void dmxv(const Matrix<LDBL> mat, const Vector<LDBL> va, Vector<LDBL> vb);
LDBL vdv(const Vector<LDBL> va, const Vector<LDBL> vb);
LDBL dvdv(const Vector<LDBL> va, const Vector<LDBL> vb);
LDBL vn(const Vector<LDBL> vec, Vector<LDBL> nvec);
LDBL dvn(const Vector<LDBL> vec, Vector<LDBL> nvec);
void vxv(const Vector<LDBL> va, const Vector<LDBL> vb, Vector<LDBL> vc);
void dvxv(const Vector<LDBL> va, const Vector<LDBL> vb, Vector<LDBL> vc);
LDBL zd(const Spherical<LDBL>& dir, LDBL phi);
LDBL pa(const Spherical<LDBL>& dir, LDBL phi);
LDBL bear(const Spherical<LDBL>& da, const Spherical<LDBL>& db);
LDBL dbear(const Spherical<LDBL>& da, const Spherical<LDBL>& db);
LDBL pav(const Vector<LDBL> va, const Vector<LDBL> vb);
LDBL dpav(const Vector<LDBL> va, const Vector<LDBL> vb);
void e2h(const Spherical<LDBL>& dir, LDBL phi, LDBL& azimuth, LDBL& elevation);
void de2h(const Spherical<LDBL>& dir, LDBL phi, LDBL& azimuth, LDBL& elevation);
void h2e(LDBL azimuth, LDBL elevation, LDBL phi, Spherical<LDBL>& dir);
void dh2e(LDBL azimuth, LDBL elevation, LDBL phi, Spherical<LDBL>& dir);
D2RStatus caf2r(int degrees, int minutes, LDBL seconds, LDBL& radians);
D2RStatus daf2r(int degrees, int minutes, LDBL seconds, LDBL& radians);
G2JStatus cldj(int year, int month, int day, LDBL& mjd);
G2JStatus caldj(int year, int month, int day, LDBL& mjd);
G2JStatus clyd(int year, int month, int day, int& jyear, int& jday);
G2JStatus calyd(int year, int month, int day, int& jyear, int& jday);
bool djcal(int ndp, LDBL mjd, Date& date);
bool djcl(LDBL mjd, Date& date);
void cd2tf(int ndp, LDBL days, ConversionResult& result);
void dd2tf(int ndp, LDBL days, ConversionResult& result);
void cr2af(int ndp, LDBL angle, ConversionResult& result);
void dr2af(int ndp, LDBL angle, ConversionResult& result);
void cr2tf(int ndp, LDBL angle, ConversionResult& result);
void dr2tf(int ndp, LDBL angle, ConversionResult& result);
T2DStatus ctf2d(int hours, int minutes, LDBL seconds, LDBL& days);
T2DStatus dtf2d(int hours, int minutes, LDBL seconds, LDBL& radians);
T2DStatus ctf2r(int hours, int minutes, LDBL seconds, LDBL & radians);
T2DStatus dtf2r(int hours, int minutes, LDBL seconds, LDBL& radians);
LDBL dat(LDBL utc);
LDBL dt(LDBL epoch);
LDBL dtt(LDBL utc);
LDBL rcc(LDBL tdb, LDBL ut1, LDBL cl, LDBL cda, LDBL cdp);
LDBL gmst(LDBL ut1);
LDBL gmsta(LDBL date, LDBL fdate);
void atmdsp(LDBL atk, LDBL apm, LDBL arh, LDBL wl1, LDBL a1, LDBL b1, LDBL wl2, LDBL& a2, LDBL& b2);
void refcoq(LDBL atk, LDBL apm, LDBL arh, LDBL wl, LDBL& refa, LDBL& refb);
LDBL refro(LDBL ozd, LDBL oh, LDBL atk, LDBL apm, LDBL arh, LDBL wl, LDBL phi, LDBL tlr, LDBL eps);
void refco(LDBL oh, LDBL atk, LDBL apm, LDBL arh, LDBL wl, LDBL phi, LDBL tlr, LDBL eps,
    LDBL& refa, LDBL& refb);
void refv(const Vector<LDBL> vec, LDBL refa, LDBL refb, Vector<LDBL> rvec);
LDBL refz(LDBL zu, LDBL refa, LDBL refb);
void ecmat(LDBL date, Matrix<LDBL> mat);
bool dmat(int n, LDBL* mat, LDBL* vec, LDBL& det, int* ws);
inline bool dmat(Matrix<LDBL> mat, Vector<LDBL> vec, LDBL& det, int* ws) {
    return dmat(3, (LDBL*) mat, (LDBL*) vec, det, ws);
}
bool smat(int n, LDBL* mat, LDBL* vec, LDBL& det, int* ws);
int svd(int m, int n, int mp, int np, LDBL* a, LDBL* w, LDBL* v, LDBL* ws);
void svdsol(int m, int n, int mp, int np, const LDBL* b, const LDBL* u, const LDBL* w, const LDBL* v,
    LDBL* ws, LDBL* x);
void svdcov(int n, int np, int nc, const LDBL* w, const LDBL* v, LDBL* ws, LDBL* cvm);
void altaz(const Spherical<LDBL>& dir, LDBL phi, AltazMount& am);
void nutc(LDBL tdb, LDBL& psi, LDBL& eps, LDBL& eps0);
void nut(LDBL tdb, Matrix<LDBL> mat);
void nutc80(LDBL tdb, LDBL& psi, LDBL& eps, LDBL& eps0);
LDBL epj2d(LDBL je);
LDBL epj(LDBL mjd);
LDBL epb2d(LDBL be);
LDBL epb(LDBL mjd);
LDBL epco(char result, char given, LDBL epoch);
void prec(LDBL ep0, LDBL ep1, Matrix<LDBL> mat);
void precl(LDBL ep0, LDBL ep1, Matrix<LDBL> mat);
void prenut(LDBL je, LDBL mjd, Matrix<LDBL> mat);
LDBL dsepv(const Vector<LDBL> va, const Vector<LDBL> vb);
LDBL sepv(const Vector<LDBL> va, const Vector<LDBL> vb);
LDBL dsep(const Spherical<LDBL>& sa, const Spherical<LDBL>& sb);
LDBL sep(const Spherical<LDBL>& sa, const Spherical<LDBL>& sb);
void prebn(LDBL be0, LDBL be1, Matrix<LDBL> mat);
void preces(Catalogue system, LDBL ep0, LDBL ep1, Spherical<LDBL>& pos);
void supgal(const Spherical<LDBL>& sgal, Spherical<LDBL>& gal);
LDBL rverot(LDBL phi, const Spherical<LDBL>& pos, LDBL stime);
LDBL rvgalc(const Spherical<LDBL>& pos);
LDBL rvlg(const Spherical<LDBL>& pos);
LDBL rvlsrd(const Spherical<LDBL>& pos);
LDBL rvlsrk(const Spherical<LDBL>& pos);
void cc62s(const VectorPV<LDBL>& cartesian, SphericalPV<LDBL>& spherical);
void dc62s(const VectorPV<LDBL>& cartesian, SphericalPV<LDBL>& spherical);
void cs2c6(const SphericalPV<LDBL>& spv, VectorPV<LDBL>& pv);
void ds2c6(const SphericalPV<LDBL>& spv, VectorPV<LDBL>& pv);
void etrms(LDBL be, Vector<LDBL> et);
void addet(const Spherical<LDBL>& dir, LDBL be, Spherical<LDBL>& edir);
void subet(const Spherical<LDBL>& edir, LDBL be, Spherical<LDBL>& dir);
void geoc(LDBL latitude, LDBL height, LDBL& axis_dist, LDBL& equator_dist);
void pvobs(LDBL latitude, LDBL height, LDBL lst, VectorPV<LDBL>& pv);
void pcd(LDBL disco, LDBL& x, LDBL& y);
void unpcd(LDBL disco, LDBL& x, LDBL& y);
LDBL eqeqx(LDBL date);
void eqecl(const Spherical<LDBL>& dir, LDBL date, Spherical<LDBL>& edir);
void eqgal(const Spherical<LDBL>& dir, Spherical<LDBL>& gal);
void galeq(const Spherical<LDBL>& gal, Spherical<LDBL>& dir);
FITStatus fitxy(bool sbr, int nsamples, const XYSamples expected, const XYSamples measured, FitCoeffs& model);
void xy2xy(LDBL x1, LDBL y1, const FitCoeffs& model, LDBL& x2, LDBL& y2);
void pxy(int nsamples, const XYSamples expected, const XYSamples measured, const FitCoeffs& model,
    XYSamples predicted, LDBL& x_rms, LDBL& y_rms, LDBL& rms);
bool invf(const FitCoeffs& model, FitCoeffs& inverse);
void dcmpf(const FitCoeffs& model, LDBL& xz, LDBL& yz, LDBL& xs, LDBL& ys,  LDBL& perp, LDBL& orient);
void pm(const Spherical<LDBL>& dir_ep0, const Spherical<LDBL>& motion, LDBL parallax, LDBL r_velocity,
    LDBL ep0, LDBL ep1, Spherical<LDBL>& dir_ep1);
void earth(int year, int day, LDBL fraction, VectorPV<LDBL>& pv);
void ecor(Spherical<LDBL> dir, int year, int day, LDBL fraction, LDBL& velocity, LDBL& lt);
void ecleq(const Spherical<LDBL>& ecliptic, LDBL date, Spherical<LDBL>& equatorial);
void polmo(LDBL m_long, LDBL m_phi, LDBL x_pm, LDBL y_pm, LDBL& t_long, LDBL& t_phi, LDBL& d_az);
void galsup(const Spherical<LDBL>& galactic, Spherical<LDBL>& supergalactic);
TPPStatus s2tp(const Spherical<LDBL>& point, const Spherical<LDBL>& tangent, LDBL& xi, LDBL& eta);
TPPStatus ds2tp(const Spherical<LDBL>& point, const Spherical<LDBL>& tangent, LDBL& xi, LDBL& eta);
void tp2s(LDBL xi, LDBL eta, const Spherical<LDBL>& tangent, Spherical<LDBL>& point);
void dtp2s(LDBL xi, LDBL eta, const Spherical<LDBL>& tangent, Spherical<LDBL>& point);
int tps2c(LDBL xi, LDBL eta, const Spherical<LDBL>& point,
    Spherical<LDBL>& solution1, Spherical<LDBL>& solution2);
int dtps2c(LDBL xi, LDBL eta, const Spherical<LDBL>& point,
    Spherical<LDBL>& solution1, Spherical<LDBL>& solution2);
void tp2v(LDBL xi, LDBL eta, const Vector<LDBL> tangent, Vector<LDBL> point);
void dtp2v(LDBL xi, LDBL eta, const Vector<LDBL> tangent, Vector<LDBL> point);
TPPStatus v2tp(const Vector<LDBL> point, const Vector<LDBL> tangent, LDBL& xi, LDBL& eta);
TPPStatus dv2tp(const Vector<LDBL> point, const Vector<LDBL> tangent, LDBL& xi, LDBL& eta);
int tpv2c(LDBL xi, LDBL eta, const Vector<LDBL> point, Vector<LDBL> solution1, Vector<LDBL> solution2);
int dtpv2c(LDBL xi, LDBL eta, const Vector<LDBL> point, Vector<LDBL> solution1, Vector<LDBL> solution2);
CPStatus combn(int nsel, int ncand, int* list);
CPStatus permut(int n, int* state, int* order);
void evp(LDBL date, LDBL deqx, Vector<LDBL> bvelo, Vector<LDBL> bpos, Vector<LDBL> hvelo, Vector<LDBL> hpos);
void epv(LDBL date, Vector<LDBL> hpos, Vector<LDBL> hvelo, Vector<LDBL> bpos, Vector<LDBL> bvelo);
void eg50(const Spherical<LDBL>& fk4, Spherical<LDBL>& gal);
void ge50(const Spherical<LDBL>& gal, Spherical<LDBL>& fk4);
void pdq2h(LDBL lat, LDBL dec, LDBL pa, LDBL& ha1, bool& ha1_valid, LDBL& ha2, bool& ha2_valid);
void pda2h(LDBL lat, LDBL dec, LDBL azimuth, LDBL& ha1, bool& ha1_valid, LDBL& ha2, bool& ha2_valid);
int veri();
const char* vers();
LDBL random(LDBL seed);
LDBL gresid(LDBL stdev);
void moon(int year, int day, LDBL fraction, VectorPV<LDBL>& pv);
void dmoon(LDBL date, VectorPV<LDBL>& pv);
bool obs(int n, const char* id, Observatory& obs);
void wait(LDBL seconds);
} 
#endif 
