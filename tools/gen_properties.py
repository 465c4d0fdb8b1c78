#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    assert len(title) <= 80, title
    P.append(d)
S = 'src/'
ONEPT = 'The test program evaluates each function at one or a few hand-picked points; it says nothing about the rest of the domain (poles, wrap-arounds, branch limits, far epochs, odd sizes).'

prop('P01', 'No undefined behaviour or out-of-bounds access in any API call',
 'For every call with arguments inside the documented domain, the library never reads or writes outside the arrays the caller passed at their documented sizes, never uses an uninitialised value, and never executes undefined arithmetic (integer overflow, out-of-range float-to-integer conversion, bad shift or index). Every such call also terminates, and finite in-domain arguments never make an internal assertion fail.',
 ['inputs'], 'all API functions; all in-domain arguments including extreme magnitudes, poles, degenerate and minimal/maximal sizes, physical array dimensions larger than logical ones',
 'Tests run without sanitizers at single points; an overrun by one element, an overflow for a far date or a loop that diverges on rare inputs passes them.',
 ['src/'], [('array workspaces and physical/logical strides', 'src/svd.cc, src/svdsol.cc, src/svdcov.cc, src/dmat.cc, src/smat.cc'), ('integer calendar arithmetic', 'src/cldj.cc, src/clyd.cc, src/djcl.cc, src/djcal.cc'), ('coefficient tables', 'src/epv.cc, src/nutc.cc, src/rcc.cc, src/dmoon.cc, src/moon.cc, src/evp.cc')])
prop('P02', 'Results depend only on the arguments, never on call history',
 'Apart from the two pseudo-random generators, calling a function twice with the same arguments gives bit-identical results no matter what was called in between or in which order, and no matter what the output variables held before the call. Inputs passed as read-only are left unmodified, every documented output is written, and a call leaves the floating-point environment, standard streams and open files alone.',
 ['inputs', 'histories'], 'all histories of calls over the whole API, all prior contents of output variables',
 'Each test calls a function once in a fixed order with fixed garbage in the outputs; hidden caches, stale statics or unwritten outputs need particular call sequences to show.',
 ['src/'], [('absence of hidden state outside the generators', 'src/*.cc'), ('lazily initialised tables', 'src/slalib.cc, src/obs.cc')])
prop('P03', 'Concurrent calls are race-free and give the single-threaded results',
 'Any number of threads may call any functions other than the two pseudo-random generators at the same time, on distinct output variables, without data races and with the same results as sequential calls. When the library is built in its thread-safe configuration the same holds for the generators: each thread sees the sequence a single-threaded program would see, whatever the other threads do.',
 ['schedules', 'configurations'], 'all interleavings of concurrent calls, including the very first calls; default and thread-safe configurations',
 'All tests are single-threaded and are built in the non-thread-safe configuration only.',
 ['src/slalib.h', 'src/random.cc', 'src/gresid.cc', 'src/'], [('per-thread generator state', 'src/random.cc, src/gresid.cc, SLALIB_THREAD_LOCAL in src/slalib.h'), ('no other mutable statics', 'src/*.cc')])
prop('P04', 'Vector and matrix routines documented as in-place safe are so',
 'The matrix-matrix product, matrix-vector product and transposed-matrix-vector product give the same result when the output is the same object as an input (either or both factors of a matrix product) as with separate output. The same holds for the cross product written over either or both operands, in both precisions.',
 ['inputs'], 'all operand values and every documented aliasing pattern',
 'Tests pass distinct operands (or one aliasing pattern at one value); a removed temporary only shows for aliased, non-symmetric operands.',
 ['src/mxm.cc', 'src/dmxm.cc', 'src/mxv.cc', 'src/dmxv.cc', 'src/imxv.cc', 'src/dimxv.cc', 'src/vxv.cc', 'src/dvxv.cc', 'src/vn.cc', 'src/dvn.cc'],
 [('temporary result before copy-out', 'src/dmxm.cc, src/dmxv.cc, src/dimxv.cc and float twins')])
prop('P05', 'Calendar dates and Modified Julian Dates are exact inverses',
 'Every proleptic Gregorian date from 4700 BC on converts to the Modified Julian Date given by an exact day count, every accepted Modified Julian Date converts back to the date (and day fraction, or rounded decimal fraction up to four places with carry into the next day) it came from, and the year/day-in-year form agrees with an exact Julian day count. Bad years and months are reported without touching the outputs, bad days are reported with the outputs computed, two-digit years default to 1950-2049 only where documented, and out-of-range Modified Julian Dates are rejected.',
 ['inputs'], 'all years from the documented minimum up, all months and days (valid or not), all accepted Modified Julian Dates, all rounding precisions up to four decimals',
 'Tests check half a dozen dates; century rules, year ends, negative dates, carries and far-future dates are not reached.',
 ['src/cldj.cc', 'src/caldj.cc', 'src/clyd.cc', 'src/calyd.cc', 'src/djcl.cc', 'src/djcal.cc', 'src/slalib.cc'],
 [('Hatcher day-count formulae', 'src/cldj.cc, src/djcl.cc, src/djcal.cc'), ('day validation and year defaults', 'src/slalib.cc')])
prop('P06', 'Sexagesimal formatting is the correctly rounded, carried decomposition',
 'Converting an interval or angle to hours/degrees, minutes, seconds and a decimal fraction yields fields whose recombination equals the magnitude rounded to the requested number of places (negative counts meaning zero), with minutes and seconds always 0-59, the fraction always below one unit of seconds, carries propagated up to the leading field (24 hours or 360 degrees may appear) and the sign reported separately. Whole-unit inputs are never displayed as 59 or 60 in a lower field.',
 ['inputs'], 'all finite angles/intervals whose fields fit the integer result, all precisions from negative to nine decimals, both precisions of argument',
 'Tests format one value per function; rounding at carry boundaries and large or negative values are unexplored.',
 ['src/dd2tf.cc', 'src/cd2tf.cc', 'src/dr2tf.cc', 'src/dr2af.cc', 'src/cr2tf.cc', 'src/cr2af.cc', 'src/slalib.h'],
 [('rounding then field separation', 'src/dd2tf.cc'), ('result accessors', 'ConversionResult in src/slalib.h')])
prop('P07', 'Sexagesimal parsing validates every field and always returns the value',
 'Converting degrees/arcminutes/arcseconds or hours/minutes/seconds to radians or days returns the exact weighted sum of the fields, computed even when a field is out of range. The status is OK exactly when all fields are in range (0-359 degrees or 0-23 hours, 0-59 minutes, 0 to below 60 seconds), and otherwise names a field that is out of range.',
 ['inputs'], 'all integer degrees/hours and minutes, all finite seconds, both precisions',
 'Tests use one valid triple per function and never a rejected one.',
 ['src/caf2r.cc', 'src/daf2r.cc', 'src/ctf2d.cc', 'src/dtf2d.cc', 'src/ctf2r.cc', 'src/dtf2r.cc'],
 [('range checks and weighted sum', 'src/daf2r.cc, src/dtf2d.cc and variants')])
prop('P08', 'Angle normalisation lands in range and preserves the angle',
 'Normalising any finite angle returns an equivalent angle (equal modulo one turn to within rounding) in the documented interval: plus or minus pi for the signed form, zero to two pi for the positive form. Angles already in range are returned unchanged and normalising twice changes nothing.',
 ['inputs'], 'all finite angles, including exact and nearly exact multiples of pi, denormals and very large values, both precisions',
 'Tests normalise a single value per function.',
 ['src/range.cc', 'src/drange.cc', 'src/ranorm.cc', 'src/dranrm.cc'], [('modulo and fold', 'src/drange.cc, src/dranrm.cc and float twins')])
prop('P09', 'Vector and matrix algebra obeys its defining identities',
 'Dot, cross, norm/unit-vector, matrix-vector, transposed-matrix-vector and matrix-matrix products equal their mathematical definitions to within rounding for all operands, with a zero vector normalising to the zero vector and zero modulus. Transposed multiplication undoes multiplication by a rotation matrix.',
 ['inputs'], 'all finite operands without overflow, both precisions',
 ONEPT, ['src/vdv.cc', 'src/dvdv.cc', 'src/vxv.cc', 'src/dvxv.cc', 'src/vn.cc', 'src/dvn.cc', 'src/mxv.cc', 'src/dmxv.cc', 'src/imxv.cc', 'src/dimxv.cc', 'src/mxm.cc', 'src/dmxm.cc'],
 [('elementary products', 'src/dvdv.cc, src/dvxv.cc, src/dvn.cc, src/dmxv.cc, src/dimxv.cc, src/dmxm.cc and float twins')])
prop('P10', 'Rotation matrices are proper rotations matching their axis or Euler order',
 'Matrices built from an axial vector or from an Euler axis string and angles are orthonormal with determinant +1, rotate the frame by the stated angle about the stated axis or axes in order (axes named by letter or digit in either case; an unrecognised character ends the sequence), and the zero vector or empty order gives the identity. Extracting the axial vector of a rotation by less than half a turn inverts the construction, and the null rotation gives the null vector.',
 ['inputs'], 'all axial vectors and all rotation angles, all order strings, both precisions',
 'Tests use one order string and one vector; other orders, terminators, tiny or near-half-turn rotations are not exercised.',
 ['src/av2m.cc', 'src/dav2m.cc', 'src/m2av.cc', 'src/dm2av.cc', 'src/euler.cc', 'src/deuler.cc'],
 [('Rodrigues form', 'src/dav2m.cc, src/dm2av.cc'), ('axis string interpretation', 'src/deuler.cc')])
prop('P11', 'Spherical and Cartesian positions and velocities convert losslessly',
 'Converting spherical to Cartesian coordinates gives the standard direction (or position and velocity) and converting back recovers the direction, distance and rates; the Cartesian-to-spherical form accepts vectors of any length and is well defined on the polar axis (longitude and longitude rate zero) and for the null vector (all zero). Velocities are the exact time derivatives of positions in both representations.',
 ['inputs'], 'all longitudes, latitudes, distances and rates; all vectors including the poles, the axis and zero; both precisions',
 ONEPT, ['src/cs2c.cc', 'src/dcs2c.cc', 'src/cc2s.cc', 'src/dcc2s.cc', 'src/cs2c6.cc', 'src/ds2c6.cc', 'src/cc62s.cc', 'src/dc62s.cc'],
 [('polar-axis and null special cases', 'src/dcc2s.cc, src/dc62s.cc and float twins')])
prop('P12', 'Angular separations and bearings are metrically correct everywhere',
 'The angle between two directions, whether given as spherical coordinates or vectors of any length, is symmetric, lies in zero to pi, is zero only for parallel directions and is accurate even for tiny or nearly antipodal separations. The bearing (position angle) of one direction from another lies in plus or minus pi, is zero toward north and plus ninety degrees toward east, is zero for coincident points, and the spherical and vector forms agree.',
 ['inputs'], 'all pairs of directions including coincident, antipodal, polar and very close ones; both precisions',
 ONEPT, ['src/sep.cc', 'src/dsep.cc', 'src/sepv.cc', 'src/dsepv.cc', 'src/bear.cc', 'src/dbear.cc', 'src/pav.cc', 'src/dpav.cc'],
 [('atan2 formulations', 'src/dsepv.cc, src/dbear.cc, src/dpav.cc and float twins')])
prop('P13', 'Horizon coordinates and mount kinematics are mutually consistent',
 'Hour angle/declination to azimuth/elevation and back are inverse rotations for every latitude, with azimuth in zero to two pi measured north through east; zenith distance and parallactic angle agree with them. The altazimuth mount quantities equal those angles together with their exact first and second derivatives with respect to hour angle, and the hour angles returned for a given azimuth or parallactic angle are flagged valid exactly when they reproduce it (no solution being reported when none exists).',
 ['inputs'], 'all hour angles, declinations and latitudes, including zenith, poles and meridian; both precisions where offered',
 ONEPT, ['src/e2h.cc', 'src/de2h.cc', 'src/h2e.cc', 'src/dh2e.cc', 'src/zd.cc', 'src/pa.cc', 'src/altaz.cc', 'src/pda2h.cc', 'src/pdq2h.cc'],
 [('horizon rotation', 'src/de2h.cc, src/dh2e.cc'), ('analytic derivatives', 'src/altaz.cc'), ('solution selection', 'src/pda2h.cc, src/pdq2h.cc')])
prop('P14', 'Tangent-plane projection, deprojection and plate-centre recovery invert',
 'Projecting a star onto the tangent plane and deprojecting it recovers the star, spherical and Cartesian forms agree, and the status distinguishes stars in the hemisphere of the tangent point, too far from the axis, and antistars on or too far from the axis. Recovering the tangent point from a star and its plane coordinates reports the right number of useful solutions (none, one, or two near the poles), each of which reproduces the given coordinates, with longitudes in zero to two pi.',
 ['inputs'], 'all star/tangent-point pairs and plane coordinates including poles, grazing and antipodal geometry; both precisions',
 ONEPT, ['src/s2tp.cc', 'src/ds2tp.cc', 'src/v2tp.cc', 'src/dv2tp.cc', 'src/tp2s.cc', 'src/dtp2s.cc', 'src/tp2v.cc', 'src/dtp2v.cc', 'src/tps2c.cc', 'src/dtps2c.cc', 'src/tpv2c.cc', 'src/dtpv2c.cc'],
 [('gnomonic projection and status', 'src/ds2tp.cc, src/dv2tp.cc'), ('plate centre solutions', 'src/dtps2c.cc, src/dtpv2c.cc')])
prop('P15', 'UTC, TAI, TT and historical Delta-T offsets follow the published record',
 'For any UTC date the TAI-UTC increment is the officially announced value: whole seconds changing exactly at 0h of each announced leap-second date through 2017 January 1 and held afterwards, and the published drift expressions with their start dates before 1972 (the 1960 expression being used earlier). TT-UTC always exceeds it by 32.184 seconds, and the historical ET-UT estimate is the documented piecewise parabola, continuous at its breakpoints.',
 ['inputs'], 'all UTC dates and epochs, in particular both sides of every step',
 'Tests sample a handful of dates out of forty-odd steps; a wrong or shifted step elsewhere passes.',
 ['src/dat.cc', 'src/dtt.cc', 'src/dt.cc'], [('leap-second table', 'src/dat.cc'), ('parabolic segments', 'src/dt.cc')])
prop('P16', 'Epoch conversions invert and sidereal time follows the IAU expression',
 'Besselian and Julian epochs convert to Modified Julian Dates and back without loss, and epoch-type conversion accepts either letter case for both types, returns the epoch unchanged for equal types and zero for an unknown type. Greenwich mean sidereal time lies in zero to two pi, follows the IAU 1982 expression for every UT1, advances by the sidereal rate, and the two-part-date form agrees with the one-part form however the date is split.',
 ['inputs'], 'all epochs, dates and splits of a date into parts, all type letters',
 'Tests evaluate single epochs with upper-case letters and one date split.',
 ['src/epb.cc', 'src/epb2d.cc', 'src/epj.cc', 'src/epj2d.cc', 'src/epco.cc', 'src/gmst.cc', 'src/gmsta.cc'],
 [('epoch definitions', 'src/epb.cc, src/epj.cc, src/epco.cc'), ('sidereal polynomial', 'src/gmst.cc, src/gmsta.cc')])
prop('P17', 'The TDB-TT clock correction matches the full Fairhead-Bretagnon model',
 'For every epoch and observer position the relativistic clock correction equals the sum of the published geocentric series (all terms, with their powers of time and mass adjustments) and the topocentric terms, to better than a nanosecond. It is periodic with a dominant annual term of about 1.66 milliseconds, and its dependence on the observer is linear in the two geocentric distances and diurnal in universal time and longitude.',
 ['inputs'], 'all epochs within centuries of J2000, all universal times, longitudes and observer distances',
 'The test checks a single epoch; an altered small coefficient or dropped block of terms can be below its sampling or cancel there.',
 ['src/rcc.cc'], [('787-term series and topocentric terms', 'src/rcc.cc')])
prop('P18', 'Precession matrices are rotations that follow the adopted models',
 'Precession from one epoch to another is a proper rotation, is the identity for equal epochs, is inverted by swapping the epochs and composes through an intermediate epoch to within the model accuracy, and follows the adopted polynomial angles of each model: IAU 1976 (Julian), the long-span model and Newcomb/Bessel (FK4). Precessing a position uses the model of the named system, returns right ascension in zero to two pi, and an unsupported system yields the documented error values.',
 ['inputs'], 'all pairs of epochs within the documented spans, all positions, all systems',
 ONEPT, ['src/prec.cc', 'src/precl.cc', 'src/prebn.cc', 'src/preces.cc'], [('precession angles', 'src/prec.cc, src/precl.cc, src/prebn.cc'), ('system selection', 'src/preces.cc')])
prop('P19', 'Nutation, obliquity and the equation of equinoxes follow adopted series',
 'For every date the two nutation models return the nutation in longitude and obliquity and the mean obliquity of their full published series (all terms, to sub-microarcsecond consistency), and agree with each other to their stated accuracy near the present. The nutation matrix, the ecliptic matrix, the combined precession-nutation matrix and the equation of the equinoxes are exactly those implied by these angles.',
 ['inputs'], 'all dates within centuries of J2000',
 'Tests evaluate one date per routine; individual coefficients and secular terms out of several hundred are not separately constrained.',
 ['src/nutc.cc', 'src/nutc80.cc', 'src/nut.cc', 'src/prenut.cc', 'src/ecmat.cc', 'src/eqeqx.cc'],
 [('SF2001 and IAU 1980 series', 'src/nutc.cc, src/nutc80.cc'), ('matrix assembly', 'src/nut.cc, src/prenut.cc, src/ecmat.cc'), ('equation of equinoxes', 'src/eqeqx.cc')])
prop('P20', 'Galactic, supergalactic and ecliptic transforms are exact inverse rotations',
 'Each pair of transformations between equatorial (J2000 or B1950), galactic, supergalactic and ecliptic-of-date coordinates is mutually inverse over the whole sphere, preserves angular separations (up to the aberration E-terms in the B1950 pair) and sends the defining poles and zero-points to their adopted coordinates. Returned longitudes and latitudes lie in their documented ranges.',
 ['inputs'], 'all directions on the sphere including poles and wrap points, all dates for the ecliptic',
 ONEPT, ['src/eqgal.cc', 'src/galeq.cc', 'src/galsup.cc', 'src/supgal.cc', 'src/eg50.cc', 'src/ge50.cc', 'src/eqecl.cc', 'src/ecleq.cc'],
 [('fixed rotation matrices', 'src/eqgal.cc, src/galeq.cc, src/galsup.cc, src/supgal.cc, src/eg50.cc, src/ge50.cc'), ('ecliptic chain', 'src/eqecl.cc, src/ecleq.cc')])
prop('P21', 'E-terms and proper motion are applied rigorously and reversibly',
 'The E-terms vector follows its published expression for the given Besselian epoch; adding and removing E-terms displace a position by exactly that vector (renormalised) and are mutual inverses to within second order everywhere on the sphere, longitudes being returned in zero to two pi. Proper motion carries a position through space motion (including parallax and radial velocity) exactly linearly in time, is the identity for zero interval and is undone by reversing the interval when the space motion is purely transverse and small.',
 ['inputs'], 'all directions, epochs, proper motions, parallaxes and radial velocities of stellar magnitude',
 ONEPT, ['src/etrms.cc', 'src/addet.cc', 'src/subet.cc', 'src/pm.cc'], [('E-terms', 'src/etrms.cc, src/addet.cc, src/subet.cc'), ('space motion', 'src/pm.cc')])
prop('P22', 'Earth ephemerides are accurate, mutually consistent, velocity = derivative',
 'For dates of 1900-2100 the accurate, the fast and the single-precision Earth position/velocity routines equal their published models, agree with one another within their stated accuracies in units, frame and sign, and each velocity is the time derivative of the corresponding position. The requested equinox of the fast routine is honoured (non-positive meaning of date) and the velocity and light-time corrections toward any direction equal the projections of the Earth vector (plus the Moon-induced wobble) on it.',
 ['inputs'], 'all dates of the supported centuries, all equinoxes, all directions',
 'Tests evaluate one date; a changed coefficient among thousands, or a branch for other dates/equinoxes, is not constrained.',
 ['src/epv.cc', 'src/evp.cc', 'src/earth.cc', 'src/ecor.cc'], [('VSOP2000 series', 'src/epv.cc'), ('Stumpff theory', 'src/evp.cc'), ('low-precision model and corrections', 'src/earth.cc, src/ecor.cc')])
prop('P23', 'Moon ephemerides follow the Meeus model and agree with each other',
 'For dates of 1900-2100 the double-precision Moon position equals the full published model with all its terms and its velocity is the time derivative of the position; distance stays within the physical perigee-apogee limits. The single-precision routine agrees with it to the stated accuracy (half an arcminute class in direction, 1000 km in distance) for the same instant expressed as year, day and fraction.',
 ['inputs'], 'all instants of 1900-2100, including every leap-year phase and year boundaries',
 'Tests evaluate one instant per routine.',
 ['src/dmoon.cc', 'src/moon.cc'], [('Meeus series', 'src/dmoon.cc, src/moon.cc')])
prop('P24', 'Observer geometry and polar motion are geometrically exact',
 'The geocentric distances of a station follow the IAU 1976 spheroid for every latitude and height, and the observer position/velocity vector lies at those distances at the given sidereal time and rotates rigidly about the pole at the sidereal rate. Applying polar motion rotates the station by the pole coordinates exactly, giving true longitude, true latitude and the azimuth difference consistently, and zero polar motion changes nothing.',
 ['inputs'], 'all latitudes, longitudes, heights, sidereal times, pole coordinates',
 ONEPT, ['src/geoc.cc', 'src/pvobs.cc', 'src/polmo.cc'], [('spheroid and rotation', 'src/geoc.cc, src/pvobs.cc'), ('pole rotation', 'src/polmo.cc')])
prop('P25', 'Radial-velocity corrections are projections of the adopted solar motions',
 'Each line-of-sight velocity correction (diurnal rotation, galactic rotation, Local Group, dynamical and kinematical standards of rest) equals the projection of its adopted velocity vector on the given direction for every direction: odd under reversal of the direction, bounded by the adopted speed, and extremal toward the adopted apex. The diurnal term varies with the sine of hour angle and the cosines of declination and latitude.',
 ['inputs'], 'all directions, latitudes and sidereal times',
 ONEPT, ['src/rverot.cc', 'src/rvgalc.cc', 'src/rvlg.cc', 'src/rvlsrd.cc', 'src/rvlsrk.cc'], [('projection on apex vector', 'src/rv*.cc')])
prop('P26', 'The observatory catalogue is complete, correct and consistently searchable',
 'Stepping through station numbers from zero yields every station once, each with a unique identifier, name, west-positive longitude, north-positive latitude and height as published, until the end of the list is reported by a failure with question-mark strings and zero numbers. Looking up a station by identifier returns exactly the entry found by number, a partial identifier returns the first entry it prefixes, unknown identifiers and too-large numbers fail, and the identifier is ignored whenever the number is non-negative.',
 ['inputs'], 'all station numbers, all identifiers and prefixes, arbitrary strings',
 'Tests look up two stations.',
 ['src/obs.cc'], [('station table and search', 'src/obs.cc')])
prop('P27', 'Refraction modelling reproduces the physical model atmosphere',
 'Computed refraction equals the numerical integration of the documented model atmosphere for optical and radio wavelengths over the range of meteorological conditions in which the atmosphere does not duct and is not saturated beyond its pressure (arguments clamped to their documented safe ranges), has the sign of and increases with zenith distance, is held at its 93-degree value beyond, and is zero at the zenith. The fitted two-coefficient model reproduces it exactly at its two fitting distances, the quick coefficients approximate it to the stated accuracy, and dispersion adjustment scales the coefficients by the ratio of refractivities (unchanged for equal wavelengths or radio).',
 ['inputs'], 'all zenith distances and all site/weather/wavelength conditions, including out-of-range values that must be clamped',
 ONEPT, ['src/refro.cc', 'src/refco.cc', 'src/refcoq.cc', 'src/atmdsp.cc'], [('ray-trace quadrature and clamping', 'src/refro.cc'), ('coefficient fit', 'src/refco.cc'), ('closed-form coefficients', 'src/refcoq.cc'), ('dispersion', 'src/atmdsp.cc')])
prop('P28', 'Applying refraction and airmass behave monotonically and invert the model',
 'Refracting an unrefracted zenith distance inverts the two-coefficient model to its stated accuracy at small and moderate zenith distances, stays continuous and monotonic through the switch to the low-elevation formula, and is held constant beyond its limit; the vector form agrees with it, keeps the azimuth and preserves the vector norm to the stated accuracy. Airmass is one at the zenith, ignores the sign of the zenith distance, increases monotonically and is held constant beyond about 87 degrees.',
 ['inputs'], 'all zenith distances and azimuths and all realistic refraction coefficients',
 ONEPT, ['src/refz.cc', 'src/refv.cc', 'src/airmas.cc'], [('Newton inversion and low-elevation branch', 'src/refz.cc, src/refv.cc'), ('Hardie polynomial with clamp', 'src/airmas.cc')])
prop('P29', 'Linear systems are solved, inverted and singularity is reported',
 'For any non-singular square system of any order, the solver returns the solution vector, the inverse matrix and the signed determinant with errors commensurate with the conditioning, including when rows must be interchanged. Systems whose elimination meets an exactly zero pivot column (a zero row or column, a zero matrix, repeated rows of small integers) are reported as singular with zero determinant, in both precisions, and systems with pivots and determinants well above the documented 1e-20 threshold never are. A system near or below that threshold is either reported as singular, with zero determinant, or solved correctly: never silently wrong.',
 ['inputs'], 'all orders and all matrices and right-hand sides, including permuted, badly scaled and singular ones',
 'Tests solve one 3x3 system.',
 ['src/dmat.cc', 'src/smat.cc'], [('Gaussian elimination with partial pivoting', 'src/dmat.cc, src/smat.cc')])
prop('P30', 'Singular value decomposition, solution and covariance are correct',
 'For every matrix with at least as many rows as columns, stored in arrays of equal or larger physical size, the decomposition (whose rare non-convergence is reported by its status) reproduces the matrix, has orthonormal factors and non-negative singular values. The derived solution is the least-squares solution (zeroed singular values being skipped), the covariance matrix is the symmetric inverse of the normal matrix, and elements outside the logical dimensions are left alone.',
 ['inputs'], 'all logical and physical dimensions and all finite matrices, including rank-deficient, square, single-row/column and badly scaled ones',
 'Tests decompose one fixed matrix with one pair of dimensions.',
 ['src/svd.cc', 'src/svdsol.cc', 'src/svdcov.cc'], [('Golub-Reinsch iteration', 'src/svd.cc'), ('back substitution', 'src/svdsol.cc'), ('covariance', 'src/svdcov.cc')])
prop('P31', 'Plate-model fits are least-squares optimal and the model tools consistent',
 'Fitting relates measured to expected coordinates by the least-squares optimal six-coefficient model, or the best four-coefficient rotation/scale/offset model with or without reflection; too few samples are reported leaving the model untouched, and geometrically degenerate samples are reported as having no solution (as may be samples so small in their units that the normal equations fall below the documented 1e-20 threshold of the linear solver). Applying, inverting, predicting with residual RMS values and decomposing a model are mutually consistent: the inverse undoes the model (or its absence is reported), the RMS values are those of the residuals, and the decomposition recomposes to the model.',
 ['inputs'], 'all sample sets and sizes and all models, including reflected, degenerate and minimal ones',
 'Tests fit one three-star example per mode.',
 ['src/fitxy.cc', 'src/pxy.cc', 'src/invf.cc', 'src/xy2xy.cc', 'src/dcmpf.cc'], [('normal equations, two-handed fit', 'src/fitxy.cc'), ('model application, inversion, decomposition', 'src/xy2xy.cc, src/pxy.cc, src/invf.cc, src/dcmpf.cc')])
prop('P32', 'Radial distortion is applied as documented and removed rigorously',
 'Applying pincushion/barrel distortion scales the position by one plus the coefficient times the squared radius, and removing it is the exact inverse for every coefficient and radius at which the distortion is invertible; where several undistorted positions exist, the one nearest the given position is returned. Zero coefficient or zero radius leaves the position unchanged.',
 ['inputs'], 'all positions and distortion coefficients of both signs, including multi-root barrel cases',
 'Tests check one position and coefficient.',
 ['src/pcd.cc', 'src/unpcd.cc'], [('cubic solution and root choice', 'src/unpcd.cc')])
prop('P33', 'Combination and permutation generators enumerate each arrangement once',
 'Starting from the documented initial state, repeated calls deliver every combination (ascending, drawn from the candidates) or every permutation exactly once, beginning with the documented first arrangement, then report exhaustion while delivering the first arrangement again and continue to cycle with the exact period. Invalid sizes are reported and leave the arrays untouched.',
 ['inputs', 'histories'], 'all sizes, whole enumeration histories over several cycles, and resumption from any intermediate state',
 'Tests call each generator a few times for one size.',
 ['src/combn.cc', 'src/permut.cc'], [('state increment and carry', 'src/combn.cc, src/permut.cc')])
prop('P34', 'Random deviates are in range, reproducible and correctly distributed',
 'Uniform deviates always lie in zero to below one, follow the uniform distribution without serial correlation, are determined by the seed given on the first call only, and later seeds are ignored. Gaussian deviates are finite, have zero mean, unit variance and normal shape scaled exactly by the requested standard deviation, and the two generators do not disturb each other.',
 ['histories', 'inputs'], 'all seeds, all standard deviations and arbitrarily long interleaved call histories',
 'Tests only check loose bounds on a few hundred values of one seed.',
 ['src/random.cc', 'src/gresid.cc'], [('seeding and canonical generation', 'src/random.cc'), ('polar Box-Muller with cached deviate', 'src/gresid.cc')])
prop('P35', 'Single- and double-precision variants compute the same quantity',
 'For every operation offered in both precisions, the single-precision variant given arguments exactly representable in single precision returns the double-precision answer to within single-precision rounding amplified by the conditioning of the problem, and the same status, validity flags and branch choices away from their decision boundaries.',
 ['inputs'], 'all pairs of variants and all arguments representable in single precision',
 'Tests compare both variants with a constant at one point, with a tolerance chosen per test.',
 ['src/'], [('float/double twin implementations', 'src/*.cc (e.g. euler/deuler, s2tp/ds2tp, cc62s/dc62s, smat/dmat)')])
prop('P36', 'Waiting lasts exactly as long as requested, whatever interrupts it',
 'Waiting for a number of seconds blocks for that long, fractions of a second included, no matter how often signals interrupt the sleep, and not appreciably longer; waiting for zero or a negative time returns at once.',
 ['inputs', 'schedules', 'faults'], 'all delays in seconds (fractional, short, long, zero, negative) and all patterns of signal interruption',
 'No test calls the function, and none could interrupt it at every point of its sleep.',
 ['src/wait.cc'], [('sleep request', 'src/wait.cc')])
prop('P37', 'Structured data types keep every field, and the version report is consistent',
 'Every named field of the coordinate, position-velocity, mount, conversion-result and plate-model records reads back exactly what was last written to it under any of its names (longitude/RA/hour angle, latitude/declination, hours/degrees, array index or letter), independently of all other fields and in any order of writes; constructing a record from parts keeps the parts. The numeric version is the encoding of the major, minor and release numbers that the version string shows.',
 ['inputs', 'histories'], 'all record types in both precisions, all field values, all sequences of writes under all synonymous names',
 'Tests use a few accessors on the way to testing something else.',
 ['src/slalib.h', 'src/veri.cc', 'src/vers.cc'], [('record classes and accessors', 'src/slalib.h'), ('version report', 'src/veri.cc, src/vers.cc')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
