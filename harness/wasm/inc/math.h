#pragma once
#define F1(n) double n(double); float n##f(float); long double n##l(long double);
#define F2(n) double n(double,double); float n##f(float,float); long double n##l(long double,long double);
F1(cos) F1(sin) F1(tan) F1(acos) F1(asin) F1(atan) F1(exp) F1(exp2) F1(log) F1(log2) F1(log10) F1(sqrt) F1(fabs) F1(floor) F1(ceil) F1(round) F1(trunc) F1(rint) F1(nearbyint)
F2(pow) F2(fmod) F2(atan2) F2(hypot) F2(copysign) F2(fmin) F2(fmax) F2(nextafter)
double frexp(double,int*); float frexpf(float,int*); long double frexpl(long double,int*);
double ldexp(double,int); float ldexpf(float,int); double scalbn(double,int); float scalbnf(float,int); int ilogb(double); int ilogbf(float); double logb(double); float logbf(float);
long lround(double); long lrintf(float); long lrint(double); double modf(double,double*); float modff(float,float*);
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#define isnormal(x) __builtin_isnormal(x)
#define signbit(x) __builtin_signbit(x)
#define fpclassify(x) __builtin_fpclassify(0,1,4,3,2,x)
#define isgreater(x,y) __builtin_isgreater(x,y)
#define isless(x,y) __builtin_isless(x,y)
#define isgreaterequal(x,y) __builtin_isgreaterequal(x,y)
#define islessequal(x,y) __builtin_islessequal(x,y)
#define HUGE_VAL __builtin_huge_val()
#define INFINITY __builtin_inff()
#define NAN __builtin_nanf("")
#define M_E 2.7182818284590452354
#define M_PI 3.14159265358979323846
#define M_PI_2 1.57079632679489661923
#define M_PI_4 0.78539816339744830962
#define M_SQRT2 1.41421356237309504880
#define M_SQRT1_2 0.70710678118654752440
