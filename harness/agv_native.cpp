// Native side of the drivers: call trampoline and the concrete model of the abstract functions
// (sum of three exponentials, coefficients set from Python; same model as agv/terms.py UFModel).
#include <cmath>
#include <exception>
extern "C" {
static double W[64][6][3], A[64][6][3][6];
void agv_setcoef(int id, int n, int j, double w, const double* a)
{ W[id][n][j] = w; for(int i=0; i<n; i++) A[id][n][j][i] = a[i]; }
double agv_f(int id, int n, const int* d, const double* x)
{
    double s = 0;
    for(int j=0; j<3; j++) {
        double e = W[id][n][j], u = 0;
        for(int i=0; i<n; i++) {
            for(int k=0; k<d[i]; k++) e *= A[id][n][j][i];
            u += A[id][n][j][i] * x[i];
        }
        s += e * std::exp(u);
    }
    return s;
}
struct IntDbl { long i; double d; };
int agv_tramp(void* f, double* d, long* I, double* ret, long* iret)
{
    try {
        // SysV x86-64: integer and floating-point arguments use independent register sequences
        // and a structure {long, double} is returned in rax and xmm0, where a function of either kind leaves its result
        typedef IntDbl (*fd)(long,long,long,long,long,long,double,double,double,double,double,double,double,double);
        IntDbl r = ((fd)f)(I[0],I[1],I[2],I[3],I[4],I[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7]);
        *ret = r.d; *iret = r.i;
        return 0;
    } catch(...) { return 1; }
}
}
