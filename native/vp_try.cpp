// calls a function so that a C++ exception becomes a flag
typedef long (*FI)(long,long,long,long,long,long,double,double,double,double,double,double,double,double,long,long,long,long,long,long,long,long,long,long,long,long,long,long);
typedef double (*FD)(long,long,long,long,long,long,double,double,double,double,double,double,double,double,long,long,long,long,long,long,long,long,long,long,long,long,long,long);
extern "C" int vp_threw = 0;
extern "C" long vp_try_i(void* f, const long* i, const double* d)
{
    vp_threw = 0;
    try { return ((FI) f)(i[0],i[1],i[2],i[3],i[4],i[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7],i[6],i[7],i[8],i[9],i[10],i[11],i[12],i[13],i[14],i[15],i[16],i[17],i[18],i[19]); }
    catch (...) { vp_threw = 1; return 0; }
}
extern "C" double vp_try_d(void* f, const long* i, const double* d)
{
    vp_threw = 0;
    try { return ((FD) f)(i[0],i[1],i[2],i[3],i[4],i[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7],i[6],i[7],i[8],i[9],i[10],i[11],i[12],i[13],i[14],i[15],i[16],i[17],i[18],i[19]); }
    catch (...) { vp_threw = 1; return 0; }
}
