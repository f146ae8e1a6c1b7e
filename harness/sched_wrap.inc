// generated by gen_sched_wrap.py
struct Nmod { unsigned long n, ninv, norm; };
namespace {
inline void rbig(big b, const void *pc) { if (b) touch((char *)b + 8, 8, false, pc); }
inline void wbig(big *x, big old, const void *pc) { if (!x) return; touch(x, 8, *x != old, pc); if (*x) touch((char *)*x + 8, 8, true, pc); }
}
void real_ntl_gsadd(big a0, long a1, big * a2) asm("__real__Z10_ntl_gsaddP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gsadd(big a0, long a1, big * a2) asm("__wrap__Z10_ntl_gsaddP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gsadd(big a0, long a1, big * a2) { if (!watch()) return real_ntl_gsadd(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gsadd(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gssub(big a0, long a1, big * a2) asm("__real__Z10_ntl_gssubP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gssub(big a0, long a1, big * a2) asm("__wrap__Z10_ntl_gssubP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gssub(big a0, long a1, big * a2) { if (!watch()) return real_ntl_gssub(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gssub(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gadd(big a0, big a1, big * a2) asm("__real__Z9_ntl_gaddP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gadd(big a0, big a1, big * a2) asm("__wrap__Z9_ntl_gaddP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gadd(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gadd(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gadd(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gsub(big a0, big a1, big * a2) asm("__real__Z9_ntl_gsubP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gsub(big a0, big a1, big * a2) asm("__wrap__Z9_ntl_gsubP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gsub(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gsub(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gsub(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gsubpos(big a0, big a1, big * a2) asm("__real__Z12_ntl_gsubposP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gsubpos(big a0, big a1, big * a2) asm("__wrap__Z12_ntl_gsubposP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gsubpos(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gsubpos(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gsubpos(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gsmul(big a0, long a1, big * a2) asm("__real__Z10_ntl_gsmulP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gsmul(big a0, long a1, big * a2) asm("__wrap__Z10_ntl_gsmulP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gsmul(big a0, long a1, big * a2) { if (!watch()) return real_ntl_gsmul(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gsmul(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gmul(big a0, big a1, big * a2) asm("__real__Z9_ntl_gmulP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gmul(big a0, big a1, big * a2) asm("__wrap__Z9_ntl_gmulP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gmul(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gmul(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gmul(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gsq(big a0, big * a1) asm("__real__Z8_ntl_gsqP17_ntl_gbigint_bodyPS0_");
void wrap_ntl_gsq(big a0, big * a1) asm("__wrap__Z8_ntl_gsqP17_ntl_gbigint_bodyPS0_");
void wrap_ntl_gsq(big a0, big * a1) { if (!watch()) return real_ntl_gsq(a0, a1); const void *pc = PC; rbig(a0, pc); big o_a1 = a1 ? *a1 : nullptr; real_ntl_gsq(a0, a1); wbig(a1, o_a1, pc); }
long real_ntl_gsdiv(big a0, long a1, big * a2) asm("__real__Z10_ntl_gsdivP17_ntl_gbigint_bodylPS0_");
long wrap_ntl_gsdiv(big a0, long a1, big * a2) asm("__wrap__Z10_ntl_gsdivP17_ntl_gbigint_bodylPS0_");
long wrap_ntl_gsdiv(big a0, long a1, big * a2) { if (!watch()) return real_ntl_gsdiv(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; long r = real_ntl_gsdiv(a0, a1, a2); wbig(a2, o_a2, pc); return r; }
void real_ntl_gdiv(big a0, big a1, big * a2, big * a3) asm("__real__Z9_ntl_gdivP17_ntl_gbigint_bodyS0_PS0_S1_");
void wrap_ntl_gdiv(big a0, big a1, big * a2, big * a3) asm("__wrap__Z9_ntl_gdivP17_ntl_gbigint_bodyS0_PS0_S1_");
void wrap_ntl_gdiv(big a0, big a1, big * a2, big * a3) { if (!watch()) return real_ntl_gdiv(a0, a1, a2, a3); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; big o_a3 = a3 ? *a3 : nullptr; real_ntl_gdiv(a0, a1, a2, a3); wbig(a2, o_a2, pc); wbig(a3, o_a3, pc); }
void real_ntl_gmod(big a0, big a1, big * a2) asm("__real__Z9_ntl_gmodP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gmod(big a0, big a1, big * a2) asm("__wrap__Z9_ntl_gmodP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gmod(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gmod(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gmod(a0, a1, a2); wbig(a2, o_a2, pc); }
long real_ntl_gsmod(big a0, long a1) asm("__real__Z10_ntl_gsmodP17_ntl_gbigint_bodyl");
long wrap_ntl_gsmod(big a0, long a1) asm("__wrap__Z10_ntl_gsmodP17_ntl_gbigint_bodyl");
long wrap_ntl_gsmod(big a0, long a1) { if (!watch()) return real_ntl_gsmod(a0, a1); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gsmod(a0, a1); return r; }
void real_ntl_gquickmod(big * a0, big a1) asm("__real__Z14_ntl_gquickmodPP17_ntl_gbigint_bodyS0_");
void wrap_ntl_gquickmod(big * a0, big a1) asm("__wrap__Z14_ntl_gquickmodPP17_ntl_gbigint_bodyS0_");
void wrap_ntl_gquickmod(big * a0, big a1) { if (!watch()) return real_ntl_gquickmod(a0, a1); const void *pc = PC; rbig(a1, pc); big o_a0 = a0 ? *a0 : nullptr; real_ntl_gquickmod(a0, a1); wbig(a0, o_a0, pc); }
void real_ntl_gsaddmul(big a0, long a1, big * a2) asm("__real__Z13_ntl_gsaddmulP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gsaddmul(big a0, long a1, big * a2) asm("__wrap__Z13_ntl_gsaddmulP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gsaddmul(big a0, long a1, big * a2) { if (!watch()) return real_ntl_gsaddmul(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gsaddmul(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gaddmul(big a0, big a1, big * a2) asm("__real__Z12_ntl_gaddmulP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gaddmul(big a0, big a1, big * a2) asm("__wrap__Z12_ntl_gaddmulP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gaddmul(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gaddmul(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gaddmul(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gssubmul(big a0, long a1, big * a2) asm("__real__Z13_ntl_gssubmulP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gssubmul(big a0, long a1, big * a2) asm("__wrap__Z13_ntl_gssubmulP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gssubmul(big a0, long a1, big * a2) { if (!watch()) return real_ntl_gssubmul(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gssubmul(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gsubmul(big a0, big a1, big * a2) asm("__real__Z12_ntl_gsubmulP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gsubmul(big a0, big a1, big * a2) asm("__wrap__Z12_ntl_gsubmulP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gsubmul(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gsubmul(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gsubmul(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_glshift(big a0, long a1, big * a2) asm("__real__Z12_ntl_glshiftP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_glshift(big a0, long a1, big * a2) asm("__wrap__Z12_ntl_glshiftP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_glshift(big a0, long a1, big * a2) { if (!watch()) return real_ntl_glshift(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_glshift(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_grshift(big a0, long a1, big * a2) asm("__real__Z12_ntl_grshiftP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_grshift(big a0, long a1, big * a2) asm("__wrap__Z12_ntl_grshiftP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_grshift(big a0, long a1, big * a2) { if (!watch()) return real_ntl_grshift(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_grshift(a0, a1, a2); wbig(a2, o_a2, pc); }
long real_ntl_gmakeodd(big * a0) asm("__real__Z13_ntl_gmakeoddPP17_ntl_gbigint_body");
long wrap_ntl_gmakeodd(big * a0) asm("__wrap__Z13_ntl_gmakeoddPP17_ntl_gbigint_body");
long wrap_ntl_gmakeodd(big * a0) { if (!watch()) return real_ntl_gmakeodd(a0); const void *pc = PC; big o_a0 = a0 ? *a0 : nullptr; long r = real_ntl_gmakeodd(a0); wbig(a0, o_a0, pc); return r; }
long real_ntl_gnumtwos(big a0) asm("__real__Z13_ntl_gnumtwosP17_ntl_gbigint_body");
long wrap_ntl_gnumtwos(big a0) asm("__wrap__Z13_ntl_gnumtwosP17_ntl_gbigint_body");
long wrap_ntl_gnumtwos(big a0) { if (!watch()) return real_ntl_gnumtwos(a0); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gnumtwos(a0); return r; }
long real_ntl_godd(big a0) asm("__real__Z9_ntl_goddP17_ntl_gbigint_body");
long wrap_ntl_godd(big a0) asm("__wrap__Z9_ntl_goddP17_ntl_gbigint_body");
long wrap_ntl_godd(big a0) { if (!watch()) return real_ntl_godd(a0); const void *pc = PC; rbig(a0, pc); long r = real_ntl_godd(a0); return r; }
long real_ntl_gbit(big a0, long a1) asm("__real__Z9_ntl_gbitP17_ntl_gbigint_bodyl");
long wrap_ntl_gbit(big a0, long a1) asm("__wrap__Z9_ntl_gbitP17_ntl_gbigint_bodyl");
long wrap_ntl_gbit(big a0, long a1) { if (!watch()) return real_ntl_gbit(a0, a1); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gbit(a0, a1); return r; }
long real_ntl_gsetbit(big * a0, long a1) asm("__real__Z12_ntl_gsetbitPP17_ntl_gbigint_bodyl");
long wrap_ntl_gsetbit(big * a0, long a1) asm("__wrap__Z12_ntl_gsetbitPP17_ntl_gbigint_bodyl");
long wrap_ntl_gsetbit(big * a0, long a1) { if (!watch()) return real_ntl_gsetbit(a0, a1); const void *pc = PC; big o_a0 = a0 ? *a0 : nullptr; long r = real_ntl_gsetbit(a0, a1); wbig(a0, o_a0, pc); return r; }
long real_ntl_gswitchbit(big * a0, long a1) asm("__real__Z15_ntl_gswitchbitPP17_ntl_gbigint_bodyl");
long wrap_ntl_gswitchbit(big * a0, long a1) asm("__wrap__Z15_ntl_gswitchbitPP17_ntl_gbigint_bodyl");
long wrap_ntl_gswitchbit(big * a0, long a1) { if (!watch()) return real_ntl_gswitchbit(a0, a1); const void *pc = PC; big o_a0 = a0 ? *a0 : nullptr; long r = real_ntl_gswitchbit(a0, a1); wbig(a0, o_a0, pc); return r; }
void real_ntl_glowbits(big a0, long a1, big * a2) asm("__real__Z13_ntl_glowbitsP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_glowbits(big a0, long a1, big * a2) asm("__wrap__Z13_ntl_glowbitsP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_glowbits(big a0, long a1, big * a2) { if (!watch()) return real_ntl_glowbits(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_glowbits(a0, a1, a2); wbig(a2, o_a2, pc); }
long real_ntl_gslowbits(big a0, long a1) asm("__real__Z14_ntl_gslowbitsP17_ntl_gbigint_bodyl");
long wrap_ntl_gslowbits(big a0, long a1) asm("__wrap__Z14_ntl_gslowbitsP17_ntl_gbigint_bodyl");
long wrap_ntl_gslowbits(big a0, long a1) { if (!watch()) return real_ntl_gslowbits(a0, a1); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gslowbits(a0, a1); return r; }
long real_ntl_gweight(big a0) asm("__real__Z12_ntl_gweightP17_ntl_gbigint_body");
long wrap_ntl_gweight(big a0) asm("__wrap__Z12_ntl_gweightP17_ntl_gbigint_body");
long wrap_ntl_gweight(big a0) { if (!watch()) return real_ntl_gweight(a0); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gweight(a0); return r; }
void real_ntl_gand(big a0, big a1, big * a2) asm("__real__Z9_ntl_gandP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gand(big a0, big a1, big * a2) asm("__wrap__Z9_ntl_gandP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gand(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gand(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gand(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gor(big a0, big a1, big * a2) asm("__real__Z8_ntl_gorP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gor(big a0, big a1, big * a2) asm("__wrap__Z8_ntl_gorP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gor(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gor(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gor(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gxor(big a0, big a1, big * a2) asm("__real__Z9_ntl_gxorP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gxor(big a0, big a1, big * a2) asm("__wrap__Z9_ntl_gxorP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gxor(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gxor(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gxor(a0, a1, a2); wbig(a2, o_a2, pc); }
long real_ntl_gcompare(big a0, big a1) asm("__real__Z13_ntl_gcompareP17_ntl_gbigint_bodyS0_");
long wrap_ntl_gcompare(big a0, big a1) asm("__wrap__Z13_ntl_gcompareP17_ntl_gbigint_bodyS0_");
long wrap_ntl_gcompare(big a0, big a1) { if (!watch()) return real_ntl_gcompare(a0, a1); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); long r = real_ntl_gcompare(a0, a1); return r; }
long real_ntl_gscompare(big a0, long a1) asm("__real__Z14_ntl_gscompareP17_ntl_gbigint_bodyl");
long wrap_ntl_gscompare(big a0, long a1) asm("__wrap__Z14_ntl_gscompareP17_ntl_gbigint_bodyl");
long wrap_ntl_gscompare(big a0, long a1) { if (!watch()) return real_ntl_gscompare(a0, a1); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gscompare(a0, a1); return r; }
void real_ntl_gabs(big * a0) asm("__real__Z9_ntl_gabsPP17_ntl_gbigint_body");
void wrap_ntl_gabs(big * a0) asm("__wrap__Z9_ntl_gabsPP17_ntl_gbigint_body");
void wrap_ntl_gabs(big * a0) { if (!watch()) return real_ntl_gabs(a0); const void *pc = PC; big o_a0 = a0 ? *a0 : nullptr; real_ntl_gabs(a0); wbig(a0, o_a0, pc); }
void real_ntl_gnegate(big * a0) asm("__real__Z12_ntl_gnegatePP17_ntl_gbigint_body");
void wrap_ntl_gnegate(big * a0) asm("__wrap__Z12_ntl_gnegatePP17_ntl_gbigint_body");
void wrap_ntl_gnegate(big * a0) { if (!watch()) return real_ntl_gnegate(a0); const void *pc = PC; big o_a0 = a0 ? *a0 : nullptr; real_ntl_gnegate(a0); wbig(a0, o_a0, pc); }
void real_ntl_gcopy(big a0, big * a1) asm("__real__Z10_ntl_gcopyP17_ntl_gbigint_bodyPS0_");
void wrap_ntl_gcopy(big a0, big * a1) asm("__wrap__Z10_ntl_gcopyP17_ntl_gbigint_bodyPS0_");
void wrap_ntl_gcopy(big a0, big * a1) { if (!watch()) return real_ntl_gcopy(a0, a1); const void *pc = PC; rbig(a0, pc); big o_a1 = a1 ? *a1 : nullptr; real_ntl_gcopy(a0, a1); wbig(a1, o_a1, pc); }
long real_ntl_g2log(big a0) asm("__real__Z10_ntl_g2logP17_ntl_gbigint_body");
long wrap_ntl_g2log(big a0) asm("__wrap__Z10_ntl_g2logP17_ntl_gbigint_body");
long wrap_ntl_g2log(big a0) { if (!watch()) return real_ntl_g2log(a0); const void *pc = PC; rbig(a0, pc); long r = real_ntl_g2log(a0); return r; }
void real_ntl_gzero(big * a0) asm("__real__Z10_ntl_gzeroPP17_ntl_gbigint_body");
void wrap_ntl_gzero(big * a0) asm("__wrap__Z10_ntl_gzeroPP17_ntl_gbigint_body");
void wrap_ntl_gzero(big * a0) { if (!watch()) return real_ntl_gzero(a0); const void *pc = PC; big o_a0 = a0 ? *a0 : nullptr; real_ntl_gzero(a0); wbig(a0, o_a0, pc); }
void real_ntl_gone(big * a0) asm("__real__Z9_ntl_gonePP17_ntl_gbigint_body");
void wrap_ntl_gone(big * a0) asm("__wrap__Z9_ntl_gonePP17_ntl_gbigint_body");
void wrap_ntl_gone(big * a0) { if (!watch()) return real_ntl_gone(a0); const void *pc = PC; big o_a0 = a0 ? *a0 : nullptr; real_ntl_gone(a0); wbig(a0, o_a0, pc); }
void real_ntl_gintoz(long a0, big * a1) asm("__real__Z11_ntl_gintozlPP17_ntl_gbigint_body");
void wrap_ntl_gintoz(long a0, big * a1) asm("__wrap__Z11_ntl_gintozlPP17_ntl_gbigint_body");
void wrap_ntl_gintoz(long a0, big * a1) { if (!watch()) return real_ntl_gintoz(a0, a1); const void *pc = PC; big o_a1 = a1 ? *a1 : nullptr; real_ntl_gintoz(a0, a1); wbig(a1, o_a1, pc); }
void real_ntl_guintoz(unsigned long a0, big * a1) asm("__real__Z12_ntl_guintozmPP17_ntl_gbigint_body");
void wrap_ntl_guintoz(unsigned long a0, big * a1) asm("__wrap__Z12_ntl_guintozmPP17_ntl_gbigint_body");
void wrap_ntl_guintoz(unsigned long a0, big * a1) { if (!watch()) return real_ntl_guintoz(a0, a1); const void *pc = PC; big o_a1 = a1 ? *a1 : nullptr; real_ntl_guintoz(a0, a1); wbig(a1, o_a1, pc); }
long real_ntl_gtoint(big a0) asm("__real__Z11_ntl_gtointP17_ntl_gbigint_body");
long wrap_ntl_gtoint(big a0) asm("__wrap__Z11_ntl_gtointP17_ntl_gbigint_body");
long wrap_ntl_gtoint(big a0) { if (!watch()) return real_ntl_gtoint(a0); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gtoint(a0); return r; }
unsigned long real_ntl_gtouint(big a0) asm("__real__Z12_ntl_gtouintP17_ntl_gbigint_body");
unsigned long wrap_ntl_gtouint(big a0) asm("__wrap__Z12_ntl_gtouintP17_ntl_gbigint_body");
unsigned long wrap_ntl_gtouint(big a0) { if (!watch()) return real_ntl_gtouint(a0); const void *pc = PC; rbig(a0, pc); unsigned long r = real_ntl_gtouint(a0); return r; }
double real_ntl_gdoub(big a0) asm("__real__Z10_ntl_gdoubP17_ntl_gbigint_body");
double wrap_ntl_gdoub(big a0) asm("__wrap__Z10_ntl_gdoubP17_ntl_gbigint_body");
double wrap_ntl_gdoub(big a0) { if (!watch()) return real_ntl_gdoub(a0); const void *pc = PC; rbig(a0, pc); double r = real_ntl_gdoub(a0); return r; }
long real_ntl_ground_correction(big a0, long a1, long a2) asm("__real__Z22_ntl_ground_correctionP17_ntl_gbigint_bodyll");
long wrap_ntl_ground_correction(big a0, long a1, long a2) asm("__wrap__Z22_ntl_ground_correctionP17_ntl_gbigint_bodyll");
long wrap_ntl_ground_correction(big a0, long a1, long a2) { if (!watch()) return real_ntl_ground_correction(a0, a1, a2); const void *pc = PC; rbig(a0, pc); long r = real_ntl_ground_correction(a0, a1, a2); return r; }
double real_ntl_glog(big a0) asm("__real__Z9_ntl_glogP17_ntl_gbigint_body");
double wrap_ntl_glog(big a0) asm("__wrap__Z9_ntl_glogP17_ntl_gbigint_body");
double wrap_ntl_glog(big a0) { if (!watch()) return real_ntl_glog(a0); const void *pc = PC; rbig(a0, pc); double r = real_ntl_glog(a0); return r; }
void real_ntl_gdoubtoz(double a0, big * a1) asm("__real__Z13_ntl_gdoubtozdPP17_ntl_gbigint_body");
void wrap_ntl_gdoubtoz(double a0, big * a1) asm("__wrap__Z13_ntl_gdoubtozdPP17_ntl_gbigint_body");
void wrap_ntl_gdoubtoz(double a0, big * a1) { if (!watch()) return real_ntl_gdoubtoz(a0, a1); const void *pc = PC; big o_a1 = a1 ? *a1 : nullptr; real_ntl_gdoubtoz(a0, a1); wbig(a1, o_a1, pc); }
void real_ntl_gsqrt(big a0, big * a1) asm("__real__Z10_ntl_gsqrtP17_ntl_gbigint_bodyPS0_");
void wrap_ntl_gsqrt(big a0, big * a1) asm("__wrap__Z10_ntl_gsqrtP17_ntl_gbigint_bodyPS0_");
void wrap_ntl_gsqrt(big a0, big * a1) { if (!watch()) return real_ntl_gsqrt(a0, a1); const void *pc = PC; rbig(a0, pc); big o_a1 = a1 ? *a1 : nullptr; real_ntl_gsqrt(a0, a1); wbig(a1, o_a1, pc); }
void real_ntl_gexp(big a0, long a1, big * a2) asm("__real__Z9_ntl_gexpP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gexp(big a0, long a1, big * a2) asm("__wrap__Z9_ntl_gexpP17_ntl_gbigint_bodylPS0_");
void wrap_ntl_gexp(big a0, long a1, big * a2) { if (!watch()) return real_ntl_gexp(a0, a1, a2); const void *pc = PC; rbig(a0, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gexp(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gexps(long a0, long a1, big * a2) asm("__real__Z10_ntl_gexpsllPP17_ntl_gbigint_body");
void wrap_ntl_gexps(long a0, long a1, big * a2) asm("__wrap__Z10_ntl_gexpsllPP17_ntl_gbigint_body");
void wrap_ntl_gexps(long a0, long a1, big * a2) { if (!watch()) return real_ntl_gexps(a0, a1, a2); const void *pc = PC; big o_a2 = a2 ? *a2 : nullptr; real_ntl_gexps(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gaddmod(big a0, big a1, big a2, big * a3) asm("__real__Z12_ntl_gaddmodP17_ntl_gbigint_bodyS0_S0_PS0_");
void wrap_ntl_gaddmod(big a0, big a1, big a2, big * a3) asm("__wrap__Z12_ntl_gaddmodP17_ntl_gbigint_bodyS0_S0_PS0_");
void wrap_ntl_gaddmod(big a0, big a1, big a2, big * a3) { if (!watch()) return real_ntl_gaddmod(a0, a1, a2, a3); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); rbig(a2, pc); big o_a3 = a3 ? *a3 : nullptr; real_ntl_gaddmod(a0, a1, a2, a3); wbig(a3, o_a3, pc); }
void real_ntl_gsubmod(big a0, big a1, big a2, big * a3) asm("__real__Z12_ntl_gsubmodP17_ntl_gbigint_bodyS0_S0_PS0_");
void wrap_ntl_gsubmod(big a0, big a1, big a2, big * a3) asm("__wrap__Z12_ntl_gsubmodP17_ntl_gbigint_bodyS0_S0_PS0_");
void wrap_ntl_gsubmod(big a0, big a1, big a2, big * a3) { if (!watch()) return real_ntl_gsubmod(a0, a1, a2, a3); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); rbig(a2, pc); big o_a3 = a3 ? *a3 : nullptr; real_ntl_gsubmod(a0, a1, a2, a3); wbig(a3, o_a3, pc); }
void real_ntl_gsmulmod(big a0, long a1, big a2, big * a3) asm("__real__Z13_ntl_gsmulmodP17_ntl_gbigint_bodylS0_PS0_");
void wrap_ntl_gsmulmod(big a0, long a1, big a2, big * a3) asm("__wrap__Z13_ntl_gsmulmodP17_ntl_gbigint_bodylS0_PS0_");
void wrap_ntl_gsmulmod(big a0, long a1, big a2, big * a3) { if (!watch()) return real_ntl_gsmulmod(a0, a1, a2, a3); const void *pc = PC; rbig(a0, pc); rbig(a2, pc); big o_a3 = a3 ? *a3 : nullptr; real_ntl_gsmulmod(a0, a1, a2, a3); wbig(a3, o_a3, pc); }
void real_ntl_gmulmod(big a0, big a1, big a2, big * a3) asm("__real__Z12_ntl_gmulmodP17_ntl_gbigint_bodyS0_S0_PS0_");
void wrap_ntl_gmulmod(big a0, big a1, big a2, big * a3) asm("__wrap__Z12_ntl_gmulmodP17_ntl_gbigint_bodyS0_S0_PS0_");
void wrap_ntl_gmulmod(big a0, big a1, big a2, big * a3) { if (!watch()) return real_ntl_gmulmod(a0, a1, a2, a3); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); rbig(a2, pc); big o_a3 = a3 ? *a3 : nullptr; real_ntl_gmulmod(a0, a1, a2, a3); wbig(a3, o_a3, pc); }
void real_ntl_gsqmod(big a0, big a1, big * a2) asm("__real__Z11_ntl_gsqmodP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gsqmod(big a0, big a1, big * a2) asm("__wrap__Z11_ntl_gsqmodP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_gsqmod(big a0, big a1, big * a2) { if (!watch()) return real_ntl_gsqmod(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_gsqmod(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_ginvmod(big a0, big a1, big * a2) asm("__real__Z12_ntl_ginvmodP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_ginvmod(big a0, big a1, big * a2) asm("__wrap__Z12_ntl_ginvmodP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_ginvmod(big a0, big a1, big * a2) { if (!watch()) return real_ntl_ginvmod(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_ginvmod(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gpowermod(big a0, big a1, big a2, big * a3) asm("__real__Z14_ntl_gpowermodP17_ntl_gbigint_bodyS0_S0_PS0_");
void wrap_ntl_gpowermod(big a0, big a1, big a2, big * a3) asm("__wrap__Z14_ntl_gpowermodP17_ntl_gbigint_bodyS0_S0_PS0_");
void wrap_ntl_gpowermod(big a0, big a1, big a2, big * a3) { if (!watch()) return real_ntl_gpowermod(a0, a1, a2, a3); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); rbig(a2, pc); big o_a3 = a3 ? *a3 : nullptr; real_ntl_gpowermod(a0, a1, a2, a3); wbig(a3, o_a3, pc); }
void real_ntl_ggcd(big a0, big a1, big * a2) asm("__real__Z9_ntl_ggcdP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_ggcd(big a0, big a1, big * a2) asm("__wrap__Z9_ntl_ggcdP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_ggcd(big a0, big a1, big * a2) { if (!watch()) return real_ntl_ggcd(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_ggcd(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_ggcd_alt(big a0, big a1, big * a2) asm("__real__Z13_ntl_ggcd_altP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_ggcd_alt(big a0, big a1, big * a2) asm("__wrap__Z13_ntl_ggcd_altP17_ntl_gbigint_bodyS0_PS0_");
void wrap_ntl_ggcd_alt(big a0, big a1, big * a2) { if (!watch()) return real_ntl_ggcd_alt(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; real_ntl_ggcd_alt(a0, a1, a2); wbig(a2, o_a2, pc); }
void real_ntl_gexteucl(big a0, big * a1, big a2, big * a3, big * a4) asm("__real__Z13_ntl_gexteuclP17_ntl_gbigint_bodyPS0_S0_S1_S1_");
void wrap_ntl_gexteucl(big a0, big * a1, big a2, big * a3, big * a4) asm("__wrap__Z13_ntl_gexteuclP17_ntl_gbigint_bodyPS0_S0_S1_S1_");
void wrap_ntl_gexteucl(big a0, big * a1, big a2, big * a3, big * a4) { if (!watch()) return real_ntl_gexteucl(a0, a1, a2, a3, a4); const void *pc = PC; rbig(a0, pc); rbig(a2, pc); big o_a1 = a1 ? *a1 : nullptr; big o_a3 = a3 ? *a3 : nullptr; big o_a4 = a4 ? *a4 : nullptr; real_ntl_gexteucl(a0, a1, a2, a3, a4); wbig(a1, o_a1, pc); wbig(a3, o_a3, pc); wbig(a4, o_a4, pc); }
long real_ntl_ginv(big a0, big a1, big * a2) asm("__real__Z9_ntl_ginvP17_ntl_gbigint_bodyS0_PS0_");
long wrap_ntl_ginv(big a0, big a1, big * a2) asm("__wrap__Z9_ntl_ginvP17_ntl_gbigint_bodyS0_PS0_");
long wrap_ntl_ginv(big a0, big a1, big * a2) { if (!watch()) return real_ntl_ginv(a0, a1, a2); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); big o_a2 = a2 ? *a2 : nullptr; long r = real_ntl_ginv(a0, a1, a2); wbig(a2, o_a2, pc); return r; }
long real_ntl_gxxratrecon(big a0, big a1, big a2, big a3, big * a4, big * a5) asm("__real__Z16_ntl_gxxratreconP17_ntl_gbigint_bodyS0_S0_S0_PS0_S1_");
long wrap_ntl_gxxratrecon(big a0, big a1, big a2, big a3, big * a4, big * a5) asm("__wrap__Z16_ntl_gxxratreconP17_ntl_gbigint_bodyS0_S0_S0_PS0_S1_");
long wrap_ntl_gxxratrecon(big a0, big a1, big a2, big a3, big * a4, big * a5) { if (!watch()) return real_ntl_gxxratrecon(a0, a1, a2, a3, a4, a5); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); rbig(a2, pc); rbig(a3, pc); big o_a4 = a4 ? *a4 : nullptr; big o_a5 = a5 ? *a5 : nullptr; long r = real_ntl_gxxratrecon(a0, a1, a2, a3, a4, a5); wbig(a4, o_a4, pc); wbig(a5, o_a5, pc); return r; }
void real_ntl_gsetlength(big * a0, long a1) asm("__real__Z15_ntl_gsetlengthPP17_ntl_gbigint_bodyl");
void wrap_ntl_gsetlength(big * a0, long a1) asm("__wrap__Z15_ntl_gsetlengthPP17_ntl_gbigint_bodyl");
void wrap_ntl_gsetlength(big * a0, long a1) { if (!watch()) return real_ntl_gsetlength(a0, a1); const void *pc = PC; big o_a0 = a0 ? *a0 : nullptr; real_ntl_gsetlength(a0, a1); wbig(a0, o_a0, pc); }
long real_ntl_gisone(big a0) asm("__real__Z11_ntl_gisoneP17_ntl_gbigint_body");
long wrap_ntl_gisone(big a0) asm("__wrap__Z11_ntl_gisoneP17_ntl_gbigint_body");
long wrap_ntl_gisone(big a0) { if (!watch()) return real_ntl_gisone(a0); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gisone(a0); return r; }
long real_ntl_gsptest(big a0) asm("__real__Z12_ntl_gsptestP17_ntl_gbigint_body");
long wrap_ntl_gsptest(big a0) asm("__wrap__Z12_ntl_gsptestP17_ntl_gbigint_body");
long wrap_ntl_gsptest(big a0) { if (!watch()) return real_ntl_gsptest(a0); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gsptest(a0); return r; }
long real_ntl_gwsptest(big a0) asm("__real__Z13_ntl_gwsptestP17_ntl_gbigint_body");
long wrap_ntl_gwsptest(big a0) asm("__wrap__Z13_ntl_gwsptestP17_ntl_gbigint_body");
long wrap_ntl_gwsptest(big a0) { if (!watch()) return real_ntl_gwsptest(a0); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gwsptest(a0); return r; }
long real_ntl_gcrtinrange(big a0, big a1) asm("__real__Z16_ntl_gcrtinrangeP17_ntl_gbigint_bodyS0_");
long wrap_ntl_gcrtinrange(big a0, big a1) asm("__wrap__Z16_ntl_gcrtinrangeP17_ntl_gbigint_bodyS0_");
long wrap_ntl_gcrtinrange(big a0, big a1) { if (!watch()) return real_ntl_gcrtinrange(a0, a1); const void *pc = PC; rbig(a0, pc); rbig(a1, pc); long r = real_ntl_gcrtinrange(a0, a1); return r; }
void real_ntl_gfrombytes(big * a0, const unsigned char * a1, long a2) asm("__real__Z15_ntl_gfrombytesPP17_ntl_gbigint_bodyPKhl");
void wrap_ntl_gfrombytes(big * a0, const unsigned char * a1, long a2) asm("__wrap__Z15_ntl_gfrombytesPP17_ntl_gbigint_bodyPKhl");
void wrap_ntl_gfrombytes(big * a0, const unsigned char * a1, long a2) { if (!watch()) return real_ntl_gfrombytes(a0, a1, a2); const void *pc = PC; big o_a0 = a0 ? *a0 : nullptr; real_ntl_gfrombytes(a0, a1, a2); wbig(a0, o_a0, pc); }
void real_ntl_gbytesfromz(unsigned char * a0, big a1, long a2) asm("__real__Z16_ntl_gbytesfromzPhP17_ntl_gbigint_bodyl");
void wrap_ntl_gbytesfromz(unsigned char * a0, big a1, long a2) asm("__wrap__Z16_ntl_gbytesfromzPhP17_ntl_gbigint_bodyl");
void wrap_ntl_gbytesfromz(unsigned char * a0, big a1, long a2) { if (!watch()) return real_ntl_gbytesfromz(a0, a1, a2); const void *pc = PC; rbig(a1, pc); real_ntl_gbytesfromz(a0, a1, a2); }
long real_ntl_gvalidate(big a0) asm("__real__Z14_ntl_gvalidateP17_ntl_gbigint_body");
long wrap_ntl_gvalidate(big a0) asm("__wrap__Z14_ntl_gvalidateP17_ntl_gbigint_body");
long wrap_ntl_gvalidate(big a0) { if (!watch()) return real_ntl_gvalidate(a0); const void *pc = PC; rbig(a0, pc); long r = real_ntl_gvalidate(a0); return r; }
EXPORT long __real_fmpz_mul(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_mul(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_mul(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_mul_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_mul_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); wr(a0, 8, PC); } return __real_fmpz_mul_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_mul_si(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_mul_si(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); wr(a0, 8, PC); } return __real_fmpz_mul_si(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_addmul(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_addmul(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_addmul(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_submul(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_submul(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_submul(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_addmul_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_addmul_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); rd(a1, 8, PC); wr(a0, 8, PC); } return __real_fmpz_addmul_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_add(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_add(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_add(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_sub(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_sub(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_sub(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_add_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_add_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); wr(a0, 8, PC); } return __real_fmpz_add_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_sub_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_sub_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); wr(a0, 8, PC); } return __real_fmpz_sub_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_mod(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_mod(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_mod(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_mod_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_mod_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); wr(a0, 8, PC); } return __real_fmpz_mod_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_set(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_set(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); wr(a0, 8, PC); } return __real_fmpz_set(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_neg(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_neg(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); wr(a0, 8, PC); } return __real_fmpz_neg(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_fdiv_qr(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_fdiv_qr(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a2, 8, PC); rd(a3, 8, PC); wr(a0, 8, PC); wr(a1, 8, PC); } return __real_fmpz_fdiv_qr(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_fdiv_q(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_fdiv_q(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_fdiv_q(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_fdiv_r(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_fdiv_r(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_fdiv_r(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_tdiv_q(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_tdiv_q(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_tdiv_q(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_divexact(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_divexact(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); rd(a2, 8, PC); wr(a0, 8, PC); } return __real_fmpz_divexact(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_pow_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_pow_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8, PC); wr(a0, 8, PC); } return __real_fmpz_pow_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_set_mpz(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_set_mpz(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { wr(a0, 8, PC); } return __real_fmpz_set_mpz(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_get_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_get_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); } return __real_fmpz_get_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_get_si(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_get_si(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); } return __real_fmpz_get_si(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_size(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_size(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); } return __real_fmpz_size(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_sgn(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_sgn(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); } return __real_fmpz_sgn(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_cmp(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_cmp(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); rd(a1, 8, PC); } return __real_fmpz_cmp(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_equal(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_equal(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); rd(a1, 8, PC); } return __real_fmpz_equal(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_promote_set_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_promote_set_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { wr(a0, 8, PC); } return __real__fmpz_promote_set_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_promote_set_si(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_promote_set_si(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { wr(a0, 8, PC); } return __real__fmpz_promote_set_si(a0, a1, a2, a3, a4, a5); }
EXPORT long __real_fmpz_fdiv_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap_fmpz_fdiv_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8, PC); } return __real_fmpz_fdiv_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_set(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_set(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } return __real__fmpz_vec_set(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_add(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_add(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8 * (size_t)a3, PC); rd(a2, 8 * (size_t)a3, PC); wr(a0, 8 * (size_t)a3, PC); } return __real__fmpz_vec_add(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_sub(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_sub(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8 * (size_t)a3, PC); rd(a2, 8 * (size_t)a3, PC); wr(a0, 8 * (size_t)a3, PC); } return __real__fmpz_vec_sub(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_zero(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_zero(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { wr(a0, 8 * (size_t)a1, PC); } return __real__fmpz_vec_zero(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_neg(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_neg(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } return __real__fmpz_vec_neg(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_scalar_mul_fmpz(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_scalar_mul_fmpz(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } return __real__fmpz_vec_scalar_mul_fmpz(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_scalar_mul_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_scalar_mul_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } return __real__fmpz_vec_scalar_mul_ui(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_scalar_mul_si(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_scalar_mul_si(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } return __real__fmpz_vec_scalar_mul_si(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_scalar_addmul_fmpz(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_scalar_addmul_fmpz(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8 * (size_t)a2, PC); rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } return __real__fmpz_vec_scalar_addmul_fmpz(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_scalar_submul_fmpz(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_scalar_submul_fmpz(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8 * (size_t)a2, PC); rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } return __real__fmpz_vec_scalar_submul_fmpz(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_scalar_mod_fmpz(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_scalar_mod_fmpz(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } return __real__fmpz_vec_scalar_mod_fmpz(a0, a1, a2, a3, a4, a5); }
EXPORT long __real__fmpz_vec_scalar_addmul_ui(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_scalar_addmul_ui(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a0, 8 * (size_t)a2, PC); rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } return __real__fmpz_vec_scalar_addmul_ui(a0, a1, a2, a3, a4, a5); }
EXPORT void __real__nmod_vec_sub(void *, void *, void *, void *, Nmod);
EXPORT void __wrap__nmod_vec_sub(void *a0, void *a1, void *a2, void *a3, Nmod m) { if (watch()) { rd(a1, 8 * (size_t)a3, PC); rd(a2, 8 * (size_t)a3, PC); wr(a0, 8 * (size_t)a3, PC); } __real__nmod_vec_sub(a0, a1, a2, a3, m); }
EXPORT void __real__nmod_vec_add(void *, void *, void *, void *, Nmod);
EXPORT void __wrap__nmod_vec_add(void *a0, void *a1, void *a2, void *a3, Nmod m) { if (watch()) { rd(a1, 8 * (size_t)a3, PC); rd(a2, 8 * (size_t)a3, PC); wr(a0, 8 * (size_t)a3, PC); } __real__nmod_vec_add(a0, a1, a2, a3, m); }
EXPORT void __real__nmod_vec_scalar_addmul_nmod(void *, void *, void *, void *, Nmod);
EXPORT void __wrap__nmod_vec_scalar_addmul_nmod(void *a0, void *a1, void *a2, void *a3, Nmod m) { if (watch()) { rd(a0, 8 * (size_t)a2, PC); rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } __real__nmod_vec_scalar_addmul_nmod(a0, a1, a2, a3, m); }
EXPORT void __real__nmod_vec_scalar_mul_nmod(void *, void *, void *, void *, Nmod);
EXPORT void __wrap__nmod_vec_scalar_mul_nmod(void *a0, void *a1, void *a2, void *a3, Nmod m) { if (watch()) { rd(a1, 8 * (size_t)a2, PC); wr(a0, 8 * (size_t)a2, PC); } __real__nmod_vec_scalar_mul_nmod(a0, a1, a2, a3, m); }
EXPORT long __real__fmpz_vec_dot(void *, void *, void *, void *, void *, void *);
EXPORT long __wrap__fmpz_vec_dot(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) { if (watch()) { rd(a1, 8 * (size_t)a3, PC); rd(a2, 8 * (size_t)a3, PC); wr(a0, 8, PC); } return __real__fmpz_vec_dot(a0, a1, a2, a3, a4, a5); }
