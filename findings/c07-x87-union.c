union $Ks2 { double m2_0[1]; int *m2_1[2]; };
union $Ks1 { long double m1_0; union $Ks2 m1_1; };
int $Khf1(double, union $Ks1);
void $Kmain(void) { union $Ks1 v1; v1.m1_0 = 0.0l; o_i($Khf1(0.0, v1)); }
/* gcc part */
union $Ks2 { double m2_0[1]; int *m2_1[2]; };
union $Ks1 { long double m1_0; union $Ks2 m1_1; };
int $Khf1(double a0, union $Ks1 a1) { o_d(a0); o_ld(a1.m1_0); return 0; }
