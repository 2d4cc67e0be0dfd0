struct $Ks1 { float m1_0; long m1_1 : 33; };
struct $Ks1 $Khf0(void);
void $Kmain(void) { o_f($Khf0().m1_0); }
/* gcc part */
struct $Ks1 { float m1_0; long m1_1 : 33; };
struct $Ks1 $Khf0(void) { struct $Ks1 r; r.m1_0 = 1.5f; r.m1_1 = 0; return r; }
