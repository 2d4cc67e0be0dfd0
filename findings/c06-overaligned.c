struct $Ks { _Alignas(64) char a; };
static void $Kf(int n) { struct $Ks s; o_x((unsigned long) &s % 64); if (n) { $Kf(n - 1); } }
static void $Kg(int n) { struct $Ks s; char t[80]; o_x((unsigned long) &s % 64); if (n) { $Kf(n - 1); } }
void $Kmain(void) { $Kf(4); $Kg(4); $Kg(3); }
