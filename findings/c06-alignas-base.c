struct $Ks { char c; _Alignas(8) long double *p; };
void $Kmain(void) { o_u(sizeof(struct $Ks)); }
