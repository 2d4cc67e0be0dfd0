void $Kmain(void) { int v = -1; o_x(_Generic(sizeof(int), unsigned long: 1, default: 0)); o_u((sizeof(int) + v) / (v + v)); }
