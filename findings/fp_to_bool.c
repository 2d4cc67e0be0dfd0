void $Kmain(void) { float f = 0.5f; double d = 0.25; long double l = 0.5L; _Bool a = f, b = d, c = l; o_x(a); o_x(b); o_x(c); }
