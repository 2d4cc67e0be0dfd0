struct $Ks { char a : 3; int : 0; char b : 3; };
void $Kmain(void) { struct $Ks s; for (int i = 0; i < sizeof s; i++) ((unsigned char *) &s)[i] = 0; s.b = 3; o_u(sizeof s); o_m(&s, sizeof s); }
