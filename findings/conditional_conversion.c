void $Kmain(void) { int c = 1; float f = 1.5f; double d = 2.5; int i = 7; o_d(c ? f : d); o_d(c ? i : d); o_ld(c ? d : 1.0L); }
