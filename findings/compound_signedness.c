void $Kmain(void) { unsigned long x = 1ul << 63; x >>= 3; o_u(x); x = -1ul; x %= 10; o_u(x); }
