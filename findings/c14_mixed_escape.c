void $Kmain(void) { static const int a[] = "\377" L"x"; o_i((long) a[0]); o_i((long) (sizeof(a) / sizeof(a[0]))); }
