void $Kmain(void) {
    int n = 3;
    int a[2][n];
    int (*p)[n] = a;
    o_i((long) (p == a));
}
