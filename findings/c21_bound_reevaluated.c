void $Kmain(void) {
    int k = 2;
    typedef int T[k];
    k = 5;
    T a;
    o_u((unsigned long) sizeof a);
    int b[2][k];
    k = 3;
    o_i((long) ((char *) &b[1] - (char *) &b[0]));
}
