struct $Ks { int z; union { long a; char b; struct { char c; int d; } e; } u; };
static void $Kf(int p) {
    struct $Ks v = { .z = p, .u.a = -1, .u.e.c = 5 };
    o_i(v.u.e.c); o_i(v.u.e.d);
}
void $Kmain(void) { dirty_stack(7); $Kf(4); }
