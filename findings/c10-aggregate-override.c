struct $Ks { int a; char b[6]; struct { int *x; int *y; int *z; }; };
static int $Ko[8];
static void $Kf(int p) {
    struct $Ks v[3] = {[2] = {0, "", {$Ko, $Ko}, .a = 0, {p, p & 1}, {.y = $Ko, $Ko}}};
    o_i(v[2].x == 0); o_i(v[2].y == $Ko);
}
void $Kmain(void) { dirty_stack(7); $Kf(4); }
