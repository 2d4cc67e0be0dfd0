static struct { int a : 4; long b : 61; } x = {3, 12345};
void $Kmain(void) {
    o_i(x.a);
    o_i(x.b);
}
