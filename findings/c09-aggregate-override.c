struct $Ks { int a; char b[4]; };
static struct $Ks $Kv = { 1, { 2, 3 }, .b = "abc" };
void $Kmain(void) { o_i($Kv.a); o_s($Kv.b); }
