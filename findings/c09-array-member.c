static struct { int x; int a[3]; } $Ks = {1, {2, 3, 4}};
static int *$Kp = $Ks.a + 1;
void $Kmain(void) { o_i(*$Kp); }
