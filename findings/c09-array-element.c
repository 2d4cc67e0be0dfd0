static int $Ka[2][2] = {1, 2, 3, 4};
static int *$Kp = $Ka[1];
void $Kmain(void) { o_i(*$Kp); }
