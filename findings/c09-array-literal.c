static int *$Kp = (int[]) {1, 2, 3};
void $Kmain(void) { o_i($Kp[1]); }
