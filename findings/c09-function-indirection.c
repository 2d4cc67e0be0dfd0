static int $Kf(void) { return 5; }
static int (*$Kp)(void) = *$Kf;
void $Kmain(void) { o_i($Kp()); }
