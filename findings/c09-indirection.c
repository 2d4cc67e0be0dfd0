static int $Ka[4] = {1, 2, 3, 4};
static int *$Kp = &*$Ka;
void $Kmain(void) { o_i(*$Kp); }
