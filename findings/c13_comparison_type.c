#if ((1 == 1) << 40) == 0
wrong
#else
right
#endif
