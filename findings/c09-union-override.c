union $Ku { long a; char b; };
static union $Ku $Kv = { .a = -1, .b = 1 };
void $Kmain(void) { o_i($Kv.b); }
