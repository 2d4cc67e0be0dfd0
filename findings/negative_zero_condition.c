void $Kmain(void) { float f = -0.0f; double d = -0.0; o_x(!f); o_x(!d); if (d) o_x(1); while (f) { o_x(2); break; } o_x(d || f); o_x(f ? 3 : 4); }
