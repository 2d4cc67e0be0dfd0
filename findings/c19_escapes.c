char s[] = "\a\v?";
