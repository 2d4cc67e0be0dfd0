#define STR(x) #x
STR(a   b)
