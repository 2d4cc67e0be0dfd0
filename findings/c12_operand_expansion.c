#define VALUE 1
#define STR(x) #x
#define CAT(a, b) a##b
STR(VALUE) CAT(VALUE, 2)
