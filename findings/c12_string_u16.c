#define STR(x) #x
STR(u"abc")
