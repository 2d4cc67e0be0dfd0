#define IGNORE(x)
IGNORE(@) a ` b
