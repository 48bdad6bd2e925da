/* run:  */
/* run: -unsigned-enum -const-type uint32 -t */
struct arg { int a; string b<4>; };
struct res { hyper c; opaque d<>; };
union rep switch (bool ok) { case TRUE: res r; case FALSE: void; };
typedef arg *oarg;
enum stat { GOOD = 0, BAD = 1 };
program PA {
  version A1 { void A_NULL(void) = 0; res A_FIRST(arg) = 1; res A_SECOND(arg) = 2; arg A_THIRD(arg) = 3; arg a_fourth(void) = 4; void A_FIFTH(arg) = 5; } = 1;
  version A2 { void A_NULL(void) = 0; res A_FIRST(arg) = 1; rep A_SWAPPED(oarg) = 3; rep A_OTHER(oarg) = 2; stat A_STAT(stat) = 9; } = 2;
  version A7 { void A_NULL(void) = 0; res A_FIRST(arg) = 1; } = 0x7;
} = 0x20000001;
program PB {
  version B1 { void B_NULL(void) = 0; int B_INT(unsigned int) = 5; unsigned int B_UINT(int) = 1; hyper B_HYPER(unsigned hyper) = 2; unsigned hyper B_UHYPER(hyper) = 3; bool B_BOOL(bool) = 4; void B_VOID(bool) = 0x11; int B_CONST(void) = 40; } = 1;
} = 536870914;
program pc { version c1 { void c_null(void) = 0; } = 3; } = 536870915;
