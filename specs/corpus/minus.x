/* run:  */
/* run: -t */
const NEG = -5;
const POS = 3;
const NHEX = -0x10;
enum err { LOST = -1, BAD = NEG, FINE = 0, DEEP = -2147483648, LATE = POS };
enum low { ONLY = -3 };
union byerr switch (err e) { case LOST: int a; case BAD: hyper b; case DEEP: case FINE: void; default: string s<POS>; };
union byint switch (int d) { case -1: int a; case NEG: hyper b; case -0x20: case -7: string c<>; case 5: void; };
union bynum switch (low d) { case ONLY: int a; case -4: hyper b; default: void; };
struct holder { err a; byerr b; byint c<2>; low d; };
