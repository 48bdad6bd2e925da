/* run:  */
/* run: -unsigned-enum */
const ONE = 1;
const two = 2;
const BIG = 0x7fffffff;
enum kind { KA = 1, KB = 2, kc = 0x10, KD = 3, KE = 2147483647 };
typedef kind kind2;
typedef bool flag;
typedef int num;
typedef unsigned int unum;
struct body { int a; int b; };
union ek switch (kind k) { case KA: int a; case KB: void; case kc: hyper c; };
union ed switch (kind k) { case KA: int a; case kc: hyper c; default: void; };
union edd switch (kind k) { case KA: void; default: body d; };
union ev switch (kind k) { case KA: case KB: case kc: body x; case KE: void; };
union evd switch (kind k) { case KE: case KA: void; case KB: int y; default: string z<>; };
union only switch (kind k) { default: int a; };
union onlyv switch (kind k) { case KA: void; };
union noarms switch (kind k) { case KE: int a; };
union k2 switch (kind2 k) { case KA: int a; case KB: hyper b; default: void; };
union bt switch (bool b) { case TRUE: int a; case FALSE: void; };
union bf switch (bool b) { case FALSE: int a; case TRUE: hyper c; };
union bd switch (bool b) { case TRUE: int a; default: hyper c; };
union bo switch (bool b) { case TRUE: int a; default: void; };
union bs switch (bool b) { case TRUE: case FALSE: int a; };
union fl switch (flag b) { case TRUE: string a<>; case FALSE: int c; };
union ii switch (int i) { case 0: int a; case 1: void; case 2: hyper c; default: body d; };
union ic switch (int i) { case ONE: int a; case two: hyper b; case BIG: void; };
union ix switch (int i) { case 0x0: int a; case 0x1F: hyper b; default: void; };
union is switch (int i) { case 0: case 1: case ONE2: int a; case 5: case 6: void; default: int z; };
union ui switch (unsigned int i) { case 0: int a; case 4294967295: hyper b; default: void; };
union hy switch (num n) { case 3: int a; case 4: body b; };
union un switch (unum n) { case 3: int a; case 4: body b; default: void; };
struct holder { ek a; int m; bt b; ii c[2]; is d<2>; ed *e; int last; };
union inner switch (kind k) { case KA: bt b; case KB: ii i; default: ek e; };
const ONE2 = 77;
