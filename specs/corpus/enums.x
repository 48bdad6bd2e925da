/* run:  */
/* run: -unsigned-enum */
/* run: -const-type uint32 */
const K = 4;
const small = 6;
enum e1 { E_A = 0, E_B = 1, E_C = K, E_D = small, E_E = 0x20, e_low = 100, E_F = e_low };
enum e2 { F_A = 2147483647 };
struct use { e1 a; e2 b; e1 c[2]; e2 d<2>; e1 *e; };
typedef e1 alias;
typedef alias alias2;
struct use2 { alias a; alias2 b; alias2 *c; };
