/* run:  */
/* run: -const-type uint32 */
/* run: -t -const-type uint32 */
const A = 1;
const B = 0x10;
const low = 3;
const OCT = 017;
const MAX = 4294967295;
const ZERO = 0;
