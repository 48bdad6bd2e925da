typedef int num;
program SVC { version V1 { void NULLP(void) = 0; num ADD(num) = 1; } = 1; version V2 { num GET(void) = 1; } = 2; } = 0x2000;
union opt switch (bool ok) { case TRUE: string s<9>; case FALSE: void; };
