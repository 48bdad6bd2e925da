/* run:  */
/* run: -t */
const package = 3;
enum func { var = 1, go = 2 };
struct range { int if<package>; func else[package]; opaque chan<package>; string goto<>; range *interface; };
union select switch (func type) { case var: int return; case go: hyper for; default: range map; };
typedef range import<2>;
typedef int defer[package];
struct break { import continue; defer fallthrough; select var<1>; };
program IF { version ELSE { break F_IF(select) = 1; void F_FOR(range) = 2; int F_VAR(func) = 3; } = 1; } = 9;
