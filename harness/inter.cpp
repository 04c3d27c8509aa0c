// C31: two users with objects of their own get what each gets alone, however their calls interleave.
//   share=3: users one after the other, each releasing everything before the next starts (reuse=1: freed memory is handed out again)
//   near=1: all with the same data, every second one in the opposite order (1: with one parameter only)
//   share=1: on the same data or qualities   share=2: the second with a copy of the first one's partitioner, taken after `after` steps
#include "session.h"
extern "C" void harness_main() {
  int how = sym_param("share", 0);
  if (how == 3) {
    if (sym_param("near", 0)) { // each user has the mirror image of the data of the one before
      for (int k = 0; k < sym_param("users", 2); k++) { Session X(0); if (sym_param("near", 0) == 1) X.q = X.p; if (k % 2) X.mirror(); while (!X.done()) X.step(); X.last(); X.judge(); }
      return;
    }
    for (int k = 0; k < sym_param("users", 2); k++) {
      Rec a; { Session X(k); if (sym_param("vary", 0) && k % 2) X.vary(); while (!X.done()) X.step(); X.last(); X.judge(); a = X.r; }
      if (sym_param("twice", 0)) { Session X(k); if (sym_param("vary", 0) && k % 2) X.vary(); while (!X.done()) X.step(); X.last(); sym_assert(sameRec(X.r, a), "the same requests give the same results later"); }
    }
    return;
  }
  Session A(0), B(how ? 0 : 1, how ? &A : nullptr); Rec a, b;
  { Session X(0, &A); while (!X.done()) X.step(); X.last(); a = X.r; }
  { Session X(how ? 0 : 1, how ? &A : &B); if (how) { Session Y(0, &A); int upto = sym_param("after", 1); while (Y.at < upto) Y.step(); X.share(Y, how); while (!X.done()) X.step(); X.last(); } else { while (!X.done()) X.step(); X.last(); } b = X.r; }
  if (how) { int upto = sym_param("after", 1); while (A.at < upto) A.step(); B.share(A, how); }
  int turn = sym_fix(sym_int("first", 0, 0, 1)), left = sym_param("switches", 3), k = 0;
  while (!A.done() || !B.done()) {
    Session &s = turn ? B : A;
    if (s.done()) { turn = !turn; continue; }
    if (k && left && !(turn ? A : B).done() && sym_fix(sym_int("switch", k, 0, 1))) { left--; turn = !turn; k++; (turn ? B : A).step(); continue; }
    s.step(); k++;
  }
  A.last(); B.last();
  sym_assert(sameRec(A.r, a), "the first user's results are those it gets alone"); sym_assert(sameRec(B.r, b), "the second user's results are those it gets alone");
  A.judge(); B.judge();
  for (size_t i = 0; i < A.a.sol().parts.size(); i++) { sym_out("s", (int)i, A.a.sol().parts[i].s); sym_out("h", (int)i, A.a.sol().parts[i].h); }
}
