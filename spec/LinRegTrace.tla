---------------------------- MODULE LinRegTrace ----------------------------
EXTENDS LinReg
AcceptRecord(r) ==
  LET in == r.in
      out == r.out
      p == Prep(in)
  IN CASE r.op = "ls" -> ModelOK(in, out, p) /\ Stationary(p.X, Prepared(out.coef, p), p.Y, in.alpha, IF in.est = "linear" THEN "1/1000000000" ELSE "1/100000")
       [] r.op = "bayes" -> ModelOK(in, out, p) /\ BayesOK(in, out, p)
       [] r.op = "enet" -> ModelOK(in, out, p) /\ Solved(in, p.X, Prepared(out.coef, p), p.Y, out.gap, out.eps, out.iters)
       [] r.op = "path" -> /\ Len(out.alphas) = Len(out.coefs) /\ Len(out.gaps) = Len(out.coefs) /\ Len(out.iters) = Len(out.coefs)
                           /\ Len(out.coefs) = IF Len(in.alphas) > 0 THEN Len(in.alphas) ELSE in.nalphas
                           /\ Len(in.alphas) > 0 => \A k \in 1..Len(in.alphas) : Near(out.alphas[k], in.alphas[k])
                           /\ \A k \in 1..Len(out.coefs) : Solved([in EXCEPT !.alpha = out.alphas[k]], in.X, out.coefs[k], in.Y, out.gaps[k], "", out.iters[k])
=============================================================================
