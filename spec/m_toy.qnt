// -*- mode: Bluespec; -*-
// Small curves, enumerated: every state of this machine is one instance of a statement of
// toy.qnt.  c selects the curve.
module m_toy {
  import toy(P = 7, D = 5, L = 3, GX = 2, GY = 4, SIGN = 5, PBITS = 3) as A from "./toy"
  import toy(P = 19, D = 8, L = 7, GX = 2, GY = 9, SIGN = 7, PBITS = 5) as B from "./toy"
  import toy(P = 43, D = 5, L = 13, GX = 2, GY = 39, SIGN = 8, PBITS = 6) as C from "./toy"

  var holds: bool
  action init = holds' = true

  pure val ORDER: List[int] = [3, 7, 13]
  action stepEncodings = {
    nondet c = 0.to(2).oneOf()
    nondet e = 0.to(2^(if (c == 0) 6 else if (c == 1) 8 else 9) - 1).oneOf()
    holds' = if (c == 0) A::encodings(e) else if (c == 1) B::encodings(e) else C::encodings(e)
  }
  action stepMultiples = {
    nondet c = 0.to(2).oneOf()
    nondet a = 0.to(ORDER[c] - 1).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet k = 0.to(ORDER[c] - 1).oneOf()
    holds' = if (c == 0) A::multiples(a, i, k) else if (c == 1) B::multiples(a, i, k) else C::multiples(a, i, k)
  }
  action stepPairs = {
    nondet c = 0.to(2).oneOf()
    nondet a = 0.to(ORDER[c] - 1).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet b = 0.to(ORDER[c] - 1).oneOf()
    nondet j = 0.to(3).oneOf()
    holds' = if (c == 0) A::pairs(a, i, b, j) else if (c == 1) B::pairs(a, i, b, j) else C::pairs(a, i, b, j)
  }
  action verdictsOn(c: int): bool = {
    nondet a = 0.to(ORDER[c] - 1).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet r = 0.to(ORDER[c] - 1).oneOf()
    nondet j = 0.to(3).oneOf()
    nondet s = 0.to(ORDER[c] - 1).oneOf()
    nondet k = 0.to(ORDER[c] - 1).oneOf()
    holds' = if (c == 0) A::verdicts(a, i, r, j, s, k) else if (c == 1) B::verdicts(a, i, r, j, s, k) else C::verdicts(a, i, r, j, s, k)
  }
  action stepVerdicts3 = verdictsOn(0)
  action stepVerdicts7 = verdictsOn(1)
  action stepVerdicts13 = verdictsOn(2)
  action stepRecodings = {
    nondet c = 0.to(2).oneOf()
    nondet k = 0.to(2^PBITS_OF[c] - 1).oneOf()
    holds' = if (c == 0) A::recodings(k) else if (c == 1) B::recodings(k) else C::recodings(k)
  }
  pure val PBITS_OF: List[int] = [3, 5, 6]
  action step = any { stepEncodings, stepMultiples, stepPairs, stepVerdicts3, stepVerdicts7, stepVerdicts13, stepRecodings }
  val inv = holds
}
