// -*- mode: Bluespec; -*-
// Clients, an adversary and a verifier at the level of who signed what.  Keys and
// messages are names; a signature is the pair it was issued for.  A verdict is decided
// by the issued set alone.  Its invariant is inductive, which Apalache proves (stepping
// from anyState), so it holds after histories of any length; its behaviours are replayed
// with many concretisations of the names.
module m_symbolic {
  type Sig = { k: int, m: int }
  type Event = { op: str, s: List[int], out: str }
  pure val NK: int = 3
  pure val NM: int = 3
  pure val NSIG: int = 4
  // ways of presenting a signature: 0 untouched, 1 with trailing bytes (sign_prehash's
  // form, the rest being ignored); everything else changes a bound part
  pure val NT: int = 16
  pure def harmless(t: int): bool = t == 0 or t == 1

  var issued: Set[Sig]
  var sigs: int -> Sig     // the first `n` are signatures
  var n: int
  var ev: List[Event]
  var accepted: Set[{ k: int, m: int, t: int }]

  pure val SLOTS: Set[int] = 0.to(NSIG - 1)
  pure val ALL_SIGS: Set[Sig] = tuples(0.to(NK - 1), 0.to(NM - 1)).map(t => { k: t._1, m: t._2 })
  pure val ALL_SHOWN: Set[{ k: int, m: int, t: int }] =
    tuples(0.to(NK - 1), 0.to(NM - 1), 0.to(NT - 1)).map(t => { k: t._1, m: t._2, t: t._3 })
  action init = all {
    issued' = Set(), sigs' = SLOTS.mapBy(i => { k: 0, m: 0 }), n' = 0, ev' = [], accepted' = Set(),
  }

  action sign(k: int, m: int): bool = all {
    n < NSIG,
    issued' = issued.union(Set({ k: k, m: m })),
    sigs' = sigs.put(n, { k: k, m: m }), n' = n + 1,
    ev' = [{ op: "y_sign", s: [k, m, n], out: "ok" }],
    accepted' = accepted,
  }
  pure def verdict(g: Sig, k: int, m: int, t: int): bool = g.k == k and g.m == m and harmless(t)
  // changing the wrong message can produce the signed one, so messages are only changed
  // where they are the signed ones
  pure def changesMessage(t: int): bool = 5 <= t and t <= 7
  action present(j: int, k: int, m: int, t: int): bool = all {
    j < n,
    changesMessage(t) implies sigs.get(j).m == m,
    issued' = issued, sigs' = sigs, n' = n,
    ev' = [{ op: "y_check", s: [j, k, m, t], out: if (verdict(sigs.get(j), k, m, t)) "true" else "false" }],
    accepted' = if (verdict(sigs.get(j), k, m, t)) accepted.union(Set({ k: k, m: m, t: t })) else accepted,
  }
  // signing again gives the same signature; keys and objects do not change it
  action again(j: int): bool = all {
    j < n,
    issued' = issued, sigs' = sigs, n' = n, accepted' = accepted,
    ev' = [{ op: "y_again", s: [sigs.get(j).k, sigs.get(j).m, j], out: "true" }],
  }
  // the R of one signature with the S of another
  action splice(j: int, i: int, k: int, m: int): bool = all {
    j < n, i < n, sigs.get(i) != sigs.get(j),
    issued' = issued, sigs' = sigs, n' = n, accepted' = accepted,
    ev' = [{ op: "y_splice", s: [j, i, k, m], out: "false" }],
  }
  // every single-bit change of one part (0: R, 1: S, 2: public key, 3: message)
  action sweep(j: int, p: int): bool = all {
    j < n,
    issued' = issued, sigs' = sigs, n' = n, accepted' = accepted,
    ev' = [{ op: "y_sweep", s: [j, sigs.get(j).k, sigs.get(j).m, p], out: "false" }],
  }
  // every length of trailing bytes up to 171 in all, and some beyond
  action tails(j: int): bool = all {
    j < n,
    issued' = issued, sigs' = sigs, n' = n, accepted' = accepted,
    ev' = [{ op: "y_tails", s: [j, sigs.get(j).k, sigs.get(j).m], out: "true" }],
  }
  action step = {
    nondet k = 0.to(NK - 1).oneOf()
    nondet m = 0.to(NM - 1).oneOf()
    nondet j = 0.to(NSIG - 1).oneOf()
    nondet i = 0.to(NSIG - 1).oneOf()
    nondet t = 0.to(NT - 1).oneOf()
    any {
      sign(k, m), present(j, k, m, t), again(j), splice(j, i, k, m),
      sweep(j, i), tails(j),
      // presented as it was issued, or changed in one way only
      all { j < n, present(j, sigs.get(j).k, sigs.get(j).m, t) },
      all { j < n, present(j, sigs.get(j).k, sigs.get(j).m, 0) },
    }
  }
  type Sys = { issued: Set[Sig], sigs: int -> Sig, n: int, accepted: Set[{ k: int, m: int, t: int }] }
  // C05: acceptance implies issuance
  pure def authentic(y: Sys): bool = y.accepted.forall(a => y.issued.contains({ k: a.k, m: a.m }) and harmless(a.t))
  // C01: a signature is accepted as issued, under the key and for the message it was issued for only
  pure def complete(y: Sys): bool = SLOTS.forall(j => j < y.n implies {
    val g = y.sigs.get(j)
    ALL_SIGS.forall(q => verdict(g, q.k, q.m, 0) == (q == g))
  })
  pure def recorded(y: Sys): bool =
    0 <= y.n and y.n <= NSIG and SLOTS.forall(j => j < y.n implies y.issued.contains(y.sigs.get(j)))
      and y.issued.forall(g => SLOTS.exists(j => j < y.n and y.sigs.get(j) == g))
  pure def invOf(y: Sys): bool = authentic(y) and complete(y) and recorded(y)
  val inv = invOf({ issued: issued, sigs: sigs, n: n, accepted: accepted })

  // any state at all in which the invariant holds
  action anyState = {
    nondet i0 = ALL_SIGS.powerset().oneOf()
    nondet s0 = SLOTS.setOfMaps(ALL_SIGS).oneOf()
    nondet n0 = 0.to(NSIG).oneOf()
    nondet a0 = ALL_SHOWN.powerset().oneOf()
    all {
      invOf({ issued: i0, sigs: s0, n: n0, accepted: a0 }),
      issued' = i0, sigs' = s0, n' = n0, ev' = [], accepted' = a0,
    }
  }
}
