// -*- mode: Bluespec; -*-
// C09, C10, C15: the key objects: SecretKey, VerifyingKey and SigningKey slots of one
// client, every constructor, accessor, conversion and (de)serialization, and signing.
module m_objects {
  import cases.* from "./cases"
  import text.* from "./text"
  var sk: List[Bytes]   // SecretKey slots: the 57 bytes, or EMPTY
  var vk: List[Bytes]   // VerifyingKey slots
  var sg: List[Bytes]   // SigningKey slots (the private key determines the object)
  var last: List[Call]

  pure val SLOTS: int = 3
  pure def ocall(op: str, a: List[Bytes], s: List[int], out: Outcome): Call = { op: op, a: a, s: s, out: out }
  pure def ok: Outcome = oTag("ok")
  pure def orPanic(good: bool): Outcome = if (good) ok else oTag("panic")
  pure def orErr(good: bool): Outcome = if (good) ok else oTag("err")

  action init = all {
    sk' = [EMPTY, EMPTY, EMPTY], vk' = [EMPTY, EMPTY, EMPTY], sg' = [EMPTY, EMPTY, EMPTY], last' = []
  }
  action keep = all { sk' = sk, vk' = vk, sg' = sg }

  // ---- constructors from text and bytes -----------------------------------------
  action fromStr(i: int, t: Bytes, kind: int): bool = {
    val r = fromHex(t, 57)
    all {
      sk' = if (kind == 0 and r.ok) sk.replaceAt(i, r.val_) else sk,
      vk' = if (kind == 1 and r.ok) vk.replaceAt(i, r.val_) else vk,
      sg' = if (kind == 2 and r.ok) sg.replaceAt(i, r.val_) else sg,
      last' = [ocall(if (kind == 0) "sk_from_str" else if (kind == 1) "vk_from_str" else "sg_from_str",
        [t], [i], orPanic(r.ok))]
    }
  }
  action fromBytes(i: int, b: Bytes, kind: int): bool = {
    val good = b.n == 57
    all {
      sk' = if (kind == 0 and good) sk.replaceAt(i, b) else sk,
      vk' = if (kind == 1 and good) vk.replaceAt(i, b) else vk,
      sg' = if (kind >= 2 and good) sg.replaceAt(i, b) else sg,
      last' = [ocall(
        if (kind == 0) "sk_from_bytes" else if (kind == 1) "vk_from_bytes"
        else if (kind == 2) "sg_from_slice" else "sg_from_bytes",
        [b], [i],
        // the only fallible constructor reports the length it was given
        if (kind == 3 and not(good)) { tag: "InvalidPrivKeyLength", data: bstr(4, b.n) } else orPanic(good))]
    }
  }
  action fromJson(i: int, t: Bytes, kind: int): bool = {
    val r = keyOfJson(t)
    all {
      sk' = if (kind == 0 and r.ok) sk.replaceAt(i, r.val_) else sk,
      vk' = if (kind == 1 and r.ok) vk.replaceAt(i, r.val_) else vk,
      sg' = if (kind == 2 and r.ok) sg.replaceAt(i, r.val_) else sg,
      last' = [ocall(if (kind == 0) "sk_from_json" else if (kind == 1) "vk_from_json" else "sg_from_json",
        [t], [i], orErr(r.ok))]
    }
  }
  // a format that is not human readable is refused, whatever it carries
  action fromBinary(i: int, t: Bytes, kind: int): bool = all {
    keep,
    last' = [ocall(if (kind == 0) "sk_from_binary" else if (kind == 1) "vk_from_binary" else "sg_from_binary",
      [t], [i], oTag("err"))]
  }
  action random(i: int, stream: Bytes): bool = all {
    sk' = sk, vk' = vk, sg' = sg.replaceAt(i, btake(stream, 57)),
    last' = [ocall("sg_random", [stream], [i], ok), ocall("sg_to_bytes", [], [i], oBytes(btake(stream, 57)))]
  }

  // ---- conversions --------------------------------------------------------------
  action secretToSigning(i: int, j: int): bool = all {
    sk[j].n == 57, sk' = sk, vk' = vk, sg' = sg.replaceAt(i, sk[j]),
    last' = [ocall("sg_from_sk", [], [i, j], ok)]
  }
  action takeVerifying(i: int, j: int): bool = all {
    sg[j].n == 57, sk' = sk, sg' = sg, vk' = vk.replaceAt(i, derivePublic(sg[j])),
    last' = [ocall("sg_vk", [], [i, j], oBytes(derivePublic(sg[j])))]
  }
  action takeSecret(i: int, j: int): bool = all {
    sg[j].n == 57, vk' = vk, sg' = sg, sk' = sk.replaceAt(i, sg[j]),
    last' = [ocall("sg_sk", [], [i, j], oBytes(sg[j]))]
  }

  // ---- observations ---------------------------------------------------------------
  action observe(i: int, j: int): bool = all {
    keep,
    any {
      all { sk[i].n == 57, last' = [ocall("sk_json", [], [i], oBytes(quoted(toHex(sk[i]))))] },
      all { vk[i].n == 57, last' = [ocall("vk_json", [], [i], oBytes(quoted(toHex(vk[i]))))] },
      all { sg[i].n == 57, last' = [ocall("sg_json", [], [i], oBytes(quoted(toHex(sg[i]))))] },
      // the form does not depend on the format
      all { sk[i].n == 57, last' = [ocall("sk_binary", [], [i], oBytes(toHex(sk[i])))] },
      all { vk[i].n == 57, last' = [ocall("vk_binary", [], [i], oBytes(toHex(vk[i])))] },
      all { sg[i].n == 57, last' = [ocall("sg_binary", [], [i], oBytes(toHex(sg[i])))] },
      all { vk[i].n == 57, last' = [ocall("vk_as_bytes", [], [i], oBytes(vk[i]))] },
      all { sg[i].n == 57, last' = [ocall("sg_to_bytes", [], [i], oBytes(sg[i]))] },
      all { sg[i].n == 57, last' = [ocall("sg_public", [], [i], oBytes(derivePublic(sg[i])))] },
      all { sk[i].n == 57, sk[j].n == 57, last' = [ocall("sk_eq", [], [i, j], oBool(sk[i] == sk[j]))] },
      all { vk[i].n == 57, vk[j].n == 57, last' = [ocall("vk_eq", [], [i, j], oBool(vk[i] == vk[j]))] },
      all { sg[i].n == 57, sg[j].n == 57, last' = [ocall("sg_eq", [], [i, j], oBool(sg[i] == sg[j]))] },
    }
  }
  // a key that differs a little from one in another slot, and their comparison: one bit
  // changed (some bits change nothing about the public key), or a seed and its secret
  pure def relative(k: Bytes, c: int, b: int): Bytes =
    if (c == 0) flipBit(k, b % 456) else if (c == 1) flipBit(k, pick([0, 1, 447, 448, 450, 454], b))
    else if (c == 2) privateToSecret(k) else k
  action nearby(i: int, j: int, c: int, b: int): bool = any {
    all { sk[j].n == 57, vk' = vk, sg' = sg, sk' = sk.replaceAt(i, relative(sk[j], c, b)),
      last' = [ocall("sk_from_bytes", [relative(sk[j], c, b)], [i], ok),
               ocall("sk_eq", [], [i, j], oBool(i == j or relative(sk[j], c, b) == sk[j]))] },
    all { vk[j].n == 57, sk' = sk, sg' = sg, vk' = vk.replaceAt(i, relative(vk[j], c, b)),
      last' = [ocall("vk_from_bytes", [relative(vk[j], c, b)], [i], ok),
               ocall("vk_eq", [], [i, j], oBool(i == j or relative(vk[j], c, b) == vk[j]))] },
    all { sg[j].n == 57, sk' = sk, vk' = vk, sg' = sg.replaceAt(i, relative(sg[j], c, b)),
      last' = [ocall("sg_from_bytes", [relative(sg[j], c, b)], [i], ok),
               ocall("sg_eq", [], [i, j], oBool(i == j or relative(sg[j], c, b) == sg[j]))] },
  }
  // a slot survives being written out and read back, in every position
  action roundTrip(i: int, j: int): bool = any {
    all { sk[i].n == 57, vk' = vk, sg' = sg, sk' = sk.replaceAt(j, sk[i]),
      last' = [ocall("sk_roundtrip", [], [j, i], ok), ocall("sk_eq", [], [i, j], oTag("true"))] },
    all { vk[i].n == 57, sk' = sk, sg' = sg, vk' = vk.replaceAt(j, vk[i]),
      last' = [ocall("vk_roundtrip", [], [j, i], ok), ocall("vk_eq", [], [i, j], oTag("true"))] },
    all { sg[i].n == 57, sk' = sk, vk' = vk, sg' = sg.replaceAt(j, sg[i]),
      last' = [ocall("sg_roundtrip", [], [j, i], ok), ocall("sg_eq", [], [i, j], oTag("true")),
               ocall("sg_public", [], [j], oBytes(derivePublic(sg[i])))] },
  }

  // ---- signing ----------------------------------------------------------------------
  // sign_prehash: the signature followed by the public key, which verifies as it is
  action signWithObject(i: int, m: Bytes): bool = {
    val key = sg[i]
    val pk = derivePublic(key)
    val sig = sign(key, m)
    val out = bcat(sig, pk)
    all {
      key.n == 57, keep,
      last' = [ocall("sg_sign", [m], [i], oBytes(out)),
               callAs("sign", [key, m], oBytes(sig)),
               callAs("verify", [pk, out, m], oTag("true")),
               callAs("verify_err", [pk, out, m], ok),
               callAs("verify", [pk, sig, m], oTag("true"))]
    }
  }
  action verifyWithObject(i: int, j: int, m: Bytes, m2: Bytes): bool = {
    val sig = sign(sg[i], m)
    all {
      sg[i].n == 57, vk[j].n == 57, keep,
      last' = {
        val o = oVerify(vk[j], sig, m2)
        [ocall("vk_verify", [sig, m2], [j], o)]
      }
    }
  }

  action construct = {
    nondet i = 0.to(SLOTS - 1).oneOf()
    nondet kind = 0.to(2).oneOf()
    nondet x = 0.to(99999).oneOf()
    nondet r = 0.to(R57).oneOf()
    any {
      nondet c = 0.to(NHEX - 1).oneOf()
      fromStr(i, mkHex(c, x, r, 57), kind),
      nondet k4 = 0.to(3).oneOf()
      fromBytes(i, anyBytes(if (x % 4 == 0) 57 else mkLen(x / 4), x % 4, r), k4),
      nondet kc = 0.to(NKEY - 1).oneOf()
      nondet k4 = 0.to(3).oneOf()
      fromBytes(i, mkKey(kc, x, r), k4),
      nondet c = 0.to(NJSON - 1).oneOf()
      fromJson(i, mkJson(c, x, r), kind),
      nondet c = 0.to(NHEX - 1).oneOf()
      fromBinary(i, mkHex(c, x, r, 57), kind),
      nondet r2 = 0.to(R57).oneOf()
      random(i, bcat(bstr(57, r), bstr(57, r2))),
    }
  }
  action use = {
    nondet i = 0.to(SLOTS - 1).oneOf()
    nondet j = 0.to(SLOTS - 1).oneOf()
    any {
      secretToSigning(i, j), takeVerifying(i, j), takeSecret(i, j), observe(i, j),
      nondet c = 0.to(3).oneOf()
      nondet b = 0.to(9999).oneOf()
      nearby(i, j, c, b),
      roundTrip(i, j), roundTrip(i, j),
      nondet mc = 0.to(NMSG - 1).oneOf()
      nondet mi = 0.to(9999).oneOf()
      nondet mr = 0.to(R57).oneOf()
      signWithObject(i, mkMsg(mc, mi, mr)),
      nondet mi = 0.to(9999).oneOf()
      nondet mr = 0.to(R57).oneOf()
      verifyWithObject(i, j, fill(mi % 3, mr), fill(mi % 2, mr)),
    }
  }
  action step = any { construct, use }
  // weights for the checks that want only part of the surface
  action stepText = any {
    construct, roundTripAny,
    nondet i = 0.to(SLOTS - 1).oneOf()
    nondet j = 0.to(SLOTS - 1).oneOf()
    observe(i, j),
  }
  action roundTripAny = {
    nondet i = 0.to(SLOTS - 1).oneOf()
    nondet j = 0.to(SLOTS - 1).oneOf()
    roundTrip(i, j)
  }

  val inv = and {
    sk.indices().forall(i => sk[i].n == 0 or sk[i].n == 57),
    vk.indices().forall(i => vk[i].n == 0 or vk[i].n == 57),
    sg.indices().forall(i => sg[i].n == 0 or sg[i].n == 57),
  }
}
