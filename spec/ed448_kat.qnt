// -*- mode: Bluespec; -*-
// Known answers (RFC 8032 section 7.4, FIPS 202): the specification against vectors that
// come from neither this specification nor the library.  Numbers are little-endian.
module ed448_kat {
  import ed448.* from "./ed448"
  import shake256.* from "./shake256"
  var done: bool
  action init = done' = false
  pure val skBlank: Bytes = bstr(57, 0x5bf99800a249752e038f2f49945bfca3394e042fcc3f8a8c52a348e3f60e96c9639f8cfadd349f926cbf3e51c889be32d6108d80cb62a5826c)
  pure val pkBlank: Bytes = bstr(57, 0x806125e8afbe1afad16c0fe5f13d78d61b06c7469b7624f1ed7867e9805da70e8a1f0ea7852434a11d6ad46a61ec87e72cfd61b4599b44d75f)
  pure val mBlank: Bytes = bstr(0, 0)
  pure val sigBlank: Bytes = bstr(114, 0x0026652eff0858d9718c2663735af04911b6dbf4a013a13085dacdc7c59ab92d8504410bc08d5d925b342d1c5d6c003ef69d8ab1d428200dff8039fd1ba2d09bc528787dd4dd227afdf28182624f033f232b1f591ad423d84f07d2343e844a50fb2dae76f9880d3c021f2557e4bbf6373a53)
  run rfc8032BlankTest = init.then(all {
    assert(derivePublic(skBlank) == pkBlank),
    assert(sign(skBlank, mBlank) == sigBlank),
    assert(verify(pkBlank, sigBlank, mBlank) == Accept),
    assert(verify(pkBlank, sigBlank, bcat(mBlank, bstr(1, 1))) == Reject),
    done' = true })
  pure val skOneOctet: Bytes = bstr(57, 0x4e27120a4e951e02f89e9459a697c33b5e7c87d2e8c567eafb3a462cdaac001f4a0d3a350cfe082b554d928984b4dbf332c60770355db0eac4)
  pure val pkOneOctet: Bytes = bstr(57, 0x80943a4c7b626051239c1682cba48e43b802287400eb01ea6a86c098676c0cfa2b37c058935da534c80acd7e5f5431e56a45ffcd30f428ba43)
  pure val mOneOctet: Bytes = bstr(1, 0x03)
  pure val sigOneOctet: Bytes = bstr(114, 0x003ac007f81c4434d2d1afada41ab28a34f30f2a3d95f199e7052947a6e0f70a9fc1364315bfecdc04bc36df27e0b2afe1cecbe1aac0bc0d5e8079d77cab37f01bfc33f6cd8cde628fe1b781b9c443b1412535f4107808d00bcb35238fd410c6b9ef77c343eb415ef17a8962bd2717f9b826)
  run rfc8032OneOctetTest = init.then(all {
    assert(derivePublic(skOneOctet) == pkOneOctet),
    assert(sign(skOneOctet, mOneOctet) == sigOneOctet),
    assert(verify(pkOneOctet, sigOneOctet, mOneOctet) == Accept),
    assert(verify(pkOneOctet, sigOneOctet, bcat(mOneOctet, bstr(1, 1))) == Reject),
    done' = true })
  run shakeEmptyTest = init.then(all {
    assert(shake(bstr(0, 0), 32) == bstr(32, 0x2f76d56e64270cb5821bb862ea52cd3f24eb3e74eb3f3b23138da80b2bddb946)),
    done' = true })
  run shakeAbcTest = init.then(all {
    assert(shake(bstr(3, 0x636261), 57) == bstr(57, 0xeb4f2aa162e426879faa1f7e52c04457c786536a18ef5ba1d539578be737ea944feee1f1f83045b48d4d11c40c0863681c77a8601360663348)),
    done' = true })
  run shakeTwoBlocksTest = init.then(all {
    assert(shake(bstr(200, 0xc7c6c5c4c3c2c1c0bfbebdbcbbbab9b8b7b6b5b4b3b2b1b0afaeadacabaaa9a8a7a6a5a4a3a2a1a09f9e9d9c9b9a999897969594939291908f8e8d8c8b8a898887868584838281807f7e7d7c7b7a797877767574737271706f6e6d6c6b6a696867666564636261605f5e5d5c5b5a595857565554535251504f4e4d4c4b4a494847464544434241403f3e3d3c3b3a393837363534333231302f2e2d2c2b2a292827262524232221201f1e1d1c1b1a191817161514131211100f0e0d0c0b0a09080706050403020100), 114) == bstr(114, 0x60d29af13c3c9ec427813aff999e72f9fe6c17eb54a5833e453d0db618a29a621c49cd8de0cc3b85e99ebfe4f168b06822e6faec5a1ddb8ca98bc173f6b71ae222a0e566f4e741a8644936947a45bd7fa0e35e7ab0afb59c9ebab18739bbe4c59f3b827f969ac7e1b1bfd3052b2703cae14e)),
    done' = true })
  run shakeRateTest = init.then(all {
    assert(shake(bstr(136, 0xa3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3a3), 64) == bstr(64, 0x04927fe584205758cab160e3d5d6e57890188c71264ca20c906f2c67e84273a2e064e802300f07270ffb152b6d58a044326c5e705dc98c580fd8c3eeae196aed)),
    done' = true })
  run shakeRateMinusOneTest = init.then(all {
    assert(shake(bstr(135, 0x5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a), 136) == bstr(136, 0x476a575901c207186e4d2f3495579f821df684ccb2da6bf72b84b5fb01057d6698375ed1a97e62599ffd706846d781a2220d90634e91dc74ab6a1d4c232bb00ebd7bf517e940824a9fa133a56dcbcfa245f8bb8ac6d0b3253e2a541c3c576999c9d48e4e5ff93531d365ff3b037a8e82588430a2ffc5d05020fe4a53f737b3e81da41c7f6ae5b5f4)),
    done' = true })
  // the constants: the base point has order L and the small-order points have order 2 and 4
  run groupTest = init.then(all {
    assert(onCurve(G)),
    assert(peq(smul(L, G), ID)),
    assert(not(peq(G, ID))),
    assert(peq(padd(T2, T2), ID)),
    assert(peq(padd(T4, T4), T2)),
    assert(decode(encode(G)).ok),
    done' = true })
}
