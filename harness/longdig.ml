(* digests of long periodic messages (P_hash.long_digest), printed by `main.exe table' from the reference *)
let table : ((string * int) * string) list = [
  ("blake2b512", 4831838337), "26677dd7da1d6d62e2f4c8111fae41d8a3f3d21449d231c662ca92d162ff2ffe49e2f4d4e2c80e38db53df2879d5f33035da0807bd667f2962761bdc05bdbda1";
  ("blake2b512", 536870985), "e38e67f8872366ceedceb57e0fe718476b0b01001cfb28f2efa5ef300510105f1ef49909c50999172fda0a5b58415accd86ef80891d3d092ea6d2a75a4e4b646";
  ("blake2s256", 4831838337), "13cbec9978167fc1c35dfa029a39b65595494f8f2013f98e1807f97d3456c526";
  ("blake2s256", 536870985), "9b64527a21b68ac41adea2ee78b84b6034ae01a60c3ff46131673050658d1aaa";
  ("blake3_256", 4831838337), "5dc173a503770058b5de1b593db112bb27249fc853de6d470811be30c0603544";
  ("blake3_256", 536870985), "a2643740ae2825e6d828a03f33c034ec854e9b308979d792a9801263775b8ff3";
  ("keccak-224", 4831838337), "0e27832a0c978c38d79aa45ce7077c192c98322331c9687afdabb441";
  ("keccak-224", 536870985), "4f18378d90ffdc1cb94ce1eee412f9b6e895c4a692a43d1baacfbfce";
  ("keccak-256", 4831838337), "e83041521fe059d5889d5f9c0949f2a80c893da7b89b6c7058da2d73ed752d7c";
  ("keccak-256", 536870985), "031b6acea9b05ede0709dc9eddabc50fdb4c5191d8c302a492d30e8e41694794";
  ("keccak-384", 4831838337), "cc11383a00503df9d5b6ffd7c173e269bcd9e80e76a1ab21c6827ac048442187c583d0571d187b498872420557a4966b";
  ("keccak-384", 536870985), "abdad40cc838ec64c727ca53f320205decff7c7b9bff7af8f237a77f2ca26c70f412e1518102e9365c2b90abd07d24b2";
  ("keccak-512", 4831838337), "64c16d2892a3f6d0d16598a1eff1fcd41524475047e7384fac96fdb5f0a64ffbf10de35be6e3ed428d9f33443c874be59036b2f1548bb386d1255a139fc5a3e2";
  ("keccak-512", 536870985), "9c929f4738ae718c7aacad80fb611a4a1afd641b5eedd8cdd4b73c8cad9fac9a227064725f8f0ce441f02c8db22ea0c99c6440ac238a3aa524978d0c37c6b93f";
  ("mac_blake2s256", 4831838337), "59a2621c05a4962935fe705210564bacfb8dfa0161cc45162d229ba9c396dc28";
  ("mac_blake2s256", 536870985), "abda5f6b5aca34f04c830c1dcb1d9e3098b19569bf53665bcc557826a9308a8a";
  ("md5", 4831838337), "871570aa9be034e68ea38609b9faa3eb";
  ("md5", 536870985), "6c349d92464ff1bbe403790262783139";
  ("ripemd160", 4831838337), "ee49d4ec430b20191a14ef29067e30142da8ca64";
  ("ripemd160", 536870985), "c08b55353fb26cb60b3c857763da1075a9eef1b7";
  ("sha1", 4831838337), "7fbda4a500f468ce0d49287aaf8fbe2c41a3fa13";
  ("sha1", 536870985), "f9f3ac3d262e0f6e420a23387ab0a5f76001690e";
  ("sha224", 4831838337), "0ee0e949b0a4c6ff88d65dadbd25d5a51c2f91c5d7dfcbddd4dfc762";
  ("sha224", 536870985), "cd33559291eae147974bf3f06999fe3521b41cae155ee3e3b203d2b0";
  ("sha256", 4831838337), "0f48216660a565ee0a069842f8413b376e9a73d8b0b80b29b2706b90ce05da23";
  ("sha256", 536870985), "70070f4e550e5810b07aab7fc60d36a251fe1ab30c2184316d9d9af5a891097c";
  ("sha3-224", 4831838337), "ed26650cc34038a1b0a6262d13083366fd78a44dd9ebb8838dba0b2c";
  ("sha3-224", 536870985), "2073273ff7f970e5d96e49c93d3549e37926001d2f5f7745c2dd0bab";
  ("sha3-256", 4831838337), "03972591baac290b91bd01f15a20788028b83972783464e63588230bdcf68dc9";
  ("sha3-256", 536870985), "dccc8b8c8b46cc9735cce58c0532459cab582538c8296cbef64e8b31df3f8041";
  ("sha3-384", 4831838337), "34c0e99988240532ac31591efd02beb2e7db03bef29133c4f310c1faa53f580fcd008da532dd0469d1554bc4b0641859";
  ("sha3-384", 536870985), "719ad7837293f8368579ac4b6de429ec248ae44a835e03635d9994c56e7e66f93ad0012db0a1f3a5ab2ca6bfb045c65d";
  ("sha3-512", 4831838337), "8a3196bb25e6cc491e56d6d46755a1fcbce1ff1b3e9a3abf209b4db33b0e607d204eb6162124d5f1f99d4e27da0450aaabc126956900ea14acef5c51595a3675";
  ("sha3-512", 536870985), "8fe08e2a0e00e152a72c8cabc77736143c9d49e93c9e5c8b187f3448c9b652954f34a53724d5e637c1d314b8f4ebca4ebf39a8a46fa809d4710f28900292bfc5";
  ("sha384", 4831838337), "f5338a226f3b2bf513c9c65ba4d0e18f020801775ba2e8566f12035185a3181d13dcb407314eefaf25f3fd40ab5663cb";
  ("sha384", 536870985), "8bd0269fa491201d8869360a6112beedbfc57b2895fbddad7a88f6cb1c4363e0635c094b8cd25e54e2b4a75841416109";
  ("sha512", 4831838337), "cfdeb17581e3f0128d4177f4889ccef8c6f8a41950e8937863818c71a9d05def9a26ea86799476226972c8917709c91023d62f9398529d4949e94eb39379003c";
  ("sha512", 536870985), "c574ae3df94f4ef311c6a0b26caf91a8d5293351d20127a74af00dcedc9e56a8e1bbe1a7214503fc6ecc91a37cf893c6f0d735c9063fe24ab3cb6ef8573524cd";
  ("siphash", 4831838337), "4a7c3aafb364fce2";
("siphash", 536870985), "76a2002ac989d90f";
  ("hmac_md5", 4831838337), "0b2b7d0880ee20e1cc4edb6cb51ca6a2";
  ("hmac_md5", 536870985), "d2a3a69164033775046856f0aca8d863";
  ("hmac_ripemd160", 4831838337), "cd457e1d4a0526cbd70671dcf7b10b2c8038d9ac";
  ("hmac_ripemd160", 536870985), "1fad2a52f5bd9470b4285880283fa4d968c45d47";
  ("hmac_sha1", 4831838337), "13c4ca832514f188e0bd9ab8fc8f7e6025cff753";
  ("hmac_sha1", 536870985), "571ee68e85dfc8dcc32e252cd549c2a8c289c443";
  ("hmac_sha256", 4831838337), "efb2c0965d9c540935c1d4402668925a1cc369cd21909eebc911df91a3a930cb";
  ("hmac_sha256", 536870985), "ca6cade4905fcb2ba1cb17057062ca996c2c3400a9ceb0e91d4fe490c51286a3";
  ("hmac_sha384", 4831838337), "9545cb42fd036f276cd5c79f8b3abc9e8184922c9cb871cd94bfe47332a3d7f7f2f190a24982351d9f41ae3fa7aa320d";
  ("hmac_sha384", 536870985), "f7c0d1486a51475bbda1c2e0f0321a5f1d4a77436102351fc0527a4b243d1e0b76ad1c17101932aea211a40e537eb874";
  ("hmac_sha512", 4831838337), "317e31a1f6ec88bce98b9ae26444366195bf1c4b0b633983a7c22f261611b2cf881fc55a0febc96ea7ab07fd59db020c575c163a53a858c030b6ca226e34df27";
  ("hmac_sha512", 536870985), "7e5e53a9d173a08a9028487856e6b33a0cd007cf4321e7db3111de61108cf195623450490ef131e9b007b54b26a6174d31e8c7a2497e5509e8c63074e0762240";
  ("mac_blake2b512", 4831838337), "96a73deace8c9979b522592f803c4671f5ecfd012e1604a1ddb78057253f914356f6a9a71d22a34c7d07a66f44844a6eb3fc9525d0c399d2306526972cfb521d";
  ("mac_blake2b512", 536870985), "493187135ffd1951bb129bbeb2cae6fe71c855160f0149ce027a7d816c6028547e81b0f2597e73b841d14998e3723f2732a03455998f41c262aa1118cb4e894e";
  ("mac_blake3_256", 4831838337), "219471f5a25a42d2e0235875d8d8aaa4f190ebb82d34b340bc2e85cb904b6ba2";
  ("mac_blake3_256", 536870985), "2eed62a870c4addcbbee940c4bb3effab392ed3a7dcaac9061469373196f927a";
  ("mac_siphash", 4831838337), "4a7c3aafb364fce2";
  ("mac_siphash", 536870985), "76a2002ac989d90f";
  ("mac_siphash128", 4831838337), "fd93deb00c566b3874637dff2a96fa40";
  ("mac_siphash128", 536870985), "f2cefc87eb94d6ada228a6569cb5a1db";
]
