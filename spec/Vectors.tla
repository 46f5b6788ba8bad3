------------------------------ MODULE Vectors ------------------------------
(* Published test vectors of the primitives, as assumptions TLC evaluates. *)
(* They anchor the specification to the standards, not to the code.        *)
EXTENDS Blake256, Keccak256, Skein256, Groestl256, CubeHash256, Bmw256
ABC == <<97, 98, 99>>
ASSUME Hex(Blake(<<>>)) = "716f6e863f744b9ac22c97ec7b76ea5f5908bc5b2f67c61510bfc4751384ea7a"
ASSUME Hex(Blake(<<0>>)) = "0ce8d4ef4dd7cd8d62dfded9d4edb0a774ae6a41929a74da23109e8f11139c87"
ASSUME Hex(Blake(Zeros(72))) = "d419bad32d504fb7d44d460c42c5593fe544fa4c135dec31e21bd9abdcc22d41"
ASSUME Hex(Keccak(<<>>)) = "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
ASSUME Hex(Keccak(ABC)) = "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"
ASSUME Hex(Skein(<<>>)) = "39ccc4554a8b31853b9de7a1fe638a24cce6b35a55f2431009e18780335d2621"
ASSUME Hex(Groestl(<<>>)) = "1a52d11d550039be16107f9c58db9ebcc417f16f736adb2502567119f0083467"
ASSUME Hex(CubeHash(<<>>)) = "44c6de3ac6c73c391bf0906cb7482600ec06b216c7c54a2a8688a6a42676577d"
ASSUME Hex(Bmw(<<>>)) = "82cac4bf6f4c2b41fbcc0e0984e9d8b76d7662f8e1789cdfbd85682acc55577a"
=============================================================================
