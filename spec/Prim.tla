-------------------------------- MODULE Prim --------------------------------
(* Primitive operators: conversions between text and bytes, two hash       *)
(* functions and the Ed25519 signature scheme. A byte string is a sequence *)
(* over 0..255. TLC evaluates them with java/vp/Overrides.java; SelfTest   *)
(* checks that realisation against published vectors and the TLA+          *)
(* definitions of BigNat. Every rule of the system is written in TLA+.     *)
EXTENDS Naturals, Sequences
Undef == CHOOSE x \in {0} : TRUE

IsHex(s)  == Undef          \* is the string an even number of hexadecimal digits?
Hex(s)    == Undef          \* bytes of a hexadecimal string
ToHex(b)  == Undef          \* lower case hexadecimal string of bytes
Utf8(s)   == Undef          \* UTF-8 bytes of a string
StrOf(b)  == Undef          \* string of UTF-8 bytes
IsDec(s)  == Undef          \* is the string a sequence of at least one decimal digit?
Dec(s)    == Undef          \* BigNat of a decimal string
ToDec(n)  == Undef          \* decimal string of a BigNat
Base64(s) == Undef          \* bytes of a base64 string
IsBase64(s) == Undef        \* is the string the base64 form of some bytes?
ToBase64(b) == Undef        \* base64 string of bytes
Cat(ss)   == Undef          \* concatenation of a sequence of sequences
Sha256(b) == Undef
Blake(b)  == Undef          \* BLAKE2b with a digest of 32 bytes
EdVerify(pk, msg, sig) == Undef
EdPublic(seed) == Undef     \* Ed25519 public key of a 32-byte private seed
=============================================================================
