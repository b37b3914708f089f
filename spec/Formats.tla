------------------------------ MODULE Formats ------------------------------
(* The metadata structures of a disc, as tables of fields                   *)
(*   <<name, offset, length, kind>>                                         *)
(* kind "b": bytes / big-endian number, "s": number of 4-byte units,        *)
(*      "-": unused, "t": zero-terminated text, "k": encrypted title key    *)
(* All byte offsets are from the beginning of the structure.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

SigTypes == << <<0,1,0,0>>, <<0,1,0,1>>, <<0,1,0,2>> >>     \* RSA-4096, RSA-2048, elliptic curve
SigLen   == << 512, 256, 64 >>
KeyTypes == << <<0,0,0,0>>, <<0,0,0,1>> >>                  \* RSA-4096, RSA-2048
KeyLen   == << 512, 256 >>

TicketFields ==
  << <<"sig_type", 0, 4, "b">>, <<"sig", 4, 256, "b">>, <<"", 260, 60, "-">>, <<"sig_issuer", 320, 64, "b">>, <<"ecdh", 384, 60, "b">>,
     <<"", 444, 3, "-">>, <<"encrypted_key", 447, 16, "k">>, <<"", 463, 1, "-">>, <<"ticket_id", 464, 8, "b">>, <<"console_id", 472, 4, "b">>,
     <<"title_id", 476, 8, "b">>, <<"unk", 484, 2, "b">>, <<"ticket_version", 486, 2, "b">>, <<"permitted_titles_mask", 488, 4, "b">>,
     <<"permit_mask", 492, 4, "b">>, <<"title_export_allowed", 496, 1, "b">>, <<"common_key_idx", 497, 1, "b">>, <<"", 498, 48, "-">>,
     <<"content_access_permissions", 546, 64, "b">>, <<"unk2", 610, 2, "b">>, <<"time_limits", 612, 64, "b">> >>
PartHeaderFields == TicketFields \o
  << <<"tmd_size", 676, 4, "b">>, <<"tmd_off", 680, 4, "s">>, <<"cert_chain_size", 684, 4, "b">>, <<"cert_chain_off", 688, 4, "s">>,
     <<"global_hash_table_off", 692, 4, "s">>, <<"data_off", 696, 4, "s">>, <<"data_size", 700, 4, "s">> >>
ContentFields(n) == FlattenSeq([ k \in 1..n |-> LET o == 484 + 36 * (k - 1) IN
  << <<"id" \o ToString(k), o, 4, "b">>, <<"index" \o ToString(k), o + 4, 2, "b">>, <<"type" \o ToString(k), o + 6, 2, "b">>,
     <<"size" \o ToString(k), o + 8, 8, "b">>, <<"hash" \o ToString(k), o + 16, 20, "b">> >> ])
TmdFields(n) ==
  << <<"sig_type", 0, 4, "b">>, <<"sig", 4, 256, "b">>, <<"", 260, 60, "-">>, <<"sig_issuer", 320, 64, "b">>, <<"version", 384, 1, "b">>,
     <<"ca_crl_version", 385, 1, "b">>, <<"signer_crl_version", 386, 1, "b">>, <<"", 387, 1, "-">>, <<"ios_id_major", 388, 4, "b">>,
     <<"ios_id_minor", 392, 4, "b">>, <<"title_id_major", 396, 4, "b">>, <<"title_id_minor", 400, 4, "b">>, <<"title_type", 404, 4, "b">>,
     <<"group_id", 408, 2, "b">>, <<"fakesign_padding", 410, 56, "b">>, <<"", 466, 6, "-">>, <<"access_flags", 472, 4, "b">>,
     <<"title_version", 476, 2, "b">>, <<"num_contents", 478, 2, "n">>, <<"boot_idx", 480, 2, "b">>, <<"", 482, 2, "-">> >> \o ContentFields(n)
CertFields(s, k) ==
  LET a == 4 + SigLen[s]  b == a + 60  c == b + 64  d == c + 4  e == d + 64  f == e + KeyLen[k] IN
  << <<"sig_type", 0, 4, "b">>, <<"sig", 4, SigLen[s], "b">>, <<"", a, 60, "-">>, <<"issuer", b, 64, "b">>, <<"key_type", c, 4, "b">>,
     <<"subject", d, 64, "b">>, <<"key", e, KeyLen[k], "b">>, <<"modulus", f, 4, "b">>, <<"pub_exp", f + 4, 4, "b">>, <<"", f + 8, 52, "-">> >>
DiscFields ==
  << <<"game_id", 0, 6, "b">>, <<"disc_num", 6, 1, "b">>, <<"disc_version", 7, 1, "b">>, <<"audio_streaming", 8, 1, "b">>, <<"audio_stream_buf_size", 9, 1, "b">>,
     <<"", 10, 14, "-">>, <<"wii_magic", 24, 4, "b">>, <<"gcn_magic", 28, 4, "b">>, <<"game_title", 32, 64, "t">>, <<"disable_hash_verification", 96, 1, "b">>,
     <<"disable_disc_enc", 97, 1, "b">>, <<"", 98, 926, "-">>, <<"debug_mon_off", 1024, 4, "b">>, <<"debug_load_addr", 1028, 4, "b">>, <<"", 1032, 24, "-">>,
     <<"dol_off", 1056, 4, "s">>, <<"fst_off", 1060, 4, "s">>, <<"fst_sz", 1064, 4, "s">>, <<"fst_max_sz", 1068, 4, "s">>, <<"fst_memory_address", 1072, 4, "b">>,
     <<"user_position", 1076, 4, "b">>, <<"user_sz", 1080, 4, "b">>, <<"", 1084, 4, "-">> >>
EntryFields == << <<"offset", 0, 4, "s">>, <<"type", 4, 4, "b">> >>
DolFields ==
  << <<"text_off", 0, 28, "b">>, <<"data_off", 28, 44, "b">>, <<"text_starts", 72, 28, "b">>, <<"data_starts", 100, 44, "b">>,
     <<"text_sizes", 144, 28, "b">>, <<"data_sizes", 172, 44, "b">>, <<"bss_start", 216, 4, "b">>, <<"bss_size", 220, 4, "b">>, <<"entry_point", 224, 4, "b">> >>
AppFields == << <<"", 0, 20, "-">>, <<"size1", 20, 4, "b">>, <<"size2", 24, 4, "b">> >>

\* v: <<structure, parameters..>>
Table(v) ==
  CASE v[1] = "ticket" -> TicketFields [] v[1] = "part" -> PartHeaderFields [] v[1] = "tmd" -> TmdFields(v[2])
    [] v[1] = "cert" -> CertFields(v[2], v[3]) [] v[1] = "disc" -> DiscFields [] v[1] = "entry" -> EntryFields
    [] v[1] = "dol" -> DolFields [] v[1] = "app" -> AppFields
\* fields lie one behind the other, without gaps
Tiles(t) == t[1][2] = 0 /\ \A k \in 1..(Len(t) - 1) : t[k + 1][2] = t[k][2] + t[k][3]
Size(t) == t[Len(t)][2] + t[Len(t)][3]
ASSUME \A v \in { <<"ticket">>, <<"part">>, <<"tmd", 0>>, <<"tmd", 3>>, <<"disc">>, <<"entry">>, <<"dol">>, <<"app">> } \cup { <<"cert", s, k>> : s \in 1..3, k \in 1..2 } :
         Tiles(Table(v))
ASSUME Size(TicketFields) = 676 /\ Size(PartHeaderFields) = 704 /\ Size(TmdFields(2)) = 484 + 72 /\ Size(DiscFields) = 1088 /\ Size(DolFields) = 228

At(b, f) == SubSeq(b, f[2] + 1, f[2] + f[3])
\* 4 bytes counting units of 4 -> the 5 bytes of the number
Times4(x) == << x[1] \div 64, ((x[1] % 64) * 4) + (x[2] \div 64), ((x[2] % 64) * 4) + (x[3] \div 64), ((x[3] % 64) * 4) + (x[4] \div 64), (x[4] % 64) * 4 >>
Text(x) == LET z == { k \in 1..Len(x) : x[k] = 0 }
           IN  IF z = {} THEN x ELSE SubSeq(x, 1, (CHOOSE k \in z : \A j \in z : k <= j) - 1)
Zeros(n) == [ k \in 1..n |-> 0 ]
\* what a field holds, as the library presents it
Value(b, f) == CASE f[4] = "s" -> Times4(At(b, f)) [] f[4] = "t" -> Text(At(b, f)) [] OTHER -> At(b, f)
\* what is written again
Canon(b, t) ==
  FlattenSeq([ k \in 1..Len(t) |->
     CASE t[k][4] = "-" -> Zeros(t[k][3])
       [] t[k][4] = "t" -> LET x == Text(At(b, t[k])) IN x \o Zeros(t[k][3] - Len(x))
       [] OTHER -> At(b, t[k]) ])
=============================================================================
